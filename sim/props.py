"""Per property settings of the checks."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRAPH_REAL = ['src/graph_cache.cpp', 'src/context.cpp', 'src/gid_utils.cpp', 'include/rmw_dds_common/*.hpp', 'libstdc++ containers and std::mutex as compiled into the library']
STUBS = ['rcutils, rmw, rcpputils and rosidl runtime functions used by the library (behavioural stand-ins, instrumented like the library)',
         'message structs generated from msg/*.msg by a small generator']
ASSUMPTIONS = [
    'the stand-ins for rcutils/rmw behave as the originals (validated by running the repository\'s own tests against them)',
    'sequentially consistent execution of racy code; data races themselves are reported by a happens-before detector',
]
NET = '2-4 participants (one Context with its cache each, real code) in a simulated DDS network: per pair a reliable keep-last announcement channel and separate FIFO channels for participant, writer and reader discovery, each message delayed independently; announcement loss to a newer one, duplication, refusal, "sent but reported failed", stalls, partitions with and without lease expiry, heals, crashes at arbitrary steps, graceful leaves, restarts under a new gid with the same node names. '
PROPS = {
    'C01': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule=NET + 'After faults stop and every live participant announced once more, discovery must settle within a bounded virtual time and every query of every live cache must equal the truth.'),
    'C02': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule=NET + 'Observers query node names while it goes on; each answer must be a combination of one received state per remote participant that was current during the query.'),
    'C09': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule=NET + 'Observers query endpoints; presence, attributes and attribution must be explained by what was received. A second world feeds the same discovery facts to two caches in different orders (1-3 threads) and compares both with the reference.'),
    'C10': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule=NET + 'Crash, leave and lease expiry are frequent; nodes, endpoints and topics of departed participants must be gone from the moment their removal has been processed, everybody else\'s unchanged, also after return or restart.'),
    'C07': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='random graphs built by discovery updates; every query with the caller\'s allocator failing once, for a stretch or for good, at a drawn point or at every point of the query in turn, from one or two threads; result code, emptiness of outputs, balance of the allocator, ownership of every returned block, unchanged graph and complete retry; queries with invalid arguments (outputs that hold something, none, an unusable allocator) must be refused and leave the outputs alone.'),
    'C08': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='discovery updates, local node and endpoint operations (directly and through Context) and queries while operator new fails with probability 0.01-0.3 per allocation, from one to three threads; after each interruption lock ownership, everything not concerned and, after redelivery, the whole graph are compared with the reference.'),
    'C03': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='2-4 application threads creating and destroying nodes, publishers, subscriptions, clients and services of one Context (own and shared nodes) plus a reader; every announcement handed to the simulated middleware is compared with the previous state of the serial history plus the announcing operation; refused announcements are mixed in; sometimes a second participant of the same process works at the same time.'),
    'C04': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='1-4 application threads on one Context whose announcements are refused, or whose publisher and/or publish function is missing for a phase; result, local graph and next successful announcement against the serial reference; endpoints are discovered before or after they are associated, and a second participant of the process may work at the same time.'),
    'C11': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='1-3 application threads creating and destroying several nodes of equal name and namespace and endpoints on them, with refused announcements; the reference keeps the number of nodes and the union of endpoints per name.'),
    'C12': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='application threads whose announcements stall in the middleware for 1 ns to one day of virtual time while readers query the graph and deliver remote discovery, queries from inside the publish function, and two same-process participants updating each other from their publish functions; virtual time spent by a reader and deadlocks are violations.'),
    'C05': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='2-5 caller threads with up to ~14 concurrent operations and queries on one GraphCache, preempted at synchronisation operations and memory accesses under a randomly drawn policy (synchronisation-only, uniform, PCT); the recorded history is checked for linearizability against the reference graph, all accesses for data races and heap errors. Sometimes another thread works on a second graph of the process at the same time.'),
    'C06': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL, stub=STUBS,
                rule='mutating threads, a thread installing, replacing and clearing the change callback, and a watcher woken by it, on one GraphCache; a second world does the same with application threads on a Context whose announcements are refused now and then.'),
    'C13': dict(quick_s=25, thorough_s=600, real=GRAPH_REAL + ['src/qos.cpp'], stub=STUBS,
                rule='1-4 threads resolving random profiles (any subset of policies best available) for publishers and subscriptions against the real graph cache while other threads add, remove and re-add endpoints, or against a provider that answers differently each time; provider errors, early and late, and failing allocations; the result must be the documented one for some set of peers simultaneously present during the call (real-time consistent snapshots of the recorded history), accepted by the compatibility check, and failures must leave profile and memory alone.'),
    'C14': dict(quick_s=25, thorough_s=600, real=['src/qos.cpp', 'src/graph_cache.cpp'], stub=STUBS,
                rule='1-3 sender and 1-2 receiver threads: hashes are encoded while malloc and operator new fail, sent through a channel that embeds, truncates, corrupts, garbles, replaces or drops the user data, decoded and entered into the graph; intact data must give the same hash, data without the key none, a malformed hash an error, and never another hash than one literally contained.'),
    'C15': dict(quick_s=25, thorough_s=600, real=['src/security.cpp', 'std::filesystem and std::ifstream (libstdc++)', 'kernel file system, inside a scratch directory'], stub=['the process provisioning the enclave'],
                rule='1-3 threads looking up an enclave (both overloads, results reused) on a real file system with missing, linked, looping, dangling, non-regular entries, while errors are injected into stat, open and read, reads come up short, and another process replaces, rewrites, truncates, removes and moves files or switches the whole enclave; every lookup is judged against the recorded history of what each name held during the call.'),
    'C16': dict(quick_s=25, thorough_s=600, real=['src/security.cpp', 'std::filesystem and std::ifstream (libstdc++)', 'kernel file system, inside a scratch directory'], stub=['the process provisioning the enclave'],
                rule='as C15, mostly with PKCS#11 support and changes to the reference files: contents from a pool of valid, oversized, padded, partial and foreign texts, written in chunks, appended to, replaced and left unfinished by a crash, with read errors and short reads.'),
}


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            # finding: property=C10 replay=known/x.plan class=left-over <text>
            w = l.split(None, 4)
            if len(w) == 5 and w[3].startswith('class=') and w[0] == 'finding:' and w[1] == 'property=' + prop and w[2].startswith('replay='):
                out.append({'replay': w[2][7:], 'cls': w[3][6:], 'text': w[4].strip()})
    return out

PURE = 'a pure function of its input: no schedule, clock, fault or multi-party behaviour on which it could depend, so there is nothing for a simulation to decide'
NOT_APPLICABLE = {
    'C17': 'qos_profile_check_compatible is ' + PURE,
    'C18': 'clamp_rmw_time_to_dds_time is ' + PURE,
    'C19': 'gid comparison and conversion are ' + PURE,
    'C20': 'qos_profile_update_best_available_for_services is ' + PURE,
}
