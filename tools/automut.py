#!/usr/bin/env python3
"""Mechanical mutants: one-token and one-line changes of the library, run against the checks until one catches them.
automut.py OUT.jsonl [FILE-REGEX] ; resumes from OUT.jsonl. Survivors have "caught": null."""
import concurrent.futures, json, os, queue, re, shutil, subprocess, sys, threading
SRC = {
    'src/graph_cache.cpp': ['C05', 'C09', 'C11', 'C07', 'C06', 'C08', 'C10', 'C01', 'C02', 'C03', 'C04'],
    'src/context.cpp': ['C03', 'C04', 'C12', 'C11', 'C08'],
    'src/gid_utils.cpp': ['C09', 'C10'],
    'src/qos.cpp': ['C13', 'C14'],
    'src/security.cpp': ['C15', 'C16'],
    'include/rmw_dds_common/gid_utils.hpp': ['C09', 'C10'],
}
KIND = os.environ.get('AM_KIND', '')
SECS = os.environ.get('AM_SECONDS', '3')
SLOTS = int(os.environ.get('AM_SLOTS', '4'))
SUBS = [
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![<\-=])<(?![<=])(?= )', '<='), (r'(?<![>\-=])>(?![>=])(?= )', '>='), (r'<=', '<'), (r'>=', '>'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z_(])', ''), (r'\+\+', '--'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\b0u?\b', '1'), (r'\b1u?\b', '0'),
    (r'data_readers_', 'data_writers_'), (r'data_writers_', 'data_readers_'), (r'reader_gid_seq', 'writer_gid_seq'), (r'writer_gid_seq', 'reader_gid_seq'),
    (r'\bnode_name\b', 'node_namespace'), (r'node_namespace\b', 'node_name'), (r'\bcontinue;', 'break;'), (r'\bbreak;', 'continue;'), (r'RMW_RET_[A-Z_]+(?<!RMW_RET_OK)', 'RMW_RET_OK'), (r'RMW_RET_BAD_ALLOC', 'RMW_RET_ERROR'),
    (r'\.topic_name\b', '.topic_type'), (r'\.topic_type\b', '.topic_name'), (r'_reader\b', '_writer'), (r'_writer\b', '_reader'), (r'reader_gid\b', 'writer_gid'), (r'writer_gid\b', 'reader_gid'),
    (r'\bdeadline\b', 'liveliness_lease_duration'), (r'\.begin\(\)', '.end()'), (r'rbegin\(\)', 'rend()'), (r'insert', 'erase'), (r'\bstd::min\b', 'std::max'),
    (r'if \((.*)\) \{$', r'if (false && (\1)) {'), (r'if \((.*)\) \{$', r'if (true || (\1)) {'),
    (r'RELIABLE', 'BEST_EFFORT'), (r'BEST_EFFORT', 'RELIABLE'), (r'TRANSIENT_LOCAL', 'VOLATILE'), (r'AUTOMATIC', 'MANUAL_BY_TOPIC'), (r'MANUAL_BY_TOPIC', 'AUTOMATIC'),
]


def gaps(rel):
    """The lock is given up for a moment between two statements of a function that holds it."""
    text = open('/repo/rmw_dds_common/' + rel).read().split('\n')
    at = None
    for i, l in enumerate(text):
        if 'std::lock_guard<std::mutex> guard(' in l and l.startswith('  std'):
            at = i
        elif l.startswith('}'):
            at = None
        elif at is not None and l.strip().endswith((';', '{', '}')) and not l.strip().startswith(('return', 'else')):
            nxt = next((x for x in text[i + 1:] if x.strip()), '')
            if re.match(r' *(else|\}\);|\}\))', nxt):
                continue
            yield i, l, ('GAP', at)


def dups(rel):
    text = open('/repo/rmw_dds_common/' + rel).read().split('\n')
    for i, l in enumerate(text):
        s = l.strip()
        if rel == 'src/qos.cpp' and (66 <= i <= 390 or 645 <= i <= 670):
            continue
        if l.startswith('  ') and s.endswith(';') and not s.startswith(('return', 'using', 'break', 'continue')):
            yield i, l, l + ' ' + s


def mutants(rel):
    if KIND == 'gap':
        yield from gaps(rel)
        return
    if KIND == 'dup':
        yield from dups(rel)
        return
    text = open('/repo/rmw_dds_common/' + rel).read().split('\n')
    depth_comment = False
    for i, l in enumerate(text):
        s = l.strip()
        if rel == 'src/qos.cpp' and (66 <= i <= 390 or 645 <= i <= 670):
            continue   # C17, C20: pure functions, not claimed
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('*') or s.startswith('/*'):
            continue
        code = l.split('//')[0]
        seen = set()
        for pat, new in SUBS:
            for m in re.finditer(pat, code):
                n = code[:m.start()] + m.expand(new) + code[m.end():]
                if n != code and n not in seen:
                    seen.add(n)
                    yield i, l, n
        if s.endswith(';') and not s.startswith('return') and not s.startswith('using') and l.startswith('  '):
            yield i, l, '  ;'
        # swap with the next statement
        if i + 1 < len(text) and s.endswith(';') and text[i + 1].strip().endswith(';') and l.startswith('  ') and not s.startswith('return'):
            yield i, l, ('SWAP', text[i + 1])


def main():
    out, pat = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ''
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['new']))
    jobs = []
    for rel in SRC:
        if re.search(pat, rel):
            for i, old, new in mutants(rel):
                key = (rel, i + 1, new if isinstance(new, str) else 'SWAP with next' if new[0] == 'SWAP' else 'GAP')
                if key not in done:
                    jobs.append((rel, i, old, new, key))
    print(len(jobs), 'mutants', flush=True)
    slots = queue.Queue()
    for k in range(SLOTS):
        d = '/tmp/am_%d' % k
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo/rmw_dds_common', d + '/repo/rmw_dds_common')
        slots.put(d)
    lock = threading.Lock()

    def one(job):
        rel, i, old, new, key = job
        d = slots.get()
        try:
            p = d + '/repo/rmw_dds_common/' + rel
            orig = open('/repo/rmw_dds_common/' + rel).read()
            t = orig.split('\n')
            if isinstance(new, tuple) and new[0] == 'GAP':
                t[new[1]] = t[new[1]].replace('lock_guard', 'unique_lock')
                t[i] += ' guard.unlock(); guard.lock();'
            elif isinstance(new, tuple):
                t[i], t[i + 1] = t[i + 1], t[i]
            else:
                t[i] = new
            open(p, 'w').write('\n'.join(t))
            env = dict(os.environ, VSIM_REPO=d + '/repo', VSIM_BUILD=d + '/build', VSIM_SECONDS=SECS, VSIM_WORKERS='2')
            r = subprocess.run([sys.executable, HERE + '/sim/build.py'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res = {'file': rel, 'line': i + 1, 'old': old.strip(), 'new': key[2], 'caught': None}
            if r.returncode:
                res['caught'] = 'compile'
            else:
                for prop in SRC[rel]:
                    r = subprocess.run([sys.executable, HERE + '/check.py', prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                    if r.returncode == 1:
                        res['caught'] = prop + ' ' + ' '.join(l.split()[1] for l in r.stdout.splitlines() if l.startswith('FAIL '))
                        break
                    if r.returncode == 2:
                        res['error'] = prop + ' ' + r.stderr[-300:]
            open(p, 'w').write(orig)
            with lock:
                open(out, 'a').write(json.dumps(res) + '\n')
        finally:
            slots.put(d)
    with concurrent.futures.ThreadPoolExecutor(SLOTS) as ex:
        list(ex.map(one, jobs))


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    main()
