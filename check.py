#!/usr/bin/env python3
"""check.py PROPERTY: builds the simulator from /repo's working tree, explores, reports.

exit 0: no violation found; exit 1 + VIOLATION line: a violation that replays exactly, minimised;
exit 2: the check itself failed (build error, non-reproducible run, harness error).
"""
import json, os, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sim'))
import build as simbuild  # noqa: E402
import props  # noqa: E402


def scratch_env(k):
    """The environment with a scratch directory for a simulator process; the names are equally long."""
    return dict(os.environ, VSIM_SCRATCH=os.path.join(simbuild.BUILD, 'scr_%07d%02d' % (os.getpid(), k)))


def fail(msg):
    print('CHECK-ERROR: ' + msg, file=sys.stderr)
    sys.exit(2)


def main():
    t_start = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    info = props.PROPS[prop]
    seconds = float(os.environ.get('VSIM_SECONDS', info['thorough_s'] if tier == 'thorough' else info['quick_s']))
    workers = int(os.environ.get('VSIM_WORKERS', str(os.cpu_count() or 4)))
    try:
        exe = simbuild.build()
    except RuntimeError as e:
        fail('build failed: %s' % e)
    t_built = time.time()

    known = []
    for k in props.known_findings(prop):
        # a recorded defect: report it while it is there, and only exactly this one
        r = subprocess.run([exe, 'replay', os.path.join(VERIF, k['replay'])], stdout=subprocess.PIPE, text=True)
        if r.returncode == 1 and ('FAIL ' + k['cls'] + ' ') in r.stdout:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
            known.append(k['text'])
        # anything else the replay shows is for the exploration to report

    work = os.path.join(simbuild.BUILD, 'run_%s_%d' % (prop, os.getpid()))
    os.makedirs(work)
    try:
        rc = explore(exe, prop, tier, seed, seconds, workers, info, work, t_start, t_built, known)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for k in range(100):
            shutil.rmtree(scratch_env(k)['VSIM_SCRATCH'], ignore_errors=True)
    sys.exit(rc)


def explore(exe, prop, tier, seed, seconds, workers, info, work, t_start, t_built, known):
    procs = []
    ncpu = os.cpu_count() or 1
    for w in range(workers):
        out = os.path.join(work, 'w%d' % w)
        cmd = [exe, 'explore', '--prop', prop, '--seed', str(seed), '--worker', str(w), '--workers', str(workers),
               '--seconds', str(seconds), '--out', out, '--violation', out + '.viol', '--core', str(w % ncpu)]
        env = scratch_env(w % 98)
        procs.append((w, out, subprocess.Popen(cmd, stderr=open(out + '.err', 'w'), env=env)))
    bad = []
    deadline = time.time() + seconds + 300
    pending = list(procs)
    while pending:
        for x in list(pending):
            rc = x[2].poll()
            if rc is None:
                continue
            pending.remove(x)
            if rc == 1:
                bad.append(x)
            elif rc != 0:
                fail('worker %d ended with %s: %s' % (x[0], rc, open(x[1] + '.err').read()[-2000:]))
        if bad and pending:
            # one violation is enough; the others finish their current run
            time.sleep(0.5)
            for x in pending:
                if x[2].poll() is None:
                    x[2].kill()
                    x[2].wait()
            pending = []
        if time.time() > deadline:
            for x in pending:
                x[2].kill()
            fail('exploration did not stop in time')
        time.sleep(0.02)
    t_explored = time.time()
    rc, viol = 0, 0
    if bad:
        bad.sort(key=lambda x: os.path.getsize(x[1] + '.viol'))
        rc, viol = report(exe, prop, bad, work), 1
    else:
        nd = [o + '.nondet' for _, o, _ in procs if os.path.exists(o + '.nondet')]
        if nd:
            keep = os.path.join(simbuild.BUILD, 'nondet_%s.plan' % prop)
            shutil.copyfile(nd[0], keep)
            fail('an execution was not repeatable: %s' % keep)
    evidence(prop, tier, seed, info, procs, workers, work, t_start, t_built, t_explored, viol, known)
    return rc


def replay(exe, f):
    env = scratch_env(99)
    r = subprocess.run([exe, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return r.returncode, r.stdout


def report(exe, prop, bad, work):
    """Gate, minimise and replay one of the violations found."""
    problems = []
    for w, out, _ in bad:
        v = out + '.viol'
        text = open(v).read()
        print('worker %d: %s' % (w, open(out + '.err').read().strip()[:3000]), file=sys.stderr)
        cls = [l.split()[1] for l in text.splitlines() if l.startswith('expect ')]
        if cls and cls[0] == 'internal':
            problems.append(text.splitlines()[0])
            continue
        # the recorded decisions must reproduce the violation in a fresh process; what is reported
        # below must replay exactly
        c, o = replay(exe, v)
        exact = c == 1
        if c == 4:
            print('note: worker %d: same violation, other history in the replay' % w, file=sys.stderr)
        elif c != 1:
            problems.append('the violation does not replay (%d): %s' % (c, o))
            continue
        m = out + '.min'
        env = scratch_env(98)
        r = subprocess.run([exe, 'minimise', v, m, '--seconds', '40'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, env=env)
        print(r.stdout.strip(), file=sys.stderr)
        if r.returncode != 0:
            m = v
        ok = True
        for _ in range(2):
            c, o = replay(exe, m)
            ok = ok and c == 1
        if not ok and m != v and exact:
            m = v
            ok = all(replay(exe, m)[0] == 1 for _ in range(2))
        if not ok:
            problems.append('the minimised violation does not replay: %s' % o)
            continue
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        dst = os.path.join(rdir, '%s.replay' % prop)
        shutil.copyfile(m, dst)
        print(o.strip())
        print('replay with: build/vsim replay %s --trace' % os.path.relpath(dst, VERIF))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(dst, VERIF)))
        return 1
    fail('; '.join(problems))


def evidence(prop, tier, seed, info, procs, workers, work, t_start, t_built, t_explored, viol, known):
    tot = {'runs': 0, 'doubled': 0, 'steps': 0, 'vtime_s': 0.0, 'nontrivial': 0}
    counters, worlds, sets = {}, {}, [set(), set()]
    samples, slowest = [], 0.0
    for w, out, _ in procs:
        if not os.path.exists(out):
            continue
        try:
            d = json.load(open(out))
        except ValueError:
            continue
        for k in tot:
            tot[k] += d[k]
        slowest = max(slowest, d['slowest_s'])
        for k, v in d['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in d['worlds'].items():
            worlds[k] = worlds.get(k, 0) + v
        if len(samples) < 2 and d['first_plan']:
            samples.append({'first_plan_of_worker': w, 'plan': d['first_plan'].splitlines()[:60]})
        b = open(out + '.bin', 'rb').read()
        pos = 0
        for s in sets:
            n, = struct.unpack_from('<Q', b, pos)
            s.update(struct.unpack_from('<%dQ' % n, b, pos + 8))
            pos += 8 + 8 * n
    expl = max(t_explored - t_built, 1e-6)
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('fault.')}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith('probe.')}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(sets[1]),
            'rule': 'One evaluation is one simulated run of a plan drawn from (VERIF_SEED, property, run index): '
                    + info['rule'] + ' Non-trivial: at least one preemption inside the code under test or at least one '
                    'injected fault really happened; distinct: by a hash over every scheduling decision, fault and '
                    'observed result of the run.',
            'samples': samples,
            'simulated_runs_per_hour': int(tot['runs'] / expl * 3600),
            'seeds_per_hour': int((tot['runs'] - 0) / expl * 3600),
            'simulated_time_s': round(tot['vtime_s'], 3),
            'scheduling_steps': tot['steps'],
            'distinct_synchronisation_interleavings': len(sets[0]),
            'runs_executed_twice_and_compared': tot['doubled'],
            'fault_kinds_injected': faults,
            'probes': probes,
            'slowest_run_s': round(slowest, 3),
            'worlds': worlds,
            'workers': workers,
            'real_components': info['real'],
            'stub_components': info['stub'],
        },
        'assumptions': props.ASSUMPTIONS + info.get('assumptions', []),
        'wall_s': round(time.time() - t_start, 2),
        'violations': viol,
    }
    if known:
        ev['coverage']['known_findings_reproduced'] = known
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json.tmp'), 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(d, prop + '.json.tmp'), os.path.join(d, prop + '.json'))
    print('%s %s: %d runs in %.1f s (%d distinct non-trivial), faults %s' % (
        prop, tier, tot['runs'], expl, len(sets[1]), json.dumps(faults)))
    for p in info.get('need_probes', []):
        if not viol and tot['runs'] > 2000 and not counters.get('probe.' + p) and not counters.get('fault.' + p):
            print('note: probe %s was never hit' % p, file=sys.stderr)


main()
