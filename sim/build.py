#!/usr/bin/env python3
"""Builds the simulator against /repo's current working tree.

The code under test (every source of the library, the stubs of its dependencies and the glue)
is compiled with memory-access instrumentation; engine and worlds are compiled plainly.
Objects are reused only when the hash of everything they are made from is unchanged.
"""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VSIM_REPO', '/repo')
PKG = os.path.join(REPO, 'rmw_dds_common')
BUILD = os.environ.get('VSIM_BUILD', os.path.join(VERIF, 'build'))

HARNESS_FLAGS = ['-std=c++17', '-O2', '-g1', '-Wall', '-Wextra', '-Wno-unused-parameter', '-fno-pie']
SUT_FLAGS = ['-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-fno-builtin', '-fno-pie',
             '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-UNDEBUG', '-w']
WRAP = ['malloc', 'calloc', 'free', 'realloc', 'strdup', 'memcpy', 'memmove', 'memset', 'memcmp', 'memchr',
        'strlen', 'strnlen', 'strcmp', 'strncmp', 'strncpy', 'strcpy', 'strcat']
RENAMES = {f: 'simw_' + f for f in WRAP}
RENAMES.update({
    '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_': 'simw_rb_insert',
    '_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_': 'simw_rb_erase',
    '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base': 'simw_rb_inc',
    '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base': 'simw_rb_inc_c',
})


def digest(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()


def tree(d):
    return [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if not f.endswith('.pyc')]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))


def compile_one(src, obj, flags, incs, dig, rename):
    stamp = obj + '.stamp'
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == dig:
        return False
    if os.path.exists(stamp):
        os.unlink(stamp)
    run(['g++'] + flags + ['-I' + i for i in incs] + ['-c', src, '-o', obj])
    if rename:
        run(['objcopy'] + ['--redefine-sym=%s=%s' % kv for kv in RENAMES.items()] + [obj])
    with open(stamp, 'w') as f:
        f.write(dig)
    return True


def build(verbose=False):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        gen = os.path.join(BUILD, 'gen')
        msgs = sorted(glob.glob(os.path.join(PKG, 'msg', '*.msg')))
        gdig = digest(msgs + [os.path.join(HERE, 'stubs', 'gen_msgs.py')], '')
        gstamp = os.path.join(BUILD, 'gen.stamp')
        if not (os.path.exists(gstamp) and open(gstamp).read() == gdig and os.path.isdir(gen)):
            if os.path.isdir(gen):
                shutil.rmtree(gen)
            run([sys.executable, os.path.join(HERE, 'stubs', 'gen_msgs.py'), os.path.join(PKG, 'msg'), gen])
            with open(gstamp, 'w') as f:
                f.write(gdig)
        src = os.path.join(HERE, 'src')
        sut_incs = [os.path.join(PKG, 'include'), gen, os.path.join(HERE, 'stubs', 'include'), src]
        repo_files = tree(os.path.join(PKG, 'include')) + tree(os.path.join(PKG, 'src'))
        stub_files = tree(os.path.join(HERE, 'stubs'))
        headers = [os.path.join(src, f) for f in ('engine.h', 'sut.h')]
        sut_dig = digest(repo_files + stub_files + headers + [os.path.join(src, 'sut_glue.cpp'), gstamp], (SUT_FLAGS, RENAMES, PKG))
        jobs = []
        sut_objs, obj_names = [], set()
        sources = sorted(glob.glob(os.path.join(PKG, 'src', '**', '*.cpp'), recursive=True) +
                         glob.glob(os.path.join(PKG, 'src', '**', '*.c'), recursive=True))
        if not sources:
            raise RuntimeError('no sources in %s' % PKG)
        for s in sources + [os.path.join(HERE, 'stubs', 'rcutils_rmw_stub.cpp'), os.path.join(src, 'sut_glue.cpp')]:
            o = os.path.join(BUILD, 'sut_' + os.path.relpath(s, '/').replace('/', '_') + '.o')
            sut_objs.append(o)
            jobs.append((s, o, SUT_FLAGS, sut_incs, sut_dig, True))
        hdrs = [os.path.join(src, f) for f in os.listdir(src) if f.endswith('.h')]
        h_objs = []
        for s in sorted(glob.glob(os.path.join(src, '*.cpp'))):
            if s.endswith('sut_glue.cpp'):
                continue
            o = os.path.join(BUILD, 'h_' + os.path.basename(s) + '.o')
            h_objs.append(o)
            jobs.append((s, o, HARNESS_FLAGS, [src], digest(hdrs + [s], HARNESS_FLAGS), False))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            done = list(ex.map(lambda j: compile_one(*j), jobs))
        exe = os.path.join(BUILD, 'vsim')
        if any(done) or not os.path.exists(exe) or not os.path.exists(exe + '.ok'):
            if os.path.exists(exe + '.ok'):
                os.unlink(exe + '.ok')
            run(['g++', '-no-pie', '-o', exe + '.tmp'] + sut_objs + h_objs + ['-ldl', '-lpthread'])
            os.replace(exe + '.tmp', exe)
            open(exe + '.ok', 'w').close()
        return exe


if __name__ == '__main__':
    try:
        print(build(True))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
