"""Builds demo.cpp against the package's sources and stand-ins of its dependencies, and runs it
in a scratch directory of its own."""
import concurrent.futures, glob, os, subprocess, sys, tempfile

here = os.path.dirname(os.path.abspath(__file__))
pkg = os.path.join(sys.argv[1], 'rmw_dds_common')
if not os.path.isdir(pkg):
    pkg = '/repo/rmw_dds_common'
flags = open(os.path.join(here, 'flags.txt')).read().split()
with tempfile.TemporaryDirectory(prefix='demo.') as d:
    subprocess.check_call([sys.executable, os.path.join(here, 'stubs', 'gen_msgs.py'), os.path.join(pkg, 'msg'), d + '/gen'])
    srcs = sorted(glob.glob(pkg + '/src/*.cpp')) + [here + '/stubs/rcutils_rmw_stub.cpp', here + '/demo.cpp']
    base = ['g++', '-std=c++17', '-w', '-I' + here + '/stubs/include', '-I' + d + '/gen', '-I' + pkg + '/include', '-I' + here] + flags

    def cc(k):
        o = '%s/%d.o' % (d, k)
        subprocess.check_call(base + ['-c', srcs[k], '-o', o])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, range(len(srcs))))
    subprocess.check_call(base + objs + ['-o', d + '/demo', '-lpthread'])
    os.mkdir(d + '/scratch')
    r = subprocess.run([d + '/demo'], cwd=d + '/scratch', timeout=240, env=dict(os.environ, TSAN_OPTIONS='halt_on_error=1', ASAN_OPTIONS='detect_leaks=0'))
    sys.exit(0 if r.returncode == 0 else 1)
