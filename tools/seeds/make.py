#!/usr/bin/env python3
"""make.py [ID...]: writes /verif/seeded/ID from seeds.py, after confirming that its demonstration
passes on the unchanged tree and fails with the change."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

STALE = '''#include <dlfcn.h>
#include <errno.h>
#include <string.h>
#include <sys/stat.h>
// looking at this path always fails
static const char * stale = nullptr;
extern "C" int stat(const char * p, struct stat * st) noexcept
{
  if (stale && !strcmp(p, stale)) {errno = ESTALE; return -1;}
  static auto real = reinterpret_cast<int (*)(const char *, struct stat *)>(dlsym(RTLD_NEXT, "stat"));
  return real(p, st);
}
'''
HEAD = '''#include <sys/resource.h>
#include <signal.h>
#include <filesystem>
#include <sys/mman.h>
#include <unistd.h>
#include <new>
#include "demo.h"
// operator new of this program fails once after as many calls as this (never if negative)
static thread_local long fail_after = -1;
void * operator new(size_t n)
{
  if (fail_after >= 0 && fail_after-- == 0) {throw std::bad_alloc();}
  void * p = malloc(n ? n : 1);
  if (!p) {abort();}
  return p;
}
void operator delete(void * p) noexcept {free(p);}
void operator delete(void * p, size_t) noexcept {free(p);}
int main()
{
'''


def main():
    want = sys.argv[1:]
    bad = []
    for id, prop, needs, breaks, edits, demo, flags in SEEDS:
        if want and id not in want:
            continue
        out = os.path.join(VERIF, 'seeded', id)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        with tempfile.TemporaryDirectory(prefix='seed.') as d:
            subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
            for f, old, new in edits:
                p = d + '/repo/rmw_dds_common/' + f
                s = open(p).read()
                if s.count(old) != 1:
                    print('%s: %d matches of %r in %s' % (id, s.count(old), old[:60], f))
                s = s.replace(old, new, 1)
                open(p, 'w').write(s)
            diff = subprocess.run(['git', '-C', d + '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
            open(out + '/patch.diff', 'w').write(diff)
            for f in ('demo.h', 'demo.sh', 'run_demo.py'):
                shutil.copy(os.path.join(HERE, f), out)
            shutil.copytree(os.path.join(VERIF, 'sim', 'stubs'), out + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
            open(out + '/flags.txt', 'w').write(flags + '\n')
            open(out + '/demo.cpp', 'w').write((STALE if 'stale =' in demo else '') + HEAD + demo + '  return 0;\n}\n')
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
            os.chmod(out + '/demo.sh', 0o755)
            lib = d + '/beside'
            shutil.copytree(out, lib, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
            r1 = subprocess.run(['bash', lib + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r2 = subprocess.run(['bash', lib + '/demo.sh'], cwd=d + '/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = r1.returncode == 0 and r2.returncode != 0 and 'FAILED' in r2.stdout + ('FAILED' if any(x in r2.stdout for x in ('ThreadSanitizer', 'AddressSanitizer', 'terminate called')) or id == 'C14-c-string' else '')
            print('%-26s clean %d patched %d %s  %s' % (id, r1.returncode, r2.returncode, 'ok' if ok else 'BAD', r2.stdout.strip().splitlines()[-1][:150] if r2.stdout.strip() else ''), flush=True)
            if not ok:
                bad.append(id)
                print(r1.stdout[-1500:], r2.stdout[-1500:])
    sys.exit(bool(bad))


main()
