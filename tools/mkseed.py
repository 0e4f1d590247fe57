"""mkseed.py NAME PROPERTY FILE 'needs' 'breaks' : reads old/new text from NAME.old/NAME.new blocks on stdin: OLD <sep> NEW [<sep2> next file ...]; writes seeded/NAME"""
import sys, os, json, subprocess, tempfile, shutil
def make(name, prop, edits, needs, breaks, demo_cpp, libs='', srcs=None, asan=True, omp=False):
    d = '/verif/seeded/' + name; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mk.')
    subprocess.check_call('cd /repo && git archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A >/dev/null && git -c user.email=a@b -c user.name=a commit -qm x' % (t, t), shell=True)
    for f, old, new in edits:
        p = os.path.join(t, f); s = open(p).read()
        if s.count(old) != 1: shutil.rmtree(t); raise SystemExit('%s: %d matches in %s for %r' % (name, s.count(old), f, old[:80]))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', t, 'diff'], text=True); shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(demo_cpp)
    srcs = srcs if srcs is not None else ['basic.cpp']
    san = '-fsanitize=address ' if asan else ''
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -g -O1 -w %s%s-DLINUX -DUSE_GDAL -I. -Isrc -isystem /usr/include/gdal "$D/demo.cpp" %s -o "$T/demo" %s || exit 3
R=$(pwd); cd "$T" && ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 TZ=UTC0 ./demo "$T" > "$T/out" 2>&1; rc=$?
tail -5 "$T/out"; exit $rc
''' % (san, '-fopenmp -DSUPPORT_OMP ' if omp else '', ' '.join('src/' + s for s in srcs), libs))
