"""behaviour-preserving edits (helpers extracted, statements reordered, loops rewritten): the checks have to stay quiet.  tools/refac.py [names] ; VERIF_REPO tree edited in a scratch copy"""
import sys, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get('REFAC_BASE', '/repo')
A, H, D, M, T = 'src/utils_array.h', 'src/data_raster.hpp', 'src/data_raster.cpp', 'src/utils_math.h', 'src/utils_time.cpp'
L = []


def ref(name, props, *edits): L.append((name, props.split(), edits))


exec(open(os.path.join(V, 'tools', 'refacs.py')).read())


def main():
    want = sys.argv[1:]
    for name, props, edits in L:
        if want and not any(w == name or w in props or (w.endswith('*') and name.startswith(w[:-1])) for w in want): continue
        t = tempfile.mkdtemp(prefix='refac.'); w = t + '/repo'
        try:
            subprocess.check_call('mkdir %s && cd %s && git archive HEAD 2>/dev/null | tar -x -C %s; cp -a %s/src/. %s/src/' % (w, BASE, w, BASE, w), shell=True)
            bad = None
            for f, old, new in edits:
                p = os.path.join(w, f); s = open(p).read()
                if s.count(old) != 1: bad = '%d matches in %s: %r' % (s.count(old), f, old[:80]); break
                open(p, 'w').write(s.replace(old, new))
            if bad: print(name, 'EDIT', bad, flush=True); continue
            for pr in props:
                if want and pr not in want and any(x.startswith('C') and x[1:].isdigit() for x in want): continue
                r = subprocess.run('python3-vt llvc/run.py %s quick' % pr, shell=True, cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE='/tmp/refac.evidence'), capture_output=True, text=True)
                print(name, pr, 'rc', r.returncode, '' if r.returncode == 0 else '!!!!', '\n'.join(x[:300] for x in r.stdout.strip().split('\n')[:6 if r.returncode else 1]), r.stderr[-300:] if r.returncode else '', flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)


main()
