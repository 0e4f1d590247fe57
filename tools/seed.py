"""seed.py NAME: confirm a planted bug in a scratch copy of /repo: applies, builds, passes the tests, demo 0 without / nonzero with. seed.py NAME --check runs the property's check against the patched copy"""
import sys, os, subprocess, json, shutil, tempfile
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ok_all = True
    check = '--check' in sys.argv; only = '--only-check' in sys.argv
    for n in [a for a in sys.argv[1:] if not a.startswith('-')]:
        d = os.path.join(V, 'seeded', n); meta = json.load(open(d + '/meta.json'))
        t = tempfile.mkdtemp(prefix='seed.'); w = t + '/repo'
        sh('mkdir %s && cd /repo && git archive HEAD | tar -x -C %s' % (w, w))
        msg = []
        try:
            if not only:
                # library only: baseline copy in /repo is already built and tested
                sh('cp -a /repo/_build %s/_build' % w)
                r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
                msg.append('demo on HEAD: %d' % r.returncode); base = r.returncode
                if base: msg.append(r.stdout[-500:] + r.stderr[-800:])
            r = sh('cd %s && git init -q . 2>/dev/null; git apply --whitespace=nowarn %s/patch.diff' % (w, d))
            if r.returncode: msg.append('PATCH FAILS ' + r.stderr); ok_all = False; print(n, msg); continue
            if not only:
                r = sh('bash %s/demo.sh' % d, cwd=w, timeout=300)
                msg.append('demo patched: %d %s' % (r.returncode, (r.stdout + r.stderr)[-200:].strip().replace('\n', ' | ')))
                if base != 0 or r.returncode == 0: ok_all = False; msg.append('BAD DEMO')
            if check or only:
                e = dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
                r = sh('python3-vt llvc/run.py %s quick' % meta['property'], cwd=V, env=e)
                msg.append('check: %d %s' % (r.returncode, '\n'.join(r.stdout.strip().split('\n')[:4])[:900]))
                msg.append([L for L in r.stdout.split('\n') if L.startswith('VIOLATION')])
        finally:
            shutil.rmtree(t, ignore_errors=True)
        print(n, meta['property'], *msg, sep='\n   ', flush=True)
    return 0 if ok_all else 1
sys.exit(main())
