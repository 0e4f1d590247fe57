"""run the check of one property: python3-vt /verif/llvc/run.py C01 [quick|thorough]"""
import sys, os, json, time, re, subprocess, traceback, importlib, multiprocessing as mp, shutil, tempfile, hashlib, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from llvc import build

VERIF = build.VERIF
REPO = build.REPO
T0 = time.time()
TOTAL = 840           # seconds for the whole check


def load_known():
    """known-findings file: lines 'known: property=<id> key=<regex> :: <what fails>' and 'fixed: ...' (documentation only)"""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for L in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) :: (.*)', L.strip())
            if m: out.append(m.groups())
    return out


def worker(args):
    k, tier, timeout, budget = args
    from llvc import api
    try:
        return k, api.run_task(api.TASKS[k], tier, timeout, None, budget)
    except Exception as e:
        return k, {'task': api.TASKS[k].name, 'prop': api.TASKS[k].prop, 'status': 'unsupported', 'obligations': [],
                   'error': 'internal: %r %s' % (e, traceback.format_exc()[-1500:]), 'wall': 0}


class Forked:
    """run tasks in forked children, killing those that exceed their budget"""
    def __init__(self, n): self.n = n

    def run(self, jobs, hard):
        from llvc import api
        res = {}
        pend = list(jobs); live = {}
        while pend or live:
            while pend and len(live) < self.n:
                j = pend.pop(0)
                r, w = mp.Pipe(False)
                p = mp.Process(target=child, args=(w, j)); p.start(); w.close()
                live[j[0]] = (p, r, time.time())
            time.sleep(0.02)
            for k in list(live):
                p, r, t = live[k]
                if r.poll():
                    try: res[k] = r.recv()[1]
                    except EOFError: res[k] = dead(k, 'worker died')
                    p.join(); del live[k]
                elif not p.is_alive():
                    res[k] = dead(k, 'worker died (exit %s)' % p.exitcode); del live[k]
                elif time.time() - t > hard or time.time() - T0 > TOTAL - 60:
                    p.kill(); p.join(); res[k] = dead(k, 'time limit'); del live[k]
        return res


def child(w, j):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    w.send(worker(j)); w.close()
    os._exit(0)


def dead(k, why):
    from llvc import api
    return {'task': api.TASKS[k].name, 'prop': api.TASKS[k].prop, 'status': 'unsupported', 'obligations': [], 'error': why, 'wall': 0}


def sh(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)


class Driver:
    """concrete driver linked against /repo's own sources"""
    def __init__(self, prop, cfg):
        self.prop, self.cfg = prop, cfg
        self.exe = None; self.err = None
        self.src = os.path.join(VERIF, 'drivers', cfg['driver']) if cfg.get('driver') else None

    def build(self):
        if self.src is None or self.exe is not None or self.err is not None: return
        d = build.scratch()
        cxx = self.cfg.get('cxx', 'g++')
        flags = ['-std=c++11', '-DLINUX', '-DUSE_GDAL', '-I' + REPO, '-I' + REPO + '/src', '-isystem', '/usr/include/gdal', '-O1', '-g0', '-w',
                 '-I' + VERIF + '/drivers', '-DNDEBUG'] + self.cfg.get('cflags', ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fopenmp', '-DSUPPORT_OMP'])
        srcs = [self.src] + [os.path.join(REPO, 'src', s) for s in self.cfg.get('sources', [])]
        procs = []; objs = []
        for s in srcs:
            o = os.path.join(d, 'drv_%s_%s.o' % (self.prop, os.path.basename(s))); objs.append(o)
            procs.append((s, subprocess.Popen([cxx] + flags + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode: self.err = 'driver does not compile: %s\n%s' % (s, out[-3000:])
        if self.err: return
        exe = os.path.join(d, 'drv_' + self.prop)
        r = sh([cxx] + [f for f in flags if f.startswith('-f')] + objs + ['-o', exe] + (['-lgdal'] if any(s == 'data_raster.cpp' for s in self.cfg.get('sources', [])) or self.cfg.get('gdal') else []))
        if r.returncode: self.err = 'driver does not link\n' + r.stderr[-3000:]; return
        self.exe = exe

    def run(self, seed, cases, hints=None, timeout=240):
        """(ok, cases, text)"""
        self.build()
        if self.exe is None: return None, 0, self.err
        d = tempfile.mkdtemp(prefix='drv.', dir=build.scratch())
        hf = os.path.join(d, 'hints')
        with open(hf, 'w') as f: f.write('\n'.join(hints or []) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:halt_on_error=1:exitcode=99',
                   UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=0', OMP_NUM_THREADS='3')
        try:
            r = subprocess.run([self.exe, str(seed), str(cases), hf], cwd=d, env=env, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            txt = (e.stdout or b'').decode('utf8', 'replace')
            last = [L for L in txt.split('\n') if L.startswith('AT ')]
            return False, 0, 'the code under test did not finish within %d s (%s)' % (timeout, last[-1] if last else '')
        finally:
            shutil.rmtree(d, ignore_errors=True)
        out = r.stdout.decode('utf8', 'replace'); err = r.stderr.decode('utf8', 'replace')
        m = re.search(r'^CASES (\d+)', out, re.M)
        n = int(m.group(1)) if m else 0
        fails = [L for L in out.split('\n') if L.startswith('FAIL ')]
        if r.returncode == 0 and not fails and m: return True, n, out
        txt = '\n'.join(fails[:5])
        if not fails:
            last = [L for L in out.split('\n') if L.startswith('AT ')]
            txt = 'FAIL crash exit=%s %s\n%s' % (r.returncode, last[-1] if last else '', err[:3000])
        return False, n, txt


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from contracts import props
    cfg = props.PROPS[prop]
    from llvc import api
    build.scratch()
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof')}
    global T0
    for m in cfg['modules']: importlib.import_module('contracts.' + m)
    idx = [k for k, t in enumerate(api.TASKS) if (t.prop == prop or any(re.match(u, t.prop + ' ' + t.name) for u in cfg.get('uses', ()))) and (t.tier == 'quick' or tier == 'thorough')]
    tus = sorted({(api.TASKS[k].tu, tuple(api.TASKS[k].opts.get('flags', ()))) for k in idx})
    builderr = {}
    ps = []
    for tu, fl in tus:
        try:
            build.module(tu, fl).demangled()
        except build.BuildError as e:
            builderr[(tu, fl)] = str(e)
    drv = Driver(prop, cfg)
    always = bool(cfg.get('bounded')) or tier == 'thorough'
    if always and cfg.get('driver'):
        pid = os.fork() if False else None
    timeout = 8000 if tier == 'quick' else 30000
    n = max(2, min(8, os.cpu_count() or 4))
    runnable = [k for k in idx if (api.TASKS[k].tu, tuple(api.TASKS[k].opts.get('flags', ()))) not in builderr]
    runnable.sort(key=lambda k: -api.TASKS[k].opts.get('cost', 1))
    hard = cfg.get('task_limit', 300)
    res = Forked(n).run([(k, tier, timeout, hard) for k in runnable], hard + 30)
    cases = cfg.get('cases', 2000) * (10 if tier == 'thorough' else 1)
    hints = []
    def drive():
        left = max(30, TOTAL - (time.time() - T0))
        return drv.run(seed, cases, hints, min(left - 10, 300 if tier == 'quick' else 600))
    def bad(r): return [o for o in r['obligations'] if o['status'] != 'proved']
    ran = None
    if cfg.get('driver') and (always or any(bad(res[k]) or res[k]['status'] == 'unsupported' for k in runnable)):
        for k in runnable:
            for o in bad(res[k]):
                for a, b in (o['model'] or {}).items(): hints.append('%s=%s' % (re.sub(r'!\d+$', '', a), b))
        ran = drive()
    # second opinion with more time for whatever did not go through, unless the real code already fails
    again = [k for k in runnable if res[k]['status'] != 'ok' and any(o['status'] == 'unknown' for o in res[k]['obligations'])]
    refuted = any(o['status'] == 'refuted' for k in runnable for o in res[k]['obligations'])
    if again and not refuted and not (ran and ran[0] is False) and time.time() - T0 < 420:
        r2 = Forked(n).run([(k, tier, timeout * 4, hard) for k in again], hard + 30)
        for k in again:
            if r2[k]['status'] == 'ok' or r2[k]['obligations']: res[k] = r2[k]
    for k in idx:
        if k not in res: res[k] = dead(k, 'does not compile: ' + list(builderr.values())[0][:1500])
    known = [(kp, kk, kw) for kp, kk, kw in load_known() if kp == prop]
    known_hit = []
    failed = []; unsup = []
    obl = dis = knownobl = 0
    backends = {}
    for k in idx:
        r = res[k]
        if r['status'] == 'unsupported': unsup.append(r)
        for o in r['obligations']:
            obl += 1
            if o['status'] == 'proved':
                dis += 1; backends[o['backend']] = backends.get(o['backend'], 0) + 1
            else:
                key = '%s|%s' % (r['task'], o['name'])
                hit = [kn for kn in known if re.search(kn[1], key.replace(' ', '_'))]
                if hit:
                    if hit[0] not in known_hit: known_hit.append(hit[0])
                    knownobl += 1
                    continue
                failed.append((r, o))
    nocheck = not obl
    drv_ok, drv_n, drv_txt = ran or (None, 0, '')
    if ran is None and cfg.get('driver') and (failed or unsup): drv_ok, drv_n, drv_txt = drive()
    viol = 0
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.txt')
    lines = []
    if failed or drv_ok is False or (drv_ok is None and cfg.get('driver') and (unsup or always)):
        with open(rpath, 'w') as f:
            f.write('property %s tier %s seed %d\n' % (prop, tier, seed))
            for r, o in failed:
                f.write('FAILED OBLIGATION %s [%s] task %s function %s line %s\n  verifier: %s (%s)\n  goal: %s\n  counterexample: %s\n' %
                        (o['name'], o['kind'], r['task'], o['fn'], o['line'], o['status'], o['backend'], o['detail'], json.dumps(o['model'])))
            for r in unsup: f.write('OUT OF REACH task %s: %s\n' % (r['task'], r['error']))
            f.write('DRIVER %s: %s\n' % (cfg.get('driver'), drv_txt))
            f.write('replay: VERIF_SEED=%d python3-vt %s/llvc/run.py %s %s\n' % (seed, VERIF, prop, tier))
    if drv_ok is False:
        viol = 1
        lines.append('VIOLATION property=%s replay=%s' % (prop, rpath))
    elif failed:
        viol = 1
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
    elif nocheck and drv_ok is not True:
        lines.append('UNDECIDED property=%s: nothing could be verified and no driver ran' % prop)
    for kp, kk, kw in known_hit: lines.append('KNOWN-FINDING: property=%s %s' % (kp, kw))
    fns = sorted({f for k in idx for f in res[k].get('functions', [])})
    inl = sorted({f for k in idx for f in res[k].get('inlined', [])})
    ext = sorted({f for k in idx for f in res[k].get('externs', [])})
    asm = sorted({f for k in idx for f in res[k].get('assumptions', [])})
    term = sorted({str(f) for k in idx for f in res[k].get('unproved_term', [])})
    cov = {'obligations': obl - knownobl, 'discharged': dis,
           'checker_cmd': 'cd %s && VERIF_SEED=%d python3-vt llvc/run.py %s %s' % (VERIF, seed, prop, tier),
           'trusted_base': ['clang++ 18 -O0 front end (source to LLVM IR)', 'llvc symbolic executor (/verif/llvc/engine.py)', 'z3 %s, cvc5' % zver(),
                            'the x86-64 data layout of the LLVM IR'] + ['library contract: ' + e for e in ext],
           'functions_under_contract': fns, 'inlined_functions': inl, 'back_ends': backends,
           'solver_s': round(sum(res[k].get('solver_time', 0) for k in idx), 2), 'solver_queries': sum(res[k].get('queries', 0) for k in idx),
           'tasks': [{'task': res[k]['task'], 'status': res[k]['status'], 'obligations': len(res[k]['obligations']), 'wall_s': round(res[k]['wall'], 2), 'error': res[k].get('error')} for k in idx],
           'termination_not_proved': term,
           'out_of_reach_on_this_tree': [{'task': r['task'], 'why': r['error']} for r in unsup],
           'known_finding_obligations': knownobl,
           'bounded_standins': cfg.get('bounded', []) if always else [],
           'driver': {'file': cfg.get('driver'), 'ran': drv_ok is not None, 'passed': drv_ok, 'cases': drv_n, 'note': 'bounded, never counted as proved'}}
    if cfg.get('level', 'proof') != 'proof':
        cov.setdefault('explanation', cfg.get('explanation', ''))
        cov['evaluations'] = drv_n; cov['distinct_nontrivial'] = drv_n
        cov['rule'] = cfg.get('rule', 'each case is one structured or random input to the real code compared with the contract')
        cov['samples'] = [L for L in drv_txt.split('\n') if L.startswith('SAMPLE')][:5] or ['none']
    ev.update(coverage=cov, assumptions=asm + cfg.get('assumptions', []), wall_s=round(time.time() - T0, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d tasks, %d obligations, %d discharged, %d failed, %d out of reach, driver %s (%d cases), %.1f s' %
          (prop, tier, len(idx), obl, dis, len(failed), len(unsup), drv_ok, drv_n, time.time() - T0))
    for r, o in failed[:12]: print('  failed obligation: %s in %s (%s): %s' % (o['name'], r['task'], o['status'], o['detail'][:160].replace('\n', ' ')))
    for r in unsup[:8]: print('  out of reach: %s: %s' % (r['task'], (r['error'] or '')[:300]))
    if drv_ok is not True and drv_txt: print('  driver: ' + drv_txt[:1500])
    for L in lines: print(L)
    if viol: return 1
    if nocheck and drv_ok is not True: return 2
    return 0


def zver():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    shutil.rmtree(os.environ.get('LLVC_SCRATCH', '/nonexistent-llvc'), ignore_errors=True)
    os._exit(rc)
