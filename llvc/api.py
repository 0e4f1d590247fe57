"""verification tasks: one function of /repo under contract per task"""
import time, sys, traceback, re
import z3
from . import engine, stl, stl2, gdal
from .engine import *
from .irparse import INT, PTR, FLOAT, DOUBLE, Ty
from .build import module, BuildError

I8, I16, I32, I64 = INT[8], INT[16], INT[32], INT[64]
TASKS = []


class Task:
    def __init__(self, prop, name, tu, body, tier, opts):
        self.prop, self.name, self.tu, self.body, self.tier, self.opts = prop, name, tu, body, tier, opts


def task(prop, name, tu, tier='quick', **opts):
    def d(f):
        TASKS.append(Task(prop, name, tu, f, tier, opts))
        return f
    return d


def forall(f, n=1, pats=None, names='ijkl'):
    vs = [z3.Int('q_%s!%d' % (names[i], next(_fa))) for i in range(n)]
    b = f(*vs)
    if pats is not None:
        p = pats(*vs)
        if not has_if(p): return z3.ForAll(vs, b, patterns=[p])
    return z3.ForAll(vs, b)


def has_if(e):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if not z3.is_expr(x) or x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE): return True
        todo += x.children()
    return False


def exists(f, pat=None):
    x = z3.Int('x_!%d' % next(_fa))
    return z3.Exists([x], f(x), patterns=[pat(x)] if pat is not None else [])


_fa = itertools.count(1)


class Ctx:
    """what a contract uses to state itself"""
    def __init__(self, task, tier, timeout):
        self.task = task
        self.mod = module(task.tu, task.opts.get('flags', ()))
        self.E = Engine(self.mod, timeout, tier)
        E = self.E
        E.models = list(stl.MODELS)
        self.st = State()
        self.tier = tier
        self.rets = None
        self.npre = 0
        self.fns = []

    # ---- symbolic inputs
    def int(self, name, bits=32, **k): return self.E.fresh_int(self.st, name, bits, **k)
    def real(self, name): return self.E.fresh_real(name)
    def flt(self, name): return self.E.fresh_real(name, True)
    def val(self, ty, name): return self.E.fresh(self.st, ty, name)

    def array(self, name, ty, n, kind='arg', content=None):
        return self.E.arr_obj(self.st, name, ty, n, kind, content)

    def array2d(self, name, ty, rows, cols, kind='arg'):
        """row-pointer array + contents: returns (pointer object, content object)"""
        E = self.E
        c = E.arr_obj(self.st, name + '.rows', ty, cols, kind, rows=rows)
        p = E.new_obj(self.st, name, kind, PTR, rows)
        i = z3.Int('i!%d' % next(_fa))
        lam = (z3.K(z3.IntSort(), I(c)), z3.K(z3.IntSort(), I(0)), z3.K(z3.IntSort(), I(0)), z3.Lambda([i], i))
        self.st.w(p).arrs[0] = (PTR, lam)
        return p, c

    def cell(self, ty, v=None, name='cell'):
        oid = self.E.new_obj(self.st, name, 'arg', ty)
        if v is None: v = self.E.fresh(self.st, ty, name)
        self.st.w(oid).cells[0] = (ty, v)
        return oid

    def struct(self, name, kind='arg', ty=None):
        return self.E.new_obj(self.st, name, kind, ty)

    def content(self, oid, st=None, off=0):
        return (st or self.st).mem[oid].arrs[off][1]

    def get(self, st, oid, off=0):
        return st.mem[oid].cells[off][1]

    # ---- contract clauses
    def require(self, f, name=''):
        self.st.assume(f if not isinstance(f, bool) else z3.BoolVal(f)); self.npre += 1

    def call(self, fn, *args):
        E = self.E
        m = fn if fn.startswith('@') else self.mod.find(fn)
        sig = self.mod.dem(m)
        self.fns.append(sig)
        E.verifying = sig
        E.fn_label = sig
        f = self.mod.fn(m)
        s = self.st
        r, _ = E._check(s.pc, 5000)
        if r == z3.unsat: raise Vacuous('the precondition of %s is unsatisfiable' % sig)
        s0 = s.clone()
        fr = Frame(f)
        if len(args) != len(f.params): raise Unsupported('signature of %s changed' % sig)
        for (t, nm, at), v in zip(f.params, args): fr.regs[nm] = v if not isinstance(v, int) else I(v)
        run = s.clone()
        run.frames.append(fr)
        E.wstack.append(set())
        _, _, rets = E.explore([run])
        self.writes = E.wstack.pop()
        self.st0 = s0
        self.rets = rets
        if not rets: raise Vacuous('no return path of %s is reachable' % sig)
        return rets

    def ensure(self, st, f, name):
        """postcondition at a return state"""
        E = self.E
        if isinstance(f, bool): f = z3.BoolVal(f)
        o = Obligation('%s: %s' % (short(self.fns[-1]), name), 'postcondition', self.fns[-1], 0)
        o.case = E.case
        t = time.time()
        r, be, m = E.prove(st, f, want_model=True)
        o.time = time.time() - t; o.status = r; o.backend = be
        if r != 'proved':
            E.nfail += 1
            o.detail = str(simp(f))[:800]
            o.model = model_dict(m) if m is not None else None
            E.log('FAIL', o.name, r, o.detail[:300], o.model)
        E.obls.append(o)

    def ensure_all(self, f, name):
        for s in self.rets: self.ensure(s, f(s), name)

    def unchanged(self, oids, name='frame'):
        """the listed objects have their entry contents at every return"""
        for s in self.rets:
            for o in oids:
                a, b = self.st0.mem[o], s.mem[o]
                if a is b: self.ensure(s, True, '%s: %s unchanged' % (name, self.E.info[o].name)); continue
                ok = [z3.BoolVal(b.alive)]
                for off in set(a.cells) | set(b.cells):
                    if off not in a.cells or off not in b.cells: continue
                    x, y = a.cells[off][1], b.cells[off][1]
                    ok.append(eqv(x, y))
                for off in a.arrs:
                    x, y = a.arrs[off][1], b.arrs[off][1]
                    ok.append(eqv(list(x), list(y)) if isinstance(x, tuple) else eqv(x, y))
                self.ensure(s, z3.And(*ok), '%s: %s unchanged' % (name, self.E.info[o].name))

    def inv(self, gen):
        """loop-invariant templates: gen(ctx) yields (name, formula-of-state)"""
        def g(ctx):
            try:
                for c in gen(ctx): yield c
            except KeyError:
                return
        self.E.loop_cands.append(g)


def eqv(x, y):
    if x is y: return z3.BoolVal(True)
    if isinstance(x, Ptr): return z3.And(*[a == b for a, b in zip(x.comps(), y.comps())])
    if isinstance(x, list): return z3.And(*[eqv(a, b) for a, b in zip(x, y)])
    if hasattr(x, 'eqv'): return x.eqv(y)
    return x == y


class Vacuous(Exception):
    pass


def run_task(task, tier='quick', timeout=8000, log=None, budget=600):
    """returns a plain dict"""
    t0 = time.time()
    res = {'task': task.name, 'prop': task.prop, 'status': 'ok', 'obligations': [], 'error': None}
    c = None
    try:
        c = Ctx(task, tier, timeout)
        c.E.logf = log
        c.E.verbose = '-vv' in sys.argv
        c.E.deadline = time.time() + budget
        task.body(c)
    except (Unsupported, KeyError, SyntaxError, BuildError, RecursionError, NotImplementedError, z3.Z3Exception, Vacuous) as e:
        res['status'] = 'unsupported'
        res['error'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        if log: traceback.print_exc(file=log)
    if c is not None:
        E = c.E
        res['obligations'] = [dict(name=o.name, kind=o.kind, fn=o.fn, line=o.line, status=o.status, backend=o.backend, time=round(o.time, 3),
                                   detail=o.detail, model=o.model, case=o.case) for o in E.obls]
        res.update(functions=c.fns, inlined=sorted(E.inlined), externs=sorted(E.externs), assumptions=sorted(E.assumptions),
                   solver_time=E.solver_time, queries=E.nqueries, unproved_term=E.unproved_term)
        if res['status'] == 'ok':
            if not E.obls: res['status'] = 'unsupported'; res['error'] = 'no obligations were generated'
            bad = [o for o in E.obls if o.status != 'proved']
            if bad: res['status'] = 'failed'
    res['wall'] = time.time() - t0
    return res


def fold(t, name, base, step, trig, sort=None, n=1):
    """ghost fold: F(0)=base, F(k+1)=step(F(k), k); instantiated wherever trig(k) occurs"""
    sort = z3.RealSort() if sort is None else sort
    F = z3.Function('%s!%d' % (name, next(_fa)), *([z3.IntSort()] * n + [sort]))
    if n == 1:
        t.E.side_axioms.append(F(0) == base)
        k = z3.Int('fk')
        t.E.side_axioms.append(z3.ForAll([k], z3.Implies(k >= 0, F(k + 1) == step(F(k), k)), patterns=[trig(k)]))
    else:
        k, j = z3.Ints('fk fj')
        t.E.side_axioms.append(z3.ForAll([j], F(0, j) == base, patterns=[F(0, j)]))
        t.E.side_axioms.append(z3.ForAll([k, j], z3.Implies(k >= 0, F(k + 1, j) == step(F(k, j), k, j)), patterns=[trig(k, j)]))
    return F
