"""llvc: a contract verifier for the LLVM IR clang emits from /repo's own sources.

Forward symbolic execution with contracts (modular at calls that have a contract, inlining otherwise), loop
invariants found by instantiating candidate templates over the loop's modified state and keeping the inductive ones
(Houdini), and one SMT obligation per safety condition, callee precondition and postcondition.
Integers are mathematical with an explicit no-overflow obligation wherever the IR says overflow is undefined and
explicit wrap-around elsewhere; float/double are reals unless the contract asks for the bit-precise domain.
"""
import time, re, itertools
from fractions import Fraction
import z3
from .irparse import Module, Ty, INT, PTR, FLOAT, DOUBLE, VOID


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


I = z3.IntVal


def is_const(t):
    return z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t)


def simp(t):
    return z3.simplify(t)


def ival(t):
    """python int of a constant term or None"""
    if isinstance(t, int): return t
    if z3.is_int_value(t): return t.as_long()
    t = z3.simplify(t)
    if z3.is_int_value(t): return t.as_long()
    return None


_LIN = {}
_MUL = z3.Function('mul', z3.IntSort(), z3.IntSort(), z3.IntSort())


def linearised(fs):
    """formulas with products of two integer unknowns as an uninterpreted function of the sorted factors (weaker: unsat carries over); None if there are none"""
    hit = [False]

    def go(e):
        k = e.get_id()
        if k in _LIN:
            if _LIN[k][1]: hit[0] = True
            return _LIN[k][2]
        h0, hit[0] = hit[0], False
        if z3.is_quantifier(e):
            b = go(e.body())
            if b.eq(e.body()): r = e
            else:
                vs = [z3.Const(e.var_name(i), e.var_sort(i)) for i in range(e.num_vars())]
                if e.num_patterns() or e.is_lambda() or not e.is_forall(): r = e; hit[0] = False
                else: r = z3.ForAll(vs, z3.substitute_vars(b, *reversed(vs)))
        elif z3.is_app(e) and e.num_args():
            ch = [go(c) for c in e.children()]
            if z3.is_mul(e) and e.sort() == z3.IntSort():
                num = [c for c in ch if z3.is_int_value(c)]; rest = sorted([c for c in ch if not z3.is_int_value(c)], key=lambda c: c.get_id())
                if len(rest) > 1:
                    hit[0] = True; r = rest[0]
                    for c in rest[1:]: r = _MUL(r, c)
                    for c in num: r = c * r
                else: r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
            else: r = e if all(a.eq(b) for a, b in zip(ch, e.children())) else e.decl()(*ch)
        else: r = e
        _LIN[k] = (e, hit[0], r)
        hit[0] = hit[0] or h0
        return r
    out = []
    for f in fs:
        try: out.append(go(z3.simplify(f, som=True)))
        except z3.Z3Exception: out.append(f)
    return out if hit[0] else None


class Ptr:
    __slots__ = ('obj', 'idx', 'off', 'row')

    def __init__(self, obj, idx=0, off=0, row=0):
        self.obj = I(obj) if isinstance(obj, int) else obj
        self.idx = I(idx) if isinstance(idx, int) else idx
        self.off = I(off) if isinstance(off, int) else off
        self.row = I(row) if isinstance(row, int) else row

    def with_(self, **k):
        p = Ptr(self.obj, self.idx, self.off, self.row)
        for a, b in k.items(): setattr(p, a, I(b) if isinstance(b, int) else b)
        return p

    def comps(self):
        return (self.obj, self.idx, self.off, self.row)

    def __repr__(self):
        return 'Ptr(%s,%s,%s,%s)' % self.comps()


NULL = Ptr(0)


class FnPtr:
    def __init__(self, name): self.name = name


class PtrInt:
    """result of ptrtoint"""
    def __init__(self, p): self.p = p


class PtrDiff:
    def __init__(self, a, b): self.a, self.b = a, b


class Packed:
    """an integer register that carries several smaller fields (ABI coercion): [(byteoff, Ty, value)]"""
    def __init__(self, parts): self.parts = parts


class Undef:
    pass


UNDEF = Undef()


class ObjInfo:
    """static facts about an object (same in every state)"""
    __slots__ = ('id', 'name', 'kind', 'ty', 'es', 'n', 'rows', 'cols', 'bytes', 'lazy', 'tag', 'flen', 'bnd')

    def __init__(self, id, name, kind):
        self.id, self.name, self.kind = id, name, kind
        self.ty = None      # element type where known
        self.es = None      # element size (bytes)
        self.n = None       # number of elements (term); None: a single struct/scalar
        self.rows = None    # 2D object: number of rows (term); n is then the row length
        self.cols = None
        self.bytes = None   # allocation size in bytes (term) for not yet typed heap blocks
        self.lazy = False
        self.tag = None
        self.flen = None
        self.bnd = None     # own bounds obligation (library containers)


class ObjSt:
    __slots__ = ('cells', 'arrs', 'alive', 'n', 'z')

    def __init__(self, cells=None, arrs=None, alive=True, n=None, z=()):
        self.z = z     # byte ranges filled with zero by memset
        self.cells = cells if cells is not None else {}
        self.arrs = arrs if arrs is not None else {}
        self.alive = alive
        self.n = n

    def copy(self):
        return ObjSt(dict(self.cells), dict(self.arrs), self.alive, self.n, self.z)


class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'prev', 'ip', 'res', 'nl', 'allocas', 'depth', 'sret')

    def __init__(self, fn):
        self.fn = fn; self.regs = {}; self.blk = fn.entry; self.prev = None; self.ip = 0
        self.res = None; self.nl = None; self.allocas = {}; self.depth = 0

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.blk, f.prev, f.ip, f.res, f.nl = self.fn, dict(self.regs), self.blk, self.prev, self.ip, self.res, self.nl
        f.allocas = self.allocas if f.ip else dict(self.allocas)
        f.allocas = dict(self.allocas); f.depth = self.depth
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'ghost', 'ret', 'tag')

    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.ghost = {}; self.ret = None; self.tag = None

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.ghost = dict(self.ghost); s.ret = self.ret; s.tag = self.tag
        return s

    def assume(self, f):
        if z3.is_true(f): return self
        self.pc.append(f)
        return self

    def w(self, oid):
        """writable copy of an object's state"""
        o = self.mem[oid].copy()
        self.mem[oid] = o
        return o


_quant_cache = {}


def mentions(g):
    """ground selects that occur only below a quantifier of the goal: name them so that the triggers can see them"""
    out = {}

    def go(t, inq):
        """true if t has no bound variable"""
        if z3.is_var(t): return False
        if z3.is_quantifier(t): go(t.body(), True); return False
        gr = True
        for c in t.children():
            if not go(c, inq): gr = False
        if gr and inq and z3.is_select(t): out[t.get_id()] = t
        return gr
    go(g, False)
    return [z3.Function('mention_' + str(t.sort()), t.sort(), z3.BoolSort())(t) for t in out.values() if t.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT)]


def has_quant(f):
    try: return f._hq
    except AttributeError: pass
    k = f.get_id()
    r = _quant_cache.get(k)
    if r is not None and r[0].eq(f):
        f._hq = r[1]
        return r[1]
    seen = set(); stack = [f]; res = False
    while stack:
        t = stack.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            res = True; break
        stack.extend(t.children())
    _quant_cache[k] = (f, res); f._hq = res
    return res


_el = z3.z3core.Z3_solver_assert.__defaults__[0]
_assert = _el.f


def assert_all(s, fs):
    """s.add(*fs) without the checks of the Python binding"""
    c, sv = s.ctx.ref(), s.solver
    for f in fs: _assert(c, sv, f.ast)
    _el.Check(c)


def syms(t, acc=None):
    """uninterpreted constants in a term"""
    out = set() if acc is None else acc
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        st.extend(x.children())
    return out


class Obligation:
    __slots__ = ('name', 'kind', 'fn', 'line', 'status', 'backend', 'time', 'detail', 'model', 'case')

    def __init__(self, name, kind, fn, line):
        self.name, self.kind, self.fn, self.line = name, kind, fn, line
        self.status = None; self.backend = None; self.time = 0.; self.detail = ''; self.model = None; self.case = ''


RND32 = z3.Function('rnd32', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt_r', z3.RealSort(), z3.RealSort())
FDIV = z3.Function('fdiv_r', z3.RealSort(), z3.RealSort(), z3.RealSort())


class Engine:
    def __init__(self, mod, timeout_ms=8000, tier='quick'):
        self.mod = mod
        self.info = {}
        self.oid = itertools.count(1)
        self.names = itertools.count(1)
        self.timeout = timeout_ms
        self.tier = tier
        self.obls = []
        self.nfail = 0
        self.record = True          # record/discharge obligations (off in exploratory rounds)
        self.writes = None          # active write recorders (stack of sets)
        self.wstack = []
        self.icmps = []             # stack of comparison recorders
        self.specs = {}             # short signature -> Spec used at call sites
        self.models = []            # (regex, handler)
        self.inlined = set()
        self.externs = set()        # assumed external contracts used
        self.assumptions = set()
        self.solver_time = 0.
        self.nqueries = 0
        self.f32 = {}
        self.loop_cands = []        # candidate generators
        self.globals_obj = {}
        self.alloc_may_fail = False
        self.check_overflow = True
        self.check_f2i = True
        self.unproved_term = []
        self.case = ''
        self.fn_label = ''
        self.max_inline = 40
        self.logf = None
        self.unroll_max = 16
        self.deadline = None
        self.strcodes = {}
        self.side_axioms = []
        self.loop_drop_cache = {}
        self.peel = None            # state -> bool: run the first iteration of a loop entered in this state on its own
        self.houdini_timeout = 3000
        self.inv_report = {}
        self.on_throw = 'obligation'
        self.merge_calls = True
        self.cexs = []
        self.exact_float = False
        self.verbose = False
        self.lemma_hooks = []

    # ------------------------------------------------------------------ utilities
    def log(self, *a):
        if self.logf: print(*a, file=self.logf, flush=True)

    def nm(self, base):
        return '%s!%d' % (base, next(self.names))

    def fresh_int(self, st, name, bits=32, lo=None, hi=None):
        v = z3.Int(self.nm(name))
        if bits:
            lo = -(1 << (bits - 1)) if lo is None else lo
            hi = (1 << (bits - 1)) - 1 if hi is None else hi
        if lo is not None: st.assume(v >= lo)
        if hi is not None: st.assume(v <= hi)
        return v

    def fresh_real(self, name, f32=False):
        v = z3.Real(self.nm(name))
        if f32: self.mark32(v)
        return v

    def mark32(self, v):
        self.f32[v.get_id()] = v
        return v

    def is32(self, v):
        x = self.f32.get(v.get_id())
        return x is not None and x.eq(v)

    def fresh_ptr(self, st, name):
        return Ptr(z3.Int(self.nm(name + '.obj')), z3.Int(self.nm(name + '.idx')), z3.Int(self.nm(name + '.off')), z3.Int(self.nm(name + '.row')))

    def fresh(self, st, ty, name='v'):
        if ty.k == 'int':
            if ty.bits == 1: return z3.Bool(self.nm(name))
            return self.fresh_int(st, name, ty.bits)
        if ty.k == 'float': return self.fresh_real(name, True)
        if ty.k in ('double', 'fp80'): return self.fresh_real(name)
        if ty.k == 'ptr': return self.fresh_ptr(st, name)
        if ty.k == 'struct': return [self.fresh(st, f, name) for f in ty.fields]
        raise Unsupported('fresh of %r' % ty)

    def sort(self, ty):
        if ty.k == 'int': return z3.IntSort() if ty.bits > 1 else z3.BoolSort()
        if ty.k == 'str': return z3.IntSort()
        if ty.k in ('float', 'double', 'fp80'): return z3.RealSort()
        raise Unsupported('sort of %r' % ty)

    def fresh_arr(self, ty, name, dims=1):
        if ty.k == 'ptr':
            return tuple(z3.Array(self.nm(name + s), z3.IntSort(), z3.IntSort()) for s in ('.o', '.i', '.f', '.r'))
        s = self.sort(ty)
        for _ in range(dims): s = z3.ArraySort(z3.IntSort(), s)
        return z3.Const(self.nm(name), s)

    # ------------------------------------------------------------------ solver
    def _check(self, fs, timeout, mbqi=False):
        if self.deadline and time.time() > self.deadline: raise Unsupported('time budget of this check exhausted')
        s = z3.Solver()
        s.set('timeout', int(timeout))
        if not mbqi: s.set('auto_config', False); s.set('mbqi', False)
        assert_all(s, self.side_axioms); assert_all(s, fs)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        self.nqueries += 1
        if dt > 1 and self.logf:
            import traceback
            self.log('SLOW %.1f %s %s' % (dt, r, ' < '.join('%s:%d' % (f.name, f.lineno) for f in traceback.extract_stack()[-5:-1])), '\n      ', str(fs[-1])[:300].replace('\n', ' '))
        return r, s

    def feasible(self, st, cond=None):
        fs = [f for f in st.pc if not has_quant(f)]
        if cond is not None:
            if z3.is_true(cond): pass
            elif z3.is_false(cond): return False
            else: fs.append(cond)
        r, _ = self._check(fs, 400)
        return r != z3.unsat

    def entails(self, st, goal, timeout=400, quant=False):
        goal = simp(goal)
        if z3.is_true(goal): return True
        if z3.is_false(goal) and not quant: return False
        fs = [f for f in st.pc if quant or not has_quant(f)]
        r, _ = self._check(fs + [z3.Not(goal)], timeout)
        return r == z3.unsat

    def split_goal(self, g):
        """conjuncts, with implications/foralls pushed to skolemised hypotheses: list of (hyps, goal)"""
        out = []

        def go(h, g):
            if z3.is_and(g):
                for c in g.children(): go(h, c)
            elif z3.is_implies(g):
                go(h + [g.arg(0)], g.arg(1))
            elif z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE:
                go(h + [g.arg(0)], g.arg(1)); go(h + [z3.Not(g.arg(0))], g.arg(2))
            elif z3.is_quantifier(g) and g.is_forall():
                vs = [z3.Const(self.nm('sk_' + g.var_name(i)), g.var_sort(i)) for i in range(g.num_vars())]
                go(h, z3.substitute_vars(g.body(), *reversed(vs)))
            elif z3.is_or(g) and any(z3.is_quantifier(c) for c in g.children()):
                qs = list(g.children())
                k = [i for i, c in enumerate(qs) if z3.is_quantifier(c) and c.is_forall()]
                if len(k) == 1:
                    rest = [c for i, c in enumerate(qs) if i != k[0]]
                    go(h + [z3.Not(c) for c in rest], qs[k[0]])
                else: out.append((h, g))
            else:
                out.append((h, g))
        go([], g)
        return out

    def prove(self, st, goal, timeout=None, want_model=False, quick=False):
        """(status, backend, model) ; status in proved/refuted/unknown"""
        timeout = timeout or self.timeout
        if self.nfail >= 4: quick = True; timeout = min(timeout, 2000)      # the task has failed already: name further obligations cheaply
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        g0 = simp(goal)
        if z3.is_true(g0): return 'proved', 'simplifier', None
        res = 'proved'; be = 'z3'; model = None
        for hyps, g in self.split_goal(goal):
            g = simp(g) if not has_quant(g) else g
            if z3.is_true(g): continue
            fs = list(st.pc) + hyps + [z3.Not(g)]
            light = [f for f in fs if not has_quant(f)]
            if has_quant(g): fs += mentions(g)
            if len(light) < len(fs):
                r, s = self._check(light, min(timeout, 1500))
                if r == z3.unsat: continue
            r, s = self._check(fs, timeout)
            if r == z3.unsat: continue
            if r == z3.sat:
                return 'refuted', 'z3', s.model() if want_model else None
            lf = linearised(fs)
            if lf:
                r, _ = self._check(lf, min(timeout, 3000) if quick else timeout)
                if r == z3.unsat: continue
            if not quick:
                ok = False
                # second try: model-based instantiation and tactic variations
                r, s = self._check(fs, timeout, mbqi=True)
                if r == z3.sat: return 'refuted', 'z3', s.model() if want_model else None
                ok = r == z3.unsat
                if not ok:
                    for opt in ({'smt.arith.solver': 2, 'smt.mbqi': False}, {'smt.random_seed': 3, 'smt.relevancy': 0}):
                        s2 = z3.SimpleSolver(); s2.set('timeout', int(timeout))
                        try:
                            for k, v in opt.items(): s2.set(k, v)
                        except z3.Z3Exception:
                            continue
                        assert_all(s2, self.side_axioms); assert_all(s2, fs)
                        t = time.time(); r2 = s2.check(); self.solver_time += time.time() - t; self.nqueries += 1
                        if r2 == z3.unsat:
                            ok = True; break
                        if r2 == z3.sat and not any(has_quant(f) for f in fs):
                            return 'refuted', 'z3', s2.model() if want_model else None
                if ok: continue
                if self.use_cvc5(fs, timeout):
                    be = 'cvc5'; continue
            res = 'unknown'
            # candidate model from the quantifier-free part
            if want_model:
                r, s = self._check(light, 1500)
                if r == z3.sat: model = s.model()
            return res, be, model
        return res, be, model

    def use_cvc5(self, fs, timeout):
        try:
            import cvc5
        except ImportError:
            return False
        s = z3.Solver()
        assert_all(s, self.side_axioms); assert_all(s, fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', str(int(timeout)))
            slv.setOption('full-saturate-quant', 'true')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            t = time.time()
            out = ''
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                out += c.invoke(slv, sm)
            self.solver_time += time.time() - t
            return 'unsat' in out and 'unsat' == out.strip().split('\n')[-1]
        except Exception as e:
            self.log('cvc5: ', repr(e)[:200])
            return False

    # ------------------------------------------------------------------ obligations
    def where(self, st, inst=None):
        f = st.frames[-1] if st.frames else None
        line = self.mod.line(inst.dbg) if inst is not None else 0
        return (self.mod.dem(f.fn.name) if f else self.fn_label, line)

    def oblige(self, st, goal, kind, inst=None, name=None):
        """record + discharge; then assume (so that one defect gives one failure)"""
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.record:
            fn, line = self.where(st, inst)
            o = Obligation(name or '%s@%s:%d' % (kind, short(fn), line), kind, fn, line)
            o.case = self.case
            t = time.time()
            r, be, m = self.prove(st, goal, want_model=True)
            o.time = time.time() - t; o.status = r; o.backend = be
            if r != 'proved':
                self.nfail += 1
                # an obligation on an infeasible path is vacuous; make sure this path is not
                o.detail = 'goal: ' + str(simp(goal))[:600]
                o.model = model_dict(m) if m is not None else None
                self.log('FAIL', o.name, r, o.detail[:400], o.model)
            self.obls.append(o)
        st.assume(goal)
        return goal

    def fail(self, st, kind, inst=None, name=None):
        """an unconditional error on this path: provable only if the path is infeasible"""
        self.oblige(st, z3.BoolVal(False), kind, inst, name)
        raise PathEnd()

    # ------------------------------------------------------------------ objects
    def new_obj(self, st, name, kind, ty=None, n=None, rows=None, es=None):
        oid = next(self.oid)
        o = ObjInfo(oid, name, kind)
        o.ty = ty
        if n is not None:
            o.n = I(n) if isinstance(n, int) else n
            o.es = es or self.mod.size(ty)
        if rows is not None: o.rows = I(rows) if isinstance(rows, int) else rows
        self.info[oid] = o
        st.mem[oid] = ObjSt()
        return oid

    def arr_obj(self, st, name, ty, n, kind='arg', content=None, rows=None):
        """array object with symbolic content"""
        oid = self.new_obj(st, name, kind, ty, n, rows)
        self.init_arr(st, oid, 0, ty, name, content)
        return oid

    def init_arr(self, st, oid, off, ty, name, content=None):
        o = self.info[oid]
        if content is None:
            content = self.fresh_arr(ty, name, 2 if o.rows is not None else 1)
            self.range_axiom(st, content, ty, 2 if o.rows is not None else 1)
        st.w(oid).arrs[off] = (ty, content)
        return content

    def range_axiom(self, st, content, ty, dims=1):
        pass  # ranges of loaded integers are assumed at the load

    def mark_write(self, oid, off):
        for w in self.wstack: w.add((oid, off))

    def obj_len(self, st, oid):
        s = st.mem[oid]
        return s.n if s.n is not None else self.info[oid].n

    def resolve(self, st, p, inst=None):
        """yield (state, oid) for every object the pointer may point to (0 = null)"""
        o = simp(p.obj)
        c = ival(o)
        if c is not None:
            return [(st, c)]
        cands = []
        leaves = set()

        def walk(t, depth=0):
            v = ival(t)
            if v is not None: leaves.add(v); return True
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and depth < 12:
                a = walk(t.arg(1), depth + 1); b = walk(t.arg(2), depth + 1)
                return a and b
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and depth < 12:
                a = t.arg(0)
                while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
                    if not walk(a.arg(2), depth + 1): return False
                    a = a.arg(0)
                if not z3.is_K(a): return False
                return walk(a.arg(0), depth + 1)
            return False

        def stores(t):
            """values stored in update chains read by t, whatever the base array"""
            todo = [t]; seen = set()
            while todo and len(seen) < 400:
                e = todo.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE:
                    v = ival(e.arg(2))
                    if v is not None: yield v
                todo += e.children()
        exact = walk(o)
        if not exact:
            ext = leaves | set(stores(o))
            if ext and self.entails(st, z3.Or(*[o == v for v in sorted(ext)])): exact = True; leaves = ext
        if exact:
            res = []
            for v in sorted(leaves):
                if self.feasible(st, o == v): res.append(v)
            if len(res) == 1:
                st.assume(o == res[0]); return [(st, res[0])]
            out = []
            for v in res:
                s = st.clone(); s.assume(o == v); out.append((s, v))
            return out
        # symbolic: ask the solver
        fs = [f for f in st.pc]
        light = [f for f in fs if not has_quant(f)]
        found = []
        for _ in range(4):
            q = light + [o != v for v in found]
            r, s = self._check(q, 1500)
            if r != z3.sat: break
            v = s.model().eval(o, model_completion=True).as_long()
            # full check that v is the only one
            r2, _ = self._check(fs + [o != w for w in found + [v]], self.houdini_timeout)
            if r2 == z3.unsat:
                found.append(v)
                ok = [w for w in found]
                if len(ok) == 1:
                    return [(st, ok[0])]
                outs = []
                for w in ok:
                    s3 = st.clone(); s3.assume(o == w); outs.append((s3, w))
                return outs
            # maybe v itself is spurious: try known objects
            hit = False
            for w in sorted(self.info):
                if w in found: continue
                if w in st.mem and self._check(fs + [o != w], self.houdini_timeout)[0] == z3.unsat:
                    return [(st, w)]
            found.append(v)
        raise Unsupported('pointer target cannot be resolved: %s (%s)' % (o, inst))

    def lookup_ready(self, st, p, inst, what):
        outs = []
        for s, oid in self.resolve(st, p, inst):
            if oid == 0:
                self.oblige(s, z3.BoolVal(False), 'null-' + what, inst)
                continue
            if oid not in s.mem:
                self.oblige(s, z3.BoolVal(False), 'wild-pointer-' + what, inst)
                continue
            if not s.mem[oid].alive:
                self.oblige(s, z3.BoolVal(False), 'use-after-free-' + what, inst)
                continue
            outs.append((s, oid))
        return outs

    def type_heap(self, st, oid, ty):
        o = self.info[oid]
        if o.n is None and o.bytes is not None and o.es is None:
            o.ty = ty; o.es = self.mod.size(ty)
            b = o.bytes
            n = None
            if o.es == 1: n = b
            else:
                c = ival(b)
                if c is not None: n = I(c // o.es)
                elif z3.is_app(b) and b.decl().kind() == z3.Z3_OP_MUL and b.num_args() == 2:
                    for i in (0, 1):
                        if ival(b.arg(i)) == o.es: n = b.arg(1 - i)
                if n is None: n = b / o.es
            o.n = n
            return True
        return False

    def norm(self, st, p, oid):
        """normalise (idx,off) against the element size; returns (idx, off:int)"""
        o = self.info[oid]
        off = simp(p.off)
        c = ival(off)
        if o.n is None:
            i = simp(p.idx)
            if ival(i) != 0: raise Unsupported('indexing into a non-array object %s idx %s' % (o.name, i))
            if c is None: raise Unsupported('symbolic offset into %s' % o.name)
            return I(0), c
        if c is not None:
            k = c // o.es
            return (simp(p.idx + k) if k else p.idx), c - k * o.es
        if o.es == 1: return simp(p.idx + off), 0
        # symbolic byte offset: divide
        q = simp(off / o.es)
        return simp(p.idx + q), 0

    def bounds(self, st, oid, idx, row, inst, what):
        o = self.info[oid]
        if o.bnd is not None: return o.bnd(self, st, oid, idx, row, inst, what)
        n = self.obj_len(st, oid)
        if o.rows is not None:
            self.oblige(st, z3.And(row >= 0, row < o.rows), 'row-bounds-' + what, inst)
            if o.flen is not None: n = o.flen(st, row)
        self.oblige(st, z3.And(idx >= 0, idx < n), 'bounds-' + what, inst)

    # ------------------------------------------------------------------ load / store
    def load(self, st, p, ty, inst=None):
        """list of (state, value)"""
        out = []
        for s, oid in self.lookup_ready(st, p, inst, 'load'):
            try:
                out.append((s, self.load1(s, p, oid, ty, inst)))
            except PathEnd:
                pass
        return out

    def in_range(self, st, v, ty):
        if ty.k == 'int' and ty.bits > 1 and not is_const(v):
            st.assume(z3.And(v >= -(1 << (ty.bits - 1)), v <= (1 << (ty.bits - 1)) - 1))

    def load1(self, st, p, oid, ty, inst=None):
        o = self.info[oid]
        self.type_heap(st, oid, ty)
        if o.kind == 'map' and ty.k == 'int' and o.ty.kt != 'string' and ival(simp(p.off)) == 0:     # the key of a map element is its place
            self.in_range(st, p.idx, ty)
            return p.idx
        idx, off = self.norm(st, p, oid)
        if ty.k == 'struct' and (o.n is None):
            offs = self.mod.offsets(ty)
            return [self.load1(st, p.with_(off=simp(p.off + a)), oid, f, inst) for a, f in zip(offs, ty.fields)]
        s = st.mem[oid]
        if o.n is None:
            c = s.cells.get(off)
            if c is None:
                # coercion of several fields?
                if ty.k == 'int' and ty.bits > 8:
                    parts = [(k - off, t, v) for k, (t, v) in sorted(s.cells.items()) if off <= k < off + ty.bits // 8]
                    if parts and o.kind != 'global': return Packed(parts)
                if any(a <= off and off + self.mod.size(ty) <= b for a, b in s.z):
                    for k, (t, v) in s.cells.items():
                        if t == 'stl' or k < off + self.mod.size(ty) and off < k + self.mod.size(t): raise Unsupported('overlapping field of %s' % o.name)
                    st.w(oid).cells[off] = (ty, self.zero(ty))
                    return self.zero(ty)
                v = self.init_cell(st, oid, off, ty)
                return v
            t, v = c
            if t == 'stl': raise Unsupported('raw load of a library object %s' % o.name)
            if same(t, ty): return v
            if ty.k == 'int' and t.k == 'int' and ty.bits > t.bits:
                parts = [(k - off, t2, v2) for k, (t2, v2) in sorted(s.cells.items()) if off <= k < off + ty.bits // 8]
                return Packed(parts)
            if isinstance(v, Packed):
                for (bo, t2, v2) in v.parts:
                    if bo == 0 and same(t2, ty): return v2
            return self.pun(st, t, v, ty)
        self.bounds(st, oid, idx, p.row, inst, 'load')
        a = s.arrs.get(off)
        if a is None:
            c = self.init_arr(st, oid, off, ty, o.name)
            a = (ty, c)
        t, c = a
        if not same(t, ty): raise Unsupported('array %s holds %r, loaded as %r' % (o.name, t, ty))
        if ty.k == 'ptr':
            return Ptr(*[simp(z3.Select(x, idx)) for x in c])
        v = z3.Select(z3.Select(c, p.row), idx) if o.rows is not None else z3.Select(c, idx)
        v = simp_sel(v)
        self.in_range(st, v, ty)
        if ty.k == 'float': self.mark32(v)
        return v

    def pun(self, st, t, v, ty):
        raise Unsupported('type punning %r as %r' % (t, ty))

    def init_cell(self, st, oid, off, ty):
        v = self.fresh(st, ty, self.info[oid].name + '+%d' % off)
        st.w(oid).cells[off] = (ty, v)
        return v

    def store(self, st, p, ty, v, inst=None):
        outs = []
        for s, oid in self.lookup_ready(st, p, inst, 'store'):
            try:
                self.store1(s, p, oid, ty, v, inst); outs.append(s)
            except PathEnd:
                pass
        return outs

    def store1(self, st, p, oid, ty, v, inst=None):
        o = self.info[oid]
        if o.kind == 'const': self.fail(st, 'write-to-constant', inst)
        self.type_heap(st, oid, ty)
        idx, off = self.norm(st, p, oid)
        if ty.k == 'struct' and o.n is None:
            if v is UNDEF: return
            for a, f, x in zip(self.mod.offsets(ty), ty.fields, v):
                self.store1(st, p.with_(off=simp(p.off + a)), oid, f, x, inst)
            return
        if isinstance(v, Packed):
            for (bo, t, x) in v.parts:
                self.store1(st, p.with_(off=simp(p.off + bo)), oid, t, x, inst)
            return
        if v is UNDEF: v = self.fresh(st, ty, 'undef')
        if o.n is None:
            s = st.w(oid)
            # kill overlapping cells
            sz = self.mod.size(ty)
            for k in [k for k in s.cells if k != off and off < k < off + sz]: del s.cells[k]
            s.cells[off] = (ty, v)
            self.mark_write(oid, off)
            return
        self.bounds(st, oid, idx, p.row, inst, 'store')
        s = st.w(oid)
        a = s.arrs.get(off)
        if a is None:
            self.init_arr(st, oid, off, ty, o.name); s = st.w(oid); a = s.arrs[off]
        t, c = a
        if not same(t, ty): raise Unsupported('array %s holds %r, stored as %r' % (o.name, t, ty))
        if ty.k == 'ptr':
            if isinstance(v, FnPtr): raise Unsupported('function pointer in array')
            c = tuple(z3.Store(x, idx, y) for x, y in zip(c, v.comps()))
        elif o.rows is not None:
            c = z3.Store(c, p.row, z3.Store(z3.Select(c, p.row), idx, v))
        else:
            c = z3.Store(c, idx, v)
        s.arrs[off] = (t, c)
        self.mark_write(oid, off)

    # ------------------------------------------------------------------ operands
    def glob(self, st, nm):
        if nm in self.mod.fn_text or nm in self.mod.decl_text or nm in self.mod.alias: return FnPtr(nm)
        oid = self.globals_obj.get(nm)
        if oid is None:
            d = self.mod.global_def(nm)
            if d is None: raise Unsupported('global ' + nm)
            t, init, const = d
            if nm.startswith(('@_ZTI', '@_ZTV')): init = None
            oid = next(self.oid)
            o = ObjInfo(oid, nm, 'const' if const else 'global')
            o.ty = t
            self.info[oid] = o
            self.globals_obj[nm] = oid
            s = ObjSt()
            if t.k == 'array' and t.elt.k != 'struct':
                o.n = I(t.n); o.es = self.mod.size(t.elt); o.ty = t.elt
                if init and init[0] == 'cstr':
                    o.tag = init[1]
                    a = z3.K(z3.IntSort(), I(0))
                    for i, b in enumerate(init[1]):
                        a = z3.Store(a, i, I(b if b < 128 else b - 256))
                    s.arrs[0] = (INT[8], a)
                elif init and init[0] == 'zeroinitializer':
                    if t.elt.k == 'int' and t.elt.bits == 8 and t.n == 1: o.tag = b'\0'
                    if t.elt.k != 'ptr' and t.elt.k != 'array':
                        s.arrs[0] = (t.elt, z3.K(z3.IntSort(), self.zero(t.elt)))
                elif init and init[0] == 'agg' and t.elt.k in ('int', 'float', 'double'):
                    a = z3.K(z3.IntSort(), self.zero(t.elt))
                    for i, (tt, vv) in enumerate(init[1]): a = z3.Store(a, i, self.constv(None, tt, vv))
                    s.arrs[0] = (t.elt, a)
                elif init and init[0] == 'agg' and t.elt.k == 'ptr':
                    cs = [z3.K(z3.IntSort(), I(0)) for _ in range(4)]
                    for i, (tt, vv) in enumerate(init[1]):
                        pv = self.constv(None, tt, vv)
                        cs = [z3.Store(x, i, y) for x, y in zip(cs, pv.comps())]
                    s.arrs[0] = (PTR, tuple(cs))
            elif init is not None and (const or self.never_stored(nm)):
                if t.k in ('int', 'float', 'double', 'ptr'):
                    s.cells[0] = (t, self.constv(None, t, init))
                elif t.k == 'array' and init[0] == 'agg':   # array of structs, constant
                    sz = self.mod.size(t.elt); offs = self.mod.offsets(t.elt)
                    for i, (tt, vv) in enumerate(init[1]):
                        if vv[0] == 'agg':
                            for a, (t2, v2) in zip(offs, vv[1]):
                                s.cells[i * sz + a] = (t2, self.constv(None, t2, v2))
            self._gmem = getattr(self, '_gmem', {})
            self._gmem[oid] = s
        if st is not None and oid not in st.mem: st.mem[oid] = self._gmem[oid]
        if st is not None:
            for k, v in list(self._gmem.items()):
                if k not in st.mem: st.mem[k] = v
        return Ptr(oid)

    def never_stored(self, nm):
        """an internal variable no instruction of the module stores to keeps its initializer"""
        if not hasattr(self, '_stored'):
            self._stored = set()
            for h, body in self.mod.fn_text.values():
                for L in body:
                    if ' @' in L:
                        m = re.search(r'store .*, ptr (@[-\w.$]+|@"[^"]*")', L)
                        if m: self._stored.add(m.group(1))
        if nm in self._stored: return False
        if not self.mod.globals[nm].startswith('internal'): return False
        self.assumptions.add('module-internal globals that are never stored to keep their initializers')
        return True

    def zero(self, ty):
        if ty.k == 'int': return I(0) if ty.bits > 1 else z3.BoolVal(False)
        if ty.k in ('float', 'double'): return self.fconst(0.0, ty)
        if ty.k == 'ptr': return NULL
        if ty.k == 'struct': return [self.zero(f) for f in ty.fields]
        raise Unsupported('zero of %r' % ty)

    def fconst(self, x, ty):
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('non-finite float constant in the real domain')
        f = Fraction(x)
        v = z3.RealVal(0) + 0 if False else z3.Q(f.numerator, f.denominator)
        v = simp(v)
        if ty.k == 'float': self.mark32(v)
        return v

    def constv(self, st, ty, v):
        k = v[0]
        if k == 'int':
            if ty.k == 'int' and ty.bits == 1: return z3.BoolVal(bool(v[1]))
            return I(v[1])
        if k == 'f': return self.fconst(v[1], ty)
        if k == 'null': return NULL
        if k in ('undef', 'poison'): return UNDEF
        if k == 'zeroinitializer': return self.zero(ty)
        if k == 'glob': return self.glob(st, v[1])
        if k == 'cgep':
            st_ty, ops = v[1], v[2]
            base = self.constv(st, *ops[0])
            return self.gep(st, st_ty, base, [(t, self.constv(st, t, x)) for t, x in ops[1:]])
        if k == 'agg': return [self.constv(st, t, x) for t, x in v[1]]
        if k == 'ccast' and v[1] in ('bitcast', 'addrspacecast'): return self.constv(st, *v[2])
        raise Unsupported('constant %r' % (v,))

    def op(self, st, tv):
        t, v = tv[0], tv[1]
        if v[0] == 'reg':
            r = st.frames[-1].regs
            if v[1] not in r: raise Unsupported('undefined register ' + v[1])
            return r[v[1]]
        return self.constv(st, t, v)

    def gep(self, st, sty, base, idx):
        if isinstance(base, FnPtr): raise Unsupported('gep on function')
        t0, i0 = idx[0]
        p = base
        c = ival(i0)
        sz = self.mod.size(sty)
        if c is not None:
            if c != 0: p = self.add_elems(st, p, I(c), sty, sz)
        else:
            p = self.add_elems(st, p, i0, sty, sz)
        t = sty
        for (it, iv) in idx[1:]:
            if t.k == 'struct':
                k = ival(iv)
                p = p.with_(off=simp(p.off + self.mod.offsets(t)[k])); t = t.fields[k]
            elif t.k in ('array', 'vector'):
                k = ival(iv)
                es = self.mod.size(t.elt)
                if k is not None: p = p.with_(off=simp(p.off + k * es))
                else: p = self.add_elems(st, p, iv, t.elt, es)
                t = t.elt
            else: raise Unsupported('gep into %r' % t)
        return p

    def add_elems(self, st, p, i, ty, sz):
        oid = ival(p.obj)
        if oid is not None and oid in self.info:
            o = self.info[oid]
            self.type_heap(st, oid, ty)
            if o.n is not None and o.es == sz: return p.with_(idx=simp(p.idx + i))
            k = ival(i)
            if k is not None: return p.with_(off=simp(p.off + k * sz))
            if o.n is not None and sz % o.es == 0: return p.with_(idx=simp(p.idx + i * (sz // o.es)))
            return p.with_(off=simp(p.off + i * sz))
        # unresolved object: element index in units of the accessed type (checked again at the access)
        k = ival(i)
        return p.with_(idx=simp(p.idx + i)) if oid is None else p.with_(off=simp(p.off + i * sz))

    # ------------------------------------------------------------------ integer helpers
    def wrap(self, st, x, bits):
        lo, hi, m = -(1 << (bits - 1)), (1 << (bits - 1)) - 1, 1 << bits
        x = simp(x)
        c = ival(x)
        if c is not None: return I((c - lo) % m + lo)
        if self.entails(st, z3.And(x >= lo, x <= hi)): return x
        return (x - lo) % m + lo

    def tou(self, st, x, bits):
        c = ival(x)
        if c is not None: return I(c % (1 << bits))
        if self.entails(st, x >= 0): return x
        return z3.If(x < 0, x + (1 << bits), x)

    def arith(self, st, inst, op, a, b, bits):
        fl = inst.flags
        lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        if op in ('add', 'sub', 'mul'):
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[op]()
            r = simp(r)
            if 'nsw' in fl:
                if self.check_overflow:
                    self.oblige(st, z3.And(r >= lo, r <= hi), 'signed-overflow', inst)
                else:
                    self.assumptions.add('signed overflow not checked')
                    st.assume(z3.And(r >= lo, r <= hi))
                return r
            return self.wrap(st, r, bits)
        if op == 'sdiv':
            self.oblige(st, b != 0, 'division-by-zero', inst)
            if ival(b) != None and ival(b) > 0:
                if self.entails(st, a >= 0): return simp(a / b)
                return z3.If(a >= 0, a / b, -((-a) / b))
            self.oblige(st, z3.Not(z3.And(a == lo, b == -1)), 'signed-overflow', inst)
            if self.entails(st, z3.And(a >= 0, b > 0)): return a / b
            q = z3.If(z3.And(a >= 0, b > 0), a / b, z3.If(z3.And(a < 0, b > 0), -((-a) / b), z3.If(z3.And(a >= 0, b < 0), -(a / (-b)), (-a) / (-b))))
            return q
        if op == 'srem':
            self.oblige(st, b != 0, 'division-by-zero', inst)
            if ival(b) is not None and ival(b) > 0:
                if self.entails(st, a >= 0): return simp(a % b)
                return z3.If(a >= 0, a % b, -((-a) % b))
            if self.entails(st, z3.And(a >= 0, b > 0)): return a % b
            bb = z3.If(b < 0, -b, b)
            return z3.If(a >= 0, a % bb, -((-a) % bb))
        if op in ('udiv', 'urem'):
            self.oblige(st, b != 0, 'division-by-zero', inst)
            ua, ub = self.tou(st, a, bits), self.tou(st, b, bits)
            return self.wrap(st, ua / ub if op == 'udiv' else ua % ub, bits)
        cb = ival(b)
        if op == 'and':
            if cb is not None and cb >= 0 and (cb & (cb + 1)) == 0: return simp(self.tou(st, a, bits) % (cb + 1))
            ca = ival(a)
            if cb is not None and ca is not None: return I(((ca & cb) + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1)))
        if op == 'shl' and cb is not None: return self.wrap(st, a * (1 << cb), bits)
        if op == 'lshr' and cb is not None: return self.wrap(st, self.tou(st, a, bits) / (1 << cb), bits)
        if op == 'ashr' and cb is not None: return simp(a / (1 << cb))
        if op == 'xor' and cb == -1: return simp(-a - 1)
        if op in ('or', 'and', 'xor'):
            ca = ival(a)
            if ca is not None and cb is not None:
                r = {'or': ca | cb, 'and': ca & cb, 'xor': ca ^ cb}[op]
                return I((r + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1)))
            if op == 'or' and 'disjoint' in fl: return simp(a + b)
        return self.fresh_int(st, op, bits)

    def fround(self, v, ty):
        if ty.k != 'float': return simp(v)
        v = simp(v)
        if self.exact_float:
            self.assumptions.add('float arithmetic is exact (rounding ignored)'); return self.mark32(v)
        if self.is32(v): return v
        if z3.is_rational_value(v):
            import struct as _s
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            try:
                g = Fraction(_s.unpack('f', _s.pack('f', float(f)))[0])
                if g == f: return self.mark32(v)
                r = z3.Q(g.numerator, g.denominator); r = simp(r)
                return self.mark32(r)
            except (OverflowError, ValueError):
                pass
        r = RND32(v)
        return self.mark32(r)

    # ------------------------------------------------------------------ execution
    def step_call_stack(self, st): pass

    def loops(self, fn):
        if fn._loops is None:
            fn._loops = find_loops(fn)
        return fn._loops

    def succs(self, inst):
        if inst.op == 'br': return inst.x
        if inst.op == 'switch': return [inst.x[0]] + [l for _, l in inst.x[1]]
        if inst.op == 'invoke': return [inst.x[1]]
        return []

    def explore(self, states, bound=None):
        """run states to the boundary. bound = (depth, header, blocks). returns (backs, exits, rets)"""
        work = list(states); backs = []; exits = []; rets = []
        while work:
            st = work.pop()
            try:
                for s, ev in self.run_block(st, bound):
                    if ev is None: work.append(s)
                    elif ev == 'back': backs.append(s)
                    elif ev == 'exit': exits.append(s)
                    elif ev == 'ret': rets.append(s)
            except PathEnd:
                pass
        return backs, exits, rets

    def jump(self, st, target, bound):
        """list of (state, event)"""
        f = st.frames[-1]
        depth = len(st.frames)
        src = f.blk
        if bound is not None and depth == bound[0]:
            if target == bound[1]:
                f.prev = src; f.blk = target; f.ip = 0
                return [(st, 'back')]
            if target not in bound[2]:
                f.prev = src; f.blk = target; f.ip = 0
                return [(st, 'exit')]
        lp = self.loops(f.fn).get(target)
        f.prev = src; f.blk = target; f.ip = 0
        if lp is not None and src not in lp:
            return [(s, None) if not (bound is not None and len(s.frames) == bound[0] and s.frames[-1].blk not in bound[2] and s.frames[-1].blk != bound[1]) and not
                    (bound is not None and len(s.frames) == bound[0] and s.frames[-1].blk == bound[1])
                    else (s, 'back' if s.frames[-1].blk == bound[1] else 'exit') for s in self.enter_after_loop(self.do_loop(st, target, lp, depth))]
        return [(st, None)]

    def enter_after_loop(self, states):
        """exit states of a loop sit at the exit block's start, possibly itself a loop header"""
        out = []
        for s in states:
            f = s.frames[-1]
            lp = self.loops(f.fn).get(f.blk)
            if lp is not None and f.prev not in lp:
                out.extend(self.enter_after_loop(self.do_loop(s, f.blk, lp, len(s.frames))))
            else:
                out.append(s)
        return out

    def run_block(self, st, bound):
        f = st.frames[-1]
        blk = f.fn.blocks[f.blk]
        if f.ip == 0:
            # phis
            vals = {}
            for k, inst in enumerate(blk):
                if inst.op != 'phi': break
                if inst.res in f.regs and f.regs.get('#phi') == f.blk:
                    vals[inst.res] = f.regs[inst.res]
                else:
                    for v, l in inst.x:
                        if l == f.prev:
                            vals[inst.res] = self.op(st, (inst.ty, v)); break
                f.ip = k + 1
            f.regs.pop('#phi', None)
            f.regs.update(vals)
        states = [st]
        while True:
            f = st.frames[-1]
            blk = f.fn.blocks[f.blk]
            inst = blk[f.ip]
            op = inst.op
            f.ip += 1
            if op == 'br':
                if not inst.a: return self.jump(st, inst.x[0], bound)
                c = simp(self.op(st, inst.a[0])) if self.op(st, inst.a[0]) is not UNDEF else z3.Bool(self.nm('undef'))
                if z3.is_true(c): return self.jump(st, inst.x[0], bound)
                if z3.is_false(c): return self.jump(st, inst.x[1], bound)
                out = []
                a = self.feasible(st, c); b = self.feasible(st, z3.Not(c))
                if a and b:
                    s2 = st.clone()
                    s2.assume(z3.Not(c)); st.assume(c)
                    out += self.jump(s2, inst.x[1], bound) + self.jump(st, inst.x[0], bound)
                elif a: st.assume(c); out = self.jump(st, inst.x[0], bound)
                elif b: st.assume(z3.Not(c)); out = self.jump(st, inst.x[1], bound)
                return out
            if op == 'switch':
                v = self.op(st, inst.a[0])
                out = []; neg = []
                for (ct, cv), l in inst.x[1]:
                    cc = simp(v == self.constv(st, ct, cv))
                    if not z3.is_false(cc) and self.feasible(st, cc):
                        s2 = st.clone(); s2.assume(cc); out += self.jump(s2, l, bound)
                    neg.append(z3.Not(cc))
                d = simp(z3.And(*neg)) if neg else z3.BoolVal(True)
                if self.feasible(st, d):
                    st.assume(d); out += self.jump(st, inst.x[0], bound)
                return out
            if op == 'ret':
                v = self.op(st, inst.a[0]) if inst.a else None
                return self.do_ret(st, v, bound)
            if op == 'unreachable':
                raise PathEnd()
            if op in ('call', 'invoke'):
                if self.callee_name(inst, st).startswith('@llvm.dbg') : continue
                res = self.do_call(st, inst)
                if res is None: return [(st, None)] if st.frames[-1] is not f else self._cont([st], inst, bound)
                return self._cont(res, inst, bound)
            if op in ('landingpad', 'resume'): raise PathEnd()
            r = self.simple(st, inst)
            if isinstance(r, list):
                # several successor states
                if len(r) == 1 and r[0] is st: continue
                return [(s, None) for s in r]

    def _cont(self, states, inst, bound):
        out = []
        for s in states:
            if inst.op == 'invoke' and s.frames[-1].fn.blocks[s.frames[-1].blk][s.frames[-1].ip - 1] is inst:
                out += self.jump(s, inst.x[1], bound)
            else:
                out.append((s, None))
        return out

    def do_ret(self, st, v, bound):
        f = st.frames.pop()
        if bound is not None and len(st.frames) < bound[0]:
            # return out of a loop's own frame (cannot happen for -O0 code: the return block is outside the loop)
            pass
        for oid in f.allocas.values():
            st.mem[oid] = ObjSt(alive=False) if oid in st.mem else None
        if not st.frames:
            st.ret = v
            return [(st, 'ret')]
        if f.res == '#sub':   # sub-exploration of a callee: hand back
            st.ret = v
            return [(st, 'ret')]
        g = st.frames[-1]
        if f.res is not None: g.regs[f.res] = v
        if f.nl is not None: return self.jump(st, f.nl, bound)
        return [(st, None)]

    # ------------------------------------------------------------------ simple instructions
    def simple(self, st, inst):
        f = st.frames[-1]; op = inst.op; R = f.regs
        if op == 'alloca':
            oid = next(self.oid)
            o = ObjInfo(oid, inst.res, 'alloca')
            self.info[oid] = o
            t = inst.ty
            if t.k == 'array' and t.elt.k in ('int', 'float', 'double', 'ptr'):
                o.n = I(t.n); o.es = self.mod.size(t.elt); o.ty = t.elt
            else: o.ty = t
            st.mem[oid] = ObjSt()
            f.allocas[inst.res] = oid
            R[inst.res] = Ptr(oid)
            return
        if op == 'load':
            p = self.op(st, inst.a[0])
            if isinstance(p, FnPtr): raise Unsupported('load of function')
            outs = self.load(st, p, inst.ty, inst)
            if not outs: raise PathEnd()
            for s, v in outs: s.frames[-1].regs[inst.res] = v
            return [s for s, _ in outs]
        if op == 'store':
            v = self.op(st, inst.a[0]); p = self.op(st, inst.a[1])
            outs = self.store(st, p, inst.a[0][0], v, inst)
            if not outs: raise PathEnd()
            return outs
        if op == 'getelementptr':
            base = self.op(st, inst.a[0])
            idx = [(t, self.op(st, (t, v))) for t, v in inst.a[1:]]
            oid = ival(simp(base.obj)) if isinstance(base, Ptr) else None
            if oid is None and isinstance(base, Ptr):
                rs = self.resolve(st, base, inst)
                out = []
                for s, o in rs:
                    b = base.with_(obj=o)
                    s.frames[-1].regs[inst.res] = self.gep(s, inst.ty, b, idx)
                    out.append(s)
                return out
            R[inst.res] = self.gep(st, inst.ty, base, idx)
            return
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.op(st, inst.a[0]); b = self.op(st, inst.a[1])
            if isinstance(a, PtrInt) and isinstance(b, PtrInt) and op == 'sub':
                R[inst.res] = self.ptrsub(st, a.p, b.p, inst); return
            if a is UNDEF: a = self.fresh(st, inst.ty, 'undef')
            if b is UNDEF: b = self.fresh(st, inst.ty, 'undef')
            if inst.ty.bits == 1:
                R[inst.res] = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b); return
            a = self.unpack(a); b = self.unpack(b)
            R[inst.res] = self.arith(st, inst, op, a, b, inst.ty.bits)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a = self.op(st, inst.a[0]); b = self.op(st, inst.a[1])
            R[inst.res] = self.farith(st, inst, op, a, b); return
        if op == 'fneg':
            a = self.op(st, inst.a[0]); r = simp(-a)
            if self.is32(a): self.mark32(r)
            R[inst.res] = r; return
        if op == 'icmp':
            a = self.op(st, inst.a[0]); b = self.op(st, inst.a[1])
            R[inst.res] = self.icmp(st, inst, inst.x, inst.a[0][0], a, b); return
        if op == 'fcmp':
            R[inst.res] = self.fcmp(st, inst, self.op(st, inst.a[0]), self.op(st, inst.a[1])); return
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            R[inst.res] = self.cast(st, inst, op, self.op(st, inst.a[0]), inst.a[0][0], inst.ty); return
        if op == 'select':
            c = simp(self.op(st, inst.a[0])); a = self.op(st, inst.a[1]); b = self.op(st, inst.a[2])
            if z3.is_true(c): R[inst.res] = a
            elif z3.is_false(c): R[inst.res] = b
            else: R[inst.res] = self.ite(c, a, b)
            return
        if op == 'extractvalue':
            v = self.op(st, inst.a[0])
            for k in inst.x: v = v[k]
            R[inst.res] = v; return
        if op == 'insertvalue':
            v = self.op(st, inst.a[0])
            if v is UNDEF: v = [UNDEF] * len(inst.a[0][0].fields)
            v = list(v)
            if len(inst.x) != 1: raise Unsupported('nested insertvalue')
            v[inst.x[0]] = self.op(st, inst.a[1])
            R[inst.res] = v; return
        if op == 'freeze': R[inst.res] = self.op(st, inst.a[0]); return
        if op == 'fence': return
        raise Unsupported('instruction ' + op + ': ' + inst.text[:100])

    def unpack(self, v):
        if isinstance(v, Packed): raise Unsupported('arithmetic on a coerced aggregate')
        return v

    def ite(self, c, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return Ptr(*[x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a.comps(), b.comps())])
        if isinstance(a, (Ptr, FnPtr, PtrInt, Packed, Undef)) or isinstance(b, (Ptr, FnPtr, PtrInt, Packed, Undef)):
            if a is b: return a
            raise Unsupported('select of mixed values')
        if isinstance(a, list): return [self.ite(c, x, y) for x, y in zip(a, b)]
        if a.eq(b): return a
        r = z3.If(c, a, b)
        if self.is32(a) and self.is32(b): self.mark32(r)
        return r

    def ptrsub(self, st, a, b, inst):
        oa, ob = ival(simp(a.obj)), ival(simp(b.obj))
        if oa is None or ob is None:
            if not self.entails(st, a.obj == b.obj, quant=True): raise Unsupported('pointer difference of unresolved pointers')
            c = [k for k in self.info if self.entails(st, a.obj == k, quant=True)]
            if not c: raise Unsupported('pointer difference of unresolved pointers')
            oa = ob = c[0]
        self.oblige(st, z3.BoolVal(oa == ob), 'pointer-difference-same-object', inst)
        es = self.info[oa].es or 1
        return simp((a.idx - b.idx) * es + (a.off - b.off))

    def icmp(self, st, inst, pred, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return z3.BoolVal(e if pred == 'eq' else not e)
            if pred in ('eq', 'ne'):
                # canonical null is object 0 whatever idx/off
                an = ival(simp(a.obj)) == 0; bn = ival(simp(b.obj)) == 0
                if an or bn: e = simp((b.obj if an else a.obj) == 0)
                else:
                    e = simp(z3.And(*[x == y for x, y in zip(a.comps(), b.comps())]))
                    if self.icmps and not is_const(e):
                        self.icmps[-1].append((a.idx, b.idx))
                return e if pred == 'eq' else simp(z3.Not(e))
            x = a.idx; y = b.idx
            self.oblige(st, a.obj == b.obj, 'pointer-comparison-same-object', inst)
            if self.icmps: self.icmps[-1].append((x, y))
            return simp({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])
        if a is UNDEF: a = self.fresh(st, ty, 'undef')
        if b is UNDEF: b = self.fresh(st, ty, 'undef')
        if ty.bits == 1:
            e = simp(a == b)
            return e if pred == 'eq' else simp(z3.Not(e))
        if isinstance(a, PtrInt) or isinstance(b, PtrInt): raise Unsupported('compare ptrtoint')
        a = self.unpack(a); b = self.unpack(b)
        if pred[0] == 'u':
            a = self.tou(st, a, ty.bits); b = self.tou(st, b, ty.bits)
        if self.icmps:
            self.icmps[-1].append((a, b))
        return simp({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b,
                     'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}.get(pred))

    def fcmp(self, st, inst, a, b):
        p = inst.x
        self.assumptions.add('floating-point values are finite reals (no NaN, infinity, rounding of double arithmetic)')
        if p == 'uno': return z3.BoolVal(False)
        if p == 'ord': return z3.BoolVal(True)
        k = p[1:]
        return simp({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])

    def farith(self, st, inst, op, a, b):
        if a is UNDEF: a = self.fresh(st, inst.ty)
        if b is UNDEF: b = self.fresh(st, inst.ty)
        if op == 'fdiv':
            c = ival_real(b)
            if c is not None and c != 0: return self.fround(a / b, inst.ty)
            # the quotient is a function of its operands; IEEE division by zero is defined (inf/nan): value unconstrained in that case
            q = FDIV(a, b)
            st.assume(z3.Implies(b != 0, q * b == a))
            return self.fround(q, inst.ty)
        r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b}.get(op)
        if r is None: raise Unsupported(op)
        return self.fround(r(), inst.ty)

    def cast(self, st, inst, op, v, ft, tt):
        if v is UNDEF: return self.fresh(st, tt, 'undef')
        if isinstance(v, Packed):
            if op == 'trunc':
                for bo, t, x in v.parts:
                    if bo == 0 and same(t, tt): return x
            raise Unsupported('cast of a coerced aggregate')
        if op == 'sext':
            if ft.bits == 1: return z3.If(v, I(-1), I(0))
            return v
        if op == 'zext':
            if ft.bits == 1: return simp(z3.If(v, I(1), I(0)))
            return self.tou(st, v, ft.bits)
        if op == 'trunc':
            if tt.bits == 1:
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and ival(v.arg(1)) == 1 and ival(v.arg(2)) == 0:
                    return v.arg(0)
                c = ival(v)
                if c is not None: return z3.BoolVal(c % 2 == 1)
                return simp(v % 2 == 1)
            return self.wrap(st, v, tt.bits)
        if op == 'fptosi':
            lo, hi = -(1 << (tt.bits - 1)), (1 << (tt.bits - 1)) - 1
            r = self.real_trunc(st, v)
            if self.check_f2i: self.oblige(st, z3.And(r >= lo, r <= hi), 'float-to-int-range', inst)
            else:
                self.assumptions.add('float-to-int conversions assumed in range')
                st.assume(z3.And(r >= lo, r <= hi))
            # dropping the fraction of a float gives a float: converting back is exact
            if self.is32(v): self.mark32(simp(z3.ToReal(r)))
            return r
        if op == 'fptoui':
            r = self.real_trunc(st, v)
            if self.check_f2i: self.oblige(st, z3.And(r >= 0, r <= (1 << tt.bits) - 1), 'float-to-int-range', inst)
            else: st.assume(z3.And(r >= 0, r <= (1 << tt.bits) - 1))
            return self.wrap(st, r, tt.bits)
        if op == 'sitofp': return self.fround(z3.ToReal(v), tt) if tt.k == 'float' else simp(z3.ToReal(v))
        if op == 'uitofp':
            u = self.tou(st, v, ft.bits) if ft.bits > 1 else z3.If(v, I(1), I(0))
            return self.fround(z3.ToReal(u), tt)
        if op == 'fpext': return v
        if op == 'fptrunc': return self.fround(v, tt)
        if op == 'ptrtoint': return PtrInt(v)
        if op == 'inttoptr' and isinstance(v, PtrInt): return v.p
        if op == 'bitcast': return v
        raise Unsupported('cast %s' % inst.text)

    def real_trunc(self, st, v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
        v = simp(v)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
        if z3.is_rational_value(v):
            f = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return I(int(f))
        if self.entails(st, v >= 0): return z3.ToInt(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    # ------------------------------------------------------------------ calls
    def callee_name(self, inst, st=None):
        c = inst.x[0]
        if c[0] == 'glob': return c[1]
        if c[0] == 'reg' and st is not None:
            v = st.frames[-1].regs.get(c[1])
            if isinstance(v, FnPtr): return v.name
        return '?indirect'

    def do_call(self, st, inst):
        """list of states with the result register set (or None: frame pushed)"""
        name = self.callee_name(inst, st)
        if name.startswith('@llvm.'):
            return self.intrinsic(st, inst, name)
        args = []
        for a in inst.a:
            args.append(self.op(st, (a[0], a[1])))
        sig = self.mod.dem(name)
        sp = self.specs.get(sig)
        if sp is None and (name in self.specs): sp = self.specs[name]
        if sp is not None and not (self.verifying == sig and not st_recursive(st)):
            return self.finish(sp.apply(self, st, args, inst), inst)
        for rx, h in self.models:
            if rx.match(sig) or rx.match(name):
                r = h(self, st, args, inst, sig)
                if r is NotImplemented: continue
                return self.finish(r, inst)
        fn = self.mod.fn(name)
        if fn is None: raise Unsupported('call of %s: no body and no assumed contract' % sig)
        if len(st.frames) > self.max_inline: raise Unsupported('inlining depth at ' + sig)
        if any(fr.fn is fn for fr in st.frames): raise Unsupported('recursion without a contract: ' + sig)
        self.inlined.add(sig)
        fr = Frame(fn)
        for (t, nm, at), v in zip(fn.params, args): fr.regs[nm] = v
        fr.depth = len(st.frames)
        if self.merge_calls and self.mergeable(fn):
            # run the callee to its returns and merge
            fr.res = '#sub'
            n0 = len(st.pc)
            st.frames.append(fr)
            _, _, rets = self.explore([st], None)
            rets = self.merge_states(rets, n0)
            for s in rets:
                if inst.res is not None: s.frames[-1].regs[inst.res] = s.ret
                s.ret = None
            return rets
        fr.res = inst.res
        fr.nl = inst.x[1] if inst.op == 'invoke' else None
        st.frames.append(fr)
        return None if fr.nl is None else [st]

    def mergeable(self, fn):
        return True

    def merge_states(self, sts, n0):
        """merge states that agree on everything but scalar values; the others stay separate"""
        if len(sts) <= 1: return sts
        groups = []
        for s in sts:
            for g in groups:
                m = self.try_merge(g[0], s, n0)
                if m is not None:
                    g[0] = m; break
            else:
                groups.append([s])
        return [g[0] for g in groups]

    def try_merge(self, a, b, n0):
        # pc prefix shared up to n0
        if a.pc[:n0] != b.pc[:n0] and not all(x.eq(y) for x, y in zip(a.pc[:n0], b.pc[:n0])): return None
        if len(a.pc) < n0 or len(b.pc) < n0: return None
        if isinstance(a.ret, z3.ExprRef) != isinstance(b.ret, z3.ExprRef): return None
        ra, rb = a.pc[n0:], b.pc[n0:]
        k = 0
        while k < min(len(ra), len(rb)) and ra[k].eq(rb[k]): k += 1
        ca = z3.And(*ra[k:]) if len(ra) > k else z3.BoolVal(True)
        cb = z3.And(*rb[k:]) if len(rb) > k else z3.BoolVal(True)
        if len(ra) - k > 25 or len(rb) - k > 25: return None
        sel = None
        # pick a selector: a literal c in ra with Not(c) in rb
        for x in ra[k:]:
            nx = simp(z3.Not(x))
            for y in rb[k:]:
                if nx.eq(simp(y)): sel = x; break
            if sel is not None: break
        if sel is None: return None
        if a.ghost != b.ghost: return None
        if any(has_quant(x) for x in ra[k:] + rb[k:]): return None
        live = set(a.mem) | set(b.mem)
        newmem = {}
        for o in live:
            x, y = a.mem.get(o), b.mem.get(o)
            if x is y: newmem[o] = x; continue
            if x is None or y is None:
                z = x or y
                if not z.alive or o in getattr(self, '_gmem', {}) or self.info[o].kind == 'const': newmem[o] = z; continue
                return None
            if x.alive != y.alive: return None
            if not x.alive: newmem[o] = x; continue
            nn = x.n
            if (x.n is not y.n) and not (x.n is not None and y.n is not None and x.n.eq(y.n)):
                if x.n is None or y.n is None: return None
                nn = z3.If(sel, x.n, y.n)
            m = ObjSt(alive=True, n=nn, z=x.z)
            if x.z != y.z: return None
            for off in set(x.cells) | set(y.cells):
                cx, cy = x.cells.get(off), y.cells.get(off)
                if cx is None or cy is None:
                    if x.z: return None
                    continue    # uninitialised on one side: unconstrained when read
                if cx[0] == 'stl' or cy[0] == 'stl':
                    if cx[1] is cy[1]: m.cells[off] = cx; continue
                    if cx[0] != cy[0] or not hasattr(cx[1], 'merge'): return None
                    mm = cx[1].merge(self, sel, cy[1])
                    if mm is None: return None
                    m.cells[off] = ('stl', mm); continue
                if not same(cx[0], cy[0]): return None
                try: m.cells[off] = (cx[0], cx[1] if cx[1] is cy[1] else self.ite(sel, cx[1], cy[1]))
                except Unsupported: return None
            for off in set(x.arrs) | set(y.arrs):
                cx, cy = x.arrs.get(off), y.arrs.get(off)
                if cx is None or cy is None: return None
                if isinstance(cx[1], tuple):
                    m.arrs[off] = (cx[0], tuple(p if p.eq(q) else z3.If(sel, p, q) for p, q in zip(cx[1], cy[1])))
                else:
                    m.arrs[off] = (cx[0], cx[1] if cx[1].eq(cy[1]) else z3.If(sel, cx[1], cy[1]))
            newmem[o] = m
        # caller frames must agree
        if len(a.frames) != len(b.frames): return None
        for fa, fb in zip(a.frames, b.frames):
            if fa.blk != fb.blk or fa.ip != fb.ip: return None
        try:
            if a.ret is None and b.ret is None: ret = None
            elif a.ret is None or b.ret is None: return None
            else: ret = a.ret if a.ret is b.ret else self.ite(sel, a.ret, b.ret)
        except Unsupported:
            return None
        m = a.clone()
        m.mem = newmem
        m.pc = a.pc[:n0] + ra[:k] + [z3.Or(ca, cb)]
        # keep single facts usable
        m.ret = simp(ret) if isinstance(ret, z3.ExprRef) else ret
        if isinstance(ret, z3.ExprRef) and self.is32(ret): self.mark32(m.ret)
        return m

    def finish(self, r, inst):
        """r: list of (state, value) from a model/contract"""
        outs = []
        for s, v in r:
            if inst.res is not None: s.frames[-1].regs[inst.res] = v
            outs.append(s)
        return outs

    def intrinsic(self, st, inst, name):
        R = st.frames[-1].regs
        A = lambda k: self.op(st, (inst.a[k][0], inst.a[k][1]))
        if name.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.assume', '@llvm.donothing', '@llvm.va_start', '@llvm.va_end', '@llvm.stacksave', '@llvm.stackrestore', '@llvm.experimental.noalias')):
            return [st]
        if name.startswith(('@llvm.memcpy', '@llvm.memmove')):
            return self.memcpy(st, A(0), A(1), A(2), inst)
        if name.startswith('@llvm.memset'):
            return self.memset(st, A(0), A(1), A(2), inst)
        if name.startswith('@llvm.umul.with.overflow'):
            a, b = A(0), A(1); bits = inst.a[0][0].bits
            ua, ub = self.tou(st, a, bits), self.tou(st, b, bits)
            prod = simp(ua * ub)
            ov = simp(prod > (1 << bits) - 1)
            # canonical signed; sizes >= 2^63 are never allocated: keep the mathematical product when it fits
            if self.entails(st, prod <= (1 << (bits - 1)) - 1): R[inst.res] = [prod, z3.BoolVal(False)]
            else:
                v = self.fresh_int(st, 'umul', bits)
                st.assume(z3.Implies(prod <= (1 << (bits - 1)) - 1, v == prod))
                st.assume(z3.Implies(z3.And(prod > (1 << (bits - 1)) - 1, z3.Not(ov)), v < 0))
                R[inst.res] = [v, ov]
            return [st]
        if name.startswith('@llvm.uadd.with.overflow'):
            a, b = A(0), A(1); bits = inst.a[0][0].bits
            s = simp(self.tou(st, a, bits) + self.tou(st, b, bits))
            R[inst.res] = [self.wrap(st, s, bits), simp(s > (1 << bits) - 1)]
            return [st]
        if name.startswith('@llvm.fmuladd'):
            a, b, c = A(0), A(1), A(2)
            R[inst.res] = self.fround(self.fround(a * b, inst.ty) + c, inst.ty); return [st]
        if name.startswith('@llvm.fabs'):
            a = A(0); r = z3.If(a < 0, -a, a)
            if self.is32(a): self.mark32(r)
            R[inst.res] = r; return [st]
        if name.startswith('@llvm.sqrt'):
            R[inst.res] = self.sqrt(st, A(0), inst.ty); return [st]
        if name.startswith('@llvm.abs'):
            a = A(0); R[inst.res] = simp(z3.If(a < 0, -a, a)); return [st]
        if name.startswith(('@llvm.umax', '@llvm.umin', '@llvm.smax', '@llvm.smin')):
            a, b = A(0), A(1)
            if name[6] == 'u': x, y = self.tou(st, a, inst.ty.bits), self.tou(st, b, inst.ty.bits)
            else: x, y = a, b
            c = x > y if 'max' in name else x < y
            R[inst.res] = simp(z3.If(c, a, b)); return [st]
        if name.startswith(('@llvm.trap', '@llvm.ubsantrap')): raise PathEnd()
        if name.startswith('@llvm.eh.typeid'):
            R[inst.res] = self.fresh_int(st, 'typeid', 32); return [st]
        if name.startswith('@llvm.expect'):
            R[inst.res] = A(0); return [st]
        if name.startswith('@llvm.is.constant'):
            R[inst.res] = z3.BoolVal(False); return [st]
        raise Unsupported('intrinsic ' + name)

    def sqrt(self, st, x, ty):
        r = SQRT(x)
        st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return self.fround(r, ty)

    def memcpy(self, st, d, s, n, inst):
        c = ival(n)
        outs = []
        for s1, so in self.lookup_ready(st, s, inst, 'load'):
            for s2, do in self.lookup_ready(s1, d, inst, 'store'):
                si, di = self.info[so], self.info[do]
                if si.n is None and di.n is None and c is not None:
                    _, soff = self.norm(s2, s, so); _, doff = self.norm(s2, d, do)
                    src = s2.mem[so]; dst = s2.w(do)
                    for k in [k for k in dst.cells if doff <= k < doff + c]: del dst.cells[k]
                    for k, tv in list(src.cells.items()):
                        if soff <= k < soff + c: dst.cells[doff + k - soff] = tv; self.mark_write(do, doff + k - soff)
                    if so == do: pass
                    outs.append(s2); continue
                h = getattr(self, 'memcpy_hook', None)
                r = h(s2, d, do, s, so, n, inst) if h else None
                if r is not None: outs += r; continue
                if si.n is not None and di.n is not None and si.es == di.es and si.rows is None and di.rows is None:
                    es = si.es
                    cnt = simp(n / es) if es > 1 else n
                    i0, _ = self.norm(s2, s, so); j0, _ = self.norm(s2, d, do)
                    self.oblige(s2, z3.And(i0 >= 0, i0 + cnt <= self.obj_len(s2, so)), 'bounds-memcpy-source', inst)
                    self.oblige(s2, z3.And(j0 >= 0, j0 + cnt <= self.obj_len(s2, do)), 'bounds-memcpy-dest', inst)
                    for off, (t, a) in list(s2.mem[so].arrs.items()):
                        if t.k == 'ptr': raise Unsupported('memcpy of pointers')
                        old = s2.mem[do].arrs.get(off)
                        oa = old[1] if old else self.init_arr(s2, do, off, t, di.name)
                        k = z3.Int(self.nm('k'))
                        na = z3.Lambda([k], z3.If(z3.And(k >= j0, k < j0 + cnt), z3.Select(a, k - j0 + i0), z3.Select(oa, k)))
                        s2.w(do).arrs[off] = (t, na); self.mark_write(do, off)
                    outs.append(s2); continue
                raise Unsupported('memcpy %s <- %s (%s)' % (di.name, si.name, n))
        return outs

    def memset(self, st, d, v, n, inst):
        outs = []
        c = ival(n); b = ival(v)
        for s1, do in self.lookup_ready(st, d, inst, 'store'):
            o = self.info[do]
            if o.n is None and c is not None and b == 0:
                _, off = self.norm(s1, d, do)
                w = s1.w(do)
                for k in [k for k in w.cells if off <= k < off + c]: del w.cells[k]; self.mark_write(do, k)
                t = o.ty
                if t is None:
                    w.z = w.z + ((off, off + c),); self.mark_write(do, off)
                    outs.append(s1); continue
                for k, ft in self.flat(t):
                    if off <= k < off + c: w.cells[k] = (ft, self.zero(ft)); self.mark_write(do, k)
                outs.append(s1); continue
            self.type_heap(s1, do, INT[8])
            if o.n is not None and b == 0 and o.rows is None and ival(simp(d.idx)) == 0 and ival(simp(d.off)) == 0:
                cnt = simp(n / o.es) if o.es > 1 else n
                self.oblige(s1, z3.And(cnt >= 0, cnt <= self.obj_len(s1, do)), 'bounds-memset', inst)
                t = o.ty
                if t.k == 'ptr': raise Unsupported('memset pointers')
                old = s1.mem[do].arrs.get(0)
                oa = old[1] if old else self.init_arr(s1, do, 0, t, o.name)
                k = z3.Int(self.nm('k'))
                s1.w(do).arrs[0] = (t, z3.Lambda([k], z3.If(z3.And(k >= 0, k < cnt), self.zero(t), z3.Select(oa, k))))
                self.mark_write(do, 0)
                outs.append(s1); continue
            raise Unsupported('memset of ' + o.name)
        return outs

    def flat(self, t, base=0):
        if t.k == 'struct':
            for a, f in zip(self.mod.offsets(t), t.fields):
                yield from self.flat(f, base + a)
        elif t.k == 'array':
            for i in range(t.n): yield from self.flat(t.elt, base + i * self.mod.size(t.elt))
        else: yield (base, t)

    # ------------------------------------------------------------------ heap
    def malloc(self, st, size, kind, may_fail, inst):
        """operator new: list of (state, Ptr)"""
        out = []
        size = simp(size)
        c = ival(size)
        bad = None
        if c is None or c < 0 or c > (1 << 47):
            bad = z3.Or(size < 0, size > (1 << 47))   # no such allocation can succeed (see assumptions)
        if may_fail == 'nothrow':
            if bad is not None and self.feasible(st, bad):
                s = st.clone(); s.assume(bad); out.append((s, NULL))
            if self.alloc_may_fail:
                s = st.clone()
                if bad is not None: s.assume(z3.Not(bad))
                out.append((s, NULL))
            else: self.assumptions.add('allocations of a representable size succeed')
        if bad is not None: st.assume(z3.Not(bad))
        oid = next(self.oid)
        o = ObjInfo(oid, 'heap', kind)
        if c is not None and kind == 'new':
            o.bytes = None
        else:
            o.bytes = size
        self.info[oid] = o
        st.mem[oid] = ObjSt()
        st.ghost['allocs'] = st.ghost.get('allocs', ()) + (oid,)
        out.append((st, Ptr(oid)))
        return out

    def free(self, st, p, kind, inst):
        outs = []
        for s, oid in self.resolve(st, p, inst):
            if oid == 0: outs.append(s); continue
            if oid not in s.mem:
                self.oblige(s, z3.BoolVal(False), 'free-of-wild-pointer', inst); continue
            o = self.info[oid]
            if not s.mem[oid].alive:
                self.oblige(s, z3.BoolVal(False), 'double-free', inst); continue
            if o.kind not in ('new', 'new[]', 'heap'):
                self.oblige(s, z3.BoolVal(False), 'free-of-non-heap-object', inst); continue
            if o.kind != kind and o.kind != 'heap':
                self.oblige(s, z3.BoolVal(False), 'mismatched-delete', inst); continue
            self.oblige(s, z3.And(p.idx == 0, p.off == 0), 'free-of-interior-pointer', inst)
            w = s.w(oid); w.alive = False
            self.mark_write(oid, 'alive')
            s.ghost['frees'] = s.ghost.get('frees', ()) + (oid,)
            outs.append(s)
        return outs

    # ------------------------------------------------------------------ loops
    def do_loop(self, st, header, blocks, depth, peeled=False):
        fn = st.frames[-1].fn
        key = (fn.name, header, depth)
        # constant-trip loops: unroll
        un = self.try_unroll(st, header, blocks, depth)
        if un is not None: return un
        bound = (depth, header, blocks)
        if self.peel is not None and not peeled and self.peel(st):
            # the first iteration on its own (it may allocate what the others use)
            b, e, r = self.explore([st], bound)
            for x in b: e = e + self.do_loop(x, header, blocks, depth, True)
            return e
        entry = st
        M = set()
        rec0 = self.record
        # round 0: discover the modified locations
        self.record = False
        cmps = []
        fullptr = set()
        rounds = 0
        cache0 = self.loop_drop_cache      # what is dropped while nothing is known about this loop says nothing about the later passes
        while True:
            self.loop_drop_cache = {k: set(v) for k, v in cache0.items()}
            rounds += 1
            if rounds > 12: raise Unsupported('modified set of loop does not stabilise')
            h, hv = self.havoc(entry, M, header, fullptr)
            w = set(); self.wstack.append(w); cm = []; self.icmps.append(cm)
            try:
                backs, exits, rets = self.explore([self.enter(h)], bound)
            finally:
                self.wstack.pop(); self.icmps.pop()
            cmps = cm
            new = {x for x in w if x[0] in entry.mem and not (x[1] == 'alive' and all(x[0] in b.mem and b.mem[x[0]].alive for b in backs))} - M   # released on the way out only
            # pointer cells whose object changes
            fp = set()
            for b in backs:
                for (oid, off) in M:
                    if off == 'alive': continue
                    c = h.mem[oid].cells.get(off) if oid in h.mem else None
                    if c and c[0] != 'stl' and isinstance(c[1], Ptr) and (oid, off) not in fullptr:
                        c2 = b.mem[oid].cells.get(off)
                        if c2 is None or not isinstance(c2[1], Ptr): fp.add((oid, off)); continue
                        for comp in ('obj', 'off'):
                            x, y = getattr(c[1], comp), getattr(c2[1], comp)
                            if not x.eq(y) and not self.entails(b, x == y, quant=True): fp.add((oid, off))
            mat = False
            for (oid, off) in M | new:
                if off in ('alive', 'n') or self.info[oid].n is None or off in entry.mem[oid].arrs: continue
                for b in backs + exits:
                    if oid in b.mem and off in b.mem[oid].arrs:
                        self.init_arr(entry, oid, off, b.mem[oid].arrs[off][0], self.info[oid].name); mat = True; break
            if not new and not (fp - fullptr) and not mat: break
            M |= new; fullptr |= fp
        self.loop_drop_cache = cache0
        self.record = rec0
        # candidate invariants
        ctx = LoopCtx(self, entry, h, hv, header, blocks, M, cmps, depth)
        ctx.backs = backs
        cands = []
        cands += auto_candidates(ctx)
        for g in self.loop_cands:
            for c in g(ctx):
                cands.append(c if len(c) == 3 else (c[0], c[1], 'user'))
        if not self.in_outer: self.loop_drop_cache = {}
        dropped = self.loop_drop_cache.setdefault(key, set()) if self.in_outer else set()
        alive = []
        seen = set()
        for nm_, fml, org in cands:
            if nm_ in dropped or nm_ in seen: continue
            seen.add(nm_)
            try: g = fml(entry)
            except (KeyError, Unsupported, z3.Z3Exception) as e:
                continue
            if g is None: continue
            r = self.prove(entry, g, timeout=self.houdini_timeout, quick=True)[0] if has_quant(g) else ('proved' if self.entails(entry, g, 1500, quant=not self.entails(entry, g, 300)) else 'x')
            if r == 'proved': alive.append((nm_, fml, org))
            else:
                dropped.add(nm_)
                if org == 'user' and self.verbose: self.log('   inv not established at entry:', nm_, str(g)[:200], r, [str(f)[:150] for f in entry.pc])
        # inductiveness
        self.record = False
        it = 0
        save_outer = self.in_outer
        self.in_outer = True
        try:
            while True:
                it += 1
                h, hv = self.havoc(entry, M, header, fullptr, keep=(h, hv))
                for nm_, fml, org in alive: h.assume(fml(h))
                self.wstack.append(set()); self.icmps.append([])
                try: backs, exits, rets = self.explore([self.enter(h)], bound)
                finally: self.wstack.pop(); self.icmps.pop()
                bad = set()
                for b in backs:
                    for nm_, fml, org in alive:
                        if nm_ in bad: continue
                        try: g = fml(b)
                        except (KeyError, Unsupported, z3.Z3Exception): bad.add(nm_); continue
                        r = self.prove(b, g, timeout=self.houdini_timeout, quick=True)[0] if has_quant(g) else ('proved' if self.entails(b, g, 600) or self.entails(b, g, self.houdini_timeout, quant=True) else 'x')
                        if r != 'proved': bad.add(nm_)
                if not bad: break
                for nm_, fml, org in alive:
                    if nm_ in bad and org == 'user' and self.verbose: self.log('   inv not inductive:', nm_)
                alive = [c for c in alive if c[0] not in bad]
                dropped |= bad
                if it > 30: raise Unsupported('invariant inference does not converge')
        finally:
            self.in_outer = save_outer
        self.record = rec0
        self.inv_report[(self.mod.dem(fn.name), header)] = [c[0] for c in alive]
        # termination: try linear ranking functions
        term = self.rank(h, backs, ctx)
        if not term:
            self.unproved_term.append((self.mod.dem(fn.name), header))
        if rec0:
            h, hv = self.havoc(entry, M, header, fullptr, keep=(h, hv))
            for nm_, fml, org in alive: h.assume(fml(h))
            self.wstack.append(set())
            try: backs, exits, rets = self.explore([self.enter(h)], bound)
            finally: self.wstack.pop()
        self.propagate_writes(M)
        self.log('loop %s/%s: M=%s inv=%s exits=%d term=%s' % (short(self.mod.dem(fn.name)), header, [(self.info[o].name, f) for o, f in M][:12], [c[0] for c in alive], len(exits), term))
        return exits

    in_outer = False
    verifying = None

    def propagate_writes(self, M):
        for w in self.wstack: w |= M

    def enter(self, h):
        return h.clone()

    def rank(self, h, backs, ctx):
        if not backs: return True
        cands = []
        hv = [(n, a) for n, a in ctx.hav_terms.items()]
        bounds = []
        for a, b in ctx.cmps:
            for x, y in ((a, b), (b, a)):
                bounds.append((x, y))
        # loc-based: for int/ptr locations
        locs = ctx.int_locs()
        for k, (nm_, get) in enumerate(locs):
            for a, b in ctx.cmps:
                for e in (a, b):
                    if ctx.inv_term(e):
                        cands.append(lambda s, get=get, e=e: e - get(s))
                        cands.append(lambda s, get=get, e=e: get(s) - e)
            for nm2, get2 in locs:
                if nm2 != nm_: cands.append(lambda s, g=get, g2=get2: g2(s) - g(s))
        cands += [lambda s: e for e in ()]
        for g in getattr(ctx.E, 'rank_cands', []):
            cands += g(ctx)
        for c in cands[:60]:
            ok = True
            for b in backs:
                try: r0, r1 = c(h), c(b)
                except (KeyError, Unsupported): ok = False; break
                if not self.entails(b, z3.And(r1 < r0, r0 >= -1), 300):
                    if not self.entails(b, z3.And(r1 < r0, r0 >= -1), 600, quant=True):
                        ok = False; break
            if ok: return True
        return False

    def try_unroll(self, st, header, blocks, depth):
        rec0 = self.record
        bound = (depth, header, blocks)
        # probe: does the header decide concretely?
        if not self.header_concrete(st, header): return None
        self.record = False
        try:
            cur = [st.clone()]; n = 0
            while cur:
                n += 1
                if n > self.unroll_max: return None
                nxt = []
                for s in cur:
                    if not self.header_concrete(s, header): return None
                    b, e, r = self.explore([s.clone()], bound)
                    nxt += b
                    if len(nxt) > 4: return None
                cur = nxt
        finally:
            self.record = rec0
        cur = [st]; exits = []
        while cur:
            nxt = []
            for s in cur:
                b, e, r = self.explore([s], bound)
                nxt += b; exits += e
            cur = nxt
        return exits

    def header_concrete(self, st, header):
        s = st.clone()
        f = s.frames[-1]
        blk = f.fn.blocks[header]
        save = self.record; self.record = False
        try:
            f.ip = 0
            for inst in blk:
                if inst.op == 'br':
                    if not inst.a: return False
                    v = self.op(s, inst.a[0])
                    if v is UNDEF: return False
                    c = simp(v)
                    return z3.is_true(c) or z3.is_false(c)
                if inst.op == 'phi':
                    for v, l in inst.x:
                        if l == f.prev: f.regs[inst.res] = self.op(s, (inst.ty, v))
                    continue
                if inst.op in ('call', 'invoke', 'switch', 'ret'):
                    # a heuristic only: unrolling explores the real instructions
                    if inst.op != 'call': return False
                    if not inst.res: continue
                    r = self.do_call(s, inst)
                    if r is None or len(r) != 1: return False
                    s = r[0]; f = s.frames[-1]
                    continue
                r = self.simple(s, inst)
                if isinstance(r, list):
                    if len(r) != 1: return False
                    s = r[0]; f = s.frames[-1]
            return False
        except (PathEnd, Unsupported):
            return False
        finally:
            self.record = save

    def is_map(self, p):
        o = ival(simp(p.obj))
        return o in self.info and self.info[o].kind == 'map'

    def havoc(self, entry, M, header, fullptr, keep=None):
        st = entry.clone()
        hv = {}
        old = keep[1] if keep else {}
        for (oid, off) in sorted(M, key=str):
            if off == 'alive': raise Unsupported('a loop frees an object of the enclosing scope (%s)' % self.info[oid].name)
            o = self.info[oid]
            src = entry.mem[oid]
            if off == 'n':
                v = self.fresh_int(st, o.name + '.n', 64, lo=0)
                w = st.w(oid); w.n = v; hv[(oid, off)] = v; continue
            if o.n is None:
                c = src.cells.get(off)
                if c is None: continue
                t, v = c
                w = st.w(oid)
                if t == 'stl':
                    nv = v.havoc(self, st, oid, off); w = st.w(oid); w.cells[off] = ('stl', nv); hv[(oid, off)] = nv; continue
                if isinstance(v, Ptr):
                    if (oid, off) in fullptr: nv = self.fresh_ptr(st, o.name)
                    else: nv = Ptr(v.obj, z3.Int(self.nm(o.name + '.idx')), v.off, z3.Int(self.nm(o.name + '.row')) if ival(v.row) is None or self.is_map(v) else v.row)
                    w.cells[off] = (t, nv); hv[(oid, off)] = nv; continue
                nv = self.fresh(st, t, o.name)
                st.w(oid).cells[off] = (t, nv); hv[(oid, off)] = nv
            else:
                a = src.arrs.get(off)
                if a is None: continue
                t, c = a
                if t == 'stl': raise Unsupported('havoc of library array')
                nc = self.fresh_arr(t, o.name, 2 if o.rows is not None and isinstance(off, int) else 1)
                st.w(oid).arrs[off] = (t, nc); hv[(oid, off)] = nc
        f = st.frames[-1]
        for inst in f.fn.blocks[header]:
            if inst.op != 'phi': break
            # value at entry
            v = None
            for x, l in inst.x:
                if l == f.prev: v = self.op(entry, (inst.ty, x))
            if isinstance(v, Ptr): nv = Ptr(v.obj, z3.Int(self.nm('phi.idx')), v.off, v.row)
            else: nv = self.fresh(st, inst.ty, 'phi')
            f.regs[inst.res] = nv; f.regs['#phi'] = header; hv[('phi', inst.res)] = nv
        return st, hv


class LoopCtx:
    def __init__(self, E, entry, h, hv, header, blocks, M, cmps, depth):
        self.E, self.entry, self.h, self.hv, self.header, self.blocks, self.M, self.cmps, self.depth = E, entry, h, hv, header, blocks, M, cmps, depth
        self.fn = entry.frames[-1].fn
        self.sig = E.mod.dem(self.fn.name)
        self.hav_terms = {}
        self.hsyms = set()
        for k, v in hv.items():
            for t in (v.comps() if isinstance(v, Ptr) else v if isinstance(v, tuple) else [v] if isinstance(v, z3.ExprRef) else []):
                if isinstance(t, z3.ExprRef) and z3.is_const(t): self.hsyms.add(t.decl().name())

    def inv_term(self, t):
        """does the term denote the same value in every iteration (built from entry-state symbols only)?"""
        ss = syms(t)
        base = self.entry_syms()
        for e in self.E.__dict__.get('_enums', ()):     # the size of a key set is fixed by the key set
            if z3.is_const(e.n) and ival(e.n) is None and e.n.decl().name() in ss and syms(e.has) <= base: ss = (ss - {e.n.decl().name()}) | syms(e.has)
        return not (ss & self.hsyms) and ss <= base

    def entry_syms(self):
        if not hasattr(self, '_es'):
            acc = set()
            for f in self.entry.pc: syms(f, acc)
            for o in self.entry.mem.values():
                for t, v in o.cells.values():
                    for x in (v.comps() if isinstance(v, Ptr) else [v] if isinstance(v, z3.ExprRef) else []): syms(x, acc)
                for t, v in o.arrs.values():
                    for x in (v if isinstance(v, tuple) else [v] if isinstance(v, z3.ExprRef) else []): syms(x, acc)
                if o.n is not None: syms(o.n, acc)
            for fr in self.entry.frames:
                for v in fr.regs.values():
                    if isinstance(v, z3.ExprRef): syms(v, acc)
                    elif isinstance(v, Ptr):
                        for x in v.comps(): syms(x, acc)
            for o in self.E.info.values():
                for x in (o.n, o.rows):
                    if x is not None: syms(x, acc)
            self._es = acc
        return self._es

    def int_locs(self):
        """(name, getter) of integer locations modified by the loop (locals, pointer positions, ghost lengths)"""
        out = []
        for (oid, off) in sorted(self.M, key=str):
            o = self.E.info[oid]
            if off == 'n':
                out.append((o.name + '.n#%d' % oid, lambda s, oid=oid: s.mem[oid].n)); continue
            if o.n is not None or off == 'alive': continue
            c = self.entry.mem[oid].cells.get(off)
            if c is None: continue
            t, v = c
            if t == 'stl':
                for nm_, g in v.int_views(oid, off): out.append((o.name + '.' + nm_ + '#%d' % oid, g))
                continue
            if isinstance(v, Ptr) and E_is_map(self.E, v):
                out.append(('%s+%d.row#%d' % (o.name, off, oid), lambda s, oid=oid, off=off: cell(s, oid, off).row))
            elif isinstance(v, Ptr):
                out.append(('%s+%d.idx#%d' % (o.name, off, oid), lambda s, oid=oid, off=off: cell(s, oid, off).idx))
            elif t.k == 'int' and t.bits > 8:
                out.append(('%s+%d#%d' % (o.name, off, oid), lambda s, oid=oid, off=off: cell(s, oid, off)))
        return out

    def frame_ints(self):
        """(name, getter) of integer locals of the loop's frame the loop does not modify, integer registers excluded"""
        out = []
        f = self.entry.frames[-1]
        for nm_, oid in f.allocas.items():
            o = self.E.info[oid]
            if (oid, 0) in self.M or o.n is not None: continue
            c = self.entry.mem[oid].cells.get(0)
            if c is None or c[0] == 'stl' or c[0].k != 'int' or c[0].bits < 16: continue
            out.append((nm_, lambda s, oid=oid: cell(s, oid, 0)))
        return out

    def scalar_locs(self, ty):
        """(name, getter) of modified scalar cells of exactly this type"""
        out = []
        for (oid, off) in sorted(self.M, key=str):
            o = self.E.info[oid]
            if o.n is not None or off in ('alive', 'n'): continue
            c = self.entry.mem[oid].cells.get(off)
            if c is None or c[0] == 'stl' or not same(c[0], ty): continue
            out.append(('%s+%d#%d' % (o.name, off, oid), lambda s, oid=oid, off=off: cell(s, oid, off)))
        return out

    def arrays(self):
        """(oid, off, Ty) of array contents the loop modifies"""
        return [(oid, off, self.entry.mem[oid].arrs[off][0]) for (oid, off) in self.M if self.E.info[oid].n is not None and off in self.entry.mem[oid].arrs]

    def local(self, name, st=None):
        """oid of the alloca of a named local in the loop's frame, or None"""
        f = self.entry.frames[-1]
        for k, v in f.allocas.items():
            if k == '%' + name or k == '%' + name + '.addr': return v
        return None

    def in_fn(self, frag): return frag in self.sig


def E_is_map(E, p): return E.is_map(p)


def cell(s, oid, off):
    v = s.mem[oid].cells[off][1]
    return v


def auto_candidates(ctx):
    E = ctx.E
    out = []
    locs = ctx.int_locs()
    ent = {}
    for (oid, off) in sorted(ctx.M, key=str):
        if E.info[oid].n is not None or not isinstance(off, int) or oid not in ctx.entry.mem: continue
        c = ctx.entry.mem[oid].cells.get(off)
        if c is None or c[0] == 'stl' or not isinstance(c[1], Ptr) or not E.is_map(c[1]): continue
        from .stl2 import enum
        nd = ival(simp(c[1].obj)); e = enum(E, ctx.entry, nd)
        out.append(('iter#%d key' % oid, lambda s, oid=oid, off=off, e=e: z3.Implies(cell(s, oid, off).row < e.n, cell(s, oid, off).idx == e.key(cell(s, oid, off).row)), 'auto'))
        out.append(('iter#%d range' % oid, lambda s, oid=oid, off=off, e=e: z3.And(cell(s, oid, off).row >= 0, cell(s, oid, off).row <= e.n), 'auto'))
    for nm_, g in locs:
        try: ent[nm_] = simp(g(ctx.entry))
        except KeyError: continue
    locs = [l for l in locs if l[0] in ent]
    bnds = []
    hcur = {}
    for nm_, g in locs:
        try: hcur[nm_] = g(ctx.h)
        except KeyError: pass
    for a, b in ctx.cmps:
        for e in (a, b):
            e = simp(e)
            if ctx.inv_term(e) and not any(e.eq(x) for x in bnds): bnds.append(e)
    for nm_, g in locs:
        v0 = ent[nm_]
        out.append((nm_ + '>=entry', lambda s, g=g, v0=v0: g(s) >= v0, 'auto'))
        out.append((nm_ + '<=entry', lambda s, g=g, v0=v0: g(s) <= v0, 'auto'))
        if ival(v0) is None: out.append((nm_ + '>=0', lambda s, g=g: g(s) >= 0, 'auto'))
        if not (ival(v0) is not None and ival(v0) >= -1): out.append((nm_ + '>=-1', lambda s, g=g: g(s) >= -1, 'auto'))
        for i, e in enumerate(bnds[:8]):
            out.append(('%s<=b%d' % (nm_, i), lambda s, g=g, e=e: g(s) <= e, 'auto'))
            out.append(('%s>=b%d' % (nm_, i), lambda s, g=g, e=e: g(s) >= e, 'auto'))
            out.append(('%s<=b%d+1' % (nm_, i), lambda s, g=g, e=e: g(s) <= e + 1, 'auto'))
            out.append(('%s>=b%d-1' % (nm_, i), lambda s, g=g, e=e: g(s) >= e - 1, 'auto'))
            if not is_const(e):
                out.append(('%s<=max(b%d,entry)' % (nm_, i), lambda s, g=g, e=e, v0=v0: g(s) <= z3.If(e > v0, e, v0), 'auto'))
    # strides: a location that advances by a loop-invariant amount each time another advances by one
    deltas = {}
    for nm_, g in locs:
        ds = []
        for b in ctx.backs:
            try: d = simp(g(b) - g(ctx.h))
            except KeyError: d = None; break
            ds.append(d)
        if ds and all(d is not None and d.eq(ds[0]) for d in ds) and ctx.inv_term(ds[0]): deltas[nm_] = ds[0]
    ones = [(n, g) for n, g in locs if n in deltas and ival(deltas[n]) in (1, -1)]
    for nm_, g in locs:
        if nm_ in deltas and ival(deltas[nm_]) not in (1, -1, 0):
            for n1, g1 in ones:
                sg = ival(deltas[n1])
                out.append(('%s=stride*%s' % (nm_, n1), lambda s, g=g, g1=g1, d=deltas[nm_], a=ent[nm_], b=ent[n1], sg=sg: g(s) == a + sg * (g1(s) - b) * d, 'auto'))
        if nm_ in deltas and ival(deltas[nm_]) == -1:
            for n1, g1 in ones:
                if ival(deltas[n1]) == 1:
                    out.append(('%s+%s=const' % (nm_, n1), lambda s, g=g, g1=g1, c=ent[nm_] + ent[n1]: g(s) + g1(s) == c, 'auto'))
    if len(locs) <= 8:
        for (n1, g1), (n2, g2) in itertools.combinations(locs, 2):
            out.append((n1 + '~' + n2, lambda s, g1=g1, g2=g2, a=ent[n1], b=ent[n2]: g1(s) - a == g2(s) - b, 'auto'))
            out.append((n1 + '<=' + n2, lambda s, g1=g1, g2=g2: g1(s) <= g2(s), 'auto'))
            out.append((n2 + '<=' + n1, lambda s, g1=g1, g2=g2: g2(s) <= g1(s), 'auto'))
    return out


def st_recursive(st): return len(st.frames) > 1


def ival_real(t):
    t = simp(t)
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t): return t.as_long()
    return None


def simp_sel(v):
    return z3.simplify(v)


def same(a, b):
    if a is b: return True
    if a == 'stl' or b == 'stl': return False
    if a.k != b.k: return False
    if a.k == 'int': return a.bits == b.bits
    if a.k in ('struct', 'array'): return repr(a) == repr(b)
    return True


def short(s):
    s = re.sub(r'\(.*', '', s)
    return s


def model_dict(m):
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v) or z3.is_rational_value(v) or z3.is_true(v) or z3.is_false(v):
                    out[d.name()] = str(v)
    except z3.Z3Exception:
        pass
    return out


def find_loops(fn):
    """natural loops: header -> set of blocks"""
    succ = {}
    for b, ins in fn.blocks.items():
        t = ins[-1]
        if t.op == 'br': succ[b] = list(t.x)
        elif t.op == 'switch': succ[b] = [t.x[0]] + [l for _, l in t.x[1]]
        elif t.op == 'invoke': succ[b] = [t.x[1]]     # unwinding edges are not followed
        else: succ[b] = []
    order = []; seen = set()
    stack = [(fn.entry, iter(succ[fn.entry]))]; seen.add(fn.entry)
    while stack:
        b, itr = stack[-1]
        for n in itr:
            if n not in seen:
                seen.add(n); stack.append((n, iter(succ[n]))); break
        else:
            order.append(b); stack.pop()
    rpo = list(reversed(order)); num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for n in succ[b]:
            if n in num: pred[n].append(b)
    idom = {fn.entry: fn.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps: continue
            d = ps[0]
            for p in ps[1:]:
                x, y = d, p
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
                d = x
            if idom.get(b) != d: idom[b] = d; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == fn.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for n in succ[b]:
            if n in num and dom(n, b):
                body = loops.setdefault(n, {n})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(pred[x])
    return loops
