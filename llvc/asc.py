"""Assumed contracts of std::ofstream as a writer of blank-separated words and numbers; the text is a ghost log.

One log per task (E.asc, an AscLog).  A file is a row of the log: token k of file f has a value, a precision (significant
digits) and, for words, an atom; `eol[f][i]` is the number of tokens up to the end of line i.  Token and line numbers
start at `t0` and `l0` (negative), so that the first token after the header is number 0.
"""
import z3
from .engine import (Ptr, NULL, FnPtr, ObjSt, Unsupported, PathEnd, I, simp, ival)
from .irparse import INT, PTR, FLOAT, DOUBLE, Ty
from .stl import model, note
from .stl2 import lit, sget, sset, cstr, StrV, ufn, lit_text
from .gdal import fork

ABS = ufn('str_GetAbsolutePath_stringconst', 1)
I32, I64 = INT[32], INT[64]
APP, TRUNC = 1, 32     # bits of std::ios_base::openmode in libstdc++ (app, trunc); out = 16


def absof(st, x):
    y = ABS(x); st.assume(z3.And(ABS(y) == y, y >= 0))
    return y


class AscLog:
    CELLS = ('n', 'lines', 'sep', 'prec', 'who', 'fresh', 'recs')

    def __init__(self, t, t0=-12, l0=-6):
        self.t, self.t0, self.l0 = t, t0, l0
        init = dict(n=t0, lines=l0, sep=1, prec=6, who=0, fresh=-1, recs=0)
        self.o = {k: t.cell(I64, I(init[k]), 'asc.' + k) for k in self.CELLS}
        for k in self.CELLS: t.E.info[self.o[k]].kind = 'ghost'
        big = I(1 << 40)
        self.path = t.array('asc.path', I64, big, kind='ghost')
        mk = lambda nm, ty: t.array2d('asc.' + nm, ty, big, big, kind='ghost')[1]
        self.val, self.word, self.prc, self.eol = mk('value', DOUBLE), mk('word', I64), mk('digits', I64), mk('line_end', I64)
        t.E.asc = self
        t.E._streams = {}
        t.E.stream_hook = self.out

    # state
    def g(self, s, k): return s.mem[self.o[k]].cells[0][1]

    def set(self, E, s, k, v):
        s.w(self.o[k]).cells[0] = (I64, simp(v if z3.is_expr(v) else I(v))); E.mark_write(self.o[k], 0)

    def at(self, s, arr, f, k): return z3.Select(z3.Select(s.mem[arr].arrs[0][1], f), k)

    def put(self, E, s, arr, k, v):
        ty, d = s.mem[arr].arrs[0]
        f = self.g(s, 'recs') - 1
        s.w(arr).arrs[0] = (ty, z3.Store(d, f, z3.Store(z3.Select(d, f), k, v))); E.mark_write(arr, 0)

    # events
    def begin(self, E, s, x, n=None, lines=None):
        """a new empty file named x"""
        c = self.g(s, 'recs')
        ty, p = s.mem[self.path].arrs[0]
        s.w(self.path).arrs[0] = (ty, z3.Store(p, c, x)); E.mark_write(self.path, 0)
        for k, v in (('recs', c + 1), ('n', self.t0 if n is None else n), ('lines', self.l0 if lines is None else lines), ('sep', 1), ('fresh', -1)): self.set(E, s, k, v)

    def deleted(self, E, s, x): self.set(E, s, 'fresh', absof(s, x))

    def open(self, E, st, oid, x, mode, inst):
        y = absof(st, x)
        m = ival(simp(mode))
        if m is None: raise Unsupported('open mode')
        out = []
        bad = st.clone(); self.set(E, bad, 'who', 0); out.append(bad)
        for s, fresh in ([(st, True)] if m & TRUNC or not m & APP else fork(E, st, self.g(st, 'fresh') == y)):
            if fresh: self.begin(E, s, y)
            else:
                E.oblige(s, z3.And(self.g(s, 'fresh') == -1, self.g(s, 'recs') >= 1, z3.Select(s.mem[self.path].arrs[0][1], self.g(s, 'recs') - 1) == y),
                         'pre-ofstream: appends to the file that has just been begun', inst)
                self.set(E, s, 'sep', 1)
            self.set(E, s, 'prec', 6); self.set(E, s, 'who', oid)
            out.append(s)
        return out

    def token(self, E, s, val, word, prec, inst):
        E.oblige(s, self.g(s, 'sep') == 1, 'pre-write: values are separated by blanks', inst)
        n = self.g(s, 'n')
        self.put(E, s, self.val, n, val); self.put(E, s, self.word, n, word); self.put(E, s, self.prc, n, prec)
        self.set(E, s, 'n', n + 1); self.set(E, s, 'sep', 0)

    def newline(self, E, s):
        self.put(E, s, self.eol, self.g(s, 'lines'), self.g(s, 'n'))
        self.set(E, s, 'lines', self.g(s, 'lines') + 1); self.set(E, s, 'sep', 1)

    def text(self, E, s, x, inst):
        t = lit_text(x)
        if t is None: self.token(E, s, z3.RealVal(0), x, I(0), inst); return
        cur = ''
        for ch in t + '\0':
            if ch in ' \t\n\0':
                if cur: self.token(E, s, z3.RealVal(0), lit(cur), I(0), inst)
                cur = ''
                if ch == '\n': self.newline(E, s)
                elif ch != '\0': self.set(E, s, 'sep', 1)
            else: cur += ch

    # the hook of every ostream operation
    def out(self, E, st, a, inst, sig):
        if not isinstance(a[0], Ptr): return None
        oid = ival(simp(a[0].obj))
        if oid not in E._streams:
            if oid is None: raise Unsupported('output to an unknown stream')
            return None
        note(E, 'std::ofstream: appends the text of words and numbers in the given number of significant digits')
        res = []
        for s, on in fork(E, st, self.g(st, 'who') == oid):
            if not on: res.append((s, a[0])); continue
            for s2 in self.one(E, s, a, inst, sig): res.append((s2, a[0]))
        return res

    def one(self, E, s, a, inst, sig):
        par = sig[sig.rindex('operator<<'):] if 'operator<<' in sig else sig
        if 'std::endl' in sig: self.newline(E, s); return [s]
        if 'flush' in sig: return [s]
        if '_Setprecision' in par:
            self.set(E, s, 'prec', a[1]); return [s]
        if '(*)' in par:
            f = a[1]
            nm = f.name if isinstance(f, FnPtr) else ''
            nm = E.mod.dem(nm) if nm else ''
            if 'std::endl' in nm: self.newline(E, s); return [s]
            if 'std::flush' in nm: return [s]
            raise Unsupported('manipulator %s' % nm)
        if 'char const*' in par:
            out = []
            for s2, x in cstr(E, s, a[1], inst): self.text(E, s2, x, inst); out.append(s2)
            return out
        if 'string const&' in par or 'basic_string' in par:
            out = []
            for s2, x in sget(E, s, a[1]): self.text(E, s2, x, inst); out.append(s2)
            return out
        v = a[1]
        if 'char' in par.split('>&')[-1] and 'operator<<(' not in par or par.endswith(', char)'):
            c = ival(simp(v))
            if c is None: raise Unsupported('output of a character')
            self.text(E, s, lit(chr(c)), inst); return [s]
        if not z3.is_expr(v): raise Unsupported('output of %s' % par)
        fl = v.sort() == z3.RealSort()
        self.token(E, s, v if fl else z3.ToReal(v), I(-1), self.g(s, 'prec') if fl else I(17), inst)
        return [s]


@model(r'std::basic_ofstream<char, std::char_traits<char> >::basic_ofstream\((char const\*|string const&|std::__cxx11::basic_string.*), std::_Ios_Openmode\)')
def m_ctor(E, st, a, inst, sig):
    if not hasattr(E, 'asc'): raise Unsupported('ofstream')
    oid = ival(simp(a[0].obj)); E._streams[oid] = True
    out = []
    for s, x in (cstr(E, st, a[1], inst) if 'char const*' in sig.split('basic_ofstream(')[1] else sget(E, st, a[1])):
        for s2 in E.asc.open(E, s, oid, x, a[2], inst): out.append((s2, None))
    return out


@model(r'std::basic_ofstream<char, std::char_traits<char> >::basic_ofstream\(\)')
def m_ctor0(E, st, a, inst, sig):
    if not hasattr(E, 'asc'): raise Unsupported('ofstream')
    E._streams[ival(simp(a[0].obj))] = True
    return [(st, None)]


@model(r'std::basic_ofstream<char, std::char_traits<char> >::open\(')
def m_openf(E, st, a, inst, sig):
    oid = ival(simp(a[0].obj))
    out = []
    for s, x in (cstr(E, st, a[1], inst) if 'char const*' in sig else sget(E, st, a[1])):
        for s2 in E.asc.open(E, s, oid, x, a[2], inst): out.append((s2, None))
    return out


@model(r'std::basic_ofstream<char, std::char_traits<char> >::(is_open\(\)|close\(\)|~basic_ofstream\(\))|std::basic_ios<char, std::char_traits<char> >::(operator bool|operator!|good|fail)\(\)')
def m_state(E, st, a, inst, sig):
    if not hasattr(E, 'asc'): raise Unsupported('ofstream')
    oid = ival(simp(a[0].obj)); L = E.asc
    on = simp(L.g(st, 'who') == oid)
    if 'is_open' in sig or 'good' in sig or 'operator bool' in sig: return [(st, on)]
    if 'fail' in sig or 'operator!' in sig: return [(st, simp(z3.Not(on)))]
    L.set(E, st, 'who', simp(z3.If(on, 0, L.g(st, 'who'))))
    return [(st, None)]
