"""Assumed contracts of the C++ library functions /repo's code calls (the trusted base of the proofs)."""
import re
import z3
from .engine import (Ptr, NULL, PtrInt, FnPtr, Packed, UNDEF, ObjSt, ObjInfo, Unsupported, PathEnd, I, simp, ival, same, cell)
from .irparse import INT, PTR, FLOAT, DOUBLE, Ty

MODELS = []


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx), f))
        return f
    return d


def note(E, s): E.externs.add(s)


# ---------------------------------------------------------------- streams: output has no effect on the verified state
@model(r'(std::basic_ostream<.*>& )?std::operator<<.*basic_ostream|std::ostream::|std::basic_ostream<char, std::char_traits<char> >::operator<<|std::ostream::operator<<|std::ostream& std::ostream::_M_insert|std::basic_ostream<char, std::char_traits<char> >& std::(endl|flush)')
def m_ostream(E, st, a, inst, sig):
    h = getattr(E, 'stream_hook', None)
    if h is not None:
        r = h(E, st, a, inst, sig)
        if r is not None: return r
    note(E, 'iostream output: no effect on program state')
    return [(st, a[0])]


@model(r'(void )?StatusMessage\(')
def m_status(E, st, a, inst, sig):
    note(E, 'StatusMessage: prints only')
    return [(st, None)]


# ---------------------------------------------------------------- heap
@model(r'operator new\[\]\(unsigned long, std::nothrow_t const&\)')
def m_newa_nt(E, st, a, inst, sig):
    note(E, 'operator new[](nothrow): fresh disjoint block of the requested size, or null')
    return E.malloc(st, a[0], 'new[]', 'nothrow', inst)


@model(r'operator new\(unsigned long, std::nothrow_t const&\)')
def m_new_nt(E, st, a, inst, sig):
    note(E, 'operator new(nothrow): fresh disjoint block of the requested size, or null')
    return E.malloc(st, a[0], 'new', 'nothrow', inst)


@model(r'operator new\[\]\(unsigned long\)')
def m_newa(E, st, a, inst, sig):
    note(E, 'operator new[]: fresh disjoint block of the requested size, or an exception (path ends)')
    return E.malloc(st, a[0], 'new[]', 'throw', inst)


@model(r'operator new\(unsigned long\)')
def m_new(E, st, a, inst, sig):
    note(E, 'operator new: fresh disjoint block of the requested size, or an exception (path ends)')
    return E.malloc(st, a[0], 'new', 'throw', inst)


@model(r'operator delete\[\]\(void\*(, unsigned long)?\)')
def m_dela(E, st, a, inst, sig):
    return [(s, None) for s in E.free(st, a[0], 'new[]', inst)]


@model(r'operator delete\(void\*(, unsigned long)?\)')
def m_del(E, st, a, inst, sig):
    return [(s, None) for s in E.free(st, a[0], 'new', inst)]


# ---------------------------------------------------------------- math
@model(r'sqrt\(double\)|sqrt$|@sqrt$|std::sqrt\(float\)|sqrtf$')
def m_sqrt(E, st, a, inst, sig):
    note(E, 'sqrt: the non-negative root of a non-negative argument')
    if sig.startswith('std::'): return NotImplemented
    return [(st, E.sqrt(st, a[0], inst.ty))]


@model(r'@?floor(\(double\))?$')
def m_floor(E, st, a, inst, sig):
    note(E, 'floor: mathematical floor')
    return [(st, z3.ToReal(z3.ToInt(a[0])))]


@model(r'@?ceil(\(double\))?$')
def m_ceil(E, st, a, inst, sig):
    note(E, 'ceil: mathematical ceiling')
    return [(st, -z3.ToReal(z3.ToInt(-a[0])))]


@model(r'__cxa_throw$|std::__throw_|@?__cxa_rethrow|@?__clang_call_terminate|std::terminate|@?abort$|@?exit$')
def m_throw(E, st, a, inst, sig):
    if E.on_throw == 'obligation':
        E.oblige(st, z3.BoolVal(False), 'no-exception', inst)
    raise PathEnd()


@model(r'@?__cxa_(allocate|free)_exception|@?__cxa_guard')
def m_cxa(E, st, a, inst, sig):
    return [(st, NULL if inst.ty.k == 'ptr' else (None if inst.ty.k == 'void' else I(1)))]
