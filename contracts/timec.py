from llvc.api import *
from llvc import stl
from .specs import *

TU = 'utils_time.cpp'
GREG = 1721425   # Julian day number of 0000-12-31 (proleptic Gregorian)


def leap(y): return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def cum(m, y):
    """days before month m of year y"""
    t = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    e = I(t[11])
    for k in range(11, 0, -1): e = z3.If(m == k, I(t[k - 1]), e)
    return e + z3.If(z3.And(m > 2, leap(y)), 1, 0)


def dim(m, y):
    return z3.If(m == 2, z3.If(leap(y), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def jdn(y, m, d):
    """day number counted from the definition of the Gregorian calendar: whole years, whole months, days"""
    p = y - 1
    return 365 * p + p / 4 - p / 100 + p / 400 + cum(m, y) + d + GREG


def valid(y, m, d): return z3.And(m >= 1, m <= 12, d >= 1, d <= dim(m, y))


@task('C07', 'IsLeapYear', TU)
def _(t):
    y = t.int('yr')
    t.call('IsLeapYear(int)', y)
    for s in t.rets: t.ensure(s, s.ret == leap(y), 'Gregorian leap rule for every year')


def day_task(name, fn, goal):
    for mm in range(1, 13):
        @task('C07', '%s month %d' % (name, mm), TU)
        def _(t, mm=mm):
            y = t.int('year'); m = I(mm); d = t.int('day')
            t.require(z3.And(y >= 1, y <= 5000000, valid(y, m, d)))
            t.call(fn, y, m, d)
            for s in t.rets: goal(t, s, y, m, d)


day_task('JulianDay(y,m,d)', 'JulianDay(int, int, int)', lambda t, s, y, m, d: t.ensure(s, s.ret == jdn(y, m, d), 'day number of the calendar definition'))
day_task('DayOfYear(y,m,d)', 'DayOfYear(int, int, int)', lambda t, s, y, m, d: t.ensure(s, s.ret == cum(m, y) + d, 'days since the start of the year, January 1 is day 1'))


# the calendar definition itself: consecutive dates have consecutive numbers (a lemma over the contract above)
@task('C07', 'lemma: successor dates', TU)
def _(t):
    y = t.int('yr'); m = z3.Int('m'); d = z3.Int('d')
    t.require(z3.And(y >= 1, y <= 5000000))
    t.call('IsLeapYear(int)', y)
    for s in t.rets:
        for k in range(1, 12):
            t.ensure(s, z3.Implies(d == dim(I(k), y), jdn(y, I(k + 1), I(1)) == jdn(y, I(k), d) + 1), 'first of month follows last of month %d' % k)
        t.ensure(s, jdn(y + 1, I(1), I(1)) == jdn(y, I(12), I(31)) + 1, 'new year follows 31 December')
        t.ensure(s, jdn(I(2000), I(1), I(1)) == 2451545, 'anchor: 2000-01-01 is day 2451545')
        t.ensure(s, jdn(I(1970), I(1), I(1)) == 2440588, 'anchor: 1970-01-01 is day 2440588')


# ------------------------------------------------------------------ time_t based queries: libc calendar conversion under an assumed contract
TMAX = 125 * 10**12     # about four million years: the range in which the library's calendar conversion is assumed
TMIN = -62135510400      # 0001-01-02
FIELDS = {'sec': 0, 'min': 4, 'hour': 8, 'mday': 12, 'mon': 16, 'year': 20, 'wday': 24, 'yday': 28, 'isdst': 32}
TMF = {(z, k): z3.Function('tm_%s_%s' % (z, k), z3.IntSort(), z3.IntSort()) for k in FIELDS for z in ('utc', 'local')}
MK = z3.Function('mktime_of', *([z3.IntSort()] * 8))     # sec,min,hour,mday,mon,year,isdst
GM = z3.Function('timegm_of', *([z3.IntSort()] * 7))


def tm_get(E, st, p, k, inst=None):
    r = E.load(st, E.add_elems(st, p, FIELDS[k], INT[8], 1) if False else Ptr(p.obj, p.idx, p.off + FIELDS[k], p.row), I32, inst)
    if len(r) != 1: raise Unsupported('tm field')
    return r[0][1]


def tm_set(E, st, p, k, v, inst=None):
    r = E.store(st, Ptr(p.obj, p.idx, p.off + FIELDS[k], p.row), I32, v, inst)
    if len(r) != 1: raise Unsupported('tm field')


def one(E, st, p, inst):
    rs = E.resolve(st, p, inst)
    if len(rs) != 1: raise Unsupported('ambiguous tm pointer')
    return rs[0][0], Ptr(rs[0][1], p.idx, p.off, p.row)


def tm_range(z, t):
    f = lambda k: TMF[z, k](t)
    return z3.And(f('sec') >= 0, f('sec') <= 60, f('min') >= 0, f('min') <= 59, f('hour') >= 0, f('hour') <= 23, f('mon') >= 0, f('mon') <= 11,
                  f('mday') >= 1, f('mday') <= dim(f('mon') + 1, f('year') + 1900), f('wday') >= 0, f('wday') <= 6,
                  f('yday') == cum(f('mon') + 1, f('year') + 1900) + f('mday') - 1, f('year') >= -1900, f('year') <= 4000000, f('isdst') >= 0 if z == 'local' else f('isdst') == 0, f('isdst') <= 1)


def m_brk(z):
    def m(E, st, a, inst, sig):
        stl.note(E, '%s: writes the calendar fields of its argument' % ('gmtime_r' if z == 'utc' else 'localtime_r'))
        st, pt = one(E, st, a[0], inst)
        tv = E.load(st, pt, I64, inst)[0][1]
        st, p = one(E, st, a[1], inst)
        for k in FIELDS: tm_set(E, st, p, k, TMF[z, k](tv), inst)
        st.assume(z3.Implies(z3.And(tv >= TMIN - 2 * 86400, tv <= TMAX), tm_range(z, tv)))
        return [(st, a[1])]
    return m


def m_mktime(E, st, a, inst, sig):
    stl.note(E, 'mktime: the instant of the given local fields, fields normalised; inverse of localtime_r')
    st, p = one(E, st, a[0], inst)
    v = {k: tm_get(E, st, p, k, inst) for k in FIELDS}
    r = MK(*[v[k] for k in ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'isdst')])
    # inverse on fields produced by localtime_r
    for key in [v[k] for k in ('sec',)]:
        if z3.is_app(key) and key.decl().eq(TMF['local', 'sec']):
            tt = key.arg(0)
            st.assume(z3.Implies(z3.And(*[v[k] == TMF['local', k](tt) for k in ('sec', 'min', 'hour', 'mday', 'mon', 'year', 'isdst')]), r == tt))
    for k in FIELDS: tm_set(E, st, p, k, TMF['local', k](r), inst)
    st.assume(tm_range('local', r))
    st.assume(z3.And(r >= -TMAX, r <= TMAX))
    return [(st, r)]


def m_timegm(E, st, a, inst, sig):
    stl.note(E, 'timegm: the instant of the given UTC fields, fields normalised')
    st, p = one(E, st, a[0], inst)
    v = [tm_get(E, st, p, k, inst) for k in ('sec', 'min', 'hour', 'mday', 'mon', 'year')]
    r = GM(*v)
    for k in FIELDS: tm_set(E, st, p, k, TMF['utc', k](r), inst)
    return [(st, r)]


TIME_MODELS = [(re.compile(r'@?gmtime_r$'), m_brk('utc')), (re.compile(r'@?localtime_r$'), m_brk('local')), (re.compile(r'@?mktime$'), m_mktime), (re.compile(r'@?timegm$'), m_timegm)]


def query(name, fn, spec):
    @task('C07', name, TU)
    def _(t):
        t.E.models = TIME_MODELS + t.E.models
        d = t.int('date', 64); u = z3.Bool('utc')
        t.require(z3.And(d >= TMIN, d <= 10**14))
        t.call(fn, d, u)
        for s in t.rets:
            for z, c in (('utc', u), ('local', z3.Not(u))):
                f = lambda k: TMF[z, k](d)
                t.ensure(s, z3.Implies(c, s.ret == spec(f)), '%s calendar field' % z)
            t.ensure(s, z3.BoolVal(not [o for o in s.ghost.get('allocs', ()) if s.mem[o].alive]), 'no leak')


query('GetYear(date)', 'GetYear(long, bool)', lambda f: f('year') + 1900)
query('GetMonth(date)', 'GetMonth(long, bool)', lambda f: f('mon') + 1)
query('GetDay(date)', 'GetDay(long, bool)', lambda f: f('mday'))
query('DayOfYear(date)', 'DayOfYear(long, bool)', lambda f: cum(f('mon') + 1, f('year') + 1900) + f('mday'))
query('JulianDay(date)', 'JulianDay(long, bool)', lambda f: jdn(f('year') + 1900, f('mon') + 1, f('mday')))


@task('C07', 'ConvertYMDToTime', TU)
def _(t):
    t.E.models = TIME_MODELS + t.E.models
    y, m, d = t.int('year'), t.int('month'), t.int('day'); u = z3.Bool('utc')
    t.require(z3.And(y >= -2000000000, m > -2000000000))
    cs = [t.cell(I32, v, n) for v, n in ((y, 'y'), (m, 'm'), (d, 'd'))]
    t.call('ConvertYMDToTime(int&, int&, int&, bool)', *([Ptr(c) for c in cs] + [u]))
    for s in t.rets:
        t.ensure(s, z3.Implies(u, s.ret == GM(0, 0, 0, d, m - 1, y - 1900)), 'UTC midnight of the date')
        t.ensure(s, z3.Implies(z3.Not(u), s.ret == MK(0, 0, 0, d, m - 1, y - 1900, 0)), 'local midnight of the date')
        t.ensure(s, z3.BoolVal(not [o for o in s.ghost.get('allocs', ()) if s.mem[o].alive]), 'no leak')
    t.unchanged(cs)


# ------------------------------------------------------------------ C08 DateTime
DT = dict(year=0, month=4, day=8, day_of_week=12, day_of_year=16, hour=20, minute=24, second=28, milliseconds=32, total_milliseconds=40, filetime=48)
DTY = lambda k: I64 if k in ('total_milliseconds', 'filetime') else I32


def dt_struct(t, name, vals=None):
    o = t.struct(name)
    v = {}
    for k, off in DT.items():
        v[k] = t.val(DTY(k), name + '.' + k)
        t.st.w(o).cells[off] = (DTY(k), v[k])
    return o, v


def same_instant(t, s, o, inst_ms, tsec, ms):
    f = {k: t.get(s, o, off) for k, off in DT.items()}
    L = lambda k: TMF['local', k](tsec)
    t.ensure(s, z3.And(f['filetime'] == inst_ms, f['total_milliseconds'] == inst_ms), 'the instant')
    t.ensure(s, z3.And(f['year'] == L('year') + 1900, f['month'] == L('mon') + 1, f['day'] == L('mday'), f['hour'] == L('hour'), f['minute'] == L('min'), f['second'] == L('sec'),
                       f['day_of_week'] == L('wday'), f['day_of_year'] == L('yday')), 'calendar fields describe the same instant')
    t.ensure(s, f['milliseconds'] == ms, 'millisecond field')
    t.ensure(s, z3.BoolVal(not [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive]), 'no leak')


def shift(name, fn, sign):
    @task('C08', name, TU)
    def _(t):
        t.E.models = TIME_MODELS + t.E.models
        me, v = dt_struct(t, 'self'); out = t.struct('result')
        d = t.int('delta')
        r = v['filetime'] + sign * d
        t.require(z3.And(v['filetime'] >= 0, v['filetime'] <= 10**17, r >= 0))
        t.call(fn, Ptr(out), Ptr(me), d)
        for s in t.rets: same_instant(t, s, out, r, r / 1000, r % 1000)
        t.unchanged([me])


shift('DateTime::Forward', 'DateTime::Forward(int)', 1)
shift('DateTime::Backward', 'DateTime::Backward(int)', -1)


@task('C08', 'DateTime::FromFileTime', TU)
def _(t):
    t.E.models = TIME_MODELS + t.E.models
    out = t.struct('result'); x = t.int('ft', 64)
    t.require(z3.And(x >= 0, x <= 10**17))
    t.call('DateTime::FromFileTime(unsigned long)', Ptr(out), x)
    for s in t.rets: same_instant(t, s, out, x, x / 1000, x % 1000)


@task('C08', 'DateTime::FromDateTime', TU)
def _(t):
    t.E.models = TIME_MODELS + t.E.models
    out = t.struct('result')
    y, mo, d, h, mi, se, ms = [t.int(n) for n in ('year', 'month', 'day', 'hour', 'minute', 'second', 'ms')]
    t.require(z3.And(y >= 1, y <= 4000000, valid(y, mo, d), h >= 0, h <= 23, mi >= 0, mi <= 59, se >= 0, se <= 59, ms >= 0, ms <= 999))
    t.call('DateTime::FromDateTime(int, int, int, int, int, int, int)', Ptr(out), y, mo, d, h, mi, se, ms)
    T = MK(se, mi, h, d, mo - 1, y - 1900, -1)
    for s in t.rets:
        same_instant(t, s, out, z3.If(T * 1000 + ms >= 0, T * 1000 + ms, T * 1000 + ms), T, ms)


for nm, z in (('ToLocalTime', 'local'), ('ToUTCTime', 'utc')):
    @task('C08', 'DateTime::%s' % nm, TU)
    def _(t, nm=nm):
        t.E.models = TIME_MODELS + [(re.compile(r'@?gmtime$'), lambda E, st, a, inst, sig: m_static(E, st, a, inst)), (re.compile(r'@?time$'), lambda E, st, a, inst, sig: [(st, E.fresh_int(st, 'now', 64, 0, 10**13))])] + t.E.models
        me, v = dt_struct(t, 'self'); out = t.struct('result')
        t.require(z3.And(v['filetime'] >= 0, v['filetime'] <= 10**17, v['milliseconds'] >= 0, v['milliseconds'] <= 999))
        t.call('DateTime::%s()' % nm, Ptr(out), Ptr(me))
        for s in t.rets:
            t.ensure(s, t.get(s, out, DT['milliseconds']) == v['milliseconds'], 'milliseconds kept')
            t.ensure(s, z3.BoolVal(not [q for q in s.ghost.get('allocs', ()) if s.mem[q].alive]), 'no leak')
        t.unchanged([me])


def m_static(E, st, a, inst):
    stl.note(E, 'gmtime: the library\'s static buffer with the UTC fields')
    st, pt = one(E, st, a[0], inst)
    tv = E.load(st, pt, I64, inst)[0][1]
    o = E.new_obj(st, 'gmtime.static', 'static')
    for k, off in FIELDS.items(): st.w(o).cells[off] = (I32, TMF['utc', k](tv))
    st.assume(tm_range('utc', tv))
    return [(st, Ptr(o))]


# ordering of DateTime values
for op, sy, f in (('==', 'eq', lambda a, b: a == b), ('!=', 'ne', lambda a, b: a != b), ('<', 'lt', lambda a, b: a < b), ('<=', 'le', lambda a, b: a <= b), ('>', 'gt', lambda a, b: a > b), ('>=', 'ge', lambda a, b: a >= b)):
    @task('C08', 'DateTime operator%s' % op, 'time_inl.cpp')
    def _(t, op=op, f=f):
        a, va = dt_struct(t, 'a'); b, vb = dt_struct(t, 'b')
        t.require(z3.And(va['filetime'] >= 0, vb['filetime'] >= 0))
        t.call('DateTime::operator%s(DateTime const&) const' % op, Ptr(a), Ptr(b))
        for s in t.rets: t.ensure(s, s.ret == f(va['filetime'], vb['filetime']), 'orders by instant')
