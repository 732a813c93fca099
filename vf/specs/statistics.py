"""nx_statistics.c and the comparators it sorts with (real arithmetic; qsort trusted)."""
import z3
from ..sym import *
from ..contract import *
from ..alg import *
from ..loops import *
from ..engine import Out, Cand, QCand
from .linalg import TU

FILES = [TU, 'src/nx_statistics.c', 'src/nx_math.c']
CONTRACTS = {}; OWN = []


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


class Cmp(Contract):
    """negative, zero or positive as the first value is below, equal to or above the second"""
    ty = 'f64'
    def setup(s, e, case):
        b = B(e); x = b.array('a', s.ty, 1, kind='param', ro=True); y = b.array('b', s.ty, 1, kind='param', ro=True)
        s.x, s.y = [e.read(b.st, o, None, 0, s.ty) for o in (x, y)]
        return b.st, [PV(x, 0), PV(y, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = e.S(st, o.ret); x, y = [v.t if s.ty[0] == 'f' else e.S(st, v) for v in (s.x, s.y)]
        e.oblige(st, And(Implies(lt(x, y), lt(r, 0)), Implies(lt(y, x), lt(0, r)), Implies(eq(x, y), eq(r, 0))), 'post', 'sign of the comparison')


reg(type('c1', (Cmp,), dict(name='nx_compare_double_incr', ty='f64', __doc__=Cmp.__doc__)))
reg(type('c2', (Cmp,), dict(name='nx_compare_int_incr', ty='i32', __doc__=Cmp.__doc__)))
COMPARATORS = {'nx_compare_double_incr': 'f64', 'nx_compare_int_incr': 'i32'}


class QSort(Contract):
    """trusted: the array becomes a permutation of itself, sorted by the comparator"""
    name = 'qsort'
    def spec(s, e, st, args):
        p, n, sz, cmp = args
        f = cmp.name if isinstance(cmp, FnV) else '?'
        ty = COMPARATORS.get(f)
        if ty is None: raise Unsupported('sorting with the comparator ' + f)
        nt = e.U(st, n)
        e.oblige(st, eq(e.U(st, sz), TSIZE[ty]), 'call', 'element size matches the comparator')
        e.valid(st, p, mul(nt, TSIZE[ty]), 'qsort', wr=True)
        e.assumptions.add('qsort leaves a permutation of the array, sorted by the comparator (its contract is proved)')
        F = st.ghost['sortfn'] if 'sortfn' in st.ghost else z3.Function(uid('sorted'), z3.IntSort(), z3.RealSort() if ty[0] == 'f' else z3.IntSort())
        w = TSIZE[ty]
        def val(st, idx, o, ty2, p=p):
            if ty2 != ty: raise Unsupported('sorted element read as ' + ty2)
            j = sub(o, p.off)
            i = sdiv_exact(e, j, w)
            t = F(zi(i))
            if ty[0] == 'f': return FV(t, True)
            st.assume(And(t >= -(1 << 31), t < (1 << 31)))
            return IV(32, t, -(1 << 31), (1 << 31) - 1)
        e.set_fn(st, p.obj, val, region=lambda idx, o: And(le(p.off, o), lt(o, add(p.off, mul(nt, w)))))
        st.ghost['sorted'] = (F, p, nt)
        return [(st, IV(32, 0, 0, 0))]


def sdiv_exact(e, j, w):
    if isc(j): return j // w
    return zi(z3.simplify(zi(j) / w))


reg(QSort, own=False)
FIELDS = ('n', 'mean', 'median', 'lower_quartile', 'upper_quartile', 'interquartile_range', 'stdev', 'min', 'max')


class Stats(Contract):
    """over the sorted values: median, quartiles as medians of the lower and upper half (middle value excluded), mean, sample standard deviation, least and largest value; all zero for no values"""
    ty = 'f64'; unroll = False; STRUCT = ('virg/nexus/nx_statistics.h', 'struct NXStatistics1D')
    def setup(s, e, case):
        b = B(e)
        s.sto = b.struct('stats', *s.STRUCT, {f: ('i32', b.int('c0', 32, 0, 1)) if f == 'n' else ('f64', b.real(f, True)) for f in FIELDS}, kind='param')
        s.n = b.int('n', 32, 0, 1 << 30); s.x = b.array('x', s.ty, s.n.t, kind='param')
        st = b.st; n = s.n.t
        s.F = z3.Function(uid('sorted'), z3.IntSort(), z3.RealSort() if s.ty[0] == 'f' else z3.IntSort()); st.ghost['sortfn'] = s.F
        el = lambda i: s.F(zi(i)) if s.ty[0] == 'f' else z3.ToReal(s.F(zi(i)))
        s.el = el
        s.T = Sum('sum', lambda t, i: el(i))
        s.mean = z3.Real(uid('mean')); st.assume(z3.ToReal(zi(n)) * s.mean == s.T.f(zi(n)))
        s.Q = Sum('ssd', lambda t, i: (el(i) - s.mean) * (el(i) - s.mean))
        s.lo = Sum('min', lambda t, i: el(i), zero=s.top, step=lambda a, x: z3.If(x < a, x, a))
        s.hi = Sum('max', lambda t, i: el(i), zero=s.bot, step=lambda a, x: z3.If(x > a, x, a))
        return st, [PV(s.sto, 0), s.n, PV(s.x, 0)], b.aux()
    def loop_cands(s, e, L):
        out = []
        for S in (s.T, s.Q, s.lo, s.hi):
            out += [Cand(S.name + ': ' + c.name, c.f) for c in sum_cands(L, S)]
            if s.ty[0] != 'f': out += [Cand('%s: %s' % (S.name, nm(a)), lambda v, a=a, S=S: eq(z3.ToReal(zi(v.get(a))), S.at(v.st, v.k))) for a in ints(L)]
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        n = s.n.t; g = lambda f, t: zr(fld(e, t, s.sto, f).t)
        e.oblige(st, eq(e.S(st, fld(e, st, s.sto, 'n')), n), 'post', 'count')
        for zero, s1 in branch(e, st, eq(n, 0)):
            if zero:
                for f in FIELDS[1:]: e.oblige(s1, eq(g(f, s1), zr(0)), 'post', 'no values: %s is 0' % f)
                continue
            for one, s2 in branch(e, s1, eq(n, 1)):
                if one:
                    x0 = e.base_read(s2, s.x, None, 0, s.ty); x0 = x0.t if s.ty[0] == 'f' else z3.ToReal(zi(e.S(s2, x0)))
                    for f in FIELDS[1:]: e.oblige(s2, eq(g(f, s2), zr(0) if f in ('stdev', 'interquartile_range') else zr(x0)), 'post', 'one value: %s' % f)
                    continue
                n_ = zi(n); h = n_ / 2; u = n_ - h
                med = lambda a, c: (s.el(a + (c - 1) / 2) + s.el(a + c / 2)) / 2
                for par in (0, 1, 2, 3):
                    for on, s3 in branch(e, s2.copy() if hasattr(s2, 'copy') else s2, eq(n_ % 4, par)):
                        if not on: continue
                        q = z3.Int(uid('q')); s3.assume(And(n_ == 4 * q + par, q >= 0))
                        hh = 2 * q + par // 2; uu = 2 * q + par - par // 2
                        md = lambda a, c: (s.el(zi(a + c[0])) + s.el(zi(a + c[1]))) / 2
                        half = (q - 1, q) if par < 2 else (q, q)     # medians of a half of 2q or 2q+1 values
                        e.oblige(s3, eq(g('median', s3), md(z3.IntVal(0), (hh - 1, hh) if par % 2 == 0 else (hh, hh))), 'post', 'median (n mod 4 = %d)' % par)
                        e.oblige(s3, eq(g('lower_quartile', s3), md(z3.IntVal(0), half)), 'post', 'lower quartile (n mod 4 = %d)' % par)
                        e.oblige(s3, eq(g('upper_quartile', s3), md(uu, half)), 'post', 'upper quartile (n mod 4 = %d)' % par)
                e.oblige(s2, eq(g('interquartile_range', s2), g('upper_quartile', s2) - g('lower_quartile', s2)), 'post', 'interquartile range')
                e.oblige(s2, eq(z3.ToReal(n_) * g('mean', s2), s.T.at(s2, n)), 'post', 'mean')
                e.oblige(s2, eq(g('min', s2), s.lo.at(s2, n)), 'post', 'least value')
                e.oblige(s2, eq(g('max', s2), s.hi.at(s2, n)), 'post', 'largest value')
                e.oblige(s2, eq(g('stdev', s2), e.uf1('sqrt')(s.Q.at(s2, n) * (1 / (z3.ToReal(n_) - 1)))), 'post', 'sample standard deviation')


DBL_MAX = Fraction((2 ** 53 - 1) * 2 ** 971)
reg(type('sd', (Stats,), dict(name='nx_dstatistics_1d', ty='f64', top=DBL_MAX, bot=-DBL_MAX, __doc__=Stats.__doc__)))
reg(type('si', (Stats,), dict(name='nx_istatistics_1d', ty='i32', top=(1 << 31) - 1, bot=-(1 << 31), __doc__=Stats.__doc__)))
