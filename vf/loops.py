"""Invariant templates for loops over arrays: sums, element-wise maps, maps over a grid."""
import z3
from .sym import *
from .contract import *
from .engine import Cand, QCand


def reals(L):
    """accessors of floating point accumulators"""
    out = []
    for a in L.accs():
        try: v = L.entry[a[1]] if a[0] == 'phi' else L.e.read(L.st0, a[1], None, a[2], a[3])
        except (Unsupported, ForkOn, KeyError): continue
        if isinstance(v, FV): out.append(a)
    return out


def ints(L):
    out = []
    for a in L.accs():
        if a[0] not in ('phi', 'cell'): continue
        try: v = L.entry[a[1]] if a[0] == 'phi' else L.e.read(L.st0, a[1], None, a[2], a[3])
        except (Unsupported, ForkOn, KeyError): continue
        if isinstance(v, IV): out.append(a)
    return out


def nm(a): return a[1] if a[0] == 'phi' else '%s+%s' % (a[1].name, a[2]) if a[0] == 'cell' else 'k'


class Sum:
    """S(k) = term(0) + ... + term(k-1), by its recursive definition"""
    def __init__(s, name, term, real=True, zero=0, step=None):
        """step(acc, term): fold instead of a sum"""
        s.step = step or (lambda a, x: a + x)
        s.f = z3.Function(uid('sum.' + name), z3.IntSort(), z3.RealSort() if real else z3.IntSort())
        s.term, s.name, s.zero, s.real = term, name, zero, real
    def at(s, st, k):
        """S(k), with the defining equations around k"""
        for i in (k, sub(k, 1)):
            key = ('sum', s.f.name(), i if isc(i) else zi(i).get_id())
            if key in st.inst: continue
            st.inst.add(key)
            i = zi(i)
            if isc(unz(i)) and unz(i) < 0: continue
            st.assume(guarded(st.eng, st, i >= 0, lambda t: s.f(i + 1) == s.step(s.f(i), (zr if s.real else zi)(s.term(t, i)))))
        st.assume(s.f(0) == s.zero)
        return s.f(zi(k))


def sum_cands(L, S, scale=None):
    """accumulators equal to the sum so far"""
    out = []
    accs = reals(L) if S.real else ints(L)
    for a in accs:
        out.append(Cand('%s is the sum of the first k terms' % nm(a), lambda v, a=a: eq((zr if S.real else zi)(v.get(a)), S.at(v.st, v.k))))
        out.append(Cand('%s is initial + sum of the first k terms' % nm(a), lambda v, a=a: eq((zr if S.real else zi)(v.get(a)), (zr if S.real else zi)(View0(L).get(a)) + S.at(v.st, v.k))))
    return out


def View0(L):
    from .engine import View
    return View(L.e, L.st0, L.env0, 0, L)


def val(v): return v.t if isinstance(v, FV) else v


def same(e, st, x, y):
    if isinstance(x, IV): return same_int(e, st, x, y)
    return eq(zr(x.t), zr(y.t))


def map_cands(e, L, obj, ty, final, count=None, dom=None):
    """obj[j] == final(st, j) for the elements already visited, as at loop entry elsewhere.
    Visited: j < k, or j >= count-k."""
    n = TSIZE[ty]
    out = []
    def mk(vis):
        def f(v, co):
            j, = co
            d = And(le(0, j), le(add(mul(j, n), n), obj.size))
            def g(t):
                cur = e.read(t, obj, None, mul(j, n), ty)
                ini = e.read(st_with(t, L.st0), obj, None, mul(j, n), ty)
                fin = final(t, j)
                if not isinstance(fin, (IV, FV)): fin = FV(fin, ty == 'f64') if ty[0] == 'f' else IV(TSIZE[ty] * 8, fin)
                c = vis(v, j)
                return And(Implies(c, same(e, t, cur, fin)), Implies(Not(c), same(e, t, cur, ini)))
            return guarded(e, v.st, d, g)
        return f
    viss = [('first k', lambda v, j: lt(j, v.k))]
    if count is not None: viss.append(('last k', lambda v, j: le(sub(count, v.k), j)))
    for a in ints(L):
        if a in L.affine:
            t0 = View0(L).get(a)
            if isc(t0) and t0 == 0: continue
        viss.append(('below %s' % nm(a), lambda v, j, a=a: lt(j, v.get(a))))
    for w, vis in viss:
        out.append(QCand('%s: %s elements done, others as before' % (obj.name, w), lambda v: obj, 1, n, mk(vis)))
    return out


def grid_cands(e, L, obj, ty, dims, enc, final, dom=None, base=0, tag='', regions=(), auto=True):
    """a grid of elements at byte offset base + TSIZE*enc(*co), 0 <= co[i] < dims[i] (dom(co) for an extra restriction):
    final(st, co) for the visited ones, as at loop entry for the others.
    Visited, in a loop nest: co[i] == counter of an enclosing loop for some coordinates, co[j] < counter of this one."""
    sz = TSIZE[ty]; n = len(dims)
    byte = lambda *co: add(base, mul(enc(*co), sz))
    def mk(vis):
        def f(v, co):
            d = And(*[And(le(0, c), lt(c, m)) for c, m in zip(co, dims)])
            if dom is not None: d = And(d, dom(co))
            def g(t):
                off = byte(*co)
                cur = e.read(t, obj, None, off, ty)
                ini = e.read(st_with(t, L.st0), obj, None, off, ty)
                c = vis(v, co)
                def gf(t2):
                    fin = final(t2, co)
                    if not isinstance(fin, (IV, FV)): fin = FV(fin, ty == 'f64') if ty[0] == 'f' else IV(8, fin, 0, 255) if ty == 'i8' else IV(sz * 8, fin)
                    return same(e, t2, cur, fin)
                return And(guarded(e, t, c, gf), Implies(Not(c), same(e, t, cur, ini)))
            return guarded(e, v.st, d, g)
        return f
    outer = L.outer
    opts = []
    counters = [('k', lambda v: v.k)]
    for a in ints(L):
        if a in L.affine:
            t0 = View0(L).get(a)
            if isc(t0) and t0 == 0: continue
        counters.append((nm(a), lambda v, a=a: v.get(a)))
    oks = []
    for lev, (Lo, ko, envo) in enumerate(outer):
        vals = [('k%d' % lev, ko)]
        for ph in Lo.phis:
            x = envo.get(ph.res)
            if isinstance(x, IV):
                t = e.canon(L.st0, x)
                if isc(t) or zi(t).eq(zi(ko)): continue
                vals.append(('%s/%d' % (ph.res, lev), t))
        oks.append(vals)
    import itertools
    def rec(fixed, rest):
        """assign some enclosing loops to coordinates"""
        for j in range(n):
            if j in fixed: continue
            for cn, cf in counters:
                opts.append((dict(fixed), j, cn, cf))
    def assign(i, fixed):
        if i == len(oks):
            if len(fixed) < n: rec(fixed, None)
            return
        assign(i + 1, fixed)
        for j in range(n):
            if j in fixed: continue
            for (vn, vt) in oks[i]: assign(i + 1, {**fixed, j: (vn, vt)})
    assign(0, {})
    opts.sort(key=lambda o: -len(o[0]))
    out = []
    if n >= 3 and opts and len(opts[0][0]) == len(outer): opts = [o for o in opts if len(o[0]) == len(outer)]
    for fixed, j, cn, cf in opts[:40] if auto else ():
        def vis(v, co, fixed=fixed, j=j, cf=cf):
            return And(*[eq(co[i], t) for i, (_, t) in fixed.items()], lt(co[j], cf(v)))
        what = ', '.join(['%d=outer %s' % (i, t[0]) for i, t in fixed.items()] + ['%d<%s' % (j, cn)])
        out.append(QCand('%s: grid elements with %s done%s, others as before' % (obj.name, what, tag), lambda v: obj, n, byte, mk(vis)))
    for rn, rf in regions: out.append(QCand('%s: grid elements with %s done%s, others as before' % (obj.name, rn, tag), lambda v: obj, n, byte, mk(rf)))
    return out
