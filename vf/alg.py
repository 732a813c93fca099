"""Contracts of straight-line numeric functions over small fixed-size arrays (reals)."""
from .sym import *
from .contract import *
from .engine import Out
import z3

EL = {'d': 'f64', 'f': 'f32'}


class Alg(Contract):
    """sig: (name, kind, n); kind d/f read-only array, D/F array written, xd/xf array read and written, sd/sf scalar.
    f(A) -> [(condition, {array: {index: value} or list, 'ret': value})] or one such dict"""
    sig = ()
    def pre(s, A): return True
    def setup(s, e, case):
        b = B(e); args = []; aux = b.aux()
        for nm, k, n in s.sig:
            if k in ('sd', 'sf'): args.append(b.real(nm, k == 'sd')); continue
            ty = EL[k[-1].lower()]
            ro = k in ('d', 'f')
            o = b.array(nm, ty, n, kind='param', ro=ro)
            args.append(PV(o, 0))
        pre = s.pre(s.env(e, b.st, args))
        b.st.assume(pre)
        return b.st, args, aux
    def env(s, e, st, args):
        A = {}
        for (nm, k, n), a in zip(s.sig, args):
            if k in ('sd', 'sf'): A[nm] = a.t; continue
            ty = EL[k[-1].lower()]
            if k in ('D', 'F'): A[nm] = None; continue
            A[nm] = [e.read(st, a.obj, a.idx, add(a.off, i * TSIZE[ty]), ty).t for i in range(n)]
        return A
    def spec(s, e, st, args):
        A = s.env(e, st, args)
        p = s.pre(A)
        if p is not True: e.oblige(st, p, 'pre', '%s: precondition' % s.name)
        r = s.f(A)
        if isinstance(r, dict): r = [(True, r)]
        outs = []
        for c, d in r:
            s2 = st.copy() if len(r) > 1 else st
            if c is not True:
                s2.assume(c)
                if not e.pr.feasible(s2): continue
            for (nm, k, n), a in zip(s.sig, args):
                if nm not in d: continue
                ty = EL[k[-1].lower()]
                v = d[nm]
                for i, x in (v.items() if isinstance(v, dict) else enumerate(v)):
                    if x is None: continue
                    e.write(s2, a.obj, a.idx, add(a.off, i * TSIZE[ty]), ty, ANY if x is ANY else FV(x if isc(x) else x, ty == 'f64'))
            ret = d.get('ret')
            if ret is not None and not isinstance(ret, (FV, IV, Anyv)): ret = FV(ret, s.retd if hasattr(s, 'retd') else True)
            outs.append((s2, ret))
        return outs
    def compare(s, e, st0, co, so, args, aux):
        st = co.st
        if so.kind != co.kind: e.oblige(st, False, 'post', 'terminates as specified'); return
        if so.ret is not None and not isinstance(so.ret, Anyv):
            if isinstance(so.ret, IV): e.oblige(st, same_int(e, st, co.ret, so.ret), 'post', 'result')
            else: e.oblige(st, eq(zr(co.ret.t), zr(so.ret.t)), 'post', 'result', assume=False)
        for (nm, k, n), a in zip(s.sig, args):
            if k in ('sd', 'sf', 'd', 'f'): continue
            ty = EL[k[-1].lower()]
            for i in range(n):
                off = i * TSIZE[ty]
                try: y = e.read(st_with(st, so.st), a.obj, None, off, ty)
                except Unsupported: y = None
                x = e.read(st_with(st, co.st), a.obj, None, off, ty)
                if y is None or isinstance(y, Anyv): continue
                e.oblige(st, eq(zr(x.t), zr(y.t)), 'post', '%s[%d]' % (nm, i), assume=False)


def matmul(A, B, n):
    """column-major n x n product"""
    return [sum_(mul(A[k * n + r], B[c * n + k]) for k in range(n)) for c in range(n) for r in range(n)]


def sum_(xs):
    r = 0
    for x in xs: r = add(r, x)
    return r


def transpose(A, n): return [A[r * n + c] for c in range(n) for r in range(n)]


def det3(A):
    t = lambda i, j, k: mul(A[i], mul(A[j], A[k]))
    return sub(add(add(t(0, 4, 8), t(3, 7, 2)), t(6, 1, 5)), add(add(t(6, 4, 2), t(3, 1, 8)), t(0, 7, 5)))


def cof3(A):
    """adjugate (column-major): inverse = adjugate / det"""
    a = lambda r, c: A[c * 3 + r]
    m = lambda r0, c0, r1, c1: sub(mul(a(r0, c0), a(r1, c1)), mul(a(r0, c1), a(r1, c0)))
    out = []
    for c in range(3):
        for r in range(3):
            # adj(r,c) = cofactor(c,r)
            rr = [i for i in range(3) if i != c]; cc = [i for i in range(3) if i != r]
            v = m(rr[0], cc[0], rr[1], cc[1])
            out.append(v if (r + c) % 2 == 0 else sub(0, v))
    return out


def div(a, b):
    if isc(a) and isc(b): return Fraction(a) / Fraction(b)
    if isc(b): return mul(a, Fraction(1) / Fraction(b))
    r = z3.RealVal(1) / zr(b)
    return r if isc(a) and a == 1 else mul(zr(a), r)


def sqrt_(e, x): return e.uf1('sqrt')(zr(x))
