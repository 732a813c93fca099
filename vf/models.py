"""Models of library functions outside /repo (trusted) and LLVM intrinsics."""
from .sym import *
from .llir import Unsupported, Ty
import z3
from fractions import Fraction


def size_arg(e, st, v):
    if e.bv:
        return v.t if isc(v.t) else z3.BV2Int(v.t)
    return e.U(st, v)


def install(e):
    M = e.models
    from .engine import Out, PathEnd

    def model(*names):
        def d(f):
            for n in names: M[n] = f
            return f
        return d

    # ---------------------------------------------------------------- logging / abort
    @model('nx_log_fatal', 'exit', 'abort', '_exit', '__assert_fail', 'nx_io_log_fatal')
    def fatal(e, st, a, ins, mod):
        return [Out('fatal', st, None, ins.line)]

    @model('nx_log_formatted', 'perror', '__errno_location_ignored')
    def nolog(e, st, a, ins, mod): return None

    errno = Obj('errno', 4, kind='global')

    @model('__errno_location')
    def errno_(e, st, a, ins, mod): return PV(errno, 0)

    @model('strerror')
    def strerror(e, st, a, ins, mod): return PV(Obj('strerror', 256, kind='global', ro=True), 0)

    # ---------------------------------------------------------------- heap
    def alloc(e, st, n, name='heap', zero=False):
        o = Obj(name, n, kind='heap')
        if not isc(n): st.assume(And(le(0, n), lt(n, 1 << 63)))     # a larger request fails, which is fatal
        st.ghost['heap'] = st.ghost.get('heap', ()) + (o,)
        if zero: st.mem[o] = Layer('fill', None, idx=None, off=0, n=n, byte=IV(8, 0))
        e.assumptions.add('malloc/realloc/aligned_alloc succeed and return a fresh block disjoint from all others (out-of-memory paths end in the library fatal handler)')
        return PV(o, 0)
    e.alloc = alloc

    @model('malloc')
    def malloc(e, st, a, ins, mod): return alloc(e, st, size_arg(e, st, a[0]))

    @model('calloc')
    def calloc(e, st, a, ins, mod):
        n, k = size_arg(e, st, a[0]), size_arg(e, st, a[1])
        return alloc(e, st, mul(n, k), zero=True)

    @model('aligned_alloc')
    def aal(e, st, a, ins, mod): return alloc(e, st, size_arg(e, st, a[1]))

    @model('realloc')
    def realloc(e, st, a, ins, mod):
        n = size_arg(e, st, a[1])
        p = a[0]
        if p.obj is not None and p.nullc is not False:
            d = e.decide(st, p.nullc)
            if d is None: raise ForkOn(p.nullc)
            if d: p = NULL
        r = alloc(e, st, n)
        if p.obj is None: return r
        dofree(e, st, p, 'realloc')
        old = p.obj.size if not callable(p.obj.size) else p.obj.size(p.idx)
        m = old if (isc(old) and isc(n) and old <= n) else n if (isc(old) and isc(n)) else ite(le(old, n), old, n)
        st.mem[r.obj] = Layer('cp', None, idx=None, off=0, n=m, sobj=p.obj, sidx=p.idx, soff=0, slayer=st.mem.get(p.obj))
        return r

    def dofree(e, st, p, what='free'):
        if p.obj is None: return
        if p.nullc is not False:
            d = e.decide(st, p.nullc)
            if d is True: return
            if d is None: raise ForkOn(p.nullc)
        e.oblige(st, eq(p.off, 0), 'memory-safety', what + ' of interior pointer into ' + p.obj.name)
        e.oblige(st, p.obj.kind in ('heap', 'hparam'), 'memory-safety', what + ' of non-heap object ' + p.obj.name)
        dd = st.dead.get(p.obj)
        if dd is not None:
            e.oblige(st, False if dd is True else Not(dd(p.idx)), 'memory-safety', 'double ' + what + ' of ' + p.obj.name)
        if p.obj.fam:
            i = p.idx
            st.dead[p.obj] = (lambda j, dd=dd, i=i: Or(eq(j, i), dd(j) if dd is not None else False))
        else: st.dead[p.obj] = True
    e.dofree = dofree

    @model('free')
    def free(e, st, a, ins, mod): dofree(e, st, a[0]); return None

    # ---------------------------------------------------------------- block memory
    def memcpy(e, st, a, ins, mod, nm=None):
        n = size_arg(e, st, a[2])
        if isc(n) and n == 0: return a[0]
        e.valid(st, a[1], n, 'memcpy source')
        e.valid(st, a[0], n, 'memcpy destination', wr=True)
        if a[0].obj is None or a[1].obj is None: return a[0]
        if a[0].obj is a[1].obj and 'move' not in (nm or ''):
            same_i = True if a[0].idx is None else eq(a[0].idx, a[1].idx)
            e.oblige(st, Or(eq(n, 0), Not(same_i), eq(a[0].off, a[1].off), le(add(a[0].off, n), a[1].off), le(add(a[1].off, n), a[0].off)), 'memory-safety', 'memcpy regions do not overlap')
        e.copy_mem(st, a[0], a[1], n)
        return a[0]

    def memset(e, st, a, ins, mod, nm=None):
        n = size_arg(e, st, a[2])
        if isc(n) and n == 0: return a[0]
        e.valid(st, a[0], n, 'memset', wr=True)
        if a[0].obj is None: return a[0]
        b = a[1]
        if b.bits != 8: b = e.cast(st, 'trunc', b, Ty('int', b.bits), Ty('int', 8))
        e.fill_mem(st, a[0], b, n)
        return a[0]
    M['memcpy'] = lambda e, st, a, ins, mod: memcpy(e, st, a, ins, mod)
    M['memmove'] = lambda e, st, a, ins, mod: memcpy(e, st, a, ins, mod, 'move')
    M['memset'] = lambda e, st, a, ins, mod: memset(e, st, a, ins, mod)

    def intrin(e, st, a, ins, mod, name):
        if name.startswith('llvm.memcpy'): memcpy(e, st, a, ins, mod); return None
        if name.startswith('llvm.memmove'): memcpy(e, st, a, ins, mod, 'move'); return None
        if name.startswith('llvm.memset'): memset(e, st, a, ins, mod); return None
        if name.startswith('llvm.fabs'): return fabs_(a[0])
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma'):
            return FV(add(mul(a[0].t, a[1].t), a[2].t), a[0].dbl)
        if name.startswith('llvm.va_'): return None
        if name.startswith('llvm.expect'): return a[0]
        if name.startswith('llvm.assume'): return None
        if name.startswith('llvm.stacksave'): return NULL
        if name.startswith('llvm.stackrestore'): return None
        if name.startswith('llvm.floor'): return FV(floor_(a[0].t), a[0].dbl)
        if name.startswith('llvm.ceil'): return FV(ceil_(a[0].t), a[0].dbl)
        if name.startswith('llvm.sqrt'): return sqrt_(e, st, a[0])
        if name.startswith('llvm.rint') or name.startswith('llvm.nearbyint'): return round_even(e, st, a[0])
        if name.startswith('llvm.copysign'):
            x, y = a[0].t, a[1].t
            ab = ite(le(0, x), x, sub(0, x))
            return FV(ite(le(0, y), ab, sub(0, ab)), a[0].dbl)
        if name.startswith('llvm.umax') or name.startswith('llvm.umin') or name.startswith('llvm.smax') or name.startswith('llvm.smin'):
            p = {'llvm.umax': 'ugt', 'llvm.umin': 'ult', 'llvm.smax': 'sgt', 'llvm.smin': 'slt'}[name[:9]]
            return e.merge(st, e.icmp(st, p, a[0], a[1], Ty('int', a[0].bits)), a[0], a[1])
        if name.startswith('llvm.abs'):
            x = e.S(st, a[0]); return IV(a[0].bits, ite(le(0, x), x, sub(0, x)))
        if name.startswith('llvm.ctpop'):
            n = a[0].bits
            if not e.bv: raise Unsupported(name)
            x = e.bvt(a[0])
            return e.mkbv(n, sum([z3.ZeroExt(n - 1, z3.Extract(i, i, x)) for i in range(1, n)], z3.ZeroExt(n - 1, z3.Extract(0, 0, x))))
        if name.startswith('llvm.fshl') or name.startswith('llvm.fshr'):
            n = a[0].bits
            if not e.bv: raise Unsupported(name)
            x, y, z = e.bvt(a[0]), e.bvt(a[1]), z3.URem(e.bvt(a[2]), z3.BitVecVal(n, n))
            cat = z3.Concat(x, y)
            zz = z3.ZeroExt(n, z)
            if 'fshl' in name: r = z3.Extract(2 * n - 1, n, cat << zz)
            else: r = z3.Extract(n - 1, 0, z3.LShR(cat, zz))
            return e.mkbv(n, r)
        if name.startswith('llvm.bswap') and e.bv:
            n = a[0].bits; x = e.bvt(a[0])
            return e.mkbv(n, z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n // 8)]))
        if name.startswith('llvm.x86.avx'): raise Unsupported(name)
        raise Unsupported(name)
    e.prefix_models = [('llvm.', intrin)]

    # ---------------------------------------------------------------- math (exact reals)
    def fabs_(v):
        if isc(v.t): return FV(abs(v.t), v.dbl)
        return FV(ite(le(0, v.t), v.t, sub(0, v.t)), v.dbl)

    def floor_(t): return Fraction(t.__floor__()) if isc(t) else z3.ToReal(z3.ToInt(t))
    def ceil_(t): return Fraction(t.__ceil__()) if isc(t) else -z3.ToReal(z3.ToInt(-t))

    def uf1(name):
        f = e.fpuf.get(name)
        if f is None: f = e.fpuf[name] = z3.Function('m.' + name, z3.RealSort(), z3.RealSort())
        return f
    e.uf1 = uf1

    def sqrt_(e, st, v):
        if isc(v.t):
            import math
            n, d = v.t.numerator, v.t.denominator
            if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d: return FV(Fraction(math.isqrt(n), math.isqrt(d)), v.dbl)
        x = zr(v.t)
        r = uf1('sqrt')(x)
        st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        st.assume(z3.Implies(x > 0, r > 0))
        return FV(r, v.dbl)

    def round_even(e, st, v):
        raise Unsupported('rint')

    def unary(names, f):
        for n in names: M[n] = f
    unary(['fabs', 'fabsf'], lambda e, st, a, i, m: fabs_(a[0]))
    unary(['floor', 'floorf'], lambda e, st, a, i, m: FV(floor_(a[0].t), a[0].dbl))
    unary(['ceil', 'ceilf'], lambda e, st, a, i, m: FV(ceil_(a[0].t), a[0].dbl))
    unary(['sqrt', 'sqrtf'], lambda e, st, a, i, m: sqrt_(e, st, a[0]))
    unary(['sinf', 'sin', 'cosf', 'cos'], None)

    def trig(e, st, a, i, m):
        x = zr(a[0].t)
        s_, c_ = uf1('sin')(x), uf1('cos')(x)
        st.assume(s_ * s_ + c_ * c_ == 1)
        return FV(s_ if i.x[1].startswith('sin') else c_, a[0].dbl)
    unary(['sinf', 'sin', 'cosf', 'cos'], trig)

    def opaque(name):
        def f(e, st, a, i, m):
            fn = e.fpuf.get(name)
            if fn is None: fn = e.fpuf[name] = z3.Function('m.' + name, *([z3.RealSort()] * (len(a) + 1)))
            r = fn(*[zr(x.t) for x in a])
            if name in ('exp', 'exp2'): st.assume(r > 0)
            return FV(r, a[0].dbl)
        return f
    for n in ('exp', 'log', 'tan', 'atan', 'acos', 'asin', 'atan2', 'pow', 'log2', 'log10', 'exp2', 'fmod'):
        M[n] = opaque(n); M[n + 'f'] = opaque(n)

    @model('fmax', 'fmaxf')
    def fmax(e, st, a, i, m): return FV(ite(le(a[0].t, a[1].t), a[1].t, a[0].t), a[0].dbl)

    @model('fmin', 'fminf')
    def fmin(e, st, a, i, m): return FV(ite(le(a[0].t, a[1].t), a[0].t, a[1].t), a[0].dbl)

    @model('abs')
    def abs_(e, st, a, i, m):
        x = e.S(st, a[0]); return IV(32, ite(le(0, x), x, sub(0, x)), 0, 1 << 31)

    @model('round', 'roundf')
    def round_(e, st, a, i, m):
        x = a[0].t
        h = Fraction(1, 2)
        if isc(x):
            import math
            return FV(Fraction(math.floor(x + h)) if x >= 0 else -Fraction(math.floor(-x + h)), a[0].dbl)
        return FV(ite(le(0, x), z3.ToReal(z3.ToInt(x + zr(h))), -z3.ToReal(z3.ToInt(-x + zr(h)))), a[0].dbl)

    # ---------------------------------------------------------------- C strings
    def streq(e, st, p, q):
        """equality of the strings at p and q: by characters against a constant string, else a fixed predicate of the two contents"""
        from .models_io import cstr_const
        for x, y in ((p, q), (q, p)):
            c = cstr_const(e, y)
            if c is not None and cstr_const(e, x) is None:
                return And(*[eq(e.U(st, e.read(st, x.obj, x.idx, add(x.off, i), 'i8')), v) for i, v in enumerate(c + b'\0')])
        a, b = cstr_const(e, p), cstr_const(e, q)
        if a is not None and b is not None: return a == b
        if p.obj.uid > q.obj.uid: p, q = q, p
        la, lb = st.mem.get(p.obj), st.mem.get(q.obj)
        key = (p.obj, la and la.id, q.obj, lb and lb.id)
        tab = e.__dict__.setdefault('streq_tab', {})
        f = tab.get(key)
        if f is None: f = tab[key] = z3.Function(uid('streq'), *([z3.IntSort()] * 4), z3.BoolSort())
        z = lambda i: zi(0 if i is None else i)
        return f(z(p.idx), zi(p.off), z(q.idx), zi(q.off))
    e.streq = streq

    @model('strcmp')
    def strcmp(e, st, a, ins, mod):
        e.slen(e, st, a[0], 'strcmp'); e.slen(e, st, a[1], 'strcmp')
        r = e.fresh(st, 'i32', 'strcmp')
        st.assume(zb(eq(r.t, 0)) == zb(streq(e, st, a[0], a[1])))
        return r

    def slen(e, st, p, what='string'):
        """length of the NUL-terminated string at p, from the string facts known about its object"""
        if p.obj is None:
            e.oblige(st, False, 'memory-safety', what + ': null string'); raise PathEnd()
        if p.nullc is not False: e.oblige(st, Not(p.nullc), 'memory-safety', what + ': null string')
        dd = st.dead.get(p.obj)
        if dd is not None: e.oblige(st, False if dd is True else Not(dd(p.idx)), 'memory-safety', what + ': use after free')
        o = p.obj
        g = st.ghost.get(('slen', o))
        if g is not None and g[0] is st.mem.get(o): L = g[1](p.idx) if callable(g[1]) else g[1]
        elif getattr(o, 'slen', None) is not None and st.mem.get(o) is None:
            L = o.slen(p.idx) if callable(o.slen) else o.slen
        elif o.kind == 'global' and o.ro and isc(p.off):
            n = p.off
            while n in o.cells and not (isc(o.cells[n][1].t) and o.cells[n][1].t == 0): n += 1
            return n - p.off
        else:
            raise Unsupported('length of unknown string ' + o.name)
        e.oblige(st, And(le(0, p.off), le(p.off, L)), 'memory-safety', what + ': points into the string')
        return sub(L, p.off)
    e.slen = slen

    @model('strlen')
    def strlen(e, st, a, ins, mod):
        return e.from_int(64, slen(e, st, a[0], 'strlen')) if e.bv else IV(64, slen(e, st, a[0], 'strlen'), 0, (1 << 63) - 1)

    @model('strcpy')
    def strcpy(e, st, a, ins, mod):
        n = slen(e, st, a[1], 'strcpy')
        e.valid(st, a[0], add(n, 1), 'strcpy destination', wr=True)
        e.copy_mem(st, a[0], a[1], add(n, 1))
        if a[0].idx is None and isc(a[0].off) and a[0].off == 0: st.ghost[('slen', a[0].obj)] = (st.mem[a[0].obj], n)
        return a[0]

    @model('strncpy')
    def strncpy(e, st, a, ins, mod):
        n = size_arg(e, st, a[2])
        L = slen(e, st, a[1], 'strncpy')
        e.valid(st, a[0], n, 'strncpy destination', wr=True)
        if e.pr.prove(st, le(n, L), 4000) is not True: raise Unsupported('strncpy of more characters than the string has')
        if not (isc(n) and n == 0): e.copy_mem(st, a[0], a[1], n)
        return a[0]
