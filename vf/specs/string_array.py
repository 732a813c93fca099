"""nx_string_array.c under contract: an array of owned strings or nulls."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View
from ..models_io import mk_file, pos
from . import strings

FILES = ['src/nx_string_array.c', 'src/nx_string.c', 'src/nx_alloc.c']
SRC = 'src/nx_string_array.c'
FIELDS = ['elems', 'size', 'capacity']
TYS = {'elems': 'ptr', 'size': 'i32', 'capacity': 'i32'}
MAXN = 1 << 26
CH = None


def div8(off):
    from ..engine import div_exact
    if isc(off): return off // 8
    d = div_exact(off, 8)
    return d if d is not None else idiv(off, 8)


def mk_sa(b, name='sa', elements_set=False, ro=False):
    """a well-formed array: size <= capacity, capacity slots, slots below size hold null or a heap string of their own"""
    n = b.int(name + '.size', 32, 0, MAXN); cap = b.int(name + '.capacity', 32, 1, MAXN)
    b.st.assume(le(n.t, cap.t))
    NUL = z3.Function(uid(name + '.null'), z3.IntSort(), z3.BoolSort()); SL = z3.Function(uid(name + '.len'), z3.IntSort(), z3.IntSort())
    strs = Obj(name + '.strings', lambda i: SL(zi(i)) + 1, kind='hparam', fam=True, layout=None)
    strs.slen = lambda i: SL(zi(i))
    strs.onread = [lambda st, idx, off, ty, t: [z3.Implies(z3.And(zi(off) >= 0, zi(off) < SL(zi(idx))), t != 0), z3.Implies(zi(off) == SL(zi(idx)), t == 0), SL(zi(idx)) >= 0, SL(zi(idx)) < (1 << 30)] if ty == 'i8' else []]
    def ptrs(st, idx, off):
        i = div8(off)
        st.assume(And(SL(zi(i)) >= 0, SL(zi(i)) < (1 << 30)))
        return PV(strs, 0, i, False if elements_set else NUL(zi(i)))
    el = Obj(name + '.elems', mul(cap.t, 8), kind='hparam', ptrs=ptrs, layout=('arr', 'ptr'))
    el.defined = lambda i: lt(i, n.t)
    b.reg(el)
    lay = llir_offsets(SRC, 'struct NXStringArray', FIELDS)
    o = Obj(name, lay[''][1], kind='hparam')
    vals = {'elems': PV(el, 0), 'size': n, 'capacity': cap}
    for f in FIELDS: o.cells[lay[f][0]] = (TYS[f], vals[f])
    ensure(o)
    b.reg(o)
    o.n, o.cap, o.el, o.strs, o.NUL, o.SL = n, cap, el, strs, NUL, SL
    return o


def ensure(o):
    if not hasattr(o, 'fo'):
        lay = llir_offsets(SRC, 'struct NXStringArray', FIELDS)
        o.fo = {f: (lay[f][0], TYS[f]) for f in FIELDS}
        o.layout = ('struct', [(lay[f][0], TYS[f], f) for f in FIELDS])
    return o


class Alloc(Contract):
    """an empty array"""
    name = 'nx_string_array_alloc'
    def setup(s, e, case):
        b = B(e); return b.st, [], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st; a = ensure(o.ret.obj)
        e.oblige(st, eq(fld(e, st, a, 'size').t, 0), 'post', 'size 0')
        p = fld(e, st, a, 'elems'); c = fld(e, st, a, 'capacity').t
        e.oblige(st, And(p.obj is not None, eq(p.off, 0), le(0, c)), 'post', 'slots allocated')
        e.valid(st, p, mul(c, 8), 'post: capacity slots are allocated')


class Size(Contract):
    name = 'nx_string_array_size'
    def setup(s, e, case):
        b = B(e); a = mk_sa(b); return b.st, [PV(a, 0)], b.aux()
    def spec(s, e, st, args): ensure(args[0].obj); return [(st, fld(e, st, args[0].obj, 'size'))]


class Ptr(Size):
    name = 'nx_string_array_ptr'
    def spec(s, e, st, args): ensure(args[0].obj); return [(st, fld(e, st, args[0].obj, 'elems'))]


class Get(Contract):
    """the string (or null) held at the index"""
    name = 'nx_string_array_get'
    def setup(s, e, case):
        b = B(e); a = mk_sa(b); i = b.int('id', 32, 0, MAXN); b.st.assume(lt(i.t, a.n.t)); return b.st, [PV(a, 0), i], b.aux()
    def spec(s, e, st, args):
        a = ensure(args[0].obj); p = fld(e, st, a, 'elems')
        return [(st, e.read(st, p.obj, p.idx, add(p.off, mul(8, e.S(st, args[1]))), 'ptr'))]


class Set(Contract):
    """the old string at the index is freed, the slot holds a copy of the new one (null for null), all else is unchanged"""
    name = 'nx_string_array_set'; cases = ('str', 'null')
    def setup(s, e, case):
        b = B(e); a = mk_sa(b); i = b.int('id', 32, 0, MAXN); b.st.assume(lt(i.t, a.n.t))
        src = b.cstr('s') if case == 'str' else None
        return b.st, [PV(a, 0), i, PV(src, 0) if src else NULL], b.aux(a=a, i=i, src=src)
    def spec(s, e, st, args):
        ap, iv, src = args
        a = ensure(ap.obj); p = fld(e, st, a, 'elems'); i = e.S(st, iv)
        e.oblige(st, And(le(0, i), lt(i, fld(e, st, a, 'size').t)), 'pre', 'index in range')
        outs = []
        old = e.read(st, p.obj, p.idx, add(p.off, mul(8, i)), 'ptr')
        for isnull, s2 in (branch(e, st, old.nullc) if old.obj is not None else [(True, st)]):
            if not isnull: e.dofree(e, s2, PV(old.obj, old.off, old.idx, False), 'free')
            if src.obj is None: new = NULL
            else:
                n = add(e.slen(e, s2, src, 'set'), 1)
                new = PV(strings.cpy(e, s2, src, n), 0)
            e.write(s2, p.obj, p.idx, add(p.off, mul(8, i)), 'ptr', new)
            outs.append((s2, None))
        return outs
    def post(s, e, st0, o, args, aux): same_dead(e, o.st, aux.a, lambda i: And(eq(i, aux.i.t), Not(aux.a.NUL(zi(i)))))


def same_dead(e, st, a, want):
    """exactly the members `want` of the original strings are freed"""
    i = z3.Int(uid('member')); s2 = st.copy(); s2.assume(And(i >= 0, lt(i, a.n.t)))
    dd = s2.dead.get(a.strs)
    got = False if dd is None else True if dd is True else And(dd(i), Not(a.NUL(i)))
    e.oblige(s2, eq(zb(got), zb(want(i))), 'post', 'exactly the strings that leave the array are freed', assume=False)


class Resize(Contract):
    """kept elements are the same strings, dropped ones are freed, new slots are null"""
    name = 'nx_string_array_resize'; cases = ('shrink', 'grow')
    def setup(s, e, case):
        b = B(e); a = s.a = mk_sa(b); m = s.m = b.int('new_size', 32, 0, MAXN)
        b.st.assume(lt(m.t, a.n.t) if case == 'shrink' else le(a.n.t, m.t)); s.shrink = case == 'shrink'
        return b.st, [PV(a, 0), m], b.aux(a=a)
    def start(s): return s.m.t if s.shrink else s.a.n.t
    def loop_ptrs(s, e, L, obj):
        a = s.a
        def f(v, off):
            j = div8(off)
            done = And(le(s.start(), j), lt(j, add(s.start(), v.k)))
            old = e.read(L.st0, obj, None, off, 'ptr')
            return PV(a.strs, 0, j, Or(done, True if old.obj is None else old.nullc))
        if obj is a.el: return f
        # slots of the grown allocation: kept ones hold the old strings, those set so far are null, the rest is unset
        def g(v, off):
            j = div8(off)
            return PV(a.strs, 0, j, ite(lt(j, a.n.t), a.NUL(zi(j)), True)), And(le(0, j), lt(j, add(a.n.t, v.k)))
        return g
    def loop_dead(s, e, L, obj):
        if obj is not s.a.strs: return None
        return lambda v, i: And(le(s.start(), i), lt(i, add(s.start(), v.k)), Not(s.a.NUL(zi(i))))
    def post(s, e, st0, o, args, aux):
        st = o.st; a = aux.a
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, eq(fld(e, st, a, 'size').t, s.m.t), 'post', 'size is the requested one')
        cap = fld(e, st, a, 'capacity').t; p = fld(e, st, a, 'elems')
        e.oblige(st, And(le(s.m.t, cap), le(a.cap.t, cap)), 'post', 'capacity covers the size and does not shrink')
        e.valid(st, p, mul(cap, 8), 'post: capacity slots are allocated')
        e.oblige(st, And(eq(p.off, 0)), 'post', 'slots start at their allocation')
        same_dead(e, st, a, lambda i: And(le(s.m.t, i), Not(a.NUL(zi(i)))))
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, s.m.t)))
        def chk(st2):
            q = e.read(st2, p.obj, None, 8 * j, 'ptr')
            isn = True if q.obj is None else q.nullc
            e.oblige(st2, eq(zb(isn), zb(Or(le(a.n.t, j), a.NUL(j)))), 'post', 'slot j is null exactly when new or null before', assume=False)
            if q.obj is not None:
                e.oblige(st2, Or(isn, And(q.obj is a.strs, eq(q.idx, j) if q.idx is not None else False, eq(q.off, 0))), 'post', 'slot j holds the same string as before', assume=False)
        e.forked(st, chk)


class Free(Contract):
    """every string, the slots and the array are freed once; null is accepted"""
    name = 'nx_string_array_free'; cases = ('array', 'null')
    def setup(s, e, case):
        b = B(e)
        if case == 'null': s.a = None; return b.st, [NULL], b.aux()
        a = s.a = mk_sa(b); return b.st, [PV(a, 0)], b.aux()
    def loop_dead(s, e, L, obj):
        if s.a is None or obj is not s.a.strs: return None
        return lambda v, i: And(le(0, i), lt(i, v.k), Not(s.a.NUL(zi(i))))
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        if s.a is None: return
        same_dead(e, o.st, s.a, lambda i: Not(s.a.NUL(zi(i))))
        e.oblige(o.st, And(o.st.dead.get(s.a) is True, o.st.dead.get(s.a.el) is True), 'post', 'slots and array are freed')


class Find(Contract):
    """the first index whose string equals s, -1 when there is none"""
    name = 'nx_string_array_find'
    def setup(s, e, case):
        b = B(e); a = s.a = mk_sa(b); q = s.q = b.cstr('s'); return b.st, [PV(a, 0), PV(q, 0)], b.aux()
    def loop_cands(s, e, L):
        j = z3.Int('fj')
        return [Cand('no string before k equals s', lambda v: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zi(v.k)), zb(Not(s.same(e, v.st, j))))))]
    def same(s, e, st, i): return And(Not(s.a.NUL(zi(i))), e.streq(e, st, PV(s.q, 0), PV(s.a.strs, 0, i)))
    def post(s, e, st0, o, args, aux):
        st = o.st; a = s.a
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        r = e.S(st, o.ret)
        j = z3.Int(uid('j')); st.coords.append((j,))
        e.oblige(st, And(le(-1, r), lt(r, a.n.t)), 'post', 'result is -1 or an index')
        s2 = st.copy(); s2.assume(le(0, r))
        if e.pr.feasible(s2): e.oblige(s2, s.same(e, s2, r), 'post', 'the string at the result equals s')
        st.assume(And(le(0, j), lt(j, ite(lt(r, 0), a.n.t, r))))
        e.oblige(st, Not(s.same(e, st, j)), 'post', 'no earlier string equals s')


class Append(Resize):
    """the array grows by one, the last slot holds a copy of s, all others hold what they held; returns the new index"""
    name = 'nx_string_array_append'; cases = ('str', 'null')
    def setup(s, e, case):
        b = B(e); a = s.a = mk_sa(b); b.st.assume(a.n.t < MAXN - 1); s.shrink = False; s.m = IV(32, a.n.t + 1, 1, MAXN)
        src = s.src = b.cstr('s') if case == 'str' else None
        return b.st, [PV(a, 0), PV(src, 0) if src else NULL], b.aux(a=a)
    def post(s, e, st0, o, args, aux):
        st = o.st; a = aux.a
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, eq(e.S(st, o.ret), a.n.t), 'post', 'returns the new index')
        e.oblige(st, eq(fld(e, st, a, 'size').t, a.n.t + 1), 'post', 'one element more')
        cap = fld(e, st, a, 'capacity').t; p = fld(e, st, a, 'elems')
        e.oblige(st, le(a.n.t + 1, cap), 'post', 'capacity covers the size')
        e.valid(st, p, mul(cap, 8), 'post: capacity slots are allocated')
        same_dead(e, st, a, lambda i: False)
        q = e.read(st, p.obj, None, mul(8, a.n.t), 'ptr')
        if s.src is None: e.oblige(st, True if q.obj is None else q.nullc, 'post', 'null is appended as null')
        else:
            e.oblige(st, q.obj is not None and q.obj.kind == 'heap' and st.dead.get(q.obj) is None, 'post', 'the new string is fresh')
            e.valid(st, PV(q.obj, 0), s.src.slen + 1, 'post: copy fits')
            c = z3.Int(uid('c')); s2 = st.copy(); s2.assume(And(c >= 0, c <= s.src.slen))
            e.oblige(s2, eq(e.U(s2, e.read(s2, q.obj, None, c, 'i8')), e.U(s2, e.read(s2, s.src, None, c, 'i8'))), 'post', 'character c of the copy')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, a.n.t)))
        def chk(st2):
            q = e.read(st2, p.obj, None, 8 * j, 'ptr')
            e.oblige(st2, q.obj is a.strs and And(eq(q.idx, j), eq(zb(q.nullc), a.NUL(j))), 'post', 'slot j holds what it held', assume=False)
        e.forked(st, chk)


W = z3.Function('sa.W', z3.IntSort(), z3.IntSort())   # stored size of the first i strings


class Write(Contract):
    """0 exactly when every write succeeded, and then the stream holds the count and, in order, each string as length and characters"""
    name = 'nx_string_array_write'
    def prepare(s, e):
        i, k, w, wi = z3.Ints('i k w wi')
        strings.lemma(e, 'stored prefix sizes are monotone: base', [W(i + 1) == W(i) + wi, wi >= 8], W(i) + wi <= W(i + 1))
        strings.lemma(e, 'stored prefix sizes are monotone: step', [W(i) + wi <= W(k), W(k + 1) == W(k) + w, w >= 8], W(i) + wi <= W(k + 1))
    def setup(s, e, case):
        b = B(e); a = s.a = mk_sa(b, elements_set=True); f = s.f = mk_file(b, 'out')
        b.st.assume(W(0) == 0)
        return b.st, [PV(a, 0), PV(f, 0)], b.aux()
    def defn(s, st, i):
        SL = s.a.SL(zi(i))
        st.assume(Implies(And(le(0, i), lt(i, s.a.n.t)), And(W(zi(i) + 1) == W(zi(i)) + 8 + SL, W(zi(i)) >= 0, SL >= 0, SL < (1 << 30))))
    def mono(s, st, i, k):
        s.defn(st, i)
        st.assume(Implies(And(le(0, i), lt(i, k), le(k, s.a.n.t)), le(W(zi(i)) + 8 + s.a.SL(zi(i)), W(zi(k)))))
    def content(s, e, st, i, j, k, which):
        base = s.f.pos0 + 4
        if which == 0:
            return guarded(e, st, And(le(0, i), lt(i, k)), lambda t: eq(e.U(t, e.read(t, s.f.data, None, base + W(i), 'i64')), s.a.SL(i)))
        return guarded(e, st, And(le(0, i), lt(i, k), le(0, j), lt(j, s.a.SL(i))),
                       lambda t: eq(e.U(t, e.read(t, s.f.data, None, base + W(i) + 8 + j, 'i8')), e.U(t, e.read(t, s.a.strs, i, j, 'i8'))))
    def loop_cands(s, e, L):
        base = s.f.pos0 + 4
        def prog(v):
            s.defn(v.st, v.k); s.defn(v.st, sub(v.k, 1))
            return And(eq(pos(e, v.st, s.f), base + W(zi(v.k))), le(v.k, s.a.n.t))
        def q(which):
            def f(v, co):
                i, j = co
                s.mono(v.st, i, v.k); s.mono(v.st, i, sub(v.k, 1)); s.defn(v.st, sub(v.k, 1))
                return s.content(e, v.st, i, j, v.k, which)
            return f
        return [Cand('position after k strings', prog),
                QCand('length fields', lambda v: s.f.data, 2, lambda i, j: base + W(i), q(0)),
                QCand('characters', lambda v: s.f.data, 2, lambda i, j: base + W(i) + 8 + j, q(1)),
                QCand('count', lambda v: s.f.data, 0, lambda: s.f.pos0, lambda v, co: eq(e.S(v.st, e.read(v.st, s.f.data, None, s.f.pos0, 'i32')), s.a.n.t))]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        bad = bool(st.ghost.get('io_failed'))
        e.oblige(st, eq(eq(e.S(st, o.ret), 0), not bad), 'post', 'status 0 exactly when every write succeeded')
        if bad: return
        st.coords.append(())
        e.oblige(st, eq(pos(e, st, s.f), s.f.pos0 + 4 + W(s.a.n.t)), 'post', 'stored size')
        e.oblige(st, eq(e.S(st, e.read(st, s.f.data, None, s.f.pos0, 'i32')), s.a.n.t), 'post', 'element count')
        i, j = z3.Int(uid('i')), z3.Int(uid('j')); st.assume(And(i >= 0, lt(i, s.a.n.t))); st.coords.append((i, j)); s.mono(st, i, s.a.n.t)
        for which in (0, 1): e.oblige(st, s.content(e, st, i, j, s.a.n.t, which), 'post', ('length field of string i', 'character j of string i')[which])


CONTRACTS = {c.name: c() for c in (Append, Write, Alloc, Size, Ptr, Get, Set, Resize, Free, Find)}
