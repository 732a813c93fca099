"""nx_data_frame.c under contract: columns of optional, owned elements.

Column c (number c of a family) has type TYP(c), element (c, r) is a heap object of its own or null (NA). The levels of a factor column
are a string array: find, append and get are used through their contracts (P03)."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View
from .graph import e_proves
from .json_tree import free_ints
from .string_array import div8

FILES = ['src/nx_data_frame.c', 'src/nx_alloc.c', 'src/nx_string.c']
SRC = 'src/nx_data_frame.c'
STR, INT, DBL, BOO, FAC = range(5)
I = z3.IntSort()
K = 1 << 32
MAXN = 1 << 24
COL = {'size': 'i32', 'capacity': 'i32', 'elems': 'ptr', 'type': 'i32', 'label': 'ptr', 'levels': 'ptr'}


def lay(s, f): return llir_offsets(SRC, 'struct ' + s, list(f))


def mk_string_family(b, name, SL):
    o = Obj(name, lambda i: SL(zi(i)) + 1, kind='hparam', fam=True, layout=None); o.slen = lambda i: SL(zi(i))
    o.onread = [lambda st, idx, off, ty, t: [z3.Implies(z3.And(zi(off) >= 0, zi(off) < SL(zi(idx))), t != 0), z3.Implies(zi(off) == SL(zi(idx)), t == 0), SL(zi(idx)) >= 0, SL(zi(idx)) < (1 << 30)] if ty == 'i8' else []]
    return b.reg(o)


def mk_frame(b, typ=None):
    """typ: the type of every column looked at (None: any)"""
    e = b.e; F = lambda n, *a: z3.Function(uid(n), *a)
    nr, nc = b.int('rows', 32, 0, MAXN), b.int('columns', 32, 0, MAXN); cap = b.int('columns.capacity', 32, 0, 2 * MAXN); b.st.assume(le(nc.t, cap.t))
    TYP, CAP, NLEV, IVAL, SL, LL, DV = F('type', I, I), F('capacity', I, I), F('levels', I, I), F('int', I, I), F('len', I, I), F('label len', I, I), F('dbl', I, z3.RealSort())
    NA = F('na', I, I, z3.BoolSort()); l = lay('NXDataColumn', COL)
    cells = Obj('cells', lambda i: z3.If(TYP(cc(i)) == STR, SL(zi(i)) + 1, z3.If(TYP(cc(i)) == DBL, 8, 4)), kind='hparam', fam=True, layout=None)
    def cc(i): return CI(zi(i))
    CI, RI = F('column of', I, I), F('row of', I, I)
    strs = mk_string_family(b, 'level strings', F('lev len', I, I)); labels = mk_string_family(b, 'labels', LL)
    levels = Obj('levels', 64, kind='hparam', fam=True, layout=None); b.reg(levels)
    cells.slen = lambda i: SL(zi(i))
    def cell(st, c, r):
        i = add(mul(c, K), r); st.assume(And(CI(zi(i)) == zi(c), RI(zi(i)) == zi(r), SL(zi(i)) >= 0, SL(zi(i)) < (1 << 30))); return i
    def cbase(st, idx, off, ty):
        if ty == 'i32' and e_proves(e, st, off, 0):
            v = IVAL(zi(idx)); st.assume(And(v >= -(1 << 31), v < (1 << 31), z3.Implies(TYP(cc(idx)) == FAC, z3.And(v >= 0, v < NLEV(cc(idx)))))); return IV(32, v)
        if ty == 'f64' and e_proves(e, st, off, 0): return FV(DV(zi(idx)), True)
        return None
    cells.base = cbase; b.reg(cells)
    rows = Obj('rows', lambda i: mul(8, CAP(zi(i))), kind='hparam', fam=True, layout=None)
    def rbase(st, idx, off, ty):
        if ty != 'ptr': return None
        r = div8(off); return PV(cells, 0, cell(st, idx, r), NA(zi(idx), zi(r)))
    rows.base = rbase; b.reg(rows)
    cols = Obj('columns', l[''][1], kind='hparam', fam=True, layout=None)
    def base(st, idx, off, ty):
        t = TYP(zi(idx)); st.assume(And(t >= 0, t <= 4) if typ is None else t == typ)
        for f, fy in COL.items():
            if ty == fy and e_proves(e, st, off, l[f][0]):
                if f == 'type': return IV(32, t, 0, 4)
                if f == 'size': return nr
                st.assume(And(CAP(zi(idx)) >= nr.t, CAP(zi(idx)) < 2 * MAXN, NLEV(zi(idx)) >= 0, NLEV(zi(idx)) < MAXN, LL(zi(idx)) >= 0, LL(zi(idx)) < (1 << 30)))
                if f == 'capacity': return IV(32, CAP(zi(idx)), 0, 2 * MAXN)
                if f == 'elems': return PV(rows, 0, idx, CAP(zi(idx)) == 0)
                if f == 'label': return PV(labels, 0, idx)
                if f == 'levels': return PV(levels, 0, idx, t != FAC)
        if not e.quiet: raise Unsupported('read of a column at an unknown place')
        return PV(cols, z3.Int(uid('off')), z3.Int(uid('idx'))) if ty == 'ptr' else None
    cols.base = base; b.reg(cols)
    arr = Obj('columns.elems', mul(8, cap.t), kind='hparam', ptrs=lambda st, idx, off: PV(cols, 0, div8(off)), layout=('arr', 'ptr')); arr.defined = lambda i: lt(i, nc.t); b.reg(arr)
    la, lf = lay('NXDataColumnArray', ('size', 'capacity', 'elems')), lay('NXDataFrame', ('n_rows', 'columns'))
    ca = Obj('column array', la[''][1], kind='hparam'); b.reg(ca)
    ca.cells.update({la['size'][0]: ('i32', nc), la['capacity'][0]: ('i32', cap), la['elems'][0]: ('ptr', PV(arr, 0, None, eq(cap.t, 0)))})
    o = Obj('frame', lf[''][1], kind='hparam'); b.reg(o)
    o.cells.update({lf['n_rows'][0]: ('i32', nr), lf['columns'][0]: ('ptr', PV(ca, 0))})
    for n, v in dict(nr=nr, nc=nc, cap=cap, TYP=TYP, CAP=CAP, NLEV=NLEV, IVAL=IVAL, DV=DV, SL=SL, LL=LL, NA=NA, dcells=cells, rows=rows, cols=cols, arr=arr, ca=ca, strs=strs, labels=labels, levels=levels, cell=cell).items(): setattr(o, n, v)
    return o


class Frame(Contract):
    """base: a frame, a valid row and column"""
    extra = ()
    def setup(s, e, case):
        b = B(e); f = s.f = mk_frame(b)
        s.r, s.c = b.int('row', 32, 0), b.int('column', 32, 0); b.st.assume(And(lt(s.r.t, f.nr.t), lt(s.c.t, f.nc.t)))
        b.st.assume(And(f.TYP(s.c.t) >= 0, f.TYP(s.c.t) <= 4))
        return b.st, [PV(f, 0), s.r, s.c] + s.more(b), b.aux()
    def more(s, b): return []
    def intercept(s, e, st, name, args):
        f = s.f
        if name == 'nx_string_array_get':
            p, k = args; kt = e.S(st, k)
            if p.obj is not f.levels: return None
            e.oblige(st, And(Not(p.nullc), eq(p.off, 0), le(0, kt), lt(kt, f.NLEV(zi(p.idx)))), 'pre', 'a level of the column')
            return [Out('ret', st, PV(f.strs, 0, add(mul(p.idx, K), kt)))]
        if name == 'nx_string_array_size':
            p = args[0]
            if p.obj is not f.levels: return None
            e.oblige(st, And(Not(p.nullc), eq(p.off, 0)), 'pre', 'the levels of a factor column'); st.assume(And(f.NLEV(zi(p.idx)) >= 0, f.NLEV(zi(p.idx)) < MAXN))
            return [Out('ret', st, IV(32, f.NLEV(zi(p.idx)), 0, MAXN))]
        if name in ('nx_string_array_find', 'nx_string_array_append'):
            p, v = args
            if p.obj is not f.levels: return None
            e.oblige(st, And(Not(p.nullc), eq(p.off, 0), v.obj is getattr(s, 'v', None), eq(v.off, 0)), 'pre', 'the value is looked up in the levels of the column')
            if name.endswith('append'):
                e.oblige(st, And('find' in st.ghost, eq(st.ghost.get('find', 0), -1), 'append' not in st.ghost), 'pre', 'a level is added only when it is missing')
                st.ghost['append'] = p.idx; return [Out('ret', st, IV(32, f.NLEV(zi(p.idx)), 0, MAXN))]
            r = z3.Int(uid('found')); st.assume(And(r >= -1, r < f.NLEV(zi(p.idx)), f.NLEV(zi(p.idx)) < MAXN)); st.ghost['find'] = r
            return [Out('ret', st, IV(32, r, -1, MAXN))]
        return None
    def elem(s, e, st, c, r): return e.read(st, s.f.rows, c, mul(8, r), 'ptr')
    def unchanged(s, e, st, but=None):
        """element (c2, r2) is what it was, except for the one `but`"""
        f = s.f; c2, r2 = z3.Int(uid('c')), z3.Int(uid('r')); s2 = st.copy()
        s2.assume(And(c2 >= 0, lt(c2, f.nc.t), r2 >= 0, lt(r2, f.nr.t)))
        if but: s2.assume(Or(ne(c2, but[0]), ne(r2, but[1])))
        def chk(s3):
            q = s.elem(e, s3, c2, r2); i = f.cell(s3, c2, r2)
            e.oblige(s3, q.obj is f.dcells and And(eq(q.idx, i), eq(q.off, 0), eq(zb(q.nullc), f.NA(c2, r2))), 'post', 'the other elements are kept', assume=False)
            d = s3.dead.get(f.dcells)
            e.oblige(s3, Or(f.NA(c2, r2), Not(False if d is None else True if d is True else d(i))), 'post', 'the other elements are not freed', assume=False)
        e.forked(s2, chk)
        e.oblige(st, And(*[st.dead.get(x) is None for x in (f, f.ca, f.arr, f.cols, f.rows, f.labels, f.levels, f.strs)]), 'post', 'nothing else is freed')


class Get(Frame):
    """the value of the element; ends the program when the column has another type or the element is missing"""
    ty = None
    def post(s, e, st0, o, args, aux):
        st, f = o.st, s.f; c, r = s.c.t, s.r.t; ok = And(f.TYP(c) == s.ty, Not(f.NA(c, r)))
        if o.kind == 'fatal': e.oblige(st, Not(ok), 'post', 'ends the program only for another type or a missing element'); return
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, ok, 'post', 'returns only when there is such an element')
        i = f.cell(st, c, r); x = o.ret
        if s.ty == STR: g = x.obj is f.dcells and And(eq(x.idx, i), eq(x.off, 0))
        elif s.ty == DBL: g = eq(x.t, f.DV(zi(i)))
        elif s.ty == FAC: g = x.obj is f.strs and And(eq(x.idx, add(mul(c, K), f.IVAL(zi(i)))), eq(x.off, 0))
        else: g = eq(e.S(st, x), f.IVAL(zi(i)))
        e.oblige(st, g, 'post', 'the value of that element')
        s.unchanged(e, st)


GETS = {n: type('Get_' + n, (Get,), dict(name='nx_data_frame_get_' + n, ty=t, __doc__=Get.__doc__)) for n, t in (('string', STR), ('int', INT), ('double', DBL), ('bool', BOO), ('factor', FAC))}


class IsNA(Frame):
    """whether the element is missing"""
    name = 'nx_data_frame_is_na'
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        e.oblige(o.st, eq(zb(ne(e.S(o.st, o.ret), 0)), s.f.NA(s.c.t, s.r.t)), 'post', 'whether it is missing'); s.unchanged(e, o.st)


class Set(Frame):
    """the element is replaced by its own new object with the value, the old one freed, everything else kept; ends the program when the column has another type"""
    ty = None
    def more(s, b):
        s.v = b.cstr('value') if s.ty in (STR, FAC) else None
        s.x = b.real('value', True) if s.ty == DBL else b.int('value', 32)
        return [PV(s.v, 0) if s.v else s.x]
    def post(s, e, st0, o, args, aux):
        st, f = o.st, s.f; c, r = s.c.t, s.r.t
        if o.kind == 'fatal': e.oblige(st, f.TYP(c) != s.ty, 'post', 'ends the program only for another type'); return
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, f.TYP(c) == s.ty, 'post', 'only in a column of the type')
        i = f.cell(st, c, r); d = st.dead.get(f.dcells); gone = False if d is None else True if d is True else d(i)
        e.oblige(st, Or(f.NA(c, r), gone), 'post', 'the old element is freed')
        q = s.elem(e, st, c, r)
        e.oblige(st, q.obj is not None and q.obj.kind == 'heap' and st.dead.get(q.obj) is None and q.nullc is False and eq(q.off, 0), 'post', 'a new object is the element')
        if q.obj is None: return
        if s.ty == STR:
            own = s.v is f.dcells; n = f.SL(zi(i)) if own else s.v.slen
            e.valid(st, PV(q.obj, 0), n + 1, 'post: the copy fits')
            k = z3.Int(uid('k')); s2 = st.copy(); s2.assume(And(k >= 0, k <= n))
            w = e.U(s2, e.read(st0, s.v, i if own else None, k, 'i8'))
            for x in st0.pc[len(st0.pc) - 8:]: s2.assume(x)
            e.oblige(s2, eq(e.U(s2, e.read(s2, q.obj, None, k, 'i8')), w), 'post', 'a copy of the value', assume=False)
        elif s.ty == DBL: e.valid(st, PV(q.obj, 0), 8, 'post: holds a double'); e.oblige(st, eq(e.read(st, q.obj, None, 0, 'f64').t, s.x.t), 'post', 'the value')
        else:
            e.valid(st, PV(q.obj, 0), 4, 'post: holds an int'); got = e.S(st, e.read(st, q.obj, None, 0, 'i32'))
            if s.ty == FAC:
                fi = st.ghost.get('find'); e.oblige(st, fi is not None, 'post', 'the value was looked up')
                if fi is None: return
                e.oblige(st, eq(got, ite(le(0, fi), fi, f.NLEV(zi(c)))), 'post', 'the number of the level of the value')
                a = st.ghost.get('append'); e.oblige(st, fi >= 0 if a is None else eq(a, c), 'post', 'a missing level is added to that column')
            else: e.oblige(st, eq(got, s.x.t), 'post', 'the value')
        s.unchanged(e, st, (c, r))


SETS = {n: type('Set_' + n, (Set,), dict(name='nx_data_frame_set_' + n, ty=t, __doc__=Set.__doc__)) for n, t in (('string', STR), ('int', INT), ('double', DBL), ('bool', BOO), ('factor', FAC))}


class SetNA(Frame):
    """the element is freed and missing, everything else kept"""
    name = 'nx_data_frame_set_na'
    def post(s, e, st0, o, args, aux):
        st, f = o.st, s.f; c, r = s.c.t, s.r.t
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        i = f.cell(st, c, r); d = st.dead.get(f.dcells)
        e.oblige(st, Or(f.NA(c, r), False if d is None else True if d is True else d(i)), 'post', 'the element is freed')
        q = s.elem(e, st, c, r); e.oblige(st, True if q.obj is None else q.nullc, 'post', 'the element is missing')
        s.unchanged(e, st, (c, r))


class SetString(Set):
    __doc__ = Set.__doc__ + '; the value may be the current element itself'
    name = 'nx_data_frame_set_string'; ty = STR; cases = ('other', 'own')
    def setup(s, e, case):
        st, args, aux = Set.setup(s, e, case)
        if case == 'own':
            st.assume(And(s.f.TYP(s.c.t) == STR, Not(s.f.NA(s.c.t, s.r.t)))); s.v = s.f.dcells; args = args[:3] + [PV(s.f.dcells, 0, s.f.cell(st, s.c.t, s.r.t))]
        return st, args, aux


SETS['string'] = SetString


CONTRACTS = {c.name: c() for c in list(GETS.values()) + [IsNA] + list(SETS.values()) + [SetNA]}
OWN = list(CONTRACTS)


# ---------------------------------------------------------------- whole columns and frames
class Query(Frame):
    """the field it names, nothing changed"""
    def setup(s, e, case):
        st, args, aux = Frame.setup(s, e, case)
        if s.col: args = [PV(s.f.cols, 0, s.c.t)]
        elif s.name.endswith('_column'): args = [args[0], s.c]
        else: args = args[:1]
        if s.name.endswith('factor_level'):
            st.assume(And(s.f.TYP(s.c.t) == FAC, s.f.NLEV(s.c.t) >= 0, s.f.NLEV(s.c.t) < MAXN)); s.k = IV(32, z3.Int(uid('level'))); st.assume(And(le(0, s.k.t), lt(s.k.t, s.f.NLEV(s.c.t)))); args.append(s.k)
        return st, args, aux
    def post(s, e, st0, o, args, aux):
        st, f, r = o.st, s.f, o.ret; c = s.c.t
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        n = s.name
        if n == 'nx_data_frame_n_rows': g = eq(e.S(st, r), f.nr.t)
        elif n == 'nx_data_frame_n_columns': g = eq(e.S(st, r), f.nc.t)
        elif n == 'nx_data_frame_column': g = r.obj is f.cols and And(eq(r.idx, c), eq(r.off, 0))
        elif n == 'nx_data_column_type': g = eq(e.S(st, r), f.TYP(c))
        elif n == 'nx_data_column_label': g = r.obj is f.labels and And(eq(r.idx, c), eq(r.off, 0))
        elif n == 'nx_data_column_n_factor_levels': g = eq(e.S(st, r), ite(f.TYP(c) == FAC, f.NLEV(c), 0))
        else: g = r.obj is f.strs and And(eq(r.idx, add(mul(c, K), s.k.t)), eq(r.off, 0))
        e.oblige(st, g, 'post', 'the right value'); s.unchanged(e, st)


for n_, col_ in (('nx_data_frame_n_rows', 0), ('nx_data_frame_n_columns', 0), ('nx_data_frame_column', 0), ('nx_data_column_type', 1), ('nx_data_column_label', 1), ('nx_data_column_n_factor_levels', 1), ('nx_data_column_factor_level', 1)):
    CONTRACTS[n_] = type('Query_' + n_, (Query,), dict(name=n_, col=col_, __doc__=Query.__doc__))()


class Alloc(Contract):
    """a frame without rows and columns"""
    name = 'nx_data_frame_alloc'
    def setup(s, e, case): b = B(e); return b.st, [], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        la, lf = lay('NXDataColumnArray', ('size', 'capacity', 'elems')), lay('NXDataFrame', ('n_rows', 'columns'))
        e.valid(st, o.ret, lf[''][1], 'post: a frame')
        ca = e.read(st, o.ret.obj, None, lf['columns'][0], 'ptr'); e.valid(st, ca, la[''][1], 'post: a column array')
        rd = lambda ob, off: e.S(st, e.read(st, ob, None, off, 'i32'))
        p = e.read(st, ca.obj, None, la['elems'][0], 'ptr')
        e.oblige(st, And(eq(rd(o.ret.obj, lf['n_rows'][0]), 0), eq(rd(ca.obj, la['size'][0]), 0), eq(rd(ca.obj, la['capacity'][0]), 0), p.obj is None), 'post', 'no rows, no columns')


class AddRow(Frame):
    """every column grows by one row (append_row, by its contract) exactly once; returns the number of the new row"""
    name = 'nx_data_frame_add_row'
    def setup(s, e, case):
        st, args, aux = Frame.setup(s, e, case); f = s.f
        s.j = z3.Int(uid('any column')); st.assume(And(s.j >= 0, lt(s.j, f.nc.t)))
        return st, args[:1], aux
    def size(s, e, st, c): return e.S(st, e.read(st, s.f.cols, c, lay('NXDataColumn', COL)['size'][0], 'i32'))
    def intercept(s, e, st, name, args):
        if name != 'nx_data_column_append_row': return None
        p = args[0]
        if p.obj is not s.f.cols: return None
        e.oblige(st, And(eq(p.off, 0), Not(p.nullc) if p.nullc is not False else True, le(0, p.idx), lt(p.idx, s.f.nc.t)), 'pre', 'a column of the frame')
        e.write(st, s.f.cols, p.idx, lay('NXDataColumn', COL)['size'][0], 'i32', IV(32, add(s.size(e, st, p.idx), 1)))
        return [Out('ret', st)]
    def loop_cands(s, e, L): return [Cand('columns before k have grown by one row', lambda v: eq(s.size(e, v.st, s.j), add(s.f.nr.t, ite(lt(s.j, v.k), 1, 0))))]
    def post(s, e, st0, o, args, aux):
        st, f = o.st, s.f
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, eq(e.S(st, o.ret), f.nr.t), 'post', 'the number of the new row')
        e.oblige(st, eq(e.S(st, e.read(st, f, None, lay('NXDataFrame', ('n_rows',))['n_rows'][0], 'i32')), add(f.nr.t, 1)), 'post', 'one row more')
        e.oblige(st, eq(s.size(e, st, s.j), add(f.nr.t, 1)), 'post', 'every column has one row more')


class FrameFree(Frame):
    """every column is freed once (by the contract of its own release), then the frame; null is accepted"""
    name = 'nx_data_frame_free'; cases = ('null', 'frame')
    def setup(s, e, case):
        s.case = case
        if case == 'null': b = B(e); s.f = None; return b.st, [NULL], b.aux()
        st, args, aux = Frame.setup(s, e, case); return st, args[:1], aux
    def intercept(s, e, st, name, args):
        if name != 'nx_data_column_free' or s.f is None: return None
        p, f = args[0], s.f
        if p.obj is not f.cols: return None
        d = st.dead.get(f.cols); was = (lambda i: False) if d is None else (lambda i: True) if d is True else d
        e.oblige(st, And(eq(p.off, 0), le(0, p.idx), lt(p.idx, f.nc.t), Not(was(p.idx))), 'pre', 'a column is freed once')
        st.dead[f.cols] = lambda i, p=p, was=was: Or(eq(i, p.idx), was(i))
        return [Out('ret', st)]
    def loop_dead(s, e, L, obj):
        if s.f is None or obj is not s.f.cols: return None
        return lambda v, i: And(le(0, i), lt(i, v.k))
    def post(s, e, st0, o, args, aux):
        st, f = o.st, s.f
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if f is None: return
        i = z3.Int(uid('i')); s2 = st.copy(); s2.assume(And(i >= 0, lt(i, f.nc.t))); d = st.dead.get(f.cols)
        e.oblige(s2, False if d is None else True if d is True else d(i), 'post', 'column i is freed', assume=False)
        e.oblige(st, And(st.dead.get(f) is True, st.dead.get(f.ca) is True, Or(eq(f.cap.t, 0), st.dead.get(f.arr) is True)), 'post', 'frame and column array are freed')


def mk_column(b, ty=None):
    """one well-formed column: size elements, each null or a heap object of its own"""
    from .string_array import mk_sa
    a = mk_sa(b, 'column'); l = lay('NXDataColumn', COL)
    b.st.assume(lt(a.n.t, MAXN))
    o = Obj('dc', l[''][1], kind='hparam'); b.reg(o)
    t = IV(32, ty) if ty is not None else b.int('type', 32, 0, 4)
    o.lab = b.cstr('label', ro=False, kind='hparam'); o.lev = Obj('levels', 64, kind='hparam'); b.reg(o.lev)
    for f, v in (('size', a.n), ('capacity', a.cap), ('elems', PV(a.el, 0)), ('type', t), ('label', PV(o.lab, 0)), ('levels', PV(o.lev, 0, None, ne(t.t, FAC)))): o.cells[l[f][0]] = (COL[f], v)
    o.a, o.t = a, t
    o.fo = {f: (l[f][0], COL[f]) for f in COL}; o.layout = ('struct', [(l[f][0], COL[f], f) for f in COL])
    return o


from . import string_array as SA


class AppendRow(SA.Resize):
    """one element more, missing; the others, type, label and levels are kept"""
    name = 'nx_data_column_append_row'; cases = ('',)
    def setup(s, e, case):
        b = B(e); o = s.o = mk_column(b); s.a = o.a; s.shrink = False; s.m = IV(32, o.a.n.t + 1, 1, MAXN)
        return b.st, [PV(o, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        st, c = o.st, s.o
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for f in ('type', 'label', 'levels'):
            x, y = fld(e, st, c, f), fld(e, st0, c, f)
            e.oblige(st, And(x.obj is y.obj, eq(x.off, y.off)) if isinstance(x, PV) else eq(x.t, y.t), 'post', f + ' kept')
        p, cap = fld(e, st, c, 'elems'), fld(e, st, c, 'capacity').t
        e.oblige(st, eq(fld(e, st, c, 'size').t, s.m.t), 'post', 'one element more')
        e.oblige(st, And(le(s.m.t, cap), eq(p.off, 0)), 'post', 'capacity covers the size'); e.valid(st, p, mul(cap, 8), 'post: capacity slots are allocated')
        SA.same_dead(e, st, s.a, lambda i: False)
        q = e.read(st, p.obj, None, mul(8, s.a.n.t), 'ptr'); e.oblige(st, True if q.obj is None else q.nullc, 'post', 'the new element is missing')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, s.a.n.t)))
        def chk(s2):
            q = e.read(s2, p.obj, None, 8 * j, 'ptr'); isn = True if q.obj is None else q.nullc
            e.oblige(s2, eq(zb(isn), zb(Or(le(s.a.n.t, j), s.a.NUL(j)))), 'post', 'slot j is null exactly when new or null before', assume=False)
            if q.obj is not None: e.oblige(s2, Or(isn, And(q.obj is s.a.strs, eq(q.idx, j) if q.idx is not None else False, eq(q.off, 0))), 'post', 'slot j holds the same element as before', assume=False)
        e.forked(st, chk)


class ColumnFree(Contract):
    """every element, the label, the levels (by their contract), the slots and the column are freed once; null is accepted"""
    name = 'nx_data_column_free'; cases = ('null', 'column')
    def setup(s, e, case):
        b = B(e); s.o = None
        if case == 'null': return b.st, [NULL], b.aux()
        s.o = mk_column(b); s.a = s.o.a; return b.st, [PV(s.o, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_string_array_free' or s.o is None: return None
        p = args[0]
        if p.obj is None: return [Out('ret', st)]
        if p.obj is not s.o.lev: return None
        e.oblige(st, And(eq(p.off, 0), st.dead.get(p.obj) is None), 'pre', 'the levels are freed once'); st.dead[p.obj] = True
        return [Out('ret', st)]
    def loop_dead(s, e, L, obj):
        if s.o is None or obj is not s.a.strs: return None
        return lambda v, i: And(le(0, i), lt(i, v.k), Not(s.a.NUL(zi(i))))
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.o is None: return
        SA.same_dead(e, st, s.a, lambda i: Not(s.a.NUL(zi(i))))
        e.oblige(st, And(*[st.dead.get(x) is True for x in (s.o, s.a.el, s.o.lab)], Or(ne(s.o.t.t, FAC), st.dead.get(s.o.lev) is True)), 'post', 'label, levels, slots and column are freed')


class AddColumn(Frame):
    """one column more, of the type, with a copy of the label and all elements missing; the other columns are kept"""
    name = 'nx_data_frame_add_column'; cases = ('plain', 'factor')
    def setup(s, e, case):
        st, args, aux = Frame.setup(s, e, case); b = B(e); b.st = st
        s.lab = b.cstr('label'); s.ty = b.int('type', 32, 0, 3) if case == 'plain' else IV(32, FAC); aux.roots |= b.roots
        s.nl = Obj('new levels', 64, kind='heap')
        return st, [args[0], s.ty, PV(s.lab, 0)], aux
    def intercept(s, e, st, name, args):
        if name != 'nx_string_array_alloc': return None
        return [Out('ret', st, PV(s.nl, 0))]
    def loop_ptrs(s, e, L, obj):
        return lambda v, off: (PV(s.f.dcells, 0, 0, True), And(le(0, off), lt(off, mul(8, v.k))))
    def post(s, e, st0, o, args, aux):
        st, f = o.st, s.f; l = lay('NXDataColumn', COL); la = lay('NXDataColumnArray', ('size', 'capacity', 'elems'))
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        rd = lambda ob, off, ty='i32': e.read(st, ob, None, off, ty)
        e.oblige(st, eq(e.S(st, rd(f.ca, la['size'][0])), add(f.nc.t, 1)), 'post', 'one column more')
        e.oblige(st, eq(e.S(st, rd(f, lay('NXDataFrame', ('n_rows',))['n_rows'][0])), f.nr.t), 'post', 'as many rows as before')
        cap = e.S(st, rd(f.ca, la['capacity'][0])); p = rd(f.ca, la['elems'][0], 'ptr')
        e.oblige(st, le(add(f.nc.t, 1), cap), 'post', 'capacity covers the size'); e.valid(st, p, mul(cap, 8), 'post: capacity slots are allocated')
        q = e.read(st, p.obj, None, add(p.off, mul(8, f.nc.t)), 'ptr')
        e.oblige(st, q.obj is not None and q.obj.kind == 'heap' and st.dead.get(q.obj) is None and eq(q.off, 0), 'post', 'the last column is a new one')
        if q.obj is None or q.obj.kind != 'heap': return
        c = q.obj; e.valid(st, q, l[''][1], 'post: a column')
        e.oblige(st, And(eq(e.S(st, rd(c, l['type'][0])), s.ty.t), eq(e.S(st, rd(c, l['size'][0])), f.nr.t), le(f.nr.t, e.S(st, rd(c, l['capacity'][0])))), 'post', 'its type and size')
        x = rd(c, l['label'][0], 'ptr'); e.oblige(st, x.obj is not None and x.obj is not s.lab, 'post', 'its own label')
        if x.obj is None: return
        e.valid(st, x, s.lab.slen + 1, 'post: the label fits')
        k = z3.Int(uid('k')); s2 = st.copy(); s2.assume(And(k >= 0, k <= s.lab.slen))
        e.oblige(s2, eq(e.U(s2, e.read(s2, x.obj, None, add(x.off, k), 'i8')), e.U(s2, e.read(s2, s.lab, None, k, 'i8'))), 'post', 'a copy of the label', assume=False)
        v = rd(c, l['levels'][0], 'ptr'); e.oblige(st, v.obj is (s.nl if isc(s.ty.t) else None), 'post', 'empty levels exactly for a factor')
        el = rd(c, l['elems'][0], 'ptr'); s2 = st.copy(); s2.assume(f.nr.t > 0)
        if e.pr.feasible(s2):
            e.oblige(s2, el.obj is not None, 'post', 'there are elements', assume=False)
            if el.obj is not None:
                e.valid(s2, el, mul(8, e.S(s2, e.read(s2, c, None, l['capacity'][0], 'i32'))), 'post: slots')
                j = z3.Int(uid('j')); s2.assume(And(j >= 0, lt(j, f.nr.t)))
                z = e.read(s2, el.obj, None, add(el.off, 8 * j), 'ptr'); e.oblige(s2, True if z.obj is None else z.nullc, 'post', 'element j is missing', assume=False)
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, f.nc.t)))
        def chk(s2):
            z = e.read(s2, p.obj, None, add(p.off, 8 * j), 'ptr'); e.oblige(s2, z.obj is f.cols and And(eq(z.idx, j), eq(z.off, 0), Not(z.nullc) if z.nullc is not False else True), 'post', 'column j is kept', assume=False)
        e.forked(st, chk)
        e.oblige(st, And(*[st.dead.get(z) is None for z in (f, f.ca, f.cols, f.rows, f.labels, f.levels, f.strs, f.dcells)]), 'post', 'nothing else is freed')


class Larger(Contract):
    """the smallest column type that holds both: equal types stay, int and double give double, anything else string"""
    name = 'nx_csv_column_pick_larger_type'; files = ['src/nx_csv_parser.c']
    def setup(s, e, case):
        b = B(e); s.x, s.y = b.int('t0', 32, 0, 3), b.int('t1', 32, 0, 3); return b.st, [s.x, s.y], b.aux()
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        x, y = s.x.t, s.y.t
        e.oblige(o.st, eq(e.S(o.st, o.ret), ite(eq(x, y), x, ite(And(Or(eq(x, INT), eq(x, DBL)), Or(eq(y, INT), eq(y, DBL))), DBL, STR))), 'post', 'the smallest type that holds both')


for c_ in (Alloc, AddRow, FrameFree, AppendRow, ColumnFree, AddColumn, Larger): CONTRACTS[c_.name] = c_()
OWN = list(CONTRACTS)
