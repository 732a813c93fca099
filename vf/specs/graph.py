"""nx_graph.c under contract: adjacency matrices and adjacency lists."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View
from fractions import Fraction
import sys

FILES = ['src/nx_graph.c', 'src/nx_alloc.c', 'src/nx_string.c']
H = 'virg/nexus/nx_graph.h'
ABSENT = Fraction(sys.float_info.max)
I = z3.IntSort()
MAXV = 46340


def lay(st, fs): return llir_offsets(H, 'struct ' + st, fs)


def mk_struct(b, name, st, vals, kind='hparam'): return b.struct(name, H, 'struct ' + st, vals, kind=kind)


# ---------------------------------------------------------------- lists
def e_proves(e, st, a, b): return a == b if isc(a) else e.pr.prove(st, eq(a, b), 2000) is True


def mk_list(b, name='list'):
    """n nodes, node i followed by node i+1"""
    l = lay('NXGraphEdge', ['v', 'weight', 'next'])
    n = b.int(name + '.len', 32, 0, 1 << 24)
    V = z3.Function(uid(name + '.v'), I, I)
    o = Obj(name, l[''][1], kind='hparam', fam=True, layout=None)
    def base(st, idx, off, ty):
        if ty == 'i32' and e_proves(b.e, st, off, l['v'][0]):
            st.assume(And(V(zi(idx)) >= 0, V(zi(idx)) < (1 << 31))); return IV(32, V(zi(idx)), 0, (1 << 31) - 1)
        if ty == 'ptr':
            if e_proves(b.e, st, off, l['next'][0]): return PV(o, 0, add(idx, 1), le(n.t, add(idx, 1)))
            return PV(o, z3.Int(uid('off')), z3.Int(uid('idx')), z3.Bool(uid('null')))
        return None
    o.base = base; o.n, o.V = n, V
    o.head = PV(o, 0, 0, le(n.t, 0))
    return b.reg(o)


class Walk(Contract):
    """loops along a list: the node reached is number k"""
    def loop_cands(s, e, L):
        out = []
        o = s.o
        for a in L.accs():
            if a[0] != 'phi': continue
            p = L.env0.get(a[1]) if hasattr(L, 'env0') else None
            if not isinstance(p, PV): continue
            def f(v, a=a):
                q = v.env[a[1]]
                if q.obj is None: return le(o.n.t, v.k)
                return And(q.obj is o, eq(q.idx, v.k) if q.idx is not None else False, eq(q.off, 0), eq(zb(q.nullc), zb(le(o.n.t, v.k))))
            out.append(Cand('%s is node k' % a[1], f, strong=True))
        out.append(Cand('k within the list', lambda v: le(v.k, o.n.t)))
        return out
    def measures(s, e, L): yield ('nodes left', lambda v: sub(s.o.n.t, v.k))


class ListFree(Walk):
    """every node of the list is freed"""
    name = 'nx_graph_edge_list_free'
    def setup(s, e, case):
        b = B(e); s.o = mk_list(b); return b.st, [s.o.head], b.aux()
    def loop_dead(s, e, L, obj):
        if obj is not s.o: return None
        return lambda v, i: And(le(0, i), lt(i, v.k))
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        st = o.st; i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, s.o.n.t)))
        d = st.dead.get(s.o)
        e.oblige(st, False if d is None else True if d is True else d(i), 'post', 'node i is freed')


class Search(Walk):
    """the first node for vertex v, null when there is none"""
    name = 'nx_graph_edge_list_seach'
    def setup(s, e, case):
        b = B(e); s.o = mk_list(b); s.v = b.int('v', 32, 0)
        s.NO = z3.Function(uid('none'), I, z3.BoolSort())
        b.st.assume(s.NO(0))
        def fact(st, idx, off, ty, t): return []
        base0 = s.o.base
        def base(st, idx, off, ty):
            if ty == 'i32': st.assume(z3.Implies(zi(idx) >= 0, s.NO(zi(idx) + 1) == z3.And(s.NO(zi(idx)), s.o.V(zi(idx)) != s.v.t)))
            return base0(st, idx, off, ty)
        s.o.base = base
        return b.st, [s.o.head, s.v], b.aux()
    def loop_cands(s, e, L): return Walk.loop_cands(s, e, L) + [Cand('not among the first k', lambda v: s.NO(zi(v.k)))]
    def post(s, e, st0, o, args, aux):
        st = o.st; r = o.ret
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if r.obj is None: e.oblige(st, s.NO(s.o.n.t), 'post', 'null only when no node has the vertex'); return
        e.oblige(st, r.obj is s.o and r.idx is not None, 'post', 'a node of the list')
        st.assume(Not(r.nullc)) if r.nullc is not False else None
        if not e.pr.feasible(st): return
        i = r.idx
        e.oblige(st, And(eq(r.off, 0), le(0, i), lt(i, s.o.n.t), eq(s.o.V(zi(i)), s.v.t)), 'post', 'a node with the vertex')
        e.oblige(st, s.NO(zi(i)), 'post', 'the first such node')


class EdgeNew(Contract):
    """a node with the given vertex, weight and successor"""
    name = 'nx_graph_edge_new'
    def setup(s, e, case):
        b = B(e); nx = Obj('next', 24, kind='hparam'); b.reg(nx)
        return b.st, [b.int('v', 32, 0), b.real('weight', True), PV(nx, 0)], b.aux()
    def spec(s, e, st, args):
        v, w, nx = args
        e.oblige(st, le(0, e.S(st, v)), 'pre', 'vertex is not negative')
        l = lay('NXGraphEdge', ['v', 'weight', 'next'])
        o = fresh_obj('edge', l[''][1], ('struct', [(l['v'][0], 'i32', 'v'), (l['weight'][0], 'f64', 'weight'), (l['next'][0], 'ptr', 'next')]))
        e.write(st, o, None, l['v'][0], 'i32', v); e.write(st, o, None, l['weight'][0], 'f64', w); e.write(st, o, None, l['next'][0], 'ptr', nx)
        return [(st, PV(o, 0))]


# ---------------------------------------------------------------- adjacency lists
GF = ['name', 'n_v', 'n_e', 'edges']


def mk_adj(b, heads=True):
    """a graph of n vertices; the list of vertex i is opaque: empty or headed by head[i], the edge to the other vertex present
    or not (FOUND), as search reports it"""
    n = b.int('n_v', 32, 0, 1 << 24); ne = b.int('n_e', 32, 0, (1 << 31) - 2)
    nm = b.cstr('name', ro=False, kind='hparam')
    EMPTY = z3.Function(uid('empty'), I, z3.BoolSort()); FOUND = z3.Function(uid('found'), I, z3.BoolSort())
    hd = Obj('head', 24, kind='hparam', fam=True); hit = Obj('hit', 24, kind='hparam', fam=True)
    def ptrs(st, idx, off):
        from .string_array import div8
        i = div8(off); return PV(hd, 0, i, EMPTY(zi(i)))
    ed = Obj('edges', mul(n.t, 8), kind='hparam', ptrs=ptrs, layout=('arr', 'ptr')); b.reg(ed); b.reg(hd); b.reg(hit)
    g = mk_struct(b, 'g', 'NXGraphAdjLst', {'name': ('ptr', PV(nm, 0)), 'n_v': ('i32', n), 'n_e': ('i32', ne), 'edges': ('ptr', PV(ed, 0))})
    g.n, g.ne, g.nm, g.ed, g.hd, g.hit, g.EMPTY, g.FOUND = n, ne, nm, ed, hd, hit, EMPTY, FOUND
    return g


class InsertLst(Contract):
    """v = w: nothing; an edge present in both lists gets the weight; else each list gets a new first node and the edge count grows by one"""
    name = 'nx_graph_insert_adj_lst'; leakcheck = False
    def setup(s, e, case):
        b = B(e); g = s.g = mk_adj(b)
        v = s.v = b.int('v', 32, 0, 1 << 24); w = s.w = b.int('w', 32, 0, 1 << 24); wt = s.wt = b.real('weight', True)
        b.st.assume(And(lt(v.t, g.n.t), lt(w.t, g.n.t), g.FOUND(v.t) == g.FOUND(w.t)))
        b.st.assume(And(z3.Implies(g.FOUND(v.t), z3.Not(g.EMPTY(v.t))), z3.Implies(g.FOUND(w.t), z3.Not(g.EMPTY(w.t)))))
        return b.st, [PV(g, 0), v, w, wt], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_graph_edge_list_seach': return None
        p, x = args; g = s.g
        if p.obj is not g.hd: raise Unsupported('search in a modified list')
        i = p.idx
        e.oblige(st, eq(e.S(st, x), ite(eq(i, s.v.t), s.w.t, s.v.t)), 'pre', 'the other vertex is searched for')
        e.oblige(st, Or(eq(i, s.v.t), eq(i, s.w.t)), 'pre', 'in the list of one of the two vertices')
        out = []
        for y, s2 in branch(e, st, g.FOUND(zi(i))): out.append(Out('ret', s2, PV(g.hit, 0, i) if y else NULL))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st; g = s.g
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        l = lay('NXGraphEdge', ['v', 'weight', 'next'])
        fe = fld(e, st, g, 'n_e').t
        for f in ('n_v', 'name', 'edges'):
            x, y = fld(e, st, g, f), fld(e, st0, g, f)
            e.oblige(st, And(x.obj is y.obj, eq(x.off, y.off)) if isinstance(x, PV) else eq(x.t, y.t), 'post', f + ' kept')
        v, w = s.v.t, s.w.t
        found = g.FOUND(v)
        e.oblige(st, eq(fe, add(g.ne.t, ite(And(ne(v, w), Not(found)), 1, 0))), 'post', 'edge count grows exactly for a new edge')
        i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, g.n.t)))
        def chk(st):
            p = e.read(st, g.ed, None, mul(8, i), 'ptr')
            if p.obj is g.hd:
                e.oblige(st, And(eq(p.idx, i), eq(p.off, 0)), 'post', 'list of vertex i kept')
                e.oblige(st, Or(eq(v, w), found, And(ne(i, v), ne(i, w))), 'post', 'lists without the edge get a node')
                s3 = st.copy(); s3.assume(And(ne(v, w), found, Or(eq(i, v), eq(i, w))))
                if e.pr.feasible(s3): e.oblige(s3, eq(e.read(s3, g.hit, i, l['weight'][0], 'f64').t, s.wt.t), 'post', 'edge present gets the weight')
            elif p.obj is None: e.oblige(st, And(g.EMPTY(i), Or(eq(v, w), found, And(ne(i, v), ne(i, w)))), 'post', 'an empty list stays empty only when no edge is added')
            else:
                e.oblige(st, And(ne(v, w), Not(found), Or(eq(i, v), eq(i, w)), st.dead.get(p.obj) is None, eq(p.off, 0)), 'post', 'a new first node only for a new edge')
                e.oblige(st, eq(e.S(st, e.read(st, p.obj, None, l['v'][0], 'i32')), ite(eq(i, v), w, v)), 'post', 'new node names the other vertex')
                e.oblige(st, eq(e.read(st, p.obj, None, l['weight'][0], 'f64').t, s.wt.t), 'post', 'new node has the weight')
                q = e.read(st, p.obj, None, l['next'][0], 'ptr')
                if q.obj is None: e.oblige(st, g.EMPTY(i), 'post', 'new node is followed by the old list'); return
                e.oblige(st, q.obj is g.hd and And(eq(q.idx, i), eq(q.off, 0), eq(zb(q.nullc), g.EMPTY(i))), 'post', 'new node is followed by the old list')
        e.forked(st, chk)


class NewLst(Contract):
    """n vertices, no edges, every list empty; the name is copied ("G" without one)"""
    name = 'nx_graph_new_adj_lst'; cases = ('named', 'unnamed')
    def setup(s, e, case):
        b = B(e); s.c = b.cstr('name') if case == 'named' else None; s.n = b.int('n_v', 32, 0, 1 << 24)
        return b.st, [PV(s.c, 0) if s.c else NULL, s.n], b.aux()
    def loop_ptrs(s, e, L, obj):
        from .string_array import div8
        return lambda v, off: (NULL, And(le(0, div8(off)), lt(div8(off), v.k)))
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        common_new(s, e, st, o.ret, 'NXGraphAdjLst', GF)
        g = o.ret.obj; l = lay('NXGraphAdjLst', GF)
        p = e.read(st, g, None, l['edges'][0], 'ptr')
        e.valid(st, p, mul(8, s.n.t), 'post: a list head per vertex')
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, s.n.t)))
        st.coords.append((j,))
        e.forked(st, lambda t: e.oblige(t, isnull(e.read(t, p.obj, None, mul(8, j), 'ptr')), 'post', 'list j is empty'))


def isnull(p): return True if p.obj is None else p.nullc


def common_new(s, e, st, r, sn, fs):
    if r.obj is None: e.oblige(st, False, 'post', 'a graph is returned'); return
    l = lay(sn, fs)
    g = r.obj
    e.oblige(st, And(r.nullc is False, eq(r.off, 0)), 'post', 'a graph is returned')
    e.oblige(st, eq(e.S(st, e.read(st, g, None, l['n_v'][0], 'i32')), s.n.t), 'post', 'number of vertices')
    e.oblige(st, eq(e.S(st, e.read(st, g, None, l['n_e'][0], 'i32')), 0), 'post', 'no edges')
    p = e.read(st, g, None, l['name'][0], 'ptr')
    e.oblige(st, p.obj is not None and p.obj is not s.c and p.obj.kind == 'heap', 'post', 'name of its own')
    if s.c is None:
        for i, x in enumerate((71, 0)): e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, i, 'i8')), x), 'post', 'default name')
    else:
        j = z3.Int(uid('j')); st2 = st.copy(); st2.assume(And(j >= 0, le(j, s.c.slen)))
        e.oblige(st2, eq(e.U(st2, e.read(st2, p.obj, None, j, 'i8')), e.U(st2, e.read(st2, s.c, None, j, 'i8'))), 'post', 'name copied')


class FreeLst(Contract):
    """every list, the list heads, the name and the graph are freed"""
    name = 'nx_graph_free_adj_lst'; cases = ('null', 'graph')
    def setup(s, e, case):
        b = B(e); s.g = mk_adj(b) if case == 'graph' else None
        if s.g: s.CNT = z3.Function(uid('freed'), I, I); b.st.ghost['freed'] = 0
        return b.st, [PV(s.g, 0) if s.g else NULL], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_graph_edge_list_free': return None
        p, = args; g = s.g
        if p.obj is None: return [Out('ret', st)]
        if p.obj is not g.hd: raise Unsupported('list free')
        i = p.idx; old = st.dead.get(g.hd)
        if old is not None: e.oblige(st, Or(p.nullc, Not(old(i))), 'memory-safety', 'list freed twice')
        nul = p.nullc
        st.dead[g.hd] = lambda j, i=i, old=old, nul=nul: Or(And(eq(j, i), Not(nul)), False if old is None else old(j))
        return [Out('ret', st)]
    def loop_dead(s, e, L, obj):
        if s.g is None or obj is not s.g.hd: return None
        return lambda v, i: And(le(0, i), lt(i, v.k), Not(s.g.EMPTY(zi(i))))
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.g is None: return
        g = s.g
        for x in (g, g.ed, g.nm): e.oblige(st, st.dead.get(x) is True, 'post', x.name + ' is freed')
        i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, g.n.t)))
        d = st.dead.get(g.hd)
        e.oblige(st, Or(g.EMPTY(i), False if d is None else True if d is True else d(i)), 'post', 'list i is freed')


# ---------------------------------------------------------------- adjacency matrices
MF = ['name', 'n_v', 'n_e', 'weights']


class NewMat(Contract):
    """n vertices, no edges, every weight absent"""
    name = 'nx_graph_new_adj_mat'; cases = ('named', 'unnamed')
    def setup(s, e, case):
        b = B(e); s.c = b.cstr('name') if case == 'named' else None; s.n = b.int('n_v', 32, 0, MAXV)
        return b.st, [PV(s.c, 0) if s.c else NULL, s.n], b.aux()
    def intercept(s, e, st, name, args):
        """nx_dmat_set (contract of P15: every element of the m x n matrix gets the value)"""
        if name != 'nx_dmat_set': return None
        m, n, A, ld, v = args
        e.oblige(st, And(eq(e.S(st, m), s.n.t), eq(e.S(st, n), s.n.t), eq(e.S(st, ld), s.n.t)), 'pre', 'the whole square matrix is set')
        e.valid(st, A, mul(8, mul(s.n.t, s.n.t)), 'matrix', wr=True)
        st.ghost['set'] = (A, v)
        return [Out('ret', st)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        common_new(s, e, st, o.ret, 'NXGraphAdjMat', MF)
        p = e.read(st, o.ret.obj, None, lay('NXGraphAdjMat', MF)['weights'][0], 'ptr')
        g = st.ghost.get('set')
        e.oblige(st, g is not None and And(g[0].obj is p.obj, eq(g[0].off, 0), eq(p.off, 0), eq(g[1].t, ABSENT)), 'post', 'every weight is absent')


class InsertMat(Contract):
    """v = w: nothing; else both entries get the weight, the edge count grows exactly when the edge was absent, all else kept"""
    name = 'nx_graph_insert_adj_mat'
    def setup(s, e, case):
        b = B(e)
        n = b.int('n_v', 32, 1, MAXV); en = b.int('n_e', 32, 0, (1 << 31) - 2); nm = b.cstr('name', ro=False, kind='hparam')
        W = b.array('weights', 'f64', mul(n.t, n.t))
        g = mk_struct(b, 'g', 'NXGraphAdjMat', {'name': ('ptr', PV(nm, 0)), 'n_v': ('i32', n), 'n_e': ('i32', en), 'weights': ('ptr', PV(W, 0))})
        v = b.int('v', 32, 0, MAXV); w = b.int('w', 32, 0, MAXV)
        b.st.assume(And(lt(v.t, n.t), lt(w.t, n.t)))
        for x, y in ((v.t, w.t), (w.t, v.t)): b.st.assume(And(le(0, mul(x, n.t)), le(add(mul(x, n.t), n.t), mul(n.t, n.t)), Implies(lt(x, y), le(add(mul(x, n.t), n.t), mul(y, n.t)))))
        s.n, s.W = n, W
        a = lambda i, j: e.read(b.st, W, None, mul(8, add(mul(i, n.t), j)), 'f64').t
        b.st.assume(eq(a(v.t, w.t), a(w.t, v.t)))     # undirected graph
        wt = b.real('weight', True)
        return b.st, [PV(g, 0), v, w, wt], b.aux()
    def spec(s, e, st, args):
        g, v, w, wt = args
        g = g.obj; n, W = s.n, s.W
        out = []
        for y, s2 in branch(e, st, eq(v.t, w.t)):
            if y: out.append((s2, None)); continue
            old = e.read(s2, W, None, mul(8, add(mul(w.t, n.t), v.t)), 'f64').t
            c = fld(e, s2, g, 'n_e').t
            setf(e, s2, g, 'n_e', IV(32, add(c, ite(eq(old, ABSENT), 1, 0)), 0, (1 << 31) - 1))
            for a, b in ((v, w), (w, v)): e.write(s2, W, None, mul(8, add(mul(a.t, n.t), b.t)), 'f64', wt)
            out.append((s2, None))
        return out


class FreeMat(Contract):
    name = 'nx_graph_free_adj_mat'; cases = ('null', 'graph')
    def setup(s, e, case):
        b = B(e)
        if case == 'null': return b.st, [NULL], b.aux()
        nm = b.cstr('name', ro=False, kind='hparam'); n = b.int('n_v', 32, 0, MAXV); W = b.array('weights', 'f64', mul(n.t, n.t))
        g = mk_struct(b, 'g', 'NXGraphAdjMat', {'name': ('ptr', PV(nm, 0)), 'n_v': ('i32', n), 'n_e': ('i32', b.int('n_e')), 'weights': ('ptr', PV(W, 0))})
        s.all = (g, nm, W)
        return b.st, [PV(g, 0)], b.aux()
    def spec(s, e, st, args):
        if args[0].obj is not None:
            for o in s.all: st.dead[o] = True
        return [(st, None)]


CONTRACTS = {c.name: c() for c in (ListFree, EdgeNew, NewLst, FreeLst, InsertLst, NewMat, InsertMat, FreeMat, Search)}
