"""nx_json_tree.c and nx_json_parser.c under contract.

The children of a node are a list: child i is followed (right) by child i+1. Structure building (append), access by
position and by name, release, and the recursive-descent parser against the grammar."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View
from .graph import e_proves

FILES = ['src/nx_json_tree.c', 'src/nx_json_parser.c', 'src/nx_alloc.c', 'src/nx_string.c']
SRC = 'src/nx_json_tree.c'
FIELDS = {'type': 'i32', 'text': 'ptr', 'right': 'ptr', 'down': 'ptr', 'last_child': 'ptr'}
OBJ, ARR, STR, INT, FPN, TRUE, FALSE, NUL = [1 << i for i in range(8)]
I = z3.IntSort()


def lay(): return llir_offsets(SRC, 'struct NXJSONNode', list(FIELDS))


def ensure(o):
    if not hasattr(o, 'fo'):
        l = lay(); o.fo = {f: (l[f][0], FIELDS[f]) for f in FIELDS}; o.layout = ('struct', [(l[f][0], FIELDS[f], f) for f in FIELDS])
    return o


def band(a, b): return z3.BV2Int(z3.Int2BV(zi(a), 32) & z3.Int2BV(zi(b), 32))


def free_ints(t):
    if z3.is_const(t): return [t] if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.sort() == I else []
    return [v for c in t.children() for v in free_ints(c)]


def mk_kids(b, name='kids', lo=0, texts=True, n=None):
    """children lo..n-1; child i has type TY(i) and, when it has one, the text number i"""
    e = b.e; l = lay()
    n = n or b.int(name + '.n', 32, 0, 1 << 24)
    TY = z3.Function(uid(name + '.type'), I, I); SL = z3.Function(uid(name + '.len'), I, I)
    o = Obj(name, l[''][1], kind='hparam', fam=True, layout=None)
    strs = Obj(name + '.texts', lambda i: SL(zi(i)) + 1, kind='hparam', fam=True, layout=None)
    strs.slen = lambda i: SL(zi(i))
    strs.onread = [lambda st, idx, off, ty, t: [z3.Implies(z3.And(zi(off) >= 0, zi(off) < SL(zi(idx))), t != 0), z3.Implies(zi(off) == SL(zi(idx)), t == 0), SL(zi(idx)) >= 0, SL(zi(idx)) < (1 << 30)] if ty == 'i8' else []]
    def base(st, idx, off, ty):
        if ty == 'i32' and e_proves(e, st, off, l['type'][0]):
            t = TY(zi(idx)); st.assume(And(t >= 1, t <= 128, z3.Or(*[t == 1 << k for k in range(8)]))); return IV(32, t, 1, 128)
        if ty == 'ptr':
            if e_proves(e, st, off, l['right'][0]): return PV(o, 0, add(idx, 1), Or(le(n.t, add(idx, 1)), lt(add(idx, 1), 0 if lo == 0 else 1)))
            if e_proves(e, st, off, l['text'][0]):
                st.assume(And(SL(zi(idx)) >= 0, SL(zi(idx)) < (1 << 30)))
                return PV(strs, 0, idx)
            if not e.quiet: raise Unsupported('read of a node at an unknown place')
            c = z3.simplify(z3.substitute(zi(off), *[(v, z3.IntVal(0)) for v in free_ints(zi(off))]))      # while looking for what a loop changes: the field it looks like
            if e_proves(e, st, c, l['text'][0]): return PV(strs, 0, z3.Int(uid('idx')))
            return PV(o, z3.Int(uid('off')), z3.Int(uid('idx')), z3.Bool(uid('null')))
        return None
    o.base = base; o.n, o.TY, o.strs = n, TY, strs
    o.at = lambda i: PV(o, 0, i, Or(lt(i, 0), le(n.t, i)))
    return b.reg(o)


def mk_node(b, name='node', ty=None, kids=None, kind='hparam'):
    l = lay()
    t = IV(32, ty) if ty is not None else b.int(name + '.type', 32, 1, 128)
    if ty is None: b.st.assume(Or(*[eq(t.t, 1 << k) for k in range(8)]))
    o = Obj(name, l[''][1], kind=kind); ensure(o); b.reg(o)
    vals = {'type': t, 'text': NULL, 'right': NULL, 'down': kids.at(0) if kids else NULL, 'last_child': NULL}
    if kids: vals['last_child'] = PV(kids, 0, sub(kids.n.t, 1), le(kids.n.t, 0))
    for f in FIELDS: o.cells[l[f][0]] = (FIELDS[f], vals[f])
    o.t, o.kids = t, kids
    return o


# ---------------------------------------------------------------- new nodes
class New(Contract):
    text = False; cases = ('',)
    def setup(s, e, case):
        b = B(e); s.c = b.cstr('text') if s.text else None
        return b.st, [PV(s.c, 0)] if s.text else [], b.aux()
    def spec(s, e, st, args):
        o = fresh_obj('node', lay()[''][1]); ensure(o)
        for f in FIELDS: setf(e, st, o, f, IV(32, s.ty) if f == 'type' else NULL)
        if s.text:
            from .strings import cpy
            n = add(e.slen(e, st, args[0], s.name), 1); c = cpy(e, st, args[0], n); setf(e, st, o, 'text', PV(c, 0))
        return [(st, PV(o, 0))]


NEWS = {}
for nm_, ty_, tx_ in (('object', OBJ, 0), ('array', ARR, 0), ('string', STR, 1), ('integer', INT, 1), ('fpnumber', FPN, 1), ('true', TRUE, 0), ('false', FALSE, 0), ('null', NUL, 0)):
    NEWS['nx_json_node_new_' + nm_] = type('New_' + nm_, (New,), dict(name='nx_json_node_new_' + nm_, ty=ty_, text=bool(tx_), __doc__='a fresh %s node without children' % nm_))


class Is(Contract):
    """true exactly for a node of exactly that type"""
    name = 'nx_json_node_is'; cases = ('null', 'node')
    def setup(s, e, case):
        b = B(e); s.o = mk_node(b) if case == 'node' else None
        return b.st, [PV(s.o, 0) if s.o else NULL, b.int('type', 32, 0, 255)], b.aux()
    def test(s, t, m): return eq(t, m)
    def post(s, e, st0, o, args, aux):
        e.oblige(o.st, And(o.kind == 'ret', eq(o.ret.t, 0 if s.o is None else ite(s.test(s.o.t.t, args[1].t), 1, 0))) if o.kind == 'ret' else False, 'post', 'whether the node has that type')


class IsA(Is):
    """true exactly for a node of one of the types of the mask"""
    name = 'nx_json_node_is_a'
    def test(s, t, m): return ne(band(t, m), 0)


class Getter(Contract):
    def setup(s, e, case):
        b = B(e); s.o = mk_node(b, kids=mk_kids(b)); return b.st, [PV(s.o, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        w = fld(e, st0, s.o, s.f)
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        e.oblige(o.st, eq(o.ret.t, w.t) if isinstance(w, IV) else And(o.ret.obj is w.obj, eq(o.ret.off, w.off)), 'post', 'the ' + s.f + ' of the node')


class GType(Getter): name = 'nx_json_node_type'; f = 'type'
class GText(Getter): name = 'nx_json_node_text'; f = 'text'


# ---------------------------------------------------------------- walking the children
class Walk(Contract):
    stride = 1
    def idx(s, v): return mul(s.stride, v.k)
    def loop_cands(s, e, L):
        out = []; o = s.kids
        if o is None: return out
        for a in L.accs():
            if a[0] != 'phi': continue
            p = L.env0.get(a[1])
            if not isinstance(p, PV): continue
            def f(v, a=a):
                q = v.env[a[1]]
                if q.obj is None: return le(o.n.t, s.idx(v))
                return And(q.obj is o, Or(eq(q.idx, s.idx(v)) if q.idx is not None else False, And(q.nullc, le(o.n.t, s.idx(v)))), eq(q.off, 0), eq(zb(q.nullc), zb(le(o.n.t, s.idx(v)))))
            out.append(Cand('%s is child %d*k' % (a[1], s.stride), f, strong=True))
        out.append(Cand('k within the children', lambda v: le(s.idx(v), add(o.n.t, s.stride - 1))))
        return out
    def measures(s, e, L):
        if s.kids is not None: yield ('children left', lambda v: sub(add(s.kids.n.t, s.stride), s.idx(v)))


class NChildren(Walk):
    """the number of children"""
    name = 'nx_json_node_n_children'
    def setup(s, e, case):
        b = B(e); s.kids = mk_kids(b); s.o = mk_node(b, kids=s.kids); return b.st, [PV(s.o, 0)], b.aux()
    def post(s, e, st0, o, args, aux): e.oblige(o.st, eq(o.ret.t, s.kids.n.t) if o.kind == 'ret' else False, 'post', 'the number of children')


class ArrayGet(Walk):
    """the child at the position when the node is an array, the position exists and the type fits; else null"""
    name = 'nx_json_array_get'; cases = ('null', 'array', 'other')
    def setup(s, e, case):
        b = B(e); s.case = case; s.kids = None
        if case != 'null':
            s.kids = mk_kids(b); s.o = mk_node(b, kids=s.kids, ty=ARR if case == 'array' else None)
            if case == 'other': b.st.assume(ne(s.o.t.t, ARR))
        s.p = b.int('position', 32, 0); s.m = b.int('type', 32, 0, 255)
        return b.st, [PV(s.o, 0) if case != 'null' else NULL, s.p, s.m], b.aux()
    def check(s, e, st, r, has, i):
        """r is child i exactly when `has`, else null"""
        if r.obj is None: e.oblige(st, Not(has), 'post', 'null only when there is no such child'); return
        e.oblige(st, eq(zb(Not(r.nullc)), zb(has)), 'post', 'a child exactly when there is one')
        e.oblige(st, Or(r.nullc, And(r.obj is s.kids, eq(r.off, 0), eq(r.idx, i) if r.idx is not None else False)), 'post', 'the right child')
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.case != 'array': e.oblige(st, o.ret.obj is None, 'post', 'null for what is not an array'); return
        k = s.kids; p = s.p.t
        e.base_read(st, k, p, lay()['type'][0], 'i32')
        s.check(e, st, o.ret, And(lt(p, k.n.t), ne(band(k.TY(p), s.m.t), 0)), p)


class ObjectGet(ArrayGet):
    """the value of the first member of that name when the node is an object and the type fits; else null"""
    name = 'nx_json_object_get'; cases = ('null', 'object', 'other'); stride = 2
    def setup(s, e, case):
        b = B(e); s.case = case; s.kids = None; s.q = b.cstr('name')
        s.NO = z3.Function(uid('none'), I, z3.BoolSort())
        if case != 'null':
            n = b.int('kids.n', 32, 0, 1 << 24); half = z3.Int(uid('pairs')); b.st.assume(And(half >= 0, eq(n.t, mul(2, half))))
            s.half = half
            s.kids = mk_kids(b, n=n); s.o = mk_node(b, kids=s.kids, ty=OBJ if case == 'object' else None)
            if case == 'other': b.st.assume(ne(s.o.t.t, OBJ))
            b.st.assume(s.NO(0))
        s.m = b.int('type', 32, 0, 255)
        return b.st, [PV(s.o, 0) if case != 'null' else NULL, PV(s.q, 0), s.m], b.aux()
    def same(s, e, st, j): return e.streq(e, st, PV(s.q, 0), PV(s.kids.strs, 0, mul(2, j)))
    def unf(s, e, st, j):
        st.assume(z3.Implies(zi(j) >= 0, s.NO(zi(j) + 1) == z3.And(s.NO(zi(j)), z3.Not(zb(s.same(e, st, zi(j)))))))
        return s.NO(zi(j))
    def loop_cands(s, e, L):
        if s.kids is None: return []
        return Walk.loop_cands(s, e, L) + [Cand('no earlier member has the name', lambda v: s.unf(e, v.st, v.k))]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.case != 'object': e.oblige(st, o.ret.obj is None, 'post', 'null for what is not an object'); return
        # j: the first member of that name (FIRST = half when none)
        j = z3.Int(uid('first'))
        t = z3.Int('t')
        st.assume(And(j >= 0, j <= s.half))
        s.unf(e, st, j)
        st.assume(s.NO(j)); st.assume(z3.Implies(j < s.half, zb(s.same(e, st, j))))
        # the first match is unique: NO is antitone, matching at i makes NO(i+1) and all later ones false
        for i in list(st.ghost.get('visited', ())) : pass
        st.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < j), z3.Not(zb(s.same(e, st, t))))))
        st.assume(z3.ForAll([t], z3.Implies(z3.And(t > j, s.half > j), z3.Not(s.NO(t)))))
        e.base_read(st, s.kids, add(mul(2, j), 1), lay()['type'][0], 'i32')
        s.check(e, st, o.ret, And(lt(j, s.half), ne(band(s.kids.TY(2 * j + 1), s.m.t), 0)), add(mul(2, j), 1))


class Fget(Contract):
    """as the getter, but a missing element ends the program"""
    cases = ('',); getter = None
    def setup(s, e, case):
        b = B(e); s.o = mk_node(b); s.r = mk_node(b, 'found'); s.NUL = b.bool('missing'); s.calls = 0
        x = b.int('position', 32, 0) if 'array' in s.name else PV(b.cstr('name'), 0)
        s.args = [PV(s.o, 0), x, b.int('type', 32, 0, 255)]
        return b.st, s.args, b.aux()
    def intercept(s, e, st, name, args):
        if name != s.getter: return None
        for a, b in zip(args, s.args): e.oblige(st, And(a.obj is b.obj, eq(a.off, b.off)) if isinstance(b, PV) else eq(a.t, b.t), 'pre', 'same arguments')
        return [Out('ret', st, PV(s.r, 0, None, s.NUL))]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, s.NUL, 'post', 'ends the program only when the element is missing'); return
        e.oblige(st, And(Not(s.NUL), o.ret.obj is s.r, eq(o.ret.off, 0)), 'post', 'the element found')


class AFget(Fget): name = 'nx_json_array_fget'; getter = 'nx_json_array_get'
class OFget(Fget): name = 'nx_json_object_fget'; getter = 'nx_json_object_get'


# ---------------------------------------------------------------- building
class AddChild(Contract):
    """the node (with the nodes chained to it) follows the last child; the last of them becomes the last child; other nodes are kept"""
    name = 'nx_json_node_add_child'; cases = ('empty', 'children')
    def setup(s, e, case):
        # index -1: the last child so far; 0..m-1: the nodes to add
        b = B(e); m = b.int('m', 32, 1, 1 << 24)
        k = s.kids = mk_kids(b, 'chain', lo=-1, n=m); s.case = case
        p = s.p = mk_node(b, 'parent')
        l = lay()
        if case == 'children':
            first = s.first = mk_node(b, 'first child'); p.cells[l['down'][0]] = ('ptr', PV(first, 0)); p.cells[l['last_child'][0]] = ('ptr', PV(k, 0, -1))
        return b.st, [PV(p, 0), PV(k, 0, 0)], b.aux()
    def loop_cands(s, e, L):
        k, p = s.kids, s.p
        def f(v):
            q = fld(e, v.st, p, 'last_child')
            if q.obj is not k or q.idx is None: return False
            return And(eq(q.off, 0), q.nullc is False or Not(q.nullc), eq(q.idx, add(v.k, -1 if s.case == 'children' else 0)), lt(q.idx, k.n.t))
        return [Cand('last child walks the chain', f, strong=True)]
    def measures(s, e, L): yield ('nodes left', lambda v: sub(add(s.kids.n.t, 1), v.k))
    def post(s, e, st0, o, args, aux):
        st = o.st; k, p = s.kids, s.p; l = lay()
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, And(o.ret.obj is k, eq(o.ret.idx, 0), eq(o.ret.off, 0)), 'post', 'returns the node')
        q = fld(e, st, p, 'last_child')
        e.oblige(st, q.obj is k and And(q.nullc is False or Not(q.nullc), eq(q.off, 0), eq(q.idx, sub(k.n.t, 1))), 'post', 'the last added node is the last child')
        d = fld(e, st, p, 'down')
        if s.case == 'empty': e.oblige(st, d.obj is k and And(eq(d.idx, 0), eq(d.off, 0)), 'post', 'the node is the first child')
        else:
            e.oblige(st, d.obj is s.first and eq(d.off, 0), 'post', 'first child kept')
            r = e.read(st, k, -1, l['right'][0], 'ptr')
            e.oblige(st, r.obj is k and And(r.nullc is False or Not(r.nullc), eq(r.idx, 0), eq(r.off, 0)), 'post', 'the node follows the former last child')
        for f in ('type', 'text', 'right'):
            x, y = fld(e, st, p, f), fld(e, st0, p, f)
            e.oblige(st, And(x.obj is y.obj) if isinstance(x, PV) else eq(x.t, y.t), 'post', 'parent %s kept' % f)
        i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, k.n.t)))
        r = e.read(st, k, i, l['right'][0], 'ptr')
        e.oblige(st, r.obj is k and And(eq(zb(r.nullc), zb(le(k.n.t, add(i, 1)))), Or(r.nullc, eq(r.idx, add(i, 1))), eq(r.off, 0)), 'post', 'order of the added nodes kept')


class ArrayAdd(Contract):
    """appends the node"""
    name = 'nx_json_array_add'; ty = ARR
    def setup(s, e, case):
        b = B(e); s.p = mk_node(b, 'parent', ty=s.ty); s.n = mk_node(b, 'node'); s.added = None
        return b.st, [PV(s.p, 0), PV(s.n, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_json_node_add_child': return None
        st.ghost['added'] = tuple(st.ghost.get('added', ())) + ((args[0], args[1], st.mem.get(args[1].obj), fld(e, st, ensure(args[1].obj), 'right')),)
        return [Out('ret', st, args[1])]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        g = st.ghost.get('added', ())
        e.oblige(st, len(g) == 1 and g[0][0].obj is s.p and g[0][1].obj is s.n, 'post', 'the node is appended to the array, once')
        e.oblige(st, o.ret.obj is s.n, 'post', 'returns the node')


class ObjectAdd(ArrayAdd):
    """appends a name node followed by the node"""
    name = 'nx_json_object_add'; ty = OBJ
    def setup(s, e, case):
        st, (p, n), aux = ArrayAdd.setup(s, e, case)
        b = B(e); b.st = st; s.q = b.cstr('name'); aux.roots |= b.roots
        return st, [p, PV(s.q, 0), n], aux
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        g = st.ghost.get('added', ())
        e.oblige(st, len(g) == 1 and g[0][0].obj is s.p, 'post', 'one chain is appended to the object')
        if len(g) != 1: return
        k = g[0][1].obj
        e.oblige(st, g[0][3].obj is s.n and st.mem.get(k) is g[0][2], 'post', 'the name node is followed by the node when it is appended')
        e.oblige(st, eq(fld(e, st, k, 'type').t, STR), 'post', 'the name is a string node')
        t = fld(e, st, k, 'text')
        if t.obj is None: e.oblige(st, False, 'post', 'the name node has a text'); return
        j = z3.Int(uid('j')); st.assume(And(j >= 0, le(j, s.q.slen)))
        e.oblige(st, And(t.obj is not s.q, eq(e.U(st, e.read(st, t.obj, None, j, 'i8')), e.U(st, e.read(st, s.q, None, j, 'i8')))), 'post', 'its text is a copy of the name')
        e.oblige(st, o.ret.obj is s.n, 'post', 'returns the node')


class TreeFree(Contract):
    """one call each for the first child and the right neighbour (by induction: everything below and to the right), then the text and the node are freed"""
    name = 'nx_json_tree_free'; cases = ('null', 'leaf', 'text')
    def setup(s, e, case):
        b = B(e); s.case = case
        if case == 'null': return b.st, [NULL], b.aux()
        n = s.n = mk_node(b); l = lay()
        s.d = mk_node(b, 'down'); s.r = mk_node(b, 'right'); s.dn, s.rn = b.bool('no down'), b.bool('no right')
        n.cells[l['down'][0]] = ('ptr', PV(s.d, 0, None, s.dn)); n.cells[l['right'][0]] = ('ptr', PV(s.r, 0, None, s.rn))
        s.t = b.cstr('text', ro=False, kind='hparam') if case == 'text' else None
        if s.t: n.cells[l['text'][0]] = ('ptr', PV(s.t, 0))
        s.first = True
        return b.st, [PV(n, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != s.name or not e.fnstack: return None
        p = args[0]
        if p.obj is None: return [Out('ret', st)]
        if p.obj is not s.d and p.obj is not s.r: return None
        nul = s.dn if p.obj is s.d else s.rn
        e.oblige(st, And(eq(zb(p.nullc), nul), eq(p.off, 0), Or(nul, st.dead.get(p.obj) is None)), 'pre', 'a subtree is freed once')
        st.dead[p.obj] = True
        return [Out('ret', st)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.case == 'null': return
        for x, nul in ((s.n, False), (s.d, s.dn), (s.r, s.rn)): e.oblige(st, Or(nul, st.dead.get(x) is True), 'post', x.name + ' is freed')
        if s.t: e.oblige(st, st.dead.get(s.t) is True, 'post', 'text is freed')


CONTRACTS = {c.name: c() for c in list(NEWS.values()) + [Is, IsA, GType, GText, NChildren, ArrayGet, ObjectGet, AFget, OFget, AddChild, ArrayAdd, ObjectAdd, TreeFree]}
OWN = list(CONTRACTS)
