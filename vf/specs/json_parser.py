"""nx_json_parser.c under contract: recursive descent against the grammar.

The token stream is a function of the position: token t has type TY(t) and text t. V(t) is the position after the value
that starts at token t (-1: there is none), TR(t) stands for the tree of that value, and a list of children is a term built
with snoc. The definition of V and of the children of a composite is unfolded where it is needed:
   V(t) = t+1 for a leaf token;  '[' -> t+2 when ']' follows, else AV(t+1);  '{' -> t+2 when '}' follows, else MV(t+1)
   AV(p): a value at p, then ',' and AV again, or ']';      MV(p): string ':' value at p, then ',' and MV again, or '}'
   AL(p, l) / ML(p, l): the children after those, starting from the children l.
nx_json_parser_parse_value is verified with its own contract assumed for the values inside it (they are shorter); what the lexer
delivers is the contract of nx_json_lexer_next_token (P06), what appending does that of nx_json_node_add_child."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, View
from . import json_tree
from .json_tree import OBJ, ARR, STR, INT, FPN, TRUE, FALSE, NUL, I

FILES = ['src/nx_json_parser.c', 'src/nx_json_tree.c', 'src/nx_alloc.c', 'src/nx_string.c']
SRC = 'src/nx_json_parser.c'
EOF, LSB, RSB, LCB, RCB, COMMA, COLON, T_TRUE, T_FALSE, T_NULL, T_INT, T_FPN, T_STR = range(13)
LEAF = {T_TRUE: TRUE, T_FALSE: FALSE, T_NULL: NUL, T_INT: INT, T_FPN: FPN, T_STR: STR}
TEXT = (T_INT, T_FPN, T_STR)
GLIST, GTEXT = 1 << 20, (1 << 20) + 8        # ghost fields of a node: the term of its children, the token its text is a copy of
NEW = {'nx_json_node_new_' + n: (ty, tx) for n, ty, tx in (('object', OBJ, 0), ('array', ARR, 0), ('string', STR, 1), ('integer', INT, 1), ('fpnumber', FPN, 1), ('true', TRUE, 0), ('false', FALSE, 0), ('null', NUL, 0))}
BIG = 1 << 61


def lay(): return llir_offsets(SRC, 'struct NXJSONParser', ['jlex', 'jtoken', 'root', 'current_node'])
def tlay(): return llir_offsets(SRC, 'struct NXJSONToken', ['type', 'text'])


class G:
    """the grammar over one token stream"""
    def __init__(s, b):
        F = lambda n, *a: z3.Function(uid(n), *a)
        s.TY, s.V, s.TR, s.AV, s.MV = [F(n, I, I) for n in ('TY', 'V', 'TR', 'AV', 'MV')]
        s.AL, s.ML, s.snoc, s.leaf = [F(n, I, I, I) for n in ('AL', 'ML', 'snoc', 'leaf')]
        s.SL = F('len', I, I); s.N = z3.Int(uid('tokens')); b.st.assume(And(s.N >= 0, s.N < (1 << 40)))
        s.nil = 0
        st = s.strs = Obj('token texts', lambda i: s.SL(zi(i)) + 1, kind='hparam', fam=True, layout=None); b.reg(st)
        st.slen = lambda i: s.SL(zi(i))
    def ty(s, st, t):
        x = s.TY(zi(t)); st.assume(And(x >= 0, x <= 12, z3.Implies(zi(t) >= s.N, x == EOF))); return x
    def push(s, st, l, x):
        r = s.snoc(zi(l), zi(x)); st.assume(And(r >= 0, r < BIG)); return r
    def valid(s, st, t):
        """V(t): -1, or beyond t within the stream"""
        v = s.V(zi(t)); st.assume(Or(v == -1, And(v > zi(t), v <= s.N))); st.assume(And(s.TR(zi(t)) >= 0, s.TR(zi(t)) < BIG)); return v
    def tail(s, st, ft, fl, close, p, l):
        """what follows an element that ended at p with children l: (position, children)"""
        t = s.ty(st, p)
        st.assume(And(fl(p + 1, zi(l)) >= 0, fl(p + 1, zi(l)) < BIG))
        return z3.If(t == COMMA, ft(p + 1), z3.If(t == close, p + 1, -1)), z3.If(t == COMMA, fl(p + 1, zi(l)), zi(l))
    def elements(s, st, p, l):
        p = zi(p); v = s.valid(st, p)
        a, b = s.tail(st, s.AV, s.AL, RSB, v, s.push(st, l, s.TR(p)))
        st.assume(And(s.AV(p) == z3.If(v < 0, -1, a), z3.Implies(v >= 0, s.AL(p, zi(l)) == b)))
    def members(s, st, p, l):
        p = zi(p); v = s.valid(st, p + 2)
        a, b = s.tail(st, s.MV, s.ML, RCB, v, s.push(st, s.push(st, l, s.leafid(st, T_STR, p)), s.TR(p + 2)))
        ok = z3.And(s.ty(st, p) == T_STR, s.ty(st, p + 1) == COLON, v >= 0)
        st.assume(And(s.MV(p) == z3.If(ok, a, -1), z3.Implies(ok, s.ML(p, zi(l)) == b)))
    def leafid(s, st, ty, p):
        r = s.leaf(zi(ty), zi(p) if ty in TEXT else zi(0)); st.assume(And(r >= 0, r < BIG)); return r
    def composite(s, st, t):
        """(position after, children) of an array / of an object at t"""
        t = zi(t); nx = s.ty(st, t + 1)
        s.elements(st, t + 1, s.nil); s.members(st, t + 1, s.nil)
        return ((z3.If(nx == RSB, t + 2, s.AV(t + 1)), z3.If(nx == RSB, 0, s.AL(t + 1, zi(0)))),
                (z3.If(nx == RCB, t + 2, s.MV(t + 1)), z3.If(nx == RCB, 0, s.ML(t + 1, zi(0)))))
    def value(s, st, t):
        """V(t) unfolded"""
        (a, _), (o, _) = s.composite(st, t); y = s.ty(st, t)
        return z3.If(z3.Or(*[y == k for k in LEAF]), zi(t) + 1, z3.If(y == LSB, a, z3.If(y == LCB, o, -1)))


class Parse(Contract):
    value = False
    def parser(s, e, b):
        l, tl = lay(), tlay(); g = s.g = G(b); st = b.st
        s.pos0 = b.int('position', 64, 0, 1 << 40); st.assume(le(s.pos0.t, g.N))
        tok = s.tok = Obj('token', tl[''][1], kind='hparam'); b.reg(tok)
        gh = s.gh = Obj('ghost', 64, kind='hparam'); b.reg(gh)
        gh.cells[0] = ('i64', s.pos0)
        tok.cells[tl['type'][0]] = ('i32', IV(32, g.ty(st, s.pos0.t), 0, 12)); tok.cells[tl['text'][0]] = ('ptr', PV(g.strs, 0, s.pos0.t))
        c = s.c = json_tree.mk_node(b, 'current'); s.root = json_tree.mk_node(b, 'root')
        s.c0 = z3.Int(uid('children')); st.assume(And(s.c0 >= 0, s.c0 < BIG)); c.cells[GLIST] = ('i64', IV(64, s.c0))
        jp = s.jp = Obj('parser', l[''][1], kind='hparam'); b.reg(jp)
        lx = Obj('lexer', 64, kind='hparam'); b.reg(lx); s.lx = lx
        jp.cells[l['jlex'][0]] = ('ptr', PV(lx, 0)); jp.cells[l['jtoken'][0]] = ('ptr', PV(tok, 0))
        jp.cells[l['root'][0]] = ('ptr', PV(s.root, 0)); jp.cells[l['current_node'][0]] = ('ptr', PV(c, 0))
        s.msg = b.cstr('message')
    def pos(s, e, st): return e.S(st, e.read(st, s.gh, None, 0, 'i64'))
    def children(s, e, st, o):
        v = e.S(st, e.read(st, o, None, GLIST, 'i64')); st.assume(And(zi(v) >= 0, zi(v) < BIG)) if not isc(v) else 0; return v
    def consume(s, e, st, p):
        g = s.g; tl = tlay()
        e.write(st, s.gh, None, 0, 'i64', IV(64, p))
        e.write(st, s.tok, None, tl['type'][0], 'i32', IV(32, g.ty(st, p), 0, 12)); e.write(st, s.tok, None, tl['text'][0], 'ptr', PV(g.strs, 0, p))
    def intercept(s, e, st, name, args):
        g, l = s.g, lay()
        if name == 'nx_json_lexer_next_token':
            e.oblige(st, And(args[0].obj is s.lx, eq(args[0].off, 0), args[1].obj is s.tok, eq(args[1].off, 0)), 'pre', 'the next token of the lexer goes to the token of the parser')
            s.consume(e, st, ite(lt(s.pos(e, st), g.N), add(s.pos(e, st), 1), s.pos(e, st))); return [Out('ret', st)]
        if name in ('nx_json_token_name', 'nx_json_token_to_string', 'nx_json_token_type_name'): return [Out('ret', st, PV(s.msg, 0))]
        if name in NEW:
            ty, tx = NEW[name]; o = fresh_obj('node', json_tree.lay()[''][1]); json_tree.ensure(o)
            for f in json_tree.FIELDS: setf(e, st, o, f, IV(32, ty) if f == 'type' else NULL)
            e.write(st, o, None, GLIST, 'i64', IV(64, 0))
            if tx:
                e.oblige(st, And(args[0].obj is g.strs, eq(args[0].off, 0), eq(args[0].idx, s.pos(e, st)) if args[0].idx is not None else False), 'pre', 'the text is that of the current token')
                e.write(st, o, None, GTEXT, 'i64', IV(64, args[0].idx))
            o.nid = z3.Int(uid('node id'))
            st.assume(And(o.nid >= 0, o.nid < BIG))
            return [Out('ret', st, PV(o, 0))]
        if name == 'nx_json_node_add_child':
            p, n = args
            if n.obj is None or p.obj is None or n.nullc is not False: raise Unsupported('appending an unknown node')
            e.oblige(st, And(eq(p.off, 0), eq(n.off, 0), Not(p.nullc) if p.nullc is not False else True), 'pre', 'a node is appended to a node')
            k = st.ghost.get(('ty', n.obj)) or e.U(st, fld(e, st, n.obj, 'type'))
            if isc(k) and k not in (ARR, OBJ):
                t = [a for a, b in LEAF.items() if b == k][0]
                x = g.leafid(st, t, e.S(st, e.read(st, n.obj, None, GTEXT, 'i64')) if t in TEXT else 0)
            else:
                if not hasattr(n.obj, 'nid'): raise Unsupported('appending an unknown node')
                x = n.obj.nid
            e.write(st, p.obj, None, GLIST, 'i64', IV(64, g.push(st, s.children(e, st, p.obj), x)))
            return [Out('ret', st, n)]
        if name == 'nx_json_parser_parse_value' and e.fnstack:
            jp = args[0]
            e.oblige(st, jp.obj is s.jp and eq(jp.off, 0), 'pre', 'same parser')
            r, c = e.read(st, s.jp, None, l['root'][0], 'ptr'), e.read(st, s.jp, None, l['current_node'][0], 'ptr')
            if c.obj is None: e.oblige(st, False, 'pre', 'there is a current node'); return []
            e.oblige(st, And(r.obj is not None, r.obj is None or Not(r.nullc), Not(c.nullc), eq(c.off, 0)), 'pre', 'there are a root and a current node')
            p = s.pos(e, st); v = g.valid(st, p)
            e.oblige(st, s.synced(e, st), 'pre', 'the token of the parser is the current one')
            out = []
            for ok, s2 in branch(e, st, v >= 0):
                if not ok: out.append(Out('fatal', s2)); continue
                e.write(s2, c.obj, None, GLIST, 'i64', IV(64, g.push(s2, s.children(e, s2, c.obj), g.TR(zi(p)))))
                s.consume(e, s2, v)
                out.append(Out('ret', s2))
            return out
        return None
    def synced(s, e, st):
        tl = tlay(); p = s.pos(e, st)
        x = e.read(st, s.tok, None, tl['text'][0], 'ptr')
        return And(eq(e.U(st, e.read(st, s.tok, None, tl['type'][0], 'i32')), s.g.ty(st, p)), x.obj is s.g.strs, eq(x.idx, p) if x.idx is not None else False, eq(x.off, 0))
    def nodes(s, L): return [o for (o, off) in L.cells if off == GLIST]
    def loop_cands(s, e, L):
        g = s.g
        out = [Cand('token is the current one', lambda v: s.synced(e, v.st), strong=True), Cand('position within the stream', lambda v: And(le(s.pos0.t, s.pos(e, v.st)), le(s.pos(e, v.st), g.N)))]
        for o in s.nodes(L):
            for nm, head, ft, fl, close in (('array', LSB, g.AV, g.AL, RSB), ('object', LCB, g.MV, g.ML, RCB)):
                t0 = s.pos0.t
                def after(v, o=o, ft=ft, fl=fl, close=close):
                    p = zi(s.pos(e, v.st)); l = s.children(e, v.st, o); g.composite(v.st, t0); g.elements(v.st, p + 1, l); g.members(v.st, p + 1, l)
                    a, b = g.tail(v.st, ft, fl, close, p, l)
                    return And(ft(zi(t0) + 1) == a, z3.Implies(a >= 0, fl(zi(t0) + 1, zi(0)) == b))
                def before(v, o=o, ft=ft, fl=fl):
                    p = zi(s.pos(e, v.st)); l = s.children(e, v.st, o); g.composite(v.st, t0); g.elements(v.st, p, l); g.members(v.st, p, l)
                    return And(ft(zi(t0) + 1) == ft(p), z3.Implies(ft(p) >= 0, fl(zi(t0) + 1, zi(0)) == fl(p, zi(l))))
                out.append(Cand('%s %s after an element' % (o.name, nm), after)); out.append(Cand('%s %s before an element' % (o.name, nm), before))
        return out
    def measures(s, e, L): yield ('tokens left', lambda v: sub(s.g.N, s.pos(e, v.st)))
    def composite_ok(s, e, st, n, t):
        """n is the composite that the tokens at t describe"""
        (a, al), (o, ol) = s.g.composite(st, t); y = s.g.ty(st, t); k = e.U(st, fld(e, st, n, 'type'))
        return And(z3.Implies(y == LSB, zb(eq(k, ARR))), z3.Implies(y == LCB, zb(eq(k, OBJ))), eq(s.children(e, st, n), z3.If(y == LSB, al, ol)))


class Value(Parse):
    """at a value: exactly one node is appended to the current node - the leaf of the token, or the composite with its children in order -
    and the parser stands behind the value with the current node as before; anything else ends the program"""
    name = 'nx_json_parser_parse_value'
    def setup(s, e, case):
        b = B(e); s.parser(e, b); return b.st, [PV(s.jp, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        st, g, l = o.st, s.g, lay(); t = s.pos0.t
        V = g.value(st, t)
        if o.kind == 'fatal': e.oblige(st, V == -1, 'post', 'ends the program only where there is no value'); return
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, V >= 0, 'post', 'returns only after a value')
        e.oblige(st, And(eq(s.pos(e, st), V), s.synced(e, st)), 'post', 'stands behind the value')
        e.oblige(st, And(zi(s.pos(e, st)) > zi(t), zi(s.pos(e, st)) <= g.N), 'post', 'a value is at least one token')
        c, r = e.read(st, s.jp, None, l['current_node'][0], 'ptr'), e.read(st, s.jp, None, l['root'][0], 'ptr')
        e.oblige(st, And(c.obj is s.c, r.obj is s.root), 'post', 'current node and root kept')
        kids = s.children(e, st, s.c); y = g.ty(st, t)
        news = [x for x in st.mem if hasattr(x, 'nid')]
        alts = [And(y == k, eq(kids, g.push(st, s.c0, g.leafid(st, k, t)))) for k in LEAF]
        alts += [And(z3.Or(y == LSB, y == LCB), eq(kids, g.push(st, s.c0, n.nid)), s.composite_ok(e, st, n, t)) for n in news]
        e.oblige(st, Or(*alts), 'post', 'exactly the node of the value is appended')


class Doc(Parse):
    """the tree of the array or object that starts at the current token, whatever the parser held before; anything else ends the program"""
    name = 'nx_json_parser_parse'
    def setup(s, e, case):
        b = B(e); s.parser(e, b); return b.st, [PV(s.jp, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        st, g = o.st, s.g; t = s.pos0.t; y = g.ty(st, t)
        V = g.value(st, t); ok = z3.And(z3.Or(y == LSB, y == LCB), V >= 0)
        if o.kind == 'fatal': e.oblige(st, z3.Not(ok), 'post', 'ends the program only without a document'); return
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, ok, 'post', 'returns only after a document')
        e.oblige(st, And(eq(s.pos(e, st), V), s.synced(e, st)), 'post', 'stands behind the document')
        r = o.ret
        e.oblige(st, And(r.obj is not None and r.obj not in (s.c, s.root), eq(r.off, 0), Not(r.nullc)), 'post', 'a new root is returned')
        if r.obj is None or r.obj in (s.c, s.root): return
        e.oblige(st, s.composite_ok(e, st, r.obj, t), 'post', 'the root has the children of the document in order')
        e.oblige(st, eq(s.children(e, st, s.c), s.c0), 'post', 'an older tree is kept')


CONTRACTS = {c.name: c() for c in (Value, Doc)}
OWN = list(CONTRACTS)
