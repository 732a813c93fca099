"""nx_options.c under contract: declared options, their hash map, queries and release.

Options are nodes of the option list; map nodes carry an own copy of a name and refer to an option. The hash of a name is any function of its text."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View
from .graph import e_proves, Walk as GWalk
from .json_tree import free_ints
from .string_array import div8
from . import strings

FILES = ['src/nx_options.c', 'src/nx_alloc.c', 'src/nx_string.c']
SRC = 'src/nx_options.c'
BOO, INT, DBL, STR, REST, HELP = range(6)
NB = 32
I = z3.IntSort()
DATA = {'short_name': 'ptr', 'name': 'ptr', 'type': 'i32', 'value': None, 'is_required': 'i32', 'is_set': 'i32', 'default_value': None, 'help': 'ptr', 'next': 'ptr'}
VT = {BOO: 'i32', INT: 'i32', DBL: 'f64', STR: 'ptr', REST: 'ptr', HELP: 'i32'}
OPT = {'prog_name': 'ptr', 'n_options': 'i32', 'opt_list.head': 'ptr', 'opt_list.tail': 'ptr', 'opt_map': 'ptr', 'rest': 'ptr', 'usage_header': 'ptr', 'usage_footer': 'ptr'}
NODE = {'key': 'ptr', 'data': 'ptr', 'next': 'ptr'}


def lay(s, f): return llir_offsets(SRC, 'struct ' + s, list(f))


def typed(o, s, f, vt=None):
    l = lay(s, f); ty = {k: (v or vt) for k, v in f.items()}
    if s == 'NXOptionData' and vt == 'ptr' and getattr(o, 'rest', False): ty['default_value'] = 'i32'
    o.fo = {k: (l[k][0], ty[k]) for k in f}; o.layout = ('struct', [(l[k][0], ty[k], k) for k in f]); return o


def mk_data(b, name='option', ty=None, rest=False):
    """an option of type ty with own names, help and value"""
    l = lay('NXOptionData', DATA); o = Obj(name, l[''][1], kind='hparam'); o.rest = rest; typed(o, 'NXOptionData', DATA, VT[ty]); b.reg(o)
    o.nn, o.ns = b.bool(name + '.unnamed'), b.bool(name + '.no short name'); o.s_n, o.s_s, o.s_h = [b.cstr('%s.%s' % (name, x), ro=False, kind='hparam') for x in ('name', 'short', 'help')]
    vals = {'short_name': PV(o.s_s, 0, None, o.ns), 'name': PV(o.s_n, 0, None, o.nn), 'type': IV(32, ty), 'is_required': b.int(name + '.required', 32, 0, 1), 'is_set': b.int(name + '.set', 32, 0, 1), 'help': PV(o.s_h, 0), 'next': NULL}
    for f in ('value', 'default_value'):
        t = o.fo[f][1]
        vals[f] = b.int('%s.%s' % (name, f), 32) if t == 'i32' else b.real('%s.%s' % (name, f), True) if t == 'f64' else PV(b.cstr('%s.%s' % (name, f), ro=False, kind='hparam'), 0, None, b.bool('%s.%s null' % (name, f)))
    for f in DATA: o.cells[o.fo[f][0]] = (o.fo[f][1], vals[f])
    o.vals = vals
    return o


def mk_opt(b, **kw):
    """an options object; the buckets of its map are described by kw['ptrs']"""
    l = lay('NXOptions', OPT); o = Obj('options', l[''][1], kind='hparam'); typed(o, 'NXOptions', OPT); b.reg(o)
    m = Obj('buckets', 8 * NB, kind='hparam', ptrs=kw.pop('ptrs', lambda st, idx, off: NULL), layout=('arr', 'ptr')); b.reg(m)
    vals = {'prog_name': NULL, 'n_options': b.int('n_options', 32, 0, (1 << 31) - 2), 'opt_list.head': NULL, 'opt_list.tail': NULL, 'opt_map': PV(m, 0), 'rest': NULL, 'usage_header': NULL, 'usage_footer': NULL}
    for k, v in kw.items(): vals[k.replace('__', '.')] = v
    for f in OPT: o.cells[l[f][0]] = (OPT[f], vals[f])
    o.map, o.vals = m, vals
    return o


def kept(e, st, st0, o, fields, what):
    for f in fields:
        x, y = fld(e, st, o, f), fld(e, st0, o, f)
        e.oblige(st, (x.obj is y.obj and And(eq(x.off, y.off) if x.obj is not None else True, eq(zb(x.nullc), zb(y.nullc)))) if isinstance(x, PV) else eq(x.t, y.t), 'post', '%s: %s kept' % (what, f))


def bucket(e, h): return ite(le(0, h), imod(h, NB), imod(sub(0, h), NB))


class Walk(Contract):
    """loops along a list: the node reached is number k"""
    loop_cands = GWalk.loop_cands
    measures = GWalk.measures


# ---------------------------------------------------------------- the map
class Hash(Contract):
    """a function of the text of the name alone: only the name is read, nothing is written, no overflow"""
    name = 'nx_options_hash_code'
    def setup(s, e, case):
        b = B(e); s.q = b.cstr('key'); return b.st, [PV(s.q, 0)], b.aux()
    def loop_cands(s, e, L):
        out = [Cand('k within the text', lambda v: le(v.k, s.q.slen(None) if callable(getattr(s.q, 'slen', None)) else s.q.n))] if 0 else []
        for a in L.accs():
            if a[0] != 'phi': continue
            p = L.env0.get(a[1]) if hasattr(L, 'env0') else None
            if isinstance(p, PV): out.append(Cand('%s is character k' % a[1], lambda v, a=a: (lambda q: q.obj is s.q and And(eq(q.off, v.k), q.nullc is False or Not(q.nullc)))(v.env[a[1]]), strong=True))
        out.append(Cand('within the text', lambda v: le(v.k, e.slen(e, v.st, PV(s.q, 0), 'key'))))
        return out
    def measures(s, e, L): yield ('characters left', lambda v: sub(e.slen(e, v.st, PV(s.q, 0), 'key'), v.k))
    def post(s, e, st0, o, args, aux): e.oblige(o.st, o.kind == 'ret', 'post', 'returns')


def mk_nodes(b, name='nodes'):
    """map nodes 0..n-1 of a bucket, node i with key number i and option number i"""
    e = b.e; l = lay('NXOptionMapNode', NODE); n = b.int(name + '.n', 32, 0, 1 << 24); SL = z3.Function(uid(name + '.len'), I, I)
    o = Obj(name, l[''][1], kind='hparam', fam=True, layout=None); data = Obj('options of the nodes', lay('NXOptionData', DATA)[''][1], kind='hparam', fam=True, layout=None); b.reg(data)
    strs = Obj(name + '.keys', lambda i: SL(zi(i)) + 1, kind='hparam', fam=True, layout=None); strs.slen = lambda i: SL(zi(i)); b.reg(strs)
    strs.onread = [lambda st, idx, off, ty, t: [z3.Implies(z3.And(zi(off) >= 0, zi(off) < SL(zi(idx))), t != 0), z3.Implies(zi(off) == SL(zi(idx)), t == 0), SL(zi(idx)) >= 0, SL(zi(idx)) < (1 << 30)] if ty == 'i8' else []]
    def base(st, idx, off, ty):
        if ty != 'ptr': return None
        for f in NODE:
            if e_proves(e, st, off, l[f][0]):
                st.assume(And(SL(zi(idx)) >= 0, SL(zi(idx)) < (1 << 30)))
                return PV(strs, 0, idx) if f == 'key' else PV(data, 0, idx) if f == 'data' else PV(o, 0, add(idx, 1), le(n.t, add(idx, 1)))
        if not e.quiet: raise Unsupported('read of a map node at an unknown place')
        c = z3.simplify(z3.substitute(zi(off), *[(v, z3.IntVal(0)) for v in free_ints(zi(off))]))
        if e_proves(e, st, c, l['key'][0]): return PV(strs, 0, z3.Int(uid('idx')))
        if e_proves(e, st, c, l['data'][0]): return PV(data, 0, z3.Int(uid('idx')))
        return PV(o, z3.Int(uid('off')), z3.Int(uid('idx')), z3.Bool(uid('null')))
    o.base = base; o.n, o.strs, o.data = n, strs, data; o.head = PV(o, 0, 0, le(n.t, 0))
    return b.reg(o)


class Find(Walk):
    """the option of the first node of the name's bucket whose key equals the name, null when there is none or for a null name"""
    name = 'nx_options_find_in_map'; cases = ('null', 'name')
    def setup(s, e, case):
        b = B(e); s.case = case; s.o = mk_nodes(b); s.q = b.cstr('opt_name'); s.h = b.int('hash', 32); s.seen = []
        def ptrs(st, idx, off):
            s.seen.append((st, div8(off))); st.ghost['bucket'] = div8(off); return s.o.head
        s.op = mk_opt(b, ptrs=ptrs); s.NO = z3.Function(uid('none'), I, z3.BoolSort()); b.st.assume(s.NO(0))
        return b.st, [PV(s.op, 0), PV(s.q, 0) if case == 'name' else NULL], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_options_hash_code': return None
        e.oblige(st, args[0].obj is s.q and eq(args[0].off, 0), 'pre', 'the hash of the name')
        return [Out('ret', st, s.h)]
    def same(s, e, st, j): return e.streq(e, st, PV(s.q, 0), PV(s.o.strs, 0, j))
    def unf(s, e, st, j):
        st.assume(z3.Implies(zi(j) >= 0, s.NO(zi(j) + 1) == z3.And(s.NO(zi(j)), z3.Not(zb(s.same(e, st, zi(j)))))))
        return s.NO(zi(j))
    def loop_cands(s, e, L): return Walk.loop_cands(s, e, L) + [Cand('no earlier key equals the name', lambda v: s.unf(e, v.st, v.k))]
    def post(s, e, st0, o, args, aux):
        st = o.st; r = o.ret
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.case == 'null': e.oblige(st, r.obj is None, 'post', 'null for a null name'); return
        bk = st.ghost.get('bucket'); e.oblige(st, bk is not None and eq(bk, bucket(e, e.S(st, s.h))), 'post', 'the bucket of the hash')
        if r.obj is None: e.oblige(st, s.NO(s.o.n.t), 'post', 'null only when no key equals the name'); return
        if not (r.obj is s.o.data and r.idx is not None): e.oblige(st, False, 'post', 'the option of a node'); return
        if r.nullc is not False: st.assume(Not(r.nullc))
        if not e.pr.feasible(st): return
        i = r.idx; s.unf(e, st, i)
        e.oblige(st, And(eq(r.off, 0), le(0, i), lt(i, s.o.n.t), s.same(e, st, zi(i))), 'post', 'the key equals the name')
        e.oblige(st, s.NO(zi(i)), 'post', 'the first such node')


class NodeNew(Contract):
    """a node with an own copy of the key, the option and no successor"""
    name = 'nx_option_map_node_new'
    def setup(s, e, case):
        b = B(e); s.q = b.cstr('key'); d = mk_data(b, ty=INT); return b.st, [PV(s.q, 0), PV(d, 0)], b.aux()
    def spec(s, e, st, args):
        l = lay('NXOptionMapNode', NODE); o = fresh_obj('map node', l['']  [1]); typed(o, 'NXOptionMapNode', NODE)
        n = add(e.slen(e, st, args[0], s.name), 1); c = strings.cpy(e, st, args[0], n)
        setf(e, st, o, 'key', PV(c, 0)); setf(e, st, o, 'data', args[1]); setf(e, st, o, 'next', NULL)
        return [(st, PV(o, 0))]


class NodeFree(Contract):
    """frees the key and the node"""
    name = 'nx_option_map_node_free'; cases = ('null', 'node')
    def setup(s, e, case):
        b = B(e)
        if case == 'null': return b.st, [NULL], b.aux()
        l = lay('NXOptionMapNode', NODE); o = Obj('node', l[''][1], kind='hparam'); typed(o, 'NXOptionMapNode', NODE); b.reg(o); d = mk_data(b, ty=INT)
        o.cells[l['key'][0]] = ('ptr', PV(b.cstr('key', ro=False, kind='hparam'), 0)); o.cells[l['data'][0]] = ('ptr', PV(d, 0)); o.cells[l['next'][0]] = ('ptr', NULL)
        return b.st, [PV(o, 0)], b.aux()
    def spec(s, e, st, args):
        if args[0].obj is None: return [(st, None)]
        o = args[0].obj; e.dofree(e, st, fld(e, st, o, 'key'), 'free'); e.dofree(e, st, args[0], 'free'); return [(st, None)]


class AddToMap(Contract):
    """the bucket of the name's hash starts with a new node for the name and the option, followed by the former nodes; other buckets are kept"""
    name = 'nx_options_add_to_map'
    def setup(s, e, case):
        b = B(e); s.o = mk_nodes(b); s.q = b.cstr('key'); s.h = b.int('hash', 32)
        s.E = z3.Function(uid('empty'), I, z3.BoolSort()); s.hd = Obj('heads', 24, kind='hparam', fam=True); b.reg(s.hd)
        s.op = mk_opt(b, ptrs=lambda st, idx, off: PV(s.hd, 0, div8(off), s.E(zi(div8(off))))); s.d = mk_data(b, ty=INT)
        return b.st, [PV(s.op, 0), PV(s.q, 0), PV(s.d, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name == 'nx_options_hash_code':
            e.oblige(st, args[0].obj is s.q and eq(args[0].off, 0), 'pre', 'the hash of the name'); return [Out('ret', st, s.h)]
        return None
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        bk = bucket(e, e.S(st, s.h)); m = fld(e, st, s.op, 'opt_map'); e.oblige(st, m.obj is s.op.map and eq(m.off, 0), 'post', 'map kept')
        p = e.read(st, s.op.map, None, mul(8, bk), 'ptr')
        if p.obj is None or p.obj is s.hd: e.oblige(st, False, 'post', 'a new node heads the bucket'); return
        typed(p.obj, 'NXOptionMapNode', NODE); k, d, nx = [fld(e, st, p.obj, f) for f in ('key', 'data', 'next')]
        e.oblige(st, And(eq(p.off, 0), d.obj is s.d and eq(d.off, 0)), 'post', 'the node refers to the option')
        e.oblige(st, nx.obj is s.hd and And(eq(nx.idx, bk), eq(nx.off, 0), eq(zb(nx.nullc), s.E(zi(bk)))), 'post', 'the former nodes follow')
        e.oblige(st, k.obj is not None and k.obj is not s.q, 'post', 'the key is a copy')
        if k.obj is not None:
            n = e.slen(e, st, PV(s.q, 0), 'post'); i = z3.Int(uid('i')); st2 = st.copy(); st2.assume(And(i >= 0, le(i, n)))
            e.oblige(st2, eq(e.read(st2, k.obj, k.idx, add(k.off, i), 'i8').t, e.read(st2, s.q, None, i, 'i8').t), 'post', 'the key is the name')
        j = z3.Int(uid('bucket')); st.assume(And(j >= 0, j < NB, ne(j, bk))); r = e.read(st, s.op.map, None, mul(8, j), 'ptr')
        e.oblige(st, r.obj is s.hd and And(eq(r.idx, j), eq(zb(r.nullc), s.E(j))), 'post', 'other buckets kept')
        kept(e, st, st0, s.op, [f for f in OPT if f != 'opt_map'], 'options')


class AddToList(Contract):
    """the option becomes the last of the list"""
    name = 'nx_options_add_to_list'; cases = ('empty', 'one', 'more')
    def setup(s, e, case):
        b = B(e); s.case = case; s.d = mk_data(b, ty=INT); kw = {}
        s.h = mk_data(b, 'head', DBL) if case != 'empty' else None; s.t = mk_data(b, 'tail', STR) if case == 'more' else s.h
        if s.h: kw = dict(opt_list__head=PV(s.h, 0), opt_list__tail=PV(s.t, 0))
        s.d.cells[s.d.fo['next'][0]] = ('ptr', PV(mk_data(b, 'stale', INT), 0, None, b.bool('stale')))
        s.op = mk_opt(b, **kw); return b.st, [PV(s.op, 0), PV(s.d, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        h, t = fld(e, st, s.op, 'opt_list.head'), fld(e, st, s.op, 'opt_list.tail')
        e.oblige(st, h.obj is (s.h or s.d), 'post', 'first option'); e.oblige(st, t.obj is s.d, 'post', 'last option')
        e.oblige(st, fld(e, st, s.d, 'next').obj is None, 'post', 'nothing follows the last option')
        if s.t: e.oblige(st, fld(e, st, s.t, 'next').obj is s.d, 'post', 'the option follows the former last one'); kept(e, st, st0, s.t, [f for f in DATA if f != 'next'], 'former last')
        kept(e, st, st0, s.op, [f for f in OPT if 'list' not in f], 'options'); kept(e, st, st0, s.d, [f for f in DATA if f != 'next'], 'option')


class DataAdd(Contract):
    """a name already in the map ends the program; else the option is appended to the list and entered into the map under each of its names, and counted"""
    name = 'nx_option_data_add'
    def setup(s, e, case):
        b = B(e); s.d = mk_data(b, ty=INT); b.st.assume(Not(And(s.d.nn, s.d.ns))); s.op = mk_opt(b); s.found = {}; s.b = b
        s.old = mk_data(b, 'other', DBL); s.F = {'name': b.bool('name taken'), 'short_name': b.bool('short name taken')}
        return b.st, [PV(s.d, 0), PV(s.op, 0)], b.aux()
    def which(s, e, st, p): return 'name' if p.obj is s.d.s_n else 'short_name' if p.obj is s.d.s_s else None
    def intercept(s, e, st, name, args):
        if name == 'nx_options_find_in_map':
            p = args[1]
            if p.obj is None: return [Out('ret', st, NULL)]
            w = s.which(e, st, p)
            if w is None: return None
            e.oblige(st, And(args[0].obj is s.op, eq(p.off, 0)), 'pre', 'a name of the option in these options')
            return [Out('ret', st, PV(s.old, 0, None, Or(p.nullc, Not(s.F[w]))))]
        if name == 'name_short_name_join': return [Out('ret', st, PV(s.d.s_n, 0))]
        if name == 'nx_options_add_to_list':
            e.oblige(st, args[0].obj is s.op and args[1].obj is s.d, 'pre', 'this option'); st.ghost['list'] = st.ghost.get('list', 0) + 1; return [Out('ret', st, None)]
        if name == 'nx_options_add_to_map':
            w = s.which(e, st, args[1]); e.oblige(st, And(w is not None, args[0].obj is s.op, args[2].obj is s.d, Not(args[1].nullc)), 'pre', 'a name of this option'); st.ghost['map'] = tuple(st.ghost.get('map', ())) + (w,); return [Out('ret', st, None)]
        return None
    def post(s, e, st0, o, args, aux):
        st = o.st; taken = Or(And(Not(s.d.nn), s.F['name']), And(Not(s.d.ns), s.F['short_name']))
        if o.kind != 'ret': e.oblige(st, taken, 'post', 'ends the program only for a name that is taken'); return
        e.oblige(st, Not(taken), 'post', 'a taken name is refused')
        g = st.ghost.get('map', ()); e.oblige(st, st.ghost.get('list', 0) == 1, 'post', 'appended to the list once')
        for w, nl in (('name', s.d.nn), ('short_name', s.d.ns)): e.oblige(st, g.count(w) == 1 if 0 else eq(zb(Not(nl)), zb(g.count(w) == 1)) if g.count(w) < 2 else False, 'post', 'entered under its %s exactly when it has one' % w)
        e.oblige(st, eq(fld(e, st, s.op, 'n_options').t, add(fld(e, st0, s.op, 'n_options').t, 1)), 'post', 'one option more')
        kept(e, st, st0, s.op, [f for f in OPT if f != 'n_options'], 'options')


# ---------------------------------------------------------------- queries
class Query(Contract):
    """the value of the option of that name; the program ends for an unknown name or an option of another type"""
    cases = ('b', 'i', 'd', 's', 'help'); want = None; field = 'value'
    def setup(s, e, case):
        b = B(e); s.ty = {'b': BOO, 'i': INT, 'd': DBL, 's': STR, 'help': HELP}[case]; s.d = mk_data(b, ty=s.ty); s.NUL = b.bool('unknown'); s.q = b.cstr('opt_name'); s.op = mk_opt(b)
        return b.st, [PV(s.op, 0), PV(s.q, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_options_find_in_map': return None
        e.oblige(st, args[0].obj is s.op and args[1].obj is s.q and eq(args[1].off, 0), 'pre', 'looks the name up'); return [Out('ret', st, PV(s.d, 0, None, s.NUL))]
    def post(s, e, st0, o, args, aux):
        st = o.st; fits = s.want is None or s.ty == s.want
        if o.kind != 'ret': e.oblige(st, Or(s.NUL, not fits), 'post', 'ends the program only for an unknown name or another type'); return
        e.oblige(st, And(Not(s.NUL), fits), 'post', 'an unknown name or another type ends the program')
        if not fits: return
        x = s.d.vals[s.field]; r = o.ret
        e.oblige(st, (r.obj is x.obj and And(eq(r.off, 0), eq(zb(r.nullc), zb(x.nullc)))) if isinstance(x, PV) else eq(r.t, x.t), 'post', 'the value of the option')


class GetB(Query): name = 'nx_options_get_bool'; want = BOO
class GetI(Query): name = 'nx_options_get_int'; want = INT
class GetD(Query): name = 'nx_options_get_double'; want = DBL
class GetS(Query): name = 'nx_options_get_string'; want = STR
class IsSet(Query):
    """whether the last arguments had the option; the program ends for an unknown name"""
    name = 'nx_options_is_set'; field = 'is_set'


class GetRest(Contract):
    """the gathered arguments, null when there are none"""
    name = 'nx_options_get_rest'; cases = ('none', 'rest')
    def setup(s, e, case):
        b = B(e); s.r = mk_data(b, 'rest', REST, rest=True) if case == 'rest' else None; s.op = mk_opt(b, rest=PV(s.r, 0) if s.r else NULL); return b.st, [PV(s.op, 0)], b.aux()
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        x = s.r.vals['value'] if s.r else NULL; r = o.ret
        e.oblige(o.st, r.obj is None if s.r is None else r.obj is x.obj and And(eq(r.off, 0), eq(zb(r.nullc), zb(x.nullc))), 'post', 'the array of the rest')


# ---------------------------------------------------------------- declarations
class AddTyped(Contract):
    """declares an option of the type: both its value and its default are the given one (an own copy)"""
    ty = None
    def setup(s, e, case):
        b = B(e); s.op = mk_opt(b); s.d = mk_data(b, 'fresh option', s.ty); s.n, s.h = b.cstr('opt_names'), b.cstr('opt_help')
        if s.ty == STR:
            for f in ('value', 'default_value'): s.d.cells[s.d.fo[f][0]] = ('ptr', NULL)
        s.v = b.real('default', True) if s.ty == DBL else b.int('default', 32) if s.ty in (BOO, INT) else PV(b.cstr('default'), 0, None) if case != 'null' else NULL
        s.r = b.int('required', 32, 0, 1)
        return b.st, [PV(s.op, 0), PV(s.n, 0), PV(s.h, 0), s.v, s.r], b.aux()
    def intercept(s, e, st, name, args):
        if name == 'nx_option_data_new':
            e.oblige(st, And(args[0].obj is s.n, args[1].obj is s.h, eq(args[2].t, s.r.t)), 'pre', 'the given names, help and requirement'); st.ghost['new'] = st.ghost.get('new', 0) + 1; return [Out('ret', st, PV(s.d, 0))]
        if name == 'nx_option_data_add':
            e.oblige(st, args[0].obj is s.d and args[1].obj is s.op, 'pre', 'adds the option'); st.ghost['added'] = st.ghost.get('added', 0) + 1
            e.oblige(st, eq(fld(e, st, s.d, 'type').t, s.ty), 'post', 'type of the option')
            vs = [fld(e, st, s.d, f) for f in ('value', 'default_value')]
            for f, x in zip(('value', 'default'), vs):
                if s.ty != STR: e.oblige(st, eq(x.t, s.v.t), 'post', f + ' is the given one')
                elif s.v.obj is None: e.oblige(st, x.obj is None, 'post', f + ' is null')
                elif x.obj is None or x.obj is s.v.obj: e.oblige(st, False, 'post', f + ' is an own copy')
                else:
                    i = z3.Int(uid('i')); s2 = st.copy(); s2.assume(And(i >= 0, le(i, e.slen(e, st, s.v, 'post'))))
                    e.oblige(s2, eq(e.read(s2, x.obj, x.idx, add(x.off, i), 'i8').t, e.read(s2, s.v.obj, None, i, 'i8').t), 'post', f + ' is the given text')
            if s.ty == STR and s.v.obj is not None: e.oblige(st, vs[0].obj is not vs[1].obj, 'post', 'value and default are separate')
            return [Out('ret', st, None)]
        return None
    def post(s, e, st0, o, args, aux):
        if o.kind != 'ret': e.oblige(o.st, False, 'post', 'returns'); return
        e.oblige(o.st, o.st.ghost.get('new', 0) == 1 and o.st.ghost.get('added', 0) == 1, 'post', 'one option is made and added')


class AddB(AddTyped): name = 'nx_options_add_bool'; ty = BOO
class AddI(AddTyped): name = 'nx_options_add_int'; ty = INT
class AddD(AddTyped): name = 'nx_options_add_double'; ty = DBL
class AddS(AddTyped): name = 'nx_options_add_string'; ty = STR; cases = ('text', 'null')


# ---------------------------------------------------------------- release
class FreeRestData(Contract):
    """every gathered argument and their array are freed, once"""
    name = 'nx_options_free_rest_data'; cases = ('null', 'none', 'some')
    def setup(s, e, case):
        b = B(e); s.case = case
        if case == 'null': return b.st, [NULL], b.aux()
        r = s.r = mk_data(b, 'rest', REST, rest=True); n = s.n = b.int('n', 32, 0, 1 << 24); SL = z3.Function(uid('len'), I, I)
        s.strs = Obj('strings', lambda i: SL(zi(i)) + 1, kind='hparam', fam=True, layout=None); b.reg(s.strs)
        def ptrs(st, idx, off):
            i = div8(off); st.assume(SL(zi(i)) >= 0); return PV(s.strs, 0, i, le(n.t, i))
        s.arr = Obj('rest array', mul(8, add(n.t, 1)), kind='hparam', ptrs=ptrs, layout=('arr', 'ptr')); b.reg(s.arr)
        r.cells[r.fo['value'][0]] = ('ptr', PV(s.arr, 0) if case == 'some' else NULL); r.cells[r.fo['default_value'][0]] = ('i32', n if case == 'some' else IV(32, 0))
        return b.st, [PV(r, 0)], b.aux()
    def loop_dead(s, e, L, obj):
        if s.case != 'some' or obj is not s.strs: return None
        return lambda v, i: And(le(0, i), lt(i, v.k))
    def loop_cands(s, e, L): return [Cand('k within the array', lambda v: le(v.k, s.n.t))] if s.case == 'some' else []
    def measures(s, e, L): yield ('strings left', lambda v: sub(s.n.t, v.k))
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.case == 'null': return
        e.oblige(st, fld(e, st, s.r, 'value').obj is None, 'post', 'no array is left'); e.oblige(st, eq(fld(e, st, s.r, 'default_value').t, 0), 'post', 'no argument is left')
        kept(e, st, st0, s.r, [f for f in DATA if 'value' not in f], 'rest')
        if s.case == 'none': return
        e.oblige(st, s.arr in st.dead, 'post', 'the array is freed'); i = z3.Int(uid('i')); st.assume(And(i >= 0, lt(i, s.n.t))); d = st.dead.get(s.strs)
        e.oblige(st, False if d is None else True if d is True else d(i), 'post', 'argument i is freed')


class DataFree(Contract):
    """frees the names, the help, the text values and the option"""
    name = 'nx_option_data_free'; cases = ('null', 'b', 'd', 's', 'rest')
    def setup(s, e, case):
        b = B(e); s.case = case
        if case == 'null': return b.st, [NULL], b.aux()
        s.d = mk_data(b, ty={'b': BOO, 'd': DBL, 's': STR, 'rest': REST}[case], rest=case == 'rest'); return b.st, [PV(s.d, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_options_free_rest_data': return None
        e.oblige(st, s.case == 'rest' and args[0].obj is s.d, 'pre', 'the rest'); st.ghost['rest'] = st.ghost.get('rest', 0) + 1; return [Out('ret', st, None)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.case == 'null': return
        d = s.d; gone = lambda x: False if st.dead.get(x) is None else True if st.dead.get(x) is True else st.dead[x](0)
        e.oblige(st, gone(d), 'post', 'the option is freed'); e.oblige(st, gone(d.s_h), 'post', 'the help is freed')
        for x, nl in ((d.s_n, d.nn), (d.s_s, d.ns)) + (((d.vals['value'].obj, d.vals['value'].nullc), (d.vals['default_value'].obj, d.vals['default_value'].nullc)) if s.case == 's' else ()): e.oblige(st, Or(nl, gone(x)), 'post', '%s is freed' % x.name)
        e.oblige(st, st.ghost.get('rest', 0) == (1 if s.case == 'rest' else 0), 'post', 'the rest is released once')


# ---------------------------------------------------------------- the list of options
def mk_olist(b, name='declared options'):
    """options 0..n-1 of the list, of any types"""
    e = b.e; l = lay('NXOptionData', DATA); n = b.int(name + '.n', 32, 0, 1 << 24); o = Obj(name, l[''][1], kind='hparam', fam=True, layout=None)
    strs = {f: b.reg(Obj('%s of options' % f, z3.Int(uid('len')), kind='hparam', fam=True, layout=None)) for f in ('name', 'short_name', 'help', 'default_value')}
    nul = {f: z3.Function(uid('no ' + f), I, z3.BoolSort()) for f in strs}
    def base(st, idx, off, ty):
        if ty != 'ptr': return None
        for f in ('next',) + tuple(strs):
            if e_proves(e, st, off, l[f][0]): return PV(o, 0, add(idx, 1), le(n.t, add(idx, 1))) if f == 'next' else PV(strs[f], 0, idx, nul[f](zi(idx)) if f != 'help' else False)
        if not e.quiet: raise Unsupported('read of an option at an unknown place')
        return PV(o, z3.Int(uid('off')), z3.Int(uid('idx')), z3.Bool(uid('null')))
    o.base = base; o.n, o.strs, o.nul = n, strs, nul; o.head = PV(o, 0, 0, le(n.t, 0)); o.tail = PV(o, 0, sub(n.t, 1), le(n.t, 0))
    o.onread = [lambda st, idx, off, ty, t: [z3.Implies(zi(off) == l['type'][0], z3.And(t >= 0, t <= 5, t != REST))] if ty == 'i32' else []]
    return b.reg(o)


GT = {BOO: 'i32', INT: 'i32', DBL: 'f64', STR: 'i64', HELP: 'i32'}   # a text value is represented by the number of its text


class OnList(Walk):
    """a walk over the declared options; j is any one of them"""
    def mk(s, e, b, **kw):
        s.l = lay('NXOptionData', DATA); s.o = mk_olist(b); s.j = z3.Int(uid('any option')); b.st.assume(And(s.j >= 0, lt(s.j, s.o.n.t)))
        s.op = mk_opt(b, opt_list__head=s.o.head, opt_list__tail=s.o.tail, **kw)
    keeps = (('next', 'ptr'), ('name', 'ptr'), ('short_name', 'ptr'), ('help', 'ptr'), ('default_value', 'ptr'), ('default_value', 'i32'), ('default_value', 'f64'), ('type', 'i32'), ('is_required', 'i32'))
    def loop_fields(s, e, L, obj): return [(s.l[f][0], t) for f, t in s.keeps] if obj is s.o else None
    def f(s, e, st, i, f, ty='i32'): return e.read(st, s.o, i, s.l[f][0], ty).t
    def same(s, e, st, st0, fields):
        return And(*[eq(s.f(e, st, s.j, f, ty), s.f(e, st0, s.j, f, ty)) for f, ty in fields])


class ClearFlags(OnList):
    """no option, and not the rest, is set any more; nothing else changes"""
    name = 'nx_options_clear_set_flags'; cases = ('rest', 'none')
    def setup(s, e, case):
        b = B(e); s.r = mk_data(b, 'rest', REST, rest=True) if case == 'rest' else None; s.mk(e, b, rest=PV(s.r, 0) if s.r else NULL); s.st0 = b.st.copy(); return b.st, [PV(s.op, 0)], b.aux()
    def loop_cands(s, e, L):
        return Walk.loop_cands(s, e, L) + [Cand('options before k are not set', lambda v: Or(le(v.k, s.j), eq(s.f(e, v.st, s.j, 'is_set'), 0))),
                                           Cand('the rest of an option is kept', lambda v: s.same(e, v.st, s.st0, (('type', 'i32'), ('is_required', 'i32'), ('value', 'i64'), ('default_value', 'i64'))))]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, eq(s.f(e, st, s.j, 'is_set'), 0), 'post', 'no option is set')
        e.oblige(st, s.same(e, st, st0, (('type', 'i32'), ('is_required', 'i32'), ('value', 'i64'), ('default_value', 'i64'))), 'post', 'the rest of an option is kept')
        kept(e, st, st0, s.op, list(OPT), 'options')
        if s.r: e.oblige(st, eq(fld(e, st, s.r, 'is_set').t, 0), 'post', 'the rest is not set'); kept(e, st, st0, s.r, [f for f in DATA if f != 'is_set'], 'rest')


class CheckReq(OnList):
    """ends the program exactly when a required option or the required rest is missing; else an option that is not set has its default value, the others are kept"""
    keeps = OnList.keeps + (('is_set', 'i32'),)
    name = 'nx_options_check_required'; cases = tuple('%s %s' % (t, r) for t in ('b', 'i', 'd', 's', 'help') for r in ('none', 'rest'))
    def setup(s, e, case):
        t, r = case.split(); s.ty = {'b': BOO, 'i': INT, 'd': DBL, 's': STR, 'help': HELP}[t]; s.vt = GT[s.ty]; b = B(e)
        s.r = mk_data(b, 'rest', REST, rest=True) if r == 'rest' else None; s.mk(e, b, rest=PV(s.r, 0) if s.r else NULL); s.st0 = b.st.copy()
        s.m = z3.Int(uid('first missing')); b.st.assume(And(s.m >= 0, le(s.m, s.o.n.t))); b.st.assume(eq(s.f(e, b.st, s.j, 'type'), s.ty)); s.first(e, b.st, s.m); s.first(e, b.st, s.j)
        return b.st, [PV(s.op, 0)], b.aux()
    def missing(s, e, st, i): return And(eq(s.f(e, s.st0, i, 'is_set'), 0), ne(s.f(e, s.st0, i, 'is_required'), 0))
    def first(s, e, st, i):
        """m is the number of the first missing option, n when none is missing"""
        st.assume(And(Implies(And(le(0, i), lt(i, s.m)), Not(s.missing(e, st, i))), Implies(lt(s.m, s.o.n.t), s.missing(e, st, s.m)))); return True
    def intercept(s, e, st, name, args):
        if name == 'nx_options_print_usage': return [Out('ret', st, None)]
        if name == 'name_short_name_join': return [Out('ret', st, PV(s.o.strs['name'], 0, 0))]
        if name == 'nx_strredup':
            p, q = args
            if p.obj is not s.o: return None
            e.oblige(st, And(eq(p.off, s.l['value'][0]), q.obj is s.o.strs['default_value'], eq(q.off, 0), eq(q.idx, p.idx) if q.idx is not None else False, eq(s.f(e, st, p.idx, 'type'), STR)), 'pre', 'the value of an option of type text becomes a copy of its default')
            e.write(st, s.o, p.idx, s.l['value'][0], 'i64', IV(64, -1)); return [Out('ret', st, None)]
        if name == 'nx_options_free_rest_data':
            e.oblige(st, s.r is not None and args[0].obj is s.r, 'pre', 'the rest'); st.ghost['rest'] = st.ghost.get('rest', 0) + 1; return [Out('ret', st, None)]
        return None
    def dflt(s, e): return IV(64, -1).t if s.ty == STR else s.f(e, s.st0, s.j, 'default_value', s.vt)
    def want(s, e, st, done):
        """the option has its default value when it is done and was not set, else its former value"""
        v, v0 = s.f(e, st, s.j, 'value', s.vt), s.f(e, s.st0, s.j, 'value', s.vt)
        if s.ty == HELP: return eq(v, v0)
        return eq(v, ite(And(done, eq(s.f(e, s.st0, s.j, 'is_set'), 0)), s.dflt(e), v0))
    def loop_cands(s, e, L):
        return Walk.loop_cands(s, e, L) + [Cand('no option before k is missing', lambda v: s.first(e, v.st, v.k) and le(v.k, s.m)), Cand('value', lambda v: s.want(e, v.st, lt(s.j, v.k))),
                                           Cand('the rest of an option is kept', lambda v: s.same(e, v.st, s.st0, (('type', 'i32'), ('is_required', 'i32'), ('is_set', 'i32'))))]
    def post(s, e, st0, o, args, aux):
        st = o.st; rmiss = And(eq(s.r.vals['is_set'].t, 0), ne(s.r.vals['is_required'].t, 0)) if s.r else False; bad = Or(lt(s.m, s.o.n.t), rmiss)
        if o.kind != 'ret': e.oblige(st, bad, 'post', 'ends the program only when something required is missing'); return
        e.oblige(st, Not(bad), 'post', 'a missing required option or rest ends the program')
        e.oblige(st, s.want(e, st, True), 'post', 'an option that is not set has its default value, another one is kept')
        e.oblige(st, s.same(e, st, s.st0, (('type', 'i32'), ('is_required', 'i32'), ('is_set', 'i32'))), 'post', 'flags are kept'); kept(e, st, st0, s.op, list(OPT), 'options')
        if s.r: e.oblige(st, eq(zb(eq(s.r.vals['is_set'].t, 0)), zb(st.ghost.get('rest', 0) == 1)) if st.ghost.get('rest', 0) < 2 else False, 'post', 'the rest is emptied exactly when it is not set')


# ---------------------------------------------------------------- arguments
def mk_args(b):
    """argc arguments, argv[i] is text number i"""
    n = b.int('argc', 32, 1, 1 << 24); SL = z3.Function(uid('arglen'), I, I)
    a = Obj('arguments', lambda i: SL(zi(i)) + 1, kind='param', fam=True, layout=None); b.reg(a)
    av = Obj('argv', mul(8, n.t), kind='param', ptrs=lambda st, idx, off: PV(a, 0, div8(off)), layout=('arr', 'ptr')); b.reg(av); av.n, av.strs = n, a
    return av


class SetRest(Contract):
    """the rest holds, in order, own copies of exactly the arguments that were not processed, then null; it is set when there are any; its former arguments are released before"""
    name = 'nx_options_set_rest_from_args'
    def setup(s, e, case):
        b = B(e); s.av = mk_args(b); s.r = mk_data(b, 'rest', REST, rest=True); s.op = mk_opt(b, rest=PV(s.r, 0)); n = s.av.n; s.hdr = []
        s.pr = Obj('is_processed', mul(4, n.t), kind='param', ro=True); b.reg(s.pr); s.C = z3.Function(uid('count'), I, I); s.INV = z3.Function(uid('nth'), I, I); s.N = s.C(n.t)
        s.cp = Obj('copies of arguments', 1, fam=True, layout=None); s.w = z3.Int(uid('any argument')); b.st.assume(And(s.w >= 0, lt(s.w, n.t), s.C(0) == 0)); s.unf(e, b.st, s.w); s.unf(e, b.st, n.t)
        return b.st, [PV(s.op, 0), n, PV(s.av, 0), PV(s.pr, 0)], b.aux()
    def un(s, e, st, i): return eq(e.read(st, s.pr, None, mul(4, i), 'i32').t, 0)
    def unf(s, e, st, i):
        """C(i): arguments before i that were not processed; INV(c): the one that has c such arguments before it (facts about counting)"""
        i = zi(i); n = zi(s.av.n.t); u = z3.And(i >= 0, i < n, zb(s.un(e, st, i)))
        st.assume(z3.And(z3.Implies(z3.And(i >= 0, i < n), s.C(i + 1) == s.C(i) + z3.If(u, 1, 0)), z3.Implies(z3.And(i >= 0, i <= n), z3.And(s.C(i) >= 0, s.C(i) <= i, s.C(i) <= s.N)), z3.Implies(u, z3.And(s.C(i) + 1 <= s.N, s.INV(s.C(i)) == i))))
        return True
    def intercept(s, e, st, name, args):
        if name == 'nx_options_free_rest_data':
            e.oblige(st, And(args[0].obj is s.r, st.ghost.get('freed', 0) == 0), 'pre', 'the former rest is released once'); st.ghost['freed'] = 1
            setf(e, st, s.r, 'value', NULL); setf(e, st, s.r, 'default_value', IV(32, 0)); return [Out('ret', st, None)]
        if name == 'nx_strredup':
            p, q = args; arr = fld(e, st, s.r, 'value').obj
            if p.obj is None or p.obj is not arr or q.obj is not s.av.strs: return None
            e.oblige(st, And(eq(q.off, 0), le(0, p.off), le(add(p.off, 8), arr.size)), 'pre', 'an argument is copied into a slot')
            old = e.read(st, arr, None, p.off, 'ptr'); e.oblige(st, old.obj is None or zb(old.nullc), 'pre', 'the slot was empty')
            e.write(st, arr, None, p.off, 'ptr', PV(s.cp, 0, q.idx)); return [Out('ret', st, None)]
        return None
    def loop_ptrs(s, e, L, obj):
        if obj in (s.r, s.op, s.av, s.pr) or obj.fam: return None
        if L.H not in s.hdr: s.hdr.append(L.H)
        if s.hdr[0] == L.H: return lambda v, off: (NULL, lt(div8(off), v.k))
        return lambda v, off: PV(s.cp, 0, s.INV(zi(div8(off))), le(s.C(zi(v.k)), div8(off)))
    def loop_cands(s, e, L):
        out = [Cand('k within the arguments', lambda v: s.unf(e, v.st, v.k) and le(v.k, s.av.n.t)), Cand('k within the slots', lambda v: le(v.k, add(s.N, 1)))]
        for a in L.accs():
            if a[0] == 'phi' and isinstance(L.env0.get(a[1]), IV): out.append(Cand('%s counts unprocessed arguments' % a[1], lambda v, a=a: s.unf(e, v.st, v.k) and eq(v.env[a[1]].t, s.C(zi(v.k)))))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, st.ghost.get('freed', 0) == 1, 'post', 'the former rest is released'); v = fld(e, st, s.r, 'value'); arr = v.obj
        e.oblige(st, eq(fld(e, st, s.r, 'default_value').t, s.N), 'post', 'the number of arguments of the rest')
        e.oblige(st, eq(fld(e, st, s.r, 'is_set').t, ite(lt(0, s.N), 1, fld(e, st0, s.r, 'is_set').t)), 'post', 'the rest is set when there are any')
        kept(e, st, st0, s.r, [f for f in DATA if 'value' not in f and f != 'is_set'], 'rest'); kept(e, st, st0, s.op, list(OPT), 'options')
        if arr is None or arr in (s.r, s.op, s.av, s.pr): e.oblige(st, False, 'post', 'a new array'); return
        p = e.read(st, arr, None, mul(8, s.N), 'ptr'); e.oblige(st, Or(p.obj is None, zb(p.nullc)), 'post', 'the array ends with null')
        s2 = st.copy(); s2.assume(zb(s.un(e, s2, s.w)))
        if not e.pr.feasible(s2): return
        p = e.read(s2, arr, None, mul(8, s.C(s.w)), 'ptr')
        e.oblige(s2, p.obj is s.cp and And(eq(p.idx, s.w), eq(p.off, 0), Not(zb(p.nullc))), 'post', 'an argument that was not processed is in its place')


class SetArgs(OnList):
    """every option has the value of its last occurrence and is set exactly when it occurs (else by the contract of the check of required options); the rest is made of the other arguments; a missing value or help ends the program"""
    name = 'nx_options_set_from_args'; cases = tuple('%s %s' % (t, r) for t in ('b', 'i', 'd', 's') for r in ('none', 'rest'))
    keeps = OnList.keeps
    def setup(s, e, case):
        t, r = case.split(); s.ty = {'b': BOO, 'i': INT, 'd': DBL, 's': STR}[t]; s.vt = GT[s.ty]; b = B(e); st = b.st; s.av = mk_args(b); s.n = s.av.n.t
        s.r = mk_data(b, 'rest', REST, rest=True) if r == 'rest' else None; s.mk(e, b, rest=PV(s.r, 0) if s.r else NULL)
        F = lambda nm, *r: z3.Function(uid(nm), I, *r); B_ = z3.BoolSort()
        s.FI, s.NF, s.START, s.SET, s.ATOL, s.ATOF = F('option of argument', I), F('no option', B_), F('start', B_), F('set', B_), F('atol', I), F('atof', z3.RealSort()); s.V = F('value', z3.RealSort() if s.ty == DBL else I)
        s.w = z3.Int(uid('any argument')); s.m = z3.Int(uid('first error')); base0 = s.o.base
        def base(st, idx, off, ty):
            if ty == 'i32' and st.ghost.get('cleared') and e_proves(e, st, off, s.l['is_set'][0]): return IV(32, 0)
            return base0(st, idx, off, ty)
        s.o.base = base; s.st0 = st.copy()
        st.assume(And(s.w >= 0, lt(s.w, s.n), s.m >= 1, le(s.m, s.n), s.START(1), Not(s.SET(1)))); st.assume(eq(s.f(e, st, s.j, 'type'), s.ty)); st.assume(eq(s.V(1), s.f(e, st, s.j, 'value', s.vt)))
        s.unf(e, st, s.m); s.unf(e, st, s.w); s.unf(e, st, z3.IntVal(1)); return st, [PV(s.op, 0), s.av.n, PV(s.av, 0)], b.aux()
    def typ(s, e, st, i): return s.f(e, s.st0, s.FI(i), 'type')
    def needs(s, e, st, i): t = s.typ(e, st, i); return z3.Or(zi(t) == INT, zi(t) == DBL, zi(t) == STR)
    def bad(s, e, st, i): return z3.And(s.START(i), z3.Not(s.NF(i)), z3.Or(zi(s.typ(e, st, i)) == HELP, z3.And(s.needs(e, st, i), i == zi(s.n) - 1)))
    def unf(s, e, st, i):
        """START(i): argument i is not the value of an option; V(i), SET(i): value and flag of option j after the arguments before i; m: the first argument in error, argc when there is none"""
        i = zi(i); A = st.assume; hit = z3.And(s.START(i), z3.Not(s.NF(i)), s.FI(i) == s.j)
        A(z3.Implies(z3.And(i >= 1, i < zi(s.n)), z3.Or(s.NF(i), z3.And(s.FI(i) >= 0, s.FI(i) < zi(s.o.n.t)))))
        A(z3.Implies(i >= 1, z3.And(s.START(i + 1) == z3.Not(z3.And(s.START(i), z3.Not(s.NF(i)), s.needs(e, st, i))), s.SET(i + 1) == z3.Or(s.SET(i), hit))))
        conv = {BOO: z3.IntVal(0), INT: s.ATOL(i), STR: i, DBL: s.ATOF(i)}[s.ty]; v = s.V(i)
        if s.ty == BOO: v = z3.If(hit, z3.IntVal(1), v)
        else: v = z3.If(z3.And(i >= 2, z3.Not(s.START(i)), s.FI(i - 1) == s.j), conv, v)
        A(z3.Implies(i >= 1, s.V(i + 1) == v))
        A(z3.And(z3.Implies(z3.And(i >= 1, i < s.m), z3.Not(s.bad(e, st, i))), z3.Implies(s.m < zi(s.n), s.bad(e, st, s.m))))
        return True
    def P(s, i): i = zi(i); return z3.Or(i == 0, z3.Not(s.START(i)), z3.Not(s.NF(i)))
    def arg(s, e, st, p, what):
        ok = p.obj is s.av.strs and p.idx is not None; e.oblige(st, And(eq(p.off, 0), le(0, p.idx), lt(p.idx, s.n)) if ok else False, 'pre', what); return zi(p.idx) if ok else z3.Int(uid('arg'))
    def intercept(s, e, st, name, args):
        g = st.ghost; R = lambda v=None: [Out('ret', st, v)]
        if name == 'nx_options_clear_set_flags':
            e.oblige(st, And(args[0].obj is s.op, st.mem.get(s.o) is None), 'pre', 'flags are cleared first'); g['cleared'] = 1; return R()
        if name == 'nx_options_print_usage': return R()
        if name == 'nx_options_find_in_map':
            if args[1].obj is not s.av.strs: return None
            i = s.arg(e, st, args[1], 'an argument is looked up'); s.unf(e, st, i); return R(PV(s.o, 0, s.FI(i), s.NF(i)))
        if name in ('atol', 'atoi'):
            i = s.arg(e, st, args[0], 'a number is read from an argument'); n = 64 if name == 'atol' else 32; st.assume(z3.And(s.ATOL(i) >= -(1 << 31), s.ATOL(i) < (1 << 31))); return R(IV(n, s.ATOL(i), -(1 << 31), (1 << 31) - 1))
        if name == 'atof': i = s.arg(e, st, args[0], 'a number is read from an argument'); return R(FV(s.ATOF(i), True))
        if name == 'nx_strredup':
            p, q = args
            if p.obj is s.op and e_proves(e, st, p.off, lay('NXOptions', OPT)['prog_name'][0]):
                i = s.arg(e, st, q, 'the program name is an argument'); e.oblige(st, eq(i, 0), 'pre', 'the program name is the first argument'); g['prog'] = 1; return R()
            if p.obj is not s.o: return None
            i = s.arg(e, st, q, 'a text is an argument'); e.oblige(st, And(eq(p.off, s.l['value'][0]), eq(s.f(e, st, p.idx, 'type'), STR)), 'pre', 'the value of an option of type text')
            e.write(st, s.o, p.idx, s.l['value'][0], 'i64', IV(64, i)); return R()
        if name == 'nx_options_set_rest_from_args':
            a = args[3]; e.oblige(st, And(s.r is not None, args[0].obj is s.op, eq(args[1].t, s.n), args[2].obj is s.av, eq(args[2].off, 0), a.obj is not None and eq(a.off, 0), g.get('checked', 0) == 0), 'pre', 'the rest of these arguments'); g['rest'] = g.get('rest', 0) + 1
            e.oblige(st, eq(zb(ne(e.read(st, a.obj, None, mul(4, s.w), 'i32').t, 0)), s.P(s.w)), 'pre', 'an argument is processed exactly when it is the program name, an option or the value of one'); return R()
        if name == 'nx_options_check_required': g['checked'] = g.get('checked', 0) + 1; e.oblige(st, args[0].obj is s.op, 'pre', 'these options'); return R()
        return None
    def arr(s, L): return next((o for o in L.arrays if o is not s.o and not o.fam), None)
    def loop_cands(s, e, L):
        out = [Cand('k within the arguments', lambda v: le(v.k, s.n))]
        def pw(v): a = s.arr(L); return None if a is None else e.read(v.st, a, None, mul(4, s.w), 'i32').t
        out.append(Cand('arguments before k are not processed', lambda v: True if pw(v) is None else Or(le(v.k, s.w), eq(pw(v), 0))))
        for a in L.accs():
            if a[0] != 'phi' or not isinstance(L.env0.get(a[1]), IV): continue
            def at(v, a=a): p = e.S(v.st, v.env[a[1]]); s.unf(e, v.st, p); s.unf(e, v.st, add(p, 1)); return zi(p)
            out += [Cand('%s is the start of an argument' % a[1], lambda v, at=at: (lambda p: And(le(1, p), le(p, s.n), s.START(p)))(at(v))),
                    Cand('%s: value' % a[1], lambda v, at=at: (lambda p: eq(s.f(e, v.st, s.j, 'value', s.vt), s.V(p)))(at(v))),
                    Cand('%s: flag' % a[1], lambda v, at=at: (lambda p: eq(s.f(e, v.st, s.j, 'is_set'), z3.If(s.SET(p), 1, 0)))(at(v))),
                    Cand('%s: no error before' % a[1], lambda v, at=at: le(at(v), s.m)),
                    Cand('%s: processed' % a[1], lambda v, at=at: (lambda p: True if pw(v) is None else eq(zb(ne(pw(v), 0)), z3.And(s.P(s.w), z3.Or(s.w < p, s.w == 0))))(at(v)))]
        return out
    def measures(s, e, L):
        for a in L.accs():
            if a[0] == 'phi' and isinstance(L.env0.get(a[1]), IV): yield ('arguments left after %s' % a[1], lambda v, a=a: sub(s.n, e.S(v.st, v.env[a[1]])))
    def post(s, e, st0, o, args, aux):
        st = o.st; g = st.ghost
        if o.kind != 'ret': e.oblige(st, lt(s.m, s.n), 'post', 'ends the program only for a missing value or help'); return
        e.oblige(st, eq(s.m, s.n), 'post', 'a missing value or help ends the program')
        e.oblige(st, eq(s.f(e, st, s.j, 'value', s.vt), s.V(zi(s.n))), 'post', 'every option has the value of its last occurrence')
        e.oblige(st, eq(s.f(e, st, s.j, 'is_set'), z3.If(s.SET(zi(s.n)), 1, 0)), 'post', 'an option is set exactly when it occurs')
        e.oblige(st, g.get('cleared', 0) == 1 and g.get('prog', 0) == 1 and g.get('checked', 0) == 1 and g.get('rest', 0) == (1 if s.r else 0), 'post', 'flags cleared, program name stored, rest gathered, required options checked')


# ---------------------------------------------------------------- making and freeing options
class FreeList(OnList):
    """every option of the list is freed once, the list is empty"""
    name = 'nx_options_free_list'
    def setup(s, e, case): b = B(e); s.mk(e, b); return b.st, [PV(s.op, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_option_data_free' or args[0].obj is not s.o: return None
        p = args[0]; d = st.dead.get(s.o); was = (lambda i: False) if d is None else (lambda i: True) if d is True else d
        e.oblige(st, And(eq(p.off, 0), Not(zb(p.nullc)), le(0, p.idx), lt(p.idx, s.o.n.t), Not(zb(was(p.idx)))), 'pre', 'an option is freed once'); st.dead[s.o] = lambda i, p=p, was=was: Or(eq(i, p.idx), was(i)); return [Out('ret', st, None)]
    def loop_dead(s, e, L, obj): return (lambda v, i: And(le(0, i), lt(i, v.k))) if obj is s.o else None
    def loop_fields(s, e, L, obj): return None
    def loop_cands(s, e, L):
        def head(v):
            q = fld(e, v.st, s.op, 'opt_list.head')
            return le(s.o.n.t, v.k) if q.obj is None else And(q.obj is s.o, eq(q.idx, v.k), eq(q.off, 0), eq(zb(q.nullc), zb(le(s.o.n.t, v.k))))
        return [Cand('the list starts with option k', head, strong=True)] + Walk.loop_cands(s, e, L)
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        for f in ('opt_list.head', 'opt_list.tail'): q = fld(e, st, s.op, f); e.oblige(st, q.obj is None or zb(q.nullc), 'post', 'the list is empty: %s' % f)
        d = st.dead.get(s.o); e.oblige(st, False if d is None else True if d is True else d(s.j), 'post', 'every option is freed'); kept(e, st, st0, s.op, [f for f in OPT if 'list' not in f], 'options')


class InitMap(Contract):
    """all buckets are empty"""
    name = 'nx_options_init_map'
    def setup(s, e, case): b = B(e); s.op = mk_opt(b); return b.st, [PV(s.op, 0)], b.aux()
    def loop_ptrs(s, e, L, obj): return None if obj in (s.op, s.op.map) else lambda v, off: (NULL, lt(div8(off), v.k))
    def loop_cands(s, e, L): return [Cand('k within the buckets', lambda v: le(v.k, NB))]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        m = fld(e, st, s.op, 'opt_map')
        if m.obj in (None, s.op, s.op.map): e.oblige(st, False, 'post', 'a new array'); return
        e.oblige(st, And(eq(m.off, 0), le(8 * NB, m.obj.size)), 'post', 'all buckets exist'); m.obj.ptrs = m.obj.ptrs or (lambda st, idx, off: PV(Obj('unset', 1), 0))
        for i in range(NB): q = e.read(st, m.obj, None, 8 * i, 'ptr'); e.oblige(st, q.obj is None or zb(q.nullc), 'post', 'every bucket is empty')
        kept(e, st, st0, s.op, [f for f in OPT if f != 'opt_map'], 'options')


class Alloc(Contract):
    """no options, no rest, no texts, an empty map"""
    name = 'nx_options_alloc'
    def setup(s, e, case): b = B(e); return b.st, [], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_options_init_map': return None
        typed(args[0].obj, 'NXOptions', OPT); s.m = Obj('map', 8 * NB); setf(e, st, args[0].obj, 'opt_map', PV(s.m, 0)); return [Out('ret', st, None)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret' or o.ret.obj is None: e.oblige(st, False, 'post', 'returns options'); return
        x = typed(o.ret.obj, 'NXOptions', OPT); e.oblige(st, And(eq(fld(e, st, x, 'n_options').t, 0), fld(e, st, x, 'opt_map').obj is s.m), 'post', 'none declared, map made')
        for f in OPT:
            if OPT[f] == 'ptr' and f != 'opt_map': q = fld(e, st, x, f); e.oblige(st, q.obj is None or zb(q.nullc), 'post', '%s is null' % f)


class FreeAll(Contract):
    """list, map, rest, texts and the object are freed, each once"""
    name = 'nx_options_free'; cases = ('null', 'options')
    def setup(s, e, case):
        b = B(e); s.case = case
        if case == 'null': return b.st, [NULL], b.aux()
        s.t = {f: b.cstr(f, ro=False, kind='hparam') for f in ('prog_name', 'usage_header', 'usage_footer')}; s.nl = {f: b.bool(f + ' null') for f in s.t}
        s.op = mk_opt(b, **{f: PV(s.t[f], 0, None, s.nl[f]) for f in s.t}); return b.st, [PV(s.op, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name not in ('nx_options_free_list', 'nx_options_free_map', 'nx_options_free_rest'): return None
        e.oblige(st, And(args[0].obj is s.op, st.dead.get(s.op) is None, name not in st.ghost.get('done', ())), 'pre', '%s once' % name); st.ghost['done'] = tuple(st.ghost.get('done', ())) + (name,); return [Out('ret', st, None)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.case == 'null': return
        gone = lambda x: False if st.dead.get(x) is None else True if st.dead.get(x) is True else st.dead[x](0)
        e.oblige(st, len(st.ghost.get('done', ())) == 3, 'post', 'list, map and rest are freed'); e.oblige(st, gone(s.op), 'post', 'the object is freed')
        for f in s.t: e.oblige(st, Or(s.nl[f], gone(s.t[f])), 'post', '%s is freed' % f)


class FreeRest(Contract):
    """the rest is freed and forgotten"""
    name = 'nx_options_free_rest'; cases = ('none', 'rest')
    def setup(s, e, case): b = B(e); s.r = mk_data(b, 'rest', REST, rest=True) if case == 'rest' else None; s.op = mk_opt(b, rest=PV(s.r, 0) if s.r else NULL); return b.st, [PV(s.op, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_option_data_free': return None
        e.oblige(st, s.r is not None and args[0].obj is s.r and st.ghost.get('n', 0) == 0, 'pre', 'the rest, once'); st.ghost['n'] = 1; return [Out('ret', st, None)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        e.oblige(st, st.ghost.get('n', 0) == (1 if s.r else 0), 'post', 'freed'); e.oblige(st, fld(e, st, s.op, 'rest').obj is None, 'post', 'forgotten'); kept(e, st, st0, s.op, [f for f in OPT if f != 'rest'], 'options')


class DataNew(Contract):
    """a new option that is not set, with the names (by the contract of name splitting), an own copy of the help, the flag and no successor"""
    name = 'nx_option_data_new'
    def setup(s, e, case):
        b = B(e); s.n, s.h, s.r = b.cstr('opt_names'), b.cstr('opt_help'), b.int('required', 32, 0, 1); s.nm = b.cstr('long name', ro=False, kind='hparam'); s.sn = b.cstr('short name', ro=False, kind='hparam'); return b.st, [PV(s.n, 0), PV(s.h, 0), s.r], b.aux()
    def intercept(s, e, st, name, args):
        if name != 'nx_option_data_set_names': return None
        o = typed(args[0].obj, 'NXOptionData', DATA, 'i32'); e.oblige(st, args[1].obj is s.n and eq(args[1].off, 0), 'pre', 'these names')
        for f in ('name', 'short_name'): q = fld(e, st, o, f); e.oblige(st, q.obj is None, 'pre', '%s is null before' % f)
        setf(e, st, o, 'name', PV(s.nm, 0)); setf(e, st, o, 'short_name', PV(s.sn, 0)); st.ghost['names'] = o; return [Out('ret', st, None)]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret' or o.ret.obj is None: e.oblige(st, False, 'post', 'returns an option'); return
        x = typed(o.ret.obj, 'NXOptionData', DATA, 'i32'); e.oblige(st, st.ghost.get('names') is x, 'post', 'its names are set')
        e.oblige(st, And(fld(e, st, x, 'name').obj is s.nm, fld(e, st, x, 'short_name').obj is s.sn, fld(e, st, x, 'next').obj is None), 'post', 'names are kept, nothing follows')
        e.oblige(st, And(eq(fld(e, st, x, 'is_set').t, 0), eq(fld(e, st, x, 'is_required').t, s.r.t)), 'post', 'flags')
        h = fld(e, st, x, 'help')
        if h.obj is None or h.obj is s.h: e.oblige(st, False, 'post', 'help is an own copy'); return
        i = z3.Int(uid('i')); s2 = st.copy(); s2.assume(And(i >= 0, le(i, e.slen(e, st, PV(s.h, 0), 'post')))); e.oblige(s2, eq(e.read(s2, h.obj, h.idx, add(h.off, i), 'i8').t, e.read(s2, s.h, None, i, 'i8').t), 'post', 'help is the given text')


class AddHelp(Contract):
    """declares the option -h|--help of its own type, not required"""
    name = 'nx_options_add_help'
    def setup(s, e, case): b = B(e); s.op = mk_opt(b); s.d = mk_data(b, 'fresh option', HELP); return b.st, [PV(s.op, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name == 'nx_option_data_new':
            e.oblige(st, eq(args[2].t, 0), 'pre', 'help is not required')
            for i, c in enumerate(b'-h|--help\0'): e.oblige(st, eq(e.read(st, args[0].obj, args[0].idx, add(args[0].off, i), 'i8').t, c), 'pre', 'names of the help option')
            st.ghost['new'] = st.ghost.get('new', 0) + 1; return [Out('ret', st, PV(s.d, 0))]
        if name == 'nx_option_data_add':
            e.oblige(st, And(args[0].obj is s.d, args[1].obj is s.op, eq(fld(e, st, s.d, 'type').t, HELP)), 'pre', 'the help option is added'); st.ghost['added'] = st.ghost.get('added', 0) + 1; return [Out('ret', st, None)]
        return None
    def post(s, e, st0, o, args, aux): e.oblige(o.st, o.kind == 'ret' and o.st.ghost.get('new', 0) == 1 and o.st.ghost.get('added', 0) == 1, 'post', 'one help option is made and added')


CONTRACTS = {c.name: c() for c in (Hash, Find, NodeNew, NodeFree, AddToMap, AddToList, DataAdd, GetB, GetI, GetD, GetS, IsSet, GetRest, AddB, AddI, AddD, AddS, FreeRestData, DataFree, ClearFlags, CheckReq, SetRest, SetArgs, FreeList, InitMap, Alloc, FreeAll, FreeRest, DataNew, AddHelp)}
CONTRACTS.update({k: v for k, v in strings.CONTRACTS.items() if k in ('nx_strdup', 'nx_strredup')})
OWN = [c for c in CONTRACTS if c.startswith(('nx_option', 'name_'))]
