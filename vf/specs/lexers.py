"""nx_lexer.c, nx_csv_lexer.c and nx_json_lexer.c under contract.

The state of a lexer is a function of its position in the text: the current character C(p), the line LN(p) and the column
CL(p), both by their recursive definition over the characters 0..p. Every operation is specified by the position it moves
to: a digit run ends at D(p), a quoted string at its first unescaped quote Q(p), a CSV field at F(p), a quoted CSV field at
CQ(p), white space at W(p); each by its recursive definition, unfolded where a character of the text is read."""
import z3
from ..sym import *
from ..contract import *
from ..engine import Out, Cand, QCand, View, PathEnd

FILES = ['src/nx_lexer.c', 'src/nx_csv_lexer.c', 'src/nx_json_lexer.c', 'src/nx_alloc.c']
SRC = 'src/nx_lexer.c'
FIELDS = {'text': 'ptr', 'pos': 'i32', 'c': 'i32', 'line_no': 'i32', 'col_no': 'i32'}
MAXT = 1 << 27
I = z3.IntSort()
LN, CL, D, Q, FE, CQ, W = [z3.Function('lex.' + n, I, I) for n in ('line', 'column', 'digits', 'quote', 'field', 'cquote', 'space')]
EQ = z3.Function('lex.match', I, z3.BoolSort())


def isd(c): return And(le(48, c), le(c, 57))
def oneof(c, s): return Or(*[eq(c, ord(x)) for x in s])


def ch(e, st, T, p):
    """character at p, -1 (end of file) from the end on"""
    n = T.slen
    if isc(p) and p < 0: return 0
    t = e.U(st, e.read(st, T, None, p, 'i8'))
    return ite(lt(p, 0), 0, ite(le(n, p), -1, t))


def unfold(e, st, T, p):
    """the definitions at position p"""
    key = ('lexdef', T.uid, zi(p).get_id())
    if key in st.inst: return
    st.inst.add(key)
    p = zi(p); n = T.slen
    c = zi(ch(e, st, T, p)); d = zi(ch(e, st, T, p + 1))
    st.assume(And(LN(-1) == 1, CL(-1) == 0))
    rng = z3.And(p >= 0, p <= n)
    fs = getattr(e.cur, 'fns', getattr(e.cur, 'ends', ()))
    out = [LN(p) == LN(p - 1) + z3.If(c == 10, 1, 0), CL(p) == z3.If(z3.Or(c == 10, c == 13), 0, CL(p - 1) + z3.If(c == 9, 8, 1))]
    if D in fs: out += [D(p) == z3.If(isd(c), D(p + 1), p), D(p) >= p, D(p) <= n]
    if W in fs: out += [W(p) == z3.If(oneof(c, ' \t\r\n'), W(p + 1), p), W(p) >= p, W(p) <= n]
    if Q in fs: out += [Q(p) == z3.If(c == -1, -1, z3.If(c == 34, p, z3.If(c == 92, z3.If(oneof(d, '"\\/bfnrt'), Q(p + 2), -1), Q(p + 1)))), z3.Or(Q(p) == -1, z3.And(Q(p) >= p, Q(p) < n))]
    if FE in fs: out += [FE(p) == z3.If(z3.Or(c == -1, c == 44, c == 10), p, z3.If(c == 34, -1, FE(p + 1))), z3.Or(FE(p) == -1, z3.And(FE(p) >= p, FE(p) <= n))]
    if CQ in fs: out += [CQ(p) == z3.If(c == -1, -1, z3.If(c == 34, z3.If(d == 34, CQ(p + 2), p), CQ(p + 1))), z3.Or(CQ(p) == -1, z3.And(CQ(p) >= p, CQ(p) < n))]
    st.assume(z3.Implies(rng, z3.And(*out)))


def bounds(p): return And(le(1, LN(zi(p))), le(LN(zi(p)), add(p, 2)), le(0, CL(zi(p))), le(CL(zi(p)), mul(8, add(p, 1))))


def mk_text(b): return b.cstr('text', maxlen=MAXT)


def mk_lex(b, first=False):
    e = b.e
    T = mk_text(b)
    lay = llir_offsets(SRC, 'struct NXLexer', list(FIELDS))
    o = Obj('lex', lay[''][1], kind='hparam'); ensure(o); b.reg(o)
    p = b.int('pos', 32, -1 if first else 0, MAXT)
    b.st.assume(le(p.t, T.slen))
    o.T, o.p = T, p.t
    b.st.assume(bounds(p.t))
    unfold(e, b.st, T, p.t)
    st8 = state(e, b.st, T, p.t)
    for f in FIELDS: o.cells[lay[f][0]] = (FIELDS[f], PV(T, 0) if f == 'text' else p if f == 'pos' else st8[f])
    return o


def ensure(o):
    if not hasattr(o, 'fo'):
        lay = llir_offsets(SRC, 'struct NXLexer', list(FIELDS))
        o.fo = {f: (lay[f][0], FIELDS[f]) for f in FIELDS}
        o.layout = ('struct', [(lay[f][0], FIELDS[f], f) for f in FIELDS])
    return o


def state(e, st, T, p):
    return {'c': IV(32, ch(e, st, T, p), -1, 255), 'line_no': IV(32, LN(zi(p)), None, None), 'col_no': IV(32, CL(zi(p)), None, None)}


def good(e, st, o):
    """the fields agree with the position"""
    T = fld(e, st, o, 'text').obj; p = e.S(st, fld(e, st, o, 'pos'))
    unfold(e, st, T, p)
    return And(le(0, p), le(p, T.slen), *[eq(e.S(st, fld(e, st, o, f)), v.t) for f, v in state(e, st, T, p).items()])


def at(e, st, o):
    """text and position of a lexer (a precondition where it is used at a call)"""
    ensure(o)
    tp = fld(e, st, o, 'text')
    if tp.obj is None or getattr(tp.obj, 'slen', None) is None: raise Unsupported('lexer over an unknown text')
    T = tp.obj; p = e.S(st, fld(e, st, o, 'pos'))
    unfold(e, st, T, p)
    e.oblige(st, And(eq(tp.off, 0), le(-1, p), le(p, T.slen)), 'pre', 'position within the text')
    for f, v in state(e, st, T, p).items(): e.oblige(st, eq(e.S(st, fld(e, st, o, f)), v.t), 'pre', 'lexer state agrees with its position: ' + f)
    return T, p


def moveto(e, st, o, T, p, lemma=True):
    unfold(e, st, T, p)
    st.assume(bounds(p))   # proved by induction: see Consume.post
    setf(e, st, o, 'pos', IV(32, p, 0, MAXT))
    for f, v in state(e, st, T, p).items(): setf(e, st, o, f, v)


def modified(e, L, o):
    try: return any(a[0] == 'cell' and a[1] is o for a in L.accs())
    except Exception: return True


class Lex(Contract):
    """invariants of loops that advance a lexer: its state agrees with its position, and the end of the run is unchanged"""
    ends = (D,)
    def lx(s): return s.o
    def runs(s, e): return []
    def loop_cands(s, e, L):
        o = s.lx()
        if o is None: return []
        T = o.T
        out = [Cand('lexer state agrees with its position', lambda v: good(e, v.st, o), strong=True)]
        def P(v): return e.S(v.st, fld(e, v.st, o, 'pos'))
        def P0(v): return e.S(L.st0, fld(e, L.st0, o, 'pos'))
        out.append(Cand('position never moves back', lambda v: le(P0(v), P(v))))
        for f in s.ends:
            def same_end(v, f=f):
                unfold(e, v.st, T, P(v)); unfold(e, v.st, T, P0(v)); return f(zi(P(v))) == f(zi(P0(v)))
            out.append(Cand('%s unchanged' % f.name(), same_end))
        def started(v):
            unfold(e, v.st, T, P(v)); unfold(e, v.st, T, add(P0(v), 1))
            c = ch(e, v.st, T, P(v))
            return Or(eq(P(v), P0(v)), And(Q(zi(P(v))) == Q(zi(add(P0(v), 1))), ne(c, 34), ne(c, -1)))
        if Q in s.ends: out.append(Cand('first unescaped quote unchanged after the opening quote', started))
        if FE in s.ends: out.append(Cand('field goes on', lambda v: And(ne(ch(e, v.st, T, P(v)), 44), ne(ch(e, v.st, T, P(v)), 10), ne(ch(e, v.st, T, P(v)), -1))))
        for a in L.accs():
            if a[0] == 'phi' and isinstance(L.env0.get(a[1]), IV):
                out.append(Cand('%s is the current character' % a[1], lambda v, a=a: eq(v.get(a), ch(e, v.st, T, P(v)))))
        return out
    def measures(s, e, L):
        o = s.lx()
        if o is None: return
        yield ('characters left', lambda v: sub(o.T.slen, e.S(v.st, fld(e, v.st, o, 'pos'))))


class New(Contract):
    """a lexer at the first character of the text"""
    name = 'nx_lexer_new'
    def setup(s, e, case):
        b = B(e); T = mk_text(b); return b.st, [PV(T, 0)], b.aux()
    def spec(s, e, st, args):
        T = args[0].obj
        if T is None or getattr(T, 'slen', None) is None: raise Unsupported('lexer over an unknown text')
        lay = llir_offsets(SRC, 'struct NXLexer', list(FIELDS))
        o = fresh_obj('lexer', lay[''][1]); ensure(o); o.T = T
        st.assume(bounds(-1))
        unfold(e, st, T, -1)
        setf(e, st, o, 'text', args[0])
        moveto(e, st, o, T, 0)
        return [(st, PV(o, 0))]


class Free(Contract):
    name = 'nx_lexer_free'; cases = ('null', 'lexer')
    def setup(s, e, case):
        b = B(e); s.o = mk_lex(b) if case == 'lexer' else None
        return b.st, [PV(s.o, 0) if s.o else NULL], b.aux()
    def spec(s, e, st, args):
        if args[0].obj is not None: st.dead[args[0].obj] = True
        return [(st, None)]


class Get(Contract):
    def setup(s, e, case):
        b = B(e); s.o = mk_lex(b); return b.st, [PV(s.o, 0)], b.aux()
    def spec(s, e, st, args):
        ensure(args[0].obj)
        return [(st, fld(e, st, args[0].obj, s.f))]


class GText(Get): name = 'nx_lexer_text'; f = 'text'
class GPos(Get): name = 'nx_lexer_position'; f = 'pos'
class GChar(Get): name = 'nx_lexer_current_char'; f = 'c'
class GLine(Get): name = 'nx_lexer_line_no'; f = 'line_no'
class GCol(Get): name = 'nx_lexer_column_no'; f = 'col_no'


class Consume(Contract):
    """one character on, with line and column kept; at the end of the text nothing changes"""
    name = 'nx_lexer_consume'
    def setup(s, e, case):
        b = B(e); s.o = mk_lex(b, first=True); return b.st, [PV(s.o, 0)], b.aux()
    def spec(s, e, st, args):
        o = args[0].obj
        T, p = at(e, st, o)
        q = ite(lt(p, T.slen), add(p, 1), p)
        if not isc(q):
            v = z3.Int(uid('pos')); st.assume(v == q); q = v
        moveto(e, st, o, T, q)
        return [(st, fld(e, st, o, 'c'))]
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': return
        p = e.S(st, fld(e, st, s.o, 'pos'))
        unfold(e, st, s.o.T, p)
        e.oblige(st, bounds(p), 'post', 'line and column stay within the bounds of the position (inductive step)')


def word(e, st, p, m): return [e.U(st, e.read(st, p.obj, p.idx, add(p.off, i), 'i8')) for i in range(m)]


class Match(Lex):
    """true exactly when the word starts at the position, and then the lexer is after it; else nothing changes"""
    name = 'nx_lexer_match'; ends = ()
    def setup(s, e, case):
        b = B(e); s.o = mk_lex(b); s.w = b.cstr('s', maxlen=MAXT)
        T, p, w = s.o.T, s.o.p, s.w
        b.st.assume(EQ(0))
        def fact(st, idx, off, ty, t):
            if ty != 'i8': return []
            k = zi(off)
            dom = z3.And(k >= 0, k < w.slen)
            return [z3.Implies(dom, z3.And(EQ(k + 1) == z3.And(EQ(k), zi(ch(e, st, T, p + k)) == t), z3.Implies(z3.Not(EQ(k + 1)), z3.Not(EQ(w.slen)))))]
        w.onread.append(fact)
        return b.st, [PV(s.o, 0), PV(w, 0)], b.aux()
    def loop_cands(s, e, L):
        o = s.o
        P = lambda v: e.S(v.st, fld(e, v.st, o, 'pos'))
        return Lex.loop_cands(s, e, L) + [Cand('matched so far', lambda v: And(eq(P(v), add(o.p, v.k)), EQ(zi(v.k)), le(v.k, s.w.slen)))]
    def measures(s, e, L): yield ('characters of the word left', lambda v: sub(s.w.slen, v.k))
    def spec(s, e, st, args):
        o, w = args[0].obj, args[1]
        T, p = at(e, st, o)
        m = e.slen(e, st, w, 'nx_lexer_match')
        if isc(m): ok = And(*[eq(ch(e, st, T, add(p, i)), x) for i, x in enumerate(word(e, st, w, m))])
        elif e.cur is s: ok = EQ(m)
        else: raise Unsupported('nx_lexer_match of a word of unknown length')
        r = []
        for yes, st2 in branch(e, st, ok):
            if yes: moveto(e, st2, o, T, add(p, m))
            r.append((st2, IV(32, int(yes))))
        return r


def split(e, st, cond, yes, no):
    """outcomes of yes / no under the condition"""
    out = []
    for y, s2 in branch(e, st, cond): out += (yes if y else no)(s2)
    return out


def fatal(st): return [Out('fatal', st)]


class Number(Lex):
    """the longest JSON number at the position; ill-formed numbers end the program"""
    name = 'nx_lexer_NUMBER'; ends = (D,)
    def setup(s, e, case):
        b = B(e); s.o = mk_lex(b)
        c = ch(e, b.st, s.o.T, s.o.p)
        b.st.assume(Or(eq(c, 45), isd(c)))
        l = b.array('len', 'i32', 1, kind='param'); t = b.array('type', 'i32', 1, kind='param')
        return b.st, [PV(s.o, 0), PV(l, 0), PV(t, 0)], b.aux()
    def spec(s, e, st, args):
        o, l, t = args
        o = o.obj
        T, p = at(e, st, o)
        C = lambda st, q: ch(e, st, T, q)
        c0 = C(st, p)
        e.oblige(st, Or(eq(c0, 45), isd(c0)), 'pre', 'a number starts here')
        q = add(p, ite(eq(c0, 45), 1, 0))
        unfold(e, st, T, q); e1 = D(zi(q)); unfold(e, st, T, e1)
        n1 = sub(e1, p)
        bad = Or(And(eq(c0, 45), eq(n1, 1)), And(eq(c0, 48), lt(1, n1)), And(eq(c0, 45), lt(2, n1), eq(C(st, add(p, 1)), 48)))
        def done(st, end, ty):
            moveto(e, st, o, T, end)
            e.write(st, l.obj, l.idx, l.off, 'i32', IV(32, sub(end, p), 0, MAXT))
            e.write(st, t.obj, t.idx, t.off, 'i32', IV(32, ty))
            return [Out('ret', st, PV(T, p))]
        def exp(st, e2):
            unfold(e, st, T, e2)
            def yes(st):
                x = add(e2, 1); unfold(e, st, T, x)
                b = add(x, ite(oneof(C(st, x), '+-'), 1, 0))
                unfold(e, st, T, b); e3 = D(zi(b)); unfold(e, st, T, e3)
                return split(e, st, eq(e3, b), fatal, lambda st: done(st, e3, 1))
            return split(e, st, oneof(C(st, e2), 'eE'), yes, lambda st: done(st, e2, 1))
        def frac(st):
            def yes(st):
                x = add(e1, 1); unfold(e, st, T, x); e2 = D(zi(x)); unfold(e, st, T, e2)
                return split(e, st, eq(e2, x), fatal, lambda st: exp(st, e2))
            return split(e, st, eq(C(st, e1), 46), yes, lambda st: exp(st, e1))
        return split(e, st, bad, fatal, lambda st: split(e, st, oneof(C(st, e1), '.eE'), frac, lambda st: done(st, e1, 0)))


class Quoted(Lex):
    """the text up to the first unescaped quote; a missing quote or an unknown escape ends the program"""
    name = 'nx_lexer_QUOTED_STRING'; ends = (Q,)
    def setup(s, e, case):
        b = B(e); s.o = mk_lex(b)
        b.st.assume(eq(ch(e, b.st, s.o.T, s.o.p), 34))
        l = b.array('len', 'i32', 1, kind='param')
        return b.st, [PV(s.o, 0), PV(l, 0)], b.aux()
    def spec(s, e, st, args):
        o, l = args
        o = o.obj
        T, p = at(e, st, o)
        e.oblige(st, eq(ch(e, st, T, p), 34), 'pre', 'a quoted string starts here')
        a = add(p, 1); unfold(e, st, T, a); q = Q(zi(a))
        def done(st):
            unfold(e, st, T, q)
            moveto(e, st, o, T, add(q, 1))
            e.write(st, l.obj, l.idx, l.off, 'i32', IV(32, sub(q, a), 0, MAXT))
            return [Out('ret', st, PV(T, a))]
        return split(e, st, eq(q, -1), fatal, done)


class Token(Lex):
    """the next token: white space skipped, type and text of the token, the lexer left after it; the previous text is freed"""
    cases = ('text', 'null')
    def setup(s, e, case):
        b = B(e); s.o = mk_lex(b)
        lay = llir_offsets(s.src, s.st, ['lex'])
        x = Obj('tokenizer', lay[''][1], kind='hparam', layout=('struct', [(lay['lex'][0], 'ptr', 'lex')])); b.reg(x)
        x.cells[lay['lex'][0]] = ('ptr', PV(s.o, 0))
        old = b.cstr('previous', ro=False, kind='hparam') if case == 'text' else None
        lt_ = llir_offsets(s.hdr, s.tst, ['type', 'text'])
        t = Obj('token', lt_[''][1], kind='param', layout=('struct', [(lt_['type'][0], 'i32', 'type'), (lt_['text'][0], 'ptr', 'text')])); b.reg(t)
        t.cells[lt_['type'][0]] = ('i32', b.int('oldtype', 32, -1, 20)); t.cells[lt_['text'][0]] = ('ptr', PV(old, 0) if old else NULL)
        s.old, s.t, s.tl = old, t, lt_
        return b.st, [PV(x, 0), PV(t, 0)], b.aux()
    def intercept(s, e, st, name, args):
        if name != s.decoder: return None
        n = e.U(st, args[0]); src = args[1]
        r = fresh_obj('decoded', add(n, 1), ('arr', 'i8')); r.spec_fresh = False; r.layout = None
        st.ghost['decoded'] = (r, n, src)
        st.ghost['heap'] = tuple(st.ghost.get('heap', ())) + (r,)
        return [Out('ret', st, PV(r, 0))]
    def finish(s, e, o, end, ty, text=None, decoded=None):
        """obligations on a returned token"""
        st = o.st; T = s.o.T
        unfold(e, st, T, end)
        e.oblige(st, eq(e.S(st, fld(e, st, s.o, 'pos')), end), 'post', 'lexer is after the token')
        e.oblige(st, good(e, st, s.o), 'post', 'lexer state agrees with its position')
        e.oblige(st, eq(e.S(st, e.read(st, s.t, None, s.tl['type'][0], 'i32')), ty), 'post', 'token type')
        p = e.read(st, s.t, None, s.tl['text'][0], 'ptr')
        if s.old is not None: e.oblige(st, st.dead.get(s.old) is True, 'post', 'the previous text is freed')
        keep = None
        if text is None and decoded is None: e.oblige(st, True if p.obj is None else p.nullc, 'post', 'no text')
        else:
            if p.obj is None: e.oblige(st, False, 'post', 'token has a text'); return
            keep = p.obj
            e.oblige(st, And(p.nullc is False, eq(p.off, 0), p.obj.kind == 'heap', st.dead.get(p.obj) is None), 'post', 'token has a live text of its own')
            a, n = text or decoded
            if decoded is not None:
                g = st.ghost.get('decoded')
                if g is None or g[0] is not p.obj: e.oblige(st, False, 'post', 'token text is the decoded string'); return
                e.oblige(st, And(g[2].obj is T, eq(g[2].off, a), eq(g[1], n)), 'post', 'exactly the characters between the quotes are decoded')
            else:
                e.valid(st, PV(p.obj, 0), add(n, 1), 'post: text and terminator fit')
                j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, n)))
                e.oblige(st, eq(e.U(st, e.read(st, p.obj, None, j, 'i8')), e.U(st, e.read(st, T, None, add(a, j), 'i8'))), 'post', 'character j of the text')
                e.oblige(o.st, eq(e.U(o.st, e.read(o.st, p.obj, None, n, 'i8')), 0), 'post', 'text terminated')
        for h in st.ghost.get('heap', ()):
            if h is not keep and st.dead.get(h) is not True: e.oblige(st, False, 'post', 'no other allocation survives')
    def post(s, e, st0, o, args, aux):
        st = o.st
        for cond, kind, f in s.table(e, st):
            s2 = st.copy(); s2.assume(cond)
            if not e.pr.feasible(s2): continue
            o2 = Out(o.kind, s2, o.ret, o.msg)
            if kind == 'fatal': e.oblige(s2, o.kind != 'ret', 'post', 'ill-formed text ends the program')
            elif o.kind != 'ret': e.oblige(s2, False, 'post', 'a well-formed token is returned')
            else: s.finish(e, o2, *f[:2], **f[2])


class CsvToken(Token):
    name = 'nx_csv_lexer_next_token'; src = 'src/nx_csv_lexer.c'; st = 'struct NXCSVLexer'; hdr = 'virg/nexus/nx_csv_lexer.h'; tst = 'struct NXCSVToken'
    decoder = 'nx_xstr_from_double_quoted'; ends = (FE, CQ)
    def table(s, e, st):
        T, p = s.o.T, s.o.p
        unfold(e, st, T, p); unfold(e, st, T, p + 1)
        c = ch(e, st, T, p); a = p + 1
        plain = Not(Or(eq(c, -1), eq(c, 44), eq(c, 10), eq(c, 34)))
        yield eq(c, -1), '', (p, 0, {})
        yield eq(c, 10), '', (a, 1, {})
        yield eq(c, 44), '', (a, 2, {})
        yield And(eq(c, 34), eq(CQ(a), -1)), 'fatal', None
        yield And(eq(c, 34), ne(CQ(a), -1)), '', (CQ(a) + 1, 4, dict(decoded=(a, CQ(a) - a)))
        yield And(plain, eq(FE(p), -1)), 'fatal', None
        yield And(plain, ne(FE(p), -1)), '', (FE(p), 3, dict(text=(p, FE(p) - p)))


class JsonToken(Token):
    name = 'nx_json_lexer_next_token'; src = 'src/nx_json_lexer.c'; st = 'struct NXJSONLexer'; hdr = 'virg/nexus/nx_json_lexer.h'; tst = 'struct NXJSONToken'
    decoder = 'nx_xstr_from_readable'; ends = (W,); fns = (W, D, Q)
    def table(s, e, st):
        T = s.o.T
        unfold(e, st, T, s.o.p)
        p = W(s.o.p)
        unfold(e, st, T, p); unfold(e, st, T, p + 1)
        C = lambda q: ch(e, st, T, q)
        c = C(p); a = p + 1
        yield eq(c, -1), '', (p, 0, {})
        for i, x in enumerate('[]{},:'): yield eq(c, ord(x)), '', (a, 1 + i, {})
        for ty, w in ((7, 'true'), (8, 'false'), (9, 'null')):
            ok = And(*[eq(C(p + i), ord(x)) for i, x in enumerate(w)])
            yield And(eq(c, ord(w[0])), Not(ok)), 'fatal', None
            yield ok, '', (p + len(w), ty, {})
        yield And(eq(c, 34), eq(Q(a), -1)), 'fatal', None
        yield And(eq(c, 34), ne(Q(a), -1)), '', (Q(a) + 1, 12, dict(decoded=(a, Q(a) - a)))
        num = Or(eq(c, 45), isd(c))
        yield Not(Or(oneof(c, '[]{},:tfn"-'), isd(c), eq(c, -1))), 'fatal', None
        q = p + z3.If(zb(eq(c, 45)), 1, 0); unfold(e, st, T, q); e1 = D(q); unfold(e, st, T, e1); unfold(e, st, T, e1 + 1)
        n1 = e1 - p
        bad = Or(And(eq(c, 45), eq(n1, 1)), And(eq(c, 48), lt(1, n1)), And(eq(c, 45), lt(2, n1), eq(C(a), 48)))
        e2 = z3.If(zb(eq(C(e1), 46)), D(e1 + 1), e1); unfold(e, st, T, D(e1 + 1)); unfold(e, st, T, e2); unfold(e, st, T, e2 + 1)
        badf = And(eq(C(e1), 46), eq(D(e1 + 1), e1 + 1))
        x = e2 + 1 + z3.If(zb(oneof(C(e2 + 1), '+-')), 1, 0); unfold(e, st, T, x)
        ex = oneof(C(e2), 'eE')
        e3 = z3.If(zb(ex), D(x), e2); unfold(e, st, T, D(x))
        bade = And(Not(badf), ex, eq(D(x), x))
        yield And(num, Or(bad, badf, bade)), 'fatal', None
        okn = And(num, Not(Or(bad, badf, bade)))
        fp = Or(eq(C(e1), 46), ex)
        yield And(okn, Not(fp)), '', (e1, 10, dict(text=(p, n1)))
        yield And(okn, fp), '', (e3, 11, dict(text=(p, e3 - p)))


CONTRACTS = {c.name: c() for c in (New, Free, GText, GPos, GChar, GLine, GCol, Consume, Match, Number, Quoted, CsvToken, JsonToken)}
