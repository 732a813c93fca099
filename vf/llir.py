"""LLVM-IR front end: compile a /repo source with clang, normalise with opt, parse the text.

The verified text is what clang emits for the real file on every run:
   clang -O0 (no optimisation) -> opt sroa,early-cse,simplifycfg,loop-simplify.
Nothing is dropped except debug metadata, attributes and alignment.
"""
import os, re, subprocess, hashlib, tempfile, atexit, shutil

OPT = '/usr/lib/llvm-18/bin/opt'
REPO = os.environ.get('VF_REPO', '/repo')
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-DNDEBUG', '-mavx2', '-std=gnu11', '-DJSMN_PARENT_LINKS=1',
          '-fno-discard-value-names', '-ffp-contract=off', '-gline-tables-only', '-w']
PASSES = 'sroa,early-cse,simplifycfg,loop-simplify'


class IRError(Exception):
    pass


class Unsupported(Exception):
    """The verifier cannot represent this construct (tool limit, not a property failure)."""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz', '_al')

    def __init__(s, k, a=None, b=None):
        s.k, s.a, s.b = k, a, b
        s._sz = s._al = None

    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.a
        if s.k in ('float', 'double', 'ptr', 'void', 'x86_fp80', 'label', 'metadata'): return s.k
        if s.k == 'arr': return '[%d x %r]' % (s.a, s.b)
        if s.k == 'vec': return '<%d x %r>' % (s.a, s.b)
        if s.k == 'struct': return '{%s}' % ', '.join(map(repr, s.a))
        if s.k == 'named': return '%' + s.a
        return s.k

    def __eq__(s, o): return isinstance(o, Ty) and repr(s) == repr(o)
    def __hash__(s): return hash(repr(s))


I1, I8, I16, I32, I64 = (Ty('int', n) for n in (1, 8, 16, 32, 64))
F32, F64, PTR, VOID = Ty('float'), Ty('double'), Ty('ptr'), Ty('void')

TOK = re.compile(r'''\s*(?:
   (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[a-zA-Z_.0-9]+)?)
 | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KMLH]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<attr>\#\d+)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*|:])
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'): break
            raise IRError('tok: ' + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class P:
    """token cursor"""
    def __init__(s, toks, mod): s.t, s.i, s.mod = toks, 0, mod
    def peek(s, k=0): return s.t[s.i + k][1] if s.i + k < len(s.t) else None
    def kind(s, k=0): return s.t[s.i + k][0] if s.i + k < len(s.t) else None
    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v
    def eat(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v): raise IRError('expected %s got %r at %s' % (v, s.peek(), ' '.join(t[1] for t in s.t[max(0, s.i-8):s.i+8])))
    def done(s): return s.i >= len(s.t)

    def type(s):
        t = s.next()
        if re.fullmatch(r'i\d+', t): r = Ty('int', int(t[1:]))
        elif t in ('float', 'double', 'ptr', 'void', 'x86_fp80', 'label', 'metadata', 'half', 'token'): r = Ty(t)
        elif t == '[':
            n = int(s.next()); s.expect('x'); e = s.type(); s.expect(']'); r = Ty('arr', n, e)
        elif t == '<':
            if s.peek() == '{':
                r = s.type(); s.expect('>')
            else:
                n = int(s.next()); s.expect('x'); e = s.type(); s.expect('>'); r = Ty('vec', n, e)
        elif t == '{':
            fs = []
            while not s.eat('}'):
                fs.append(s.type()); s.eat(',')
            r = Ty('struct', fs)
        elif t.startswith('%'):
            r = Ty('named', t[1:])
        elif t == 'opaque': r = Ty('opaque')
        else: raise IRError('type: ' + t)
        # function type suffix
        if s.peek() == '(' and r.k != 'fn':
            s.next(); args = []
            va = False
            while not s.eat(')'):
                if s.eat('...'): va = True
                else: args.append(s.type())
                s.eat(',')
            r = Ty('fn', r, args)
        return r

    ATTRS = {'noundef', 'nonnull', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext', 'noalias', 'nocapture',
             'dead_on_unwind', 'writable', 'immarg', 'returned', 'inreg', 'nest', 'noreturn', 'nofree', 'inrange', 'noext'}

    def attrs(s):
        while True:
            w = s.peek()
            if w in s.ATTRS: s.next()
            elif w == 'align': s.next(); s.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null'):
                s.next(); s.expect('('); s.next(); s.expect(')')
            elif w in ('sret', 'byval', 'elementtype', 'preallocated', 'byref', 'inalloca'):
                s.next(); s.expect('('); s.type(); s.expect(')')
            elif w in ('memory', 'range', 'captures', 'initializes', 'nofpclass', 'allocsize', 'allockind'):
                s.next(); s.expect('(')
                d = 1
                while d:
                    t = s.next()
                    d += (t == '(') - (t == ')')
            else: return

    def value(s, ty):
        """constant or %name operand"""
        k, t = s.kind(), s.next()
        if k == 'name':
            return ('l', t[1:].strip('"')) if t[0] == '%' else ('g', t[1:].strip('"'))
        if k == 'num': return ('c', t)
        if t in ('true', 'false'): return ('c', '1' if t == 'true' else '0')
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if k == 'cstr':
            raw = t[2:-1]
            b = bytearray(); i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i+1] == '\\': b.append(92); i += 2
                    else: b.append(int(raw[i+1:i+3], 16)); i += 3
                else: b.append(ord(raw[i])); i += 1
            return ('str', bytes(b))
        if t in ('[', '<', '{'):
            close = {'[': ']', '<': '>', '{': '}'}[t]
            if t == '<' and s.peek() == '{':
                v = s.value(ty); s.expect('>'); return v
            el = []
            while not s.eat(close):
                et = s.type(); el.append((et, s.value(et))); s.eat(',')
            return ('agg', el)
        if t == 'getelementptr':
            s.eat('inbounds'); s.eat('nuw')
            if s.eat('inrange'):
                s.expect('(')
                while not s.eat(')'): s.next()
            s.expect('('); bt = s.type(); s.expect(',')
            s.type(); base = s.value(PTR); idx = []
            while s.eat(','):
                s.eat('inrange')
                it = s.type(); idx.append((it, s.value(it)))
            s.expect(')')
            return ('gep', bt, base, idx)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            s.expect('('); st = s.type(); v = s.value(st); s.expect('to'); dt = s.type(); s.expect(')')
            return ('cast', t, st, v, dt)
        if t in ('add', 'sub', 'mul', 'icmp', 'select', 'xor', 'shl'):
            raise Unsupported('constexpr ' + t)
        raise IRError('value: %r near %s' % (t, ' '.join(x[1] for x in s.t[max(0, s.i-6):s.i+6])))


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'x')

    def __init__(s, op, res=None, ty=None, a=None, x=None):
        s.op, s.res, s.ty, s.a, s.x, s.line = op, res, ty, a, x, None

    def __repr__(s): return '%s = %s %r %r %r' % (s.res, s.op, s.ty, s.a, s.x)


class Fn:
    def __init__(s, name, rty, args, mod):
        s.name, s.rty, s.args, s.mod = name, rty, args, mod
        s.blocks = {}       # label -> [Ins]
        s.order = []
        s._loops = None

    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == 'br': return [t.a[0]]
        if t.op == 'cbr': return [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[1]] + [x[1] for x in t.a[2]]
        return []

    def loops(s):
        """header -> set(body blocks) of natural loops"""
        if s._loops is not None: return s._loops
        entry = s.order[0]
        # reachable
        seen, st = {entry}, [entry]
        while st:
            for q in s.succs(st.pop()):
                if q not in seen: seen.add(q); st.append(q)
        nodes = [b for b in s.order if b in seen]
        preds = {b: [] for b in nodes}
        for b in nodes:
            for q in s.succs(b): preds[q].append(b)
        dom = {b: set(nodes) for b in nodes}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in nodes:
                if b == entry: continue
                nd = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        loops = {}
        for b in nodes:
            for q in s.succs(b):
                if q in dom[b]:
                    body = loops.setdefault(q, {q})
                    st = [b]
                    while st:
                        n = st.pop()
                        if n not in body:
                            body.add(n); st.extend(preds[n])
        s._loops = loops
        return loops


class Module:
    def __init__(s, path):
        s.path = path
        s.types, s.globals, s.fns, s.decls = {}, {}, {}, set()
        s.internal = set()

    # ---- layout (x86-64)
    def res(s, t):
        while t.k == 'named':
            t = s.types.get(t.a) or (_ for _ in ()).throw(Unsupported('opaque type ' + t.a))
        return t

    def align(s, t):
        t = s.res(t)
        if t.k == 'int': return min(16, max(1, (t.a + 7) // 8)) if t.a in (1, 8, 16, 32, 64, 128) else 8
        if t.k == 'float': return 4
        if t.k in ('double', 'ptr'): return 8
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr': return s.align(t.b)
        if t.k == 'vec': return s.size(t)
        if t.k == 'struct': return max([s.align(f) for f in t.a] or [1])
        raise Unsupported('align %r' % t)

    def size(s, t):
        t = s.res(t)
        if t.k == 'int': return (t.a + 7) // 8 if t.a <= 64 else 16
        if t.k == 'float': return 4
        if t.k in ('double', 'ptr'): return 8
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr': return t.a * s.size(t.b)
        if t.k == 'vec': return t.a * s.size(t.b)
        if t.k == 'struct':
            o = 0
            for f in t.a:
                al = s.align(f); o = (o + al - 1) // al * al + s.size(f)
            al = s.align(t)
            return (o + al - 1) // al * al
        raise Unsupported('size %r' % t)

    def field_off(s, t, i):
        t = s.res(t); o = 0
        for j, f in enumerate(t.a):
            al = s.align(f); o = (o + al - 1) // al * al
            if j == i: return o, f
            o += s.size(f)
        raise IRError('field')


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr', 'bitcast'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'disjoint', 'nneg', 'samesign', 'inbounds', 'volatile', 'atomic'}


def parse_call(p, res):
    while p.peek() in ('fastcc', 'ccc', 'noalias', 'nonnull', 'fast', 'nnan') or p.peek() in P.ATTRS or p.peek() in ('dereferenceable', 'align', 'range'):
        if p.peek() in ('fastcc', 'ccc', 'fast', 'nnan'): p.next()
        else: p.attrs()
    rt = p.type()
    if rt.k == 'fn': rt = rt.a
    callee = p.value(PTR) if p.kind() == 'name' else None
    if callee is None:
        if p.peek() == 'asm': raise Unsupported('inline asm')
        callee = p.value(PTR)
    p.expect('('); args = []
    while not p.eat(')'):
        t = p.type(); p.attrs()
        if t.k == 'metadata':
            d = 0
            while p.peek() not in (',', ')') or d:
                x = p.next(); d += (x == '(') - (x == ')')
            args.append((t, ('undef',)))
        else: args.append((t, p.value(t)))
        p.eat(',')
    return Ins('call', res, rt, args, callee)


def parse_ins(line, mod):
    p = P(tokenize(line), mod)
    res = None
    if p.kind() == 'name' and p.peek(1) == '=':
        res = p.next()[1:].strip('"'); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Ins(op, res, t, [a, b], fl)
    if op in CAST:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect('to'); d = p.type()
        return Ins(op, res, d, [a], t)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS: p.next()
        pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Ins(op, res, t, [a, b], pred)
    if op == 'fneg':
        while p.peek() in FLAGS: p.next()
        t = p.type(); return Ins(op, res, t, [p.value(t)])
    if op == 'load':
        while p.peek() in FLAGS: p.next()
        t = p.type(); p.expect(','); p.type(); return Ins(op, res, t, [p.value(PTR)])
    if op == 'store':
        while p.peek() in FLAGS: p.next()
        t = p.type(); v = p.value(t); p.expect(','); p.type(); return Ins(op, None, t, [v, p.value(PTR)])
    if op == 'alloca':
        t = p.type(); n = None
        if p.eat(','):
            if p.peek() != 'align':
                nt = p.type(); n = (nt, p.value(nt))
        return Ins(op, res, t, [n])
    if op == 'getelementptr':
        while p.peek() in FLAGS: p.next()
        bt = p.type(); p.expect(','); p.type(); base = p.value(PTR); idx = []
        while p.eat(','):
            if p.kind() == 'meta': break
            it = p.type(); idx.append((it, p.value(it)))
        return Ins(op, res, bt, [base, idx])
    if op == 'phi':
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1:].strip('"'); p.expect(']')
            inc.append((v, l))
            if not (p.peek() == ',' and p.peek(1) == '['): break
            p.next()
        return Ins(op, res, t, inc)
    if op == 'select':
        while p.peek() in FLAGS: p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); p.type(); b = p.value(t)
        return Ins(op, res, t, [c, a, b], ct)
    if op == 'br':
        if p.eat('label'): return Ins('br', None, None, [p.next()[1:].strip('"')])
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"')
        p.expect(','); p.expect('label'); b = p.next()[1:].strip('"')
        return Ins('cbr', None, None, [c, a, b])
    if op == 'ret':
        t = p.type()
        return Ins('ret', None, t, [] if t.k == 'void' else [p.value(t)])
    if op == 'unreachable': return Ins(op, None, None, [])
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"')
        p.expect('['); cases = []
        while not p.eat(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv, p.next()[1:].strip('"')))
        return Ins('switch', None, t, [v, d, cases])
    if op == 'call': return parse_call(p, res)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.eat(','):
            if p.kind() == 'num': idx.append(int(p.next()))
            else: break
        return Ins(op, res, t, [v], idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); et = p.type(); e = p.value(et); idx = []
        while p.eat(','):
            if p.kind() == 'num': idx.append(int(p.next()))
            else: break
        return Ins(op, res, t, [v, (et, e)], idx)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); it = p.type(); return Ins(op, res, t, [v, (it, p.value(it))])
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); et = p.type(); e = p.value(et); p.expect(','); it = p.type()
        return Ins(op, res, t, [v, (et, e), (it, p.value(it))])
    if op == 'shufflevector':
        t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2); p.expect(','); mt = p.type(); m = p.value(mt)
        return Ins(op, res, t, [a, b, (mt, m)])
    if op == 'freeze':
        t = p.type(); return Ins(op, res, t, [p.value(t)])
    raise Unsupported('instruction ' + op)


DBG = re.compile(r', !dbg !(\d+)')
META_TAIL = re.compile(r'(, !(?:dbg|llvm\.[a-z.]+|tbaa|srcloc|noundef|range|nonnull|align|prof|callees|heapallocsite|nosanitize) ![0-9]+)+\s*$')


def parse_module(text, path):
    mod = Module(path)
    lines = text.split('\n')
    dloc = {}
    for l in lines:
        if l.startswith('!'):
            m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
            if m: dloc[m.group(1)] = int(m.group(2))
    i = 0
    pend_globals = []
    while i < len(lines):
        l = lines[i]; i += 1
        if l.startswith('%') and ' = type ' in l:
            name, rest = l.split(' = type ', 1)
            if rest.strip() == 'opaque': continue
            mod.types[name[1:].strip('"')] = P(tokenize(rest), mod).type()
        elif l.startswith('@'):
            pend_globals.append(l)
        elif l.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            mod.decls.add(m.group(1).strip('"'))
        elif l.startswith('define'):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
            name = m.group(1).strip('"')
            head = l[:m.start()]
            if ' internal ' in head: mod.internal.add(name)
            rt = None
            toks = tokenize(head)
            pp = P(toks, mod)
            pp.next()
            while pp.peek() in ('dso_local', 'internal', 'linkonce_odr', 'weak', 'weak_odr', 'hidden', 'available_externally', 'noalias', 'unnamed_addr') or pp.peek() in P.ATTRS or pp.peek() in ('dereferenceable', 'align', 'range'):
                if pp.peek() in P.ATTRS or pp.peek() in ('dereferenceable', 'align', 'range'): pp.attrs()
                else: pp.next()
            rt = pp.type()
            p = P(tokenize(l[m.end():].split(' !dbg')[0].rstrip('{ ')), mod)
            args = []
            n = 0
            while not p.eat(')'):
                if p.eat('...'): continue
                t = p.type()
                byval = None
                save = p.i
                p.attrs()
                seg = [x[1] for x in p.t[save:p.i]]
                if 'byval' in seg: byval = True
                if p.kind() == 'name': an = p.next()[1:].strip('"')
                else: an = str(n)
                n += 1
                args.append((t, an, byval))
                p.eat(',')
            fn = Fn(name, rt, args, mod)
            fn.raw = []
            while lines[i].strip() != '}':
                fn.raw.append(lines[i]); i += 1
            i += 1
            fn.dloc = dloc
            fn.nargs_unnamed = n
            mod.fns[name] = fn
    for l in pend_globals:
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', l)
        if not m: continue
        name, rest = m.group(1).strip('"'), m.group(2)
        rest = re.split(r', (?:align|comdat|section|!dbg)', rest)[0]
        kw = re.search(r'\b(global|constant)\b', rest)
        if not kw: continue
        external = 'external' in rest[:kw.start()]
        p = P(tokenize(rest[kw.end():]), mod)
        try:
            t = p.type()
            v = None if external or p.done() else p.value(t)
        except (IRError, Unsupported):
            continue
        mod.globals[name] = (t, v, kw.group(1) == 'constant')
    return mod


def parse_body(fn):
    if fn.blocks: return
    cur = None
    first = True
    pend = None
    for l in fn.raw:
        s = l.strip()
        if not s or s.startswith(';'): continue
        if s.startswith('#dbg'): continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if m:
            cur = m.group(1).strip('"'); fn.blocks[cur] = []; fn.order.append(cur); first = False
            continue
        if first:
            # unnamed entry block gets the next number after the args
            k = sum(1 for (_, an, _) in fn.args if an.isdigit())
            cur = 'entry' if 'entry' not in fn.blocks and k == 0 and False else str(k)
            fn.blocks[cur] = []; fn.order.append(cur); first = False
        if pend is not None:
            pend += ' ' + s
            if s.startswith(']'):
                s, pend = pend, None
            else: continue
        elif s.startswith('switch') and not s.rstrip().endswith(']') and ']' not in s:
            pend = s; continue
        d = DBG.search(s)
        s2 = META_TAIL.sub('', s)
        s2 = re.sub(r' #\d+\s*$', '', s2)
        s2 = re.sub(r', align \d+$', '', s2)
        if '@llvm.dbg.' in s2: continue
        ins = parse_ins(s2, fn.mod)
        ins.line = fn.dloc.get(d.group(1)) if d else None
        fn.blocks[cur].append(ins)


_cache = {}


def compile_module(src, extra=()):
    """src: path relative to /repo (or absolute). Always recompiled from the current tree."""
    key = (src, tuple(extra))
    if key in _cache: return _cache[key]
    path = src if os.path.isabs(src) else os.path.join(REPO, src)
    inc = ['-I', config_dir(), '-I', os.path.join(REPO, 'include')]
    if '/vf/tu/' in path: extra = list(extra) + ['-femit-all-decls']
    base = CFLAGS + inc + ['-I', os.path.join(REPO, 'ext', 'include')] + list(extra)
    r = subprocess.run(['clang'] + base + ['-S', '-emit-llvm', path, '-o', '-'], capture_output=True, text=True)
    if r.returncode != 0:
        raise IRError('clang failed on %s:\n%s' % (src, r.stderr[-2000:]))
    o = subprocess.run([OPT, '-S', '-passes=' + PASSES, '-', '-o', '-'], input=r.stdout, capture_output=True, text=True)
    if o.returncode != 0: raise IRError('opt failed: ' + o.stderr[-2000:])
    mod = parse_module(o.stdout, src)
    mod.sha = hashlib.sha256(o.stdout.encode()).hexdigest()
    _cache[key] = mod
    return mod


_cfg = None


def config_dir():
    """nx_config.h is generated by cmake and git-ignored: instantiate the tree's own nx_config.h.in
    with the values the shipped build uses (AVX2 on, 64-byte alignment, version 0.1)."""
    global _cfg
    if _cfg: return _cfg
    d = tempfile.mkdtemp(prefix='vf_cfg_')
    atexit.register(shutil.rmtree, d, True)
    os.makedirs(os.path.join(d, 'virg/nexus'), exist_ok=True)
    src = open(os.path.join(REPO, 'include/virg/nexus/nx_config.h.in')).read()
    src = re.sub(r'#cmakedefine01 (\w+)', r'#define \1 1', src)
    src = src.replace('@VIRG_NEXUS_SIMD_ALIGNMENT@', '64').replace('@VERSION_MAJOR@', '0').replace('@VERSION_MINOR@', '1')
    open(os.path.join(d, 'virg/nexus/nx_config.h'), 'w').write(src)
    _cfg = d
    return d


_off = {}


def offsets(include, struct, fields):
    """byte offset and size of named fields, from the real header/source (layout is never hard-coded)"""
    key = (include, struct, tuple(fields))
    if key in _off: return _off[key]
    inc = include if include.startswith('virg/') else os.path.join(REPO, include)
    src = '#include <stddef.h>\n#include "%s"\n' % inc
    src += 'const unsigned long vf_total = sizeof(%s);\n' % struct
    for f in fields:
        c = f.replace('.', '_').replace('[', '_').replace(']', '_')
        src += 'const unsigned long vf_off_%s = offsetof(%s, %s);\nconst unsigned long vf_sz_%s = sizeof(((%s*)0)->%s);\n' % (c, struct, f, c, struct, f)
    r = subprocess.run(['clang'] + CFLAGS + ['-I', config_dir(), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-x', 'c', '-S', '-emit-llvm', '-', '-o', '-'], input=src, capture_output=True, text=True)
    if r.returncode != 0: raise Unsupported('layout of %s: %s' % (struct, r.stderr[-500:]))
    out = {}
    for m in re.finditer(r'@vf_(off|sz)_(\w+) = .*? i64 (\d+)', r.stdout):
        out.setdefault(m.group(2), {})[m.group(1)] = int(m.group(3))
    res = {f: (out[f.replace('.', '_').replace('[', '_').replace(']', '_')]['off'], out[f.replace('.', '_').replace('[', '_').replace(']', '_')]['sz']) for f in fields}
    res[''] = (0, int(re.search(r'@vf_total = .*? i64 (\d+)', r.stdout).group(1)))
    _off[key] = res
    return res


def consts(include, names):
    """values of integer constants (enumerators) of a header"""
    key = ('consts', include, tuple(names))
    if key in _off: return _off[key]
    src = '#include "%s"\n' % include + ''.join('const long vf_c_%d = %s;\n' % (i, n) for i, n in enumerate(names))
    r = subprocess.run(['clang'] + CFLAGS + ['-I', config_dir(), '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'), '-x', 'c', '-S', '-emit-llvm', '-', '-o', '-'], input=src, capture_output=True, text=True)
    if r.returncode != 0: raise Unsupported('constants of %s: %s' % (include, r.stderr[-500:]))
    d = {int(m.group(1)): int(m.group(2)) for m in re.finditer(r'@vf_c_(\d+) = .*? i64 (-?\d+)', r.stdout)}
    _off[key] = [d[i] for i in range(len(names))]
    return _off[key]
