"""Contracts: pre-state construction, functional specification (abstract transformer), state comparison."""
import time, traceback
import z3
from .sym import *
from .llir import Unsupported, IRError
from .engine import Engine, Out, PathEnd, QCand, Cand, View, NonConcrete


class Contract:
    """One function under contract.

    setup(e, case)  -> (state, args, aux): an arbitrary pre-state satisfying the precondition
    spec(e, st, args) -> list[Out]       : the postcondition as an abstract transformer of the state
                                            (also what callers see in place of the body)
    post(e, st0, out, args, aux)         : extra postconditions (obligations)
    """
    recursive = False
    total = True
    unroll = True
    fork_unroll = 0
    name = None
    cases = ('',)
    observe = ()     # extra objects to compare

    def setup(s, e, case): raise NotImplementedError
    spec = None
    post = None
    def loop_cands(s, e, L): return []
    def loop_ptrs(s, e, L, obj): return None      # f(view, off) -> PV: pointers held in obj at the loop head
    def loop_fields(s, e, L, obj): return None    # (offset, type) of fields of the members of a family that the loop does not change
    def loop_dead(s, e, L, obj): return None      # f(view, i) -> Bool: freed members of a family at the loop head

    def intercept(s, e, st, name, args): return None  # call of `name` while this contract is proved: outcomes, or None for the usual treatment

    def apply(s, e, st, args):
        if s.spec is None: raise Unsupported('contract %s has no call-site form' % s.name)
        return s.spec(e, st, args)

    def compare(s, e, st0, co, so, args, aux):
        default_compare(e, st0, co, so, getattr(aux, 'observe', None) or s.observe)


Engine.base_apply = staticmethod(Contract.apply)


class Aux:
    pass


# --------------------------------------------------------------------- state comparison
def default_compare(e, st0, co, so, observe=()):
    """obligations: the code's final state co.st equals the specified final state so.st.
    co.st.pc already includes so's path condition."""
    st = co.st
    pairs = {}
    todo = []

    def unify(a, b, what, st=st):
        """code pointer a against specified pointer b"""
        if isinstance(b, Anyv): return
        if b.obj is None:
            e.oblige(st, True if a.obj is None else a.nullc, 'post', what + ' is null'); return
        if a.obj is None:
            e.oblige(st, b.nullc, 'post', what + ' is not null'); return
        if a.nullc is not False or b.nullc is not False:
            e.oblige(st, eq(zb(a.nullc), zb(b.nullc)), 'post', what + ' null exactly when specified')
        if a.obj is not b.obj:
            if getattr(b.obj, 'spec_fresh', False) and not known(a.obj):
                if b.obj in pairs and pairs[b.obj] is not a.obj or (a.obj in pairs.values() and pairs.get(b.obj) is not a.obj):
                    e.oblige(st, False, 'post', what + ' aliases another object'); return
                if b.obj not in pairs:
                    pairs[b.obj] = a.obj; todo.append((a.obj, b.obj, what))
            else:
                e.oblige(st, Or(a.nullc, False), 'post', '%s points to %s (specified %s)' % (what, a.obj.name, b.obj.name)); return
        e.oblige(st, Or(b.nullc, eq(a.off, b.off)), 'post', what + ' offset')
        if a.idx is not None and b.idx is not None: e.oblige(st, Or(b.nullc, eq(a.idx, b.idx)), 'post', what + ' element')

    def known(o): return o in st0_objs

    def val(a, b, what, st=st):
        if isinstance(b, Anyv): return
        if isinstance(b, PV): unify(a, b, what, st)
        elif isinstance(b, IV): e.oblige(st, same_int(e, st, a, b), 'post', what)
        elif isinstance(b, FV): e.oblige(st, eq(a.t, b.t), 'post', what)
        else: e.oblige(st, eq(a, b), 'post', what)

    st0_objs = set(st0.mem) | set(observe) | getattr(st0, 'roots', set())
    if so.kind != co.kind:
        e.oblige(st, False, 'post', 'terminates by %s where %s is specified' % ('return' if co.kind == 'ret' else 'fatal error', 'return' if so.kind == 'ret' else 'fatal error')); return
    if so.kind != 'ret': return
    if so.ret is not None or co.ret is not None:
        if so.ret is None: pass
        else: val(co.ret, so.ret, 'result')
    objs = sorted(set(st0_objs) | {o for o in so.st.mem if o in st0_objs}, key=lambda o: o.uid)
    for o in objs:
        d0, d1 = st.dead.get(o), so.st.dead.get(o)
        if d0 is True or d1 is True:
            if (d0 is True) != (d1 is True):
                e.oblige(st, False, 'post', '%s %s' % (o.name, 'is freed but must stay alive' if d0 else 'must be freed (leak)'))
            continue
        content(e, st, co.st, so.st, o, o, val, o.name)
    while todo:
        a, b, what = todo.pop()
        sa = a.size; sb = b.size
        if getattr(b, 'min_size', False): e.oblige(st, le(sb, sa), 'post', what + ': allocation large enough')
        else: e.oblige(st, le(sb, sa), 'post', what + ': allocation large enough')
        if st.dead.get(a) is not None: e.oblige(st, False, 'post', what + ' points to freed memory')
        content(e, st, co.st, so.st, a, b, val, what)
    # every heap object allocated by the code and not accounted for must have been freed
    if getattr(e.cur, 'leakcheck', True):
        acc = set(pairs.values())
        for o in st.ghost.get('heap', ()):
            if o in acc or o in st0.ghost.get('heap', ()) or st.dead.get(o) is True: continue
            e.oblige(st, False, 'post', 'memory allocated here is neither returned nor freed (leak of %s)' % o.name)


def content(e, st, cst, sst, a, b, val, what):
    """object a in code state vs object b in spec state"""
    lay = b.layout
    if a is b and cst.mem.get(a) is sst.mem.get(b): return
    if lay is None:
        if a is b: e.oblige(st, False, 'frame', what + ' modified') if cst.mem.get(a) is not sst.mem.get(b) else None
        return
    if lay[0] == 'struct':
        for off, ty, fname in lay[1]:
            x = e.read(st_with(st, cst), a, None, off, ty)
            y = e.read(st_with(st, sst), b, None, off, ty)
            val(x, y, '%s.%s' % (what, fname))
    elif lay[0] == 'arr':
        ty = lay[1]
        n = TSIZE[ty]
        i = z3.Int(uid('j'))
        if ty == 'ptr':
            st2 = st.copy(); st2.assume(And(i >= 0, le(add(mul(i, 8), 8), b.size)))
            dom = getattr(b, 'defined', None)
            if dom is not None: st2.assume(dom(i))
            def chk(st3):
                y = e.read(st_with(st3, sst), b, None, mul(8, i), 'ptr'); x = e.read(st_with(st3, cst), a, None, mul(8, i), 'ptr')
                val(x, y, '%s[i] for every i' % what, st3)
            e.forked(st2, chk)
            return
        st2 = st.copy()
        st2.coords.append((i,))
        st2.assume(And(i >= 0, le(add(mul(i, n), n), b.size if not callable(b.size) else b.size)))
        save = st2.mem
        idx = None
        st2.mem = sst.mem
        dom = getattr(b, 'defined', None)
        if dom is not None: st2.assume(dom(i))
        y = e.read(st2, b, idx, mul(i, n), ty)
        st2.mem = cst.mem
        x = e.read(st2, a, idx, mul(i, n), ty)
        st2.mem = save
        if isinstance(y, Anyv): return
        if isinstance(y, PV): raise Unsupported('pointer array comparison')
        if isinstance(y, IV): g = same_int(e, st2, x, y)
        elif isinstance(y, FV): g = eq(x.t, y.t)
        e.oblige(st2, g, 'post', '%s[i] for every i' % what, assume=False)
    elif lay[0] == 'custom':
        lay[1](e, st, cst, sst, a, b, what)


def st_with(st, other):
    """view: path facts of st, memory of other (facts learnt while reading are added to st)"""
    s2 = State.__new__(State)
    s2.__dict__.update(st.__dict__)
    s2.mem = other.mem
    return s2


def same_int(e, st, a, b):
    if e.bv:
        if isc(a.t) and isc(b.t): return a.t == b.t
        return e.bvt(a) == e.bvt(b)
    h = 1 << (a.bits - 1)
    if isc(a.t) and isc(b.t): return a.t % (2 * h) == b.t % (2 * h)
    if a.lo >= -h and a.hi < h and b.lo >= -h and b.hi < h: return eq(a.t, b.t)
    if a.lo >= 0 and a.hi < 2 * h and b.lo >= 0 and b.hi < 2 * h: return eq(a.t, b.t)
    return Or(eq(a.t, b.t), eq(e.S(st, a), e.S(st, b)))


class Anyv:
    """unspecified value"""


ANY = Anyv()


# --------------------------------------------------------------------- verification of one contract
class Result:
    def __init__(s, name): s.name, s.obls, s.unsupported, s.t, s.outs, s.inlined, s.solver_t, s.assumptions = name, [], None, 0, 0, [], 0, set()


def verify(c, files, contracts, bv=False, timeout=8000, budget=300):
    e = Engine(files, bv=bv, timeout=timeout)
    e.contracts = {k: v for k, v in contracts.items() if k != c.name or c.recursive}
    e.cur = c
    e.lazy = getattr(c, 'lazy', False)
    r = Result(c.name)
    t0 = time.time()
    e.deadline = t0 + budget
    try:
        if hasattr(c, 'prepare'): c.prepare(e)
        fn = e.get_fn(c.name)
        if fn is None:
            src = e.locate(c.name)
            if src:
                from . import llir
                e.mods.append(llir.compile_module(src)); fn = e.get_fn(c.name)
        if fn is None: raise Unsupported('function %s not found in the current tree' % c.name)
        for case in c.cases:
            e.case = case
            st, args, aux = c.setup(e, case)
            if not e.pr.feasible(st, 5000): raise Unsupported('contradictory precondition in case %r' % case)
            st0 = st.copy()
            st0.roots = getattr(aux, 'roots', set())
            outs = e.run_function(fn, list(args), st)
            outs = [o for o in outs if e.pr.feasible(o.st)]
            if not outs: raise Unsupported('no reachable outcome (vacuous) in case %r' % case)
            r.outs += len(outs)
            for o in outs:
                e.fnstack.append(c.name); e.line = None
                try:
                    if c.spec is not None:
                        ss = st0.copy()
                        e.quiet += 1
                        try: specs = c.spec(e, ss, list(args))
                        finally: e.quiet -= 1
                        for so in specs:
                            if not isinstance(so, Out): so = Out('ret', so[0], so[1])
                            j = o.st.copy()
                            extra = so.st.pc[len(st0.pc):]
                            for f in extra: j.assume(f)
                            if not e.pr.feasible(j): continue
                            try: c.compare(e, st0, Out(o.kind, j, o.ret, o.msg), so, args, aux)
                            except PathEnd: pass
                    if c.post is not None:
                        try: c.post(e, st0, o, args, aux)
                        except PathEnd: pass
                finally: e.fnstack.pop()
    except (Unsupported, IRError, NonConcrete, ForkOn, z3.Z3Exception, RecursionError) as ex:
        r.unsupported = '%s: %s' % (type(ex).__name__, ex)
    except (KeyError, AttributeError, TypeError, IndexError, ValueError) as ex:
        r.unsupported = 'internal: %s: %s\n%s' % (type(ex).__name__, ex, traceback.format_exc()[-1500:])
    r.obls = e.obls
    r.t = time.time() - t0
    r.solver_t = e.pr.time
    r.inlined = sorted(e.inlined)
    r.assumptions = e.assumptions
    r.backends = e.pr.backends
    return r


# --------------------------------------------------------------------- pre-state builder
class B:
    def __init__(s, e):
        s.e = e; s.st = State(e); s.roots = set()

    def reg(s, o):
        s.roots.add(o); return o

    def int(s, name, bits=32, lo=None, hi=None):
        """a symbolic integer value within [lo,hi]"""
        if s.e.bv: return IV(bits, z3.BitVec(uid(name), bits))
        if lo is None: lo = -(1 << bits - 1) if bits != 8 else 0
        if hi is None: hi = (1 << bits - 1) - 1 if bits != 8 else 255
        t = z3.Int(uid(name))
        s.st.assume(And(le(lo, t), le(t, hi)))
        return IV(bits, t, lo if isc(lo) else None, hi if isc(hi) else None)

    def real(s, name, dbl=False): return FV(z3.Real(uid(name)), dbl)
    def bool(s, name): return z3.Bool(uid(name))

    def struct(s, name, include, struct, vals, kind='hparam', ro=False):
        """vals: {field: (ty, value)}"""
        lay = llir_offsets(include, struct, list(vals))
        o = Obj(name, lay[''][1], kind=kind, ro=ro)
        fs = []
        for f, (ty, v) in vals.items():
            off, sz = lay[f]
            if TSIZE[ty] != sz: raise Unsupported('field %s.%s is not %s' % (struct, f, ty))
            o.cells[off] = (ty, v); fs.append((off, ty, f))
        o.layout = ('struct', fs)
        o.fo = {f: (lay[f][0], ty) for f, (ty, v) in vals.items()}
        return s.reg(o)

    def array(s, name, ty, n, kind='hparam', ro=False, **kw):
        o = Obj(name, mul(n, TSIZE[ty]), layout=('arr', ty), kind=kind, ro=ro, **kw)
        return s.reg(o)

    def cstr(s, name, ro=True, kind='param', maxlen=1 << 30):
        L = z3.Int(uid(name + '.len'))
        s.st.assume(And(L >= 0, L < maxlen))
        o = Obj(name, L + 1, layout=('arr', 'i8'), kind=kind, ro=ro)
        o.slen = L
        o.onread = [lambda st, idx, off, ty, t: [z3.Implies(z3.And(zi(off) >= 0, zi(off) < L), t != 0), z3.Implies(zi(off) == L, t == 0)] if ty == 'i8' else []]
        return s.reg(o)

    def aux(s, **kw):
        a = Aux(); a.roots = s.roots
        a.__dict__.update(kw)
        return a


def llir_offsets(*a):
    from . import llir
    return llir.offsets(*a)


def fld(e, st, o, f):
    off, ty = o.fo[f]
    return e.read(st, o, None, off, ty)


def setf(e, st, o, f, v):
    off, ty = o.fo[f]
    e.write(st, o, None, off, ty, v)


def guarded(e, st, dom, f):
    """dom -> f(st), evaluating f only under dom"""
    if isc(dom) and not dom: return True
    s2 = st.copy(); s2.parent = st; s2.assume(dom); n = len(s2.pc)
    g = f(s2)
    have = {x.get_id() for x in st.pc}
    for x in s2.pc[n:]:
        if x.get_id() not in have: st.assume(Implies(dom, x))
    return Implies(dom, g)


def branch(e, st, cond):
    """-> [(bool, state)] feasible branches"""
    if not isc(cond): cond = unz(z3.simplify(cond))
    if isc(cond): return [(bool(cond), st)]
    a, b = st, st.copy()
    a.assume(cond); b.assume(Not(cond))
    r = []
    if e.pr.feasible(a): r.append((True, a))
    if e.pr.feasible(b): r.append((False, b))
    return r


def fresh_obj(name, size, layout=None, defined=None, kind='heap', **kw):
    o = Obj(name, size, layout=layout, kind=kind, **kw)
    o.spec_fresh = True
    if defined is not None: o.defined = defined
    return o
