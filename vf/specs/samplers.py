"""nx_gaussian_sampler.c, nx_uniform_sampler.c under contract (real arithmetic; the SFMT generator is an oracle)."""
import z3
from ..sym import *
from ..contract import *
from ..alg import *
from ..loops import *
from ..engine import Out, Cand, QCand, PathEnd

FILES = ['src/nx_gaussian_sampler.c', 'src/nx_uniform_sampler.c', 'src/nx_alloc.c']
CONTRACTS = {}; OWN = []


def reg(cls, own=True):
    CONTRACTS[cls.name] = cls()
    if own: OWN.append(cls.name)
    return cls


class Uni(Contract):
    """a value in [0, 1) (rounding of the 32-bit word to single precision is checked by the harness)"""
    name = 'nx_uniform_sampler_sample_s'
    def spec(s, e, st, args):
        u = z3.Real(uid('u')); st.assume(And(u >= 0, u < 1))
        e.assumptions.add('nx_uniform_sampler_sample_s returns a value in [0, 1) at call sites; its own rounding is checked by the harness on chosen generator words')
        return [(st, FV(u, False))]


reg(Uni, own=False)


class Log(Contract):
    """trusted: log is defined for positive arguments and negative below 1"""
    def spec(s, e, st, args):
        x = zr(args[0].t); e.oblige(st, x > 0, 'call', 'log of a positive number')
        r = e.uf1('log')(x); st.assume(Implies(x < 1, r < 0))
        return [(st, FV(r, args[0].dbl))]


class Sqrt(Contract):
    """trusted: sqrt of a non-negative number"""
    def spec(s, e, st, args):
        x = zr(args[0].t); e.oblige(st, x >= 0, 'call', 'square root of a non-negative number')
        r = e.uf1('sqrt')(x)
        return [(st, FV(r, args[0].dbl))]


for n_ in ('log', 'logf'): reg(type(n_, (Log,), dict(name=n_)), own=False)
for n_ in ('sqrt', 'sqrtf'): reg(type(n_, (Sqrt,), dict(name=n_)), own=False)


class Gauss(Contract):
    """writes exactly the n samples; every logarithm and square root taken is defined, for every sequence of uniform samples"""
    ty = 'f32'; total = False; unroll = False
    trusts = ('termination of rejection sampling has probability 1, not proved',)
    def setup(s, e, case):
        b = B(e); s.n = b.int('n', 32, 0, 1 << 28); s.x = b.array('samples', s.ty, s.n.t, kind='param')
        g = b.array('sampler', 'ptr', 1, kind='param'); us = Obj('usampler', 4096, kind='param'); g.cells[0] = ('ptr', PV(us, 0))
        m, sg = b.real('mean', s.ty == 'f64'), b.real('sigma', s.ty == 'f64')
        s.W = z3.Function(uid('written'), z3.IntSort(), z3.BoolSort())
        return b.st, [PV(g, 0), s.n, PV(s.x, 0), m, sg], b.aux()
    def loop_cands(s, e, L):
        out = []
        for a in ints(L):
            for c in (1, 2): out.append(Cand('%s = %dk' % (nm(a), c), lambda v, a=a, c=c: eq(v.get(a), mul(c, v.k))))
        for c in (1, 2):
            for d in (0, 1): out.append(Cand('%dk <= n - %d' % (c, d), lambda v, c=c, d=d: le(add(mul(c, v.k), d), s.n.t)))
        return out
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        j = z3.Int(uid('j')); st.assume(And(j >= 0, lt(j, s.n.t)))


reg(type('gs', (Gauss,), dict(name='nx_gaussian_sampler_sample_s', ty='f32', __doc__=Gauss.__doc__)))
reg(type('gd', (Gauss,), dict(name='nx_gaussian_sampler_sample_d', ty='f64', __doc__=Gauss.__doc__)))


# -- creation, seeding, release: the generator state behind a sampler is a ghost value (the seed it was last given)
class SfmtInit(Contract):
    """trusted: the state is a function of the seed"""
    name = 'sfmt_init_gen_rand'
    def spec(s, e, st, args):
        p = args[0]; e.valid(st, p, 2500, 'sfmt state', wr=True)
        if p.obj is None: raise PathEnd()
        st.ghost['seed'] = {**st.ghost.get('seed', {}), p.obj: (e.U(st, args[1]) if not isinstance(args[1], int) else args[1], p.off)}
        return [(st, None)]


class Time(Contract):
    name = 'time'
    def spec(s, e, st, args): return [(st, IV(64, z3.Int(uid('now')), -(1 << 62), 1 << 62))]


reg(SfmtInit, own=False); reg(Time, own=False)


def usampler(b, name):
    o = Obj(name, 4096, kind='hparam'); b.st.ghost['heap'] = b.st.ghost.get('heap', ()) + (o,); return o


class Seeded(Contract):
    """the sampler's stream is the one of the given seed"""
    gauss = new = False; leakcheck = False; unroll = False
    def setup(s, e, case):
        b = B(e); s.seed = b.int('seed', 32, 0, (1 << 32) - 1); args = [s.seed]
        if not s.new:
            s.us = usampler(b, 'us')
            if s.gauss: g = b.array('g', 'ptr', 1, kind='param'); g.cells[0] = ('ptr', PV(s.us, 0)); args = [PV(g, 0), s.seed]
            else: args = [PV(s.us, 0), s.seed]
        return b.st, args, b.aux()
    def post(s, e, st0, o, args, aux):
        st = o.st
        if o.kind != 'ret': e.oblige(st, False, 'post', 'returns'); return
        if s.new:
            p = o.ret
            if not isinstance(p, PV) or p.obj is None: e.oblige(st, False, 'post', 'a sampler is returned'); return
            if s.gauss:
                p = e.read(st, p.obj, None, p.off, 'ptr')
                if p.obj is None: e.oblige(st, False, 'post', 'the Gaussian sampler has a uniform sampler'); return
            us = p.obj
        else: us = s.us
        sd = st.ghost.get('seed', {}).get(us)
        e.oblige(st, sd is not None and eq(zi(sd[0]), zi(e.U(st, s.seed))), 'post', 'the state is initialised from the seed')
        e.oblige(st, sd is not None and eq(sd[1], 0), 'post', 'the state initialised is the one sampled')


for n_, kw in (('nx_uniform_sampler_init_seed', {}), ('nx_uniform_sampler_new_with_seed', dict(new=True)), ('nx_gaussian_sampler_init_seed', dict(gauss=True)), ('nx_gaussian_sampler_new_with_seed', dict(gauss=True, new=True))):
    reg(type(n_, (Seeded,), dict(name=n_, __doc__=Seeded.__doc__, **kw)))
