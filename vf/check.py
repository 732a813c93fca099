"""Per-property check: discharge every obligation of the property's contracts on /repo's current source; on a failed
obligation search for a concrete failing input with the property's harness; bounded stand-ins are labelled as such."""
import sys, os, json, time, importlib, collections, hashlib, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import props, llir


def prove_one(args):
    mod, fn, tier, case = args
    from vf.contract import verify, Result
    t0 = time.time()
    try:
        m = importlib.import_module('vf.specs.' + mod)
        c = m.CONTRACTS[fn]
        if case is not None: c.cases = (case,)
        r = verify(c, getattr(c, 'files', m.FILES), m.CONTRACTS, bv=getattr(c, 'bv', False), timeout=8000 if tier == 'quick' else 20000, budget=240 if tier == 'quick' else 900)
        inv = sum(1 for o in r.obls if o['kind'] == 'invariant')
        return dict(mod=mod, fn=fn, obls=r.obls, unsupported=r.unsupported, t=r.t, solver=r.solver_t, inlined=r.inlined, assumptions=sorted(r.assumptions),
                    backends=r.backends, outs=r.outs, doc=(c.__doc__ or '').strip(), trusts=getattr(c, 'trusts', ()))
    except llir.IRError as ex:
        return dict(mod=mod, fn=fn, obls=[], unsupported='compile: %s' % str(ex)[:800], t=time.time() - t0, solver=0, inlined=[], assumptions=[], backends={}, outs=0, doc='', trusts=())
    except Exception as ex:
        return dict(mod=mod, fn=fn, obls=[], unsupported='internal: %s %s' % (ex, traceback.format_exc()[-1500:]), t=time.time() - t0, solver=0, inlined=[], assumptions=[], backends={}, outs=0, doc='', trusts=())


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier == 'replay':
        from vf import fuzz
        sys.exit(fuzz.replay(prop, sys.argv[3]))
    t0 = time.time()
    llir.config_dir()
    P = props.PROPS[prop]
    jobs = []
    for m, fs in P['proofs']:
        for f in fs:  # slow functions: the cases of the contract in parallel
            cs = importlib.import_module('vf.specs.' + m).CONTRACTS[f].cases if f in P.get('slow', ()) else ()
            jobs += [(m, f, tier, c) for c in cs] if len(cs) > 1 else [(m, f, tier, None)]
    order = {k: i for i, k in enumerate(P.get('slow', ()))}
    jobs.sort(key=lambda j: order.get(j[1], 99))
    res = []
    if jobs:
        ctx = multiprocessing.get_context('fork')
        try:
            with ProcessPoolExecutor(min(8, len(jobs)), mp_context=ctx) as ex:
                futs = {ex.submit(prove_one, j): j for j in jobs}
                for f in as_completed(futs):
                    j = futs[f]
                    try: res.append(f.result())
                    except Exception as e2:
                        res.append(dict(mod=j[0], fn=j[1], obls=[], unsupported='prover process ended: %s' % e2, t=0, solver=0, inlined=[], assumptions=[], backends={}, outs=0, doc='', trusts=()))
        except Exception as e3:
            done = {r['fn'] for r in res}
            for j in jobs:
                if j[1] not in done: res.append(dict(mod=j[0], fn=j[1], obls=[], unsupported='prover process ended: %s' % e3, t=0, solver=0, inlined=[], assumptions=[], backends={}, outs=0, doc='', trusts=()))
    merged = {}
    for r in res:
        k = (r['mod'], r['fn']); o = merged.get(k)
        if o is None: merged[k] = r; continue
        o['obls'] += r['obls']; o['unsupported'] = o['unsupported'] or r['unsupported']; o['t'] += r['t']; o['solver'] += r['solver']; o['outs'] += r['outs']
        o['inlined'] = sorted(set(o['inlined']) | set(r['inlined'])); o['assumptions'] = sorted(set(o['assumptions']) | set(r['assumptions']))
        for b, n in r['backends'].items(): o['backends'][b] = o['backends'].get(b, 0) + n
    res = sorted(merged.values(), key=lambda r: (r['mod'], r['fn']))
    failed = [(r, o) for r in res for o in r['obls'] if o['status'] != 'proved']
    unsup = [r for r in res if r['unsupported']]
    for r in res:
        c = collections.Counter(o['status'] for o in r['obls'])
        print('%-44s %4d obligations %4d discharged %6.2fs%s' % (r['fn'], len(r['obls']), c['proved'], r['t'], '  OUT OF REACH: ' + r['unsupported'].splitlines()[0][:160] if r['unsupported'] else ''))
    for r, o in failed:
        print('FAILED obligation: %s [%s] %s (in %s, line %s, case %r): %s' % (r['fn'], o['kind'], o['what'], o['at'], o['line'], o.get('case'), o['status']))
    # ---- bounded harness
    fz = None
    hf = os.path.join(HERE, 'harness', prop + '.cc')
    if os.path.exists(hf):
        from vf import fuzz
        if failed: secs = P.get('fuzz_fail', 150) if tier == 'quick' else 500
        elif unsup: secs = P.get('fuzz_unsup', 90) if tier == 'quick' else 400
        else: secs = P.get('fuzz', 15) if tier == 'quick' else 240
        if secs:
            fz = fuzz.run(prop, secs, seed)
            print('harness %s: %s, %d executions, %.1fs' % (prop, fz['status'], fz['execs'], fz['wall']))
            if fz['status'] == 'error': print(fz['output'][-2500:])
    violations = []
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, '%s.txt' % prop)
    rc = 0
    if (fz and fz['status'] == 'crash') or failed:
        with open(rp, 'w') as f:
            f.write('property %s: %s\n\n' % (prop, P['title']))
            for r, o in failed:
                f.write('failed obligation: function %s, kind %s: %s\n  at %s line %s, case %r, verdict %s\n  goal: %s\n  solver model: %s\n\n' % (r['fn'], o['kind'], o['what'], o['at'], o['line'], o.get('case'), o['status'], o.get('goal'), o.get('model')))
            if fz and fz['status'] == 'crash':
                ip = os.path.join(rdir, '%s.input' % prop)
                open(ip, 'wb').write(fz['input'])
                f.write('failing input (%d bytes, %s), replay with: cd %s && python3-vt vf/check.py %s replay %s\nhex: %s\n\n%s\n' % (len(fz['input']), ip, HERE, prop, ip, fz['input'].hex(), fz['output']))
            elif fz: f.write('harness: %s after %d executions\n' % (fz['status'], fz['execs']))
        rc = 1
        if fz and fz['status'] == 'crash':
            print(fz['output'][:3000])
            line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        else: line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
        violations.append(line)
    for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    nob = sum(len(r['obls']) for r in res); nd = nob - len(failed)
    if jobs and nob == 0 and not unsup: print('no obligations generated')
    be = collections.Counter()
    for r in res:
        for k, v in r['backends'].items(): be[k] += v
    assumptions = sorted({a for r in res for a in r['assumptions']} | set(P.get('assumptions', ())) | {t for r in res for t in r['trusts']})
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(obligations=nob, discharged=nd,
                            checker_cmd='python3-vt vf/check.py %s %s' % (prop, tier),
                            trusted_base=['clang 18 front end and its sroa/early-cse/simplifycfg/loop-simplify passes', 'the LLVM-IR verification-condition generator in /verif/vf', 'z3 and cvc5', 'the library models in /verif/vf/models.py'],
                            functions_under_contract=[dict(function=r['fn'], contract=r['doc'], obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']), seconds=round(r['t'], 2), solver_seconds=round(r['solver'], 2),
                                                           by_kind=dict(collections.Counter(o['kind'] for o in r['obls'])), inlined_callees=r['inlined'], **({'out_of_reach': r['unsupported'][:400]} if r['unsupported'] else {})) for r in res],
                            back_ends=dict(z3=nob - be.get('cvc5', 0), **be), solver_seconds=round(sum(r['solver'] for r in res), 2),
                            failed=[dict(function=r['fn'], kind=o['kind'], what=o['what'], line=o['line'], status=o['status']) for r, o in failed],
                            bounded=dict(label='bounded, not counted as proved', functions=P.get('bounded', []), bound=P.get('bound', ''), executions=fz['execs'] if fz else 0, edge_coverage=fz.get('cov', 0) if fz else 0, status=fz['status'] if fz else 'not run', seconds=round(fz['wall'], 1) if fz else 0,
                                         functions_fallen_back=[r['fn'] for r in unsup])),
              assumptions=assumptions)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %.1fs' % (prop, tier, nob, nd, time.time() - t0))
    for l in violations: print(l)
    sys.stdout.flush()
    sys.exit(rc)


def known(prop):
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p): return []
    out = []
    for l in open(p):
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop): out.append(l.split(' ', 2)[2])
    return out


if __name__ == '__main__': main()
