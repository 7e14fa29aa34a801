"""C29: a model comparison fits each of the models asked for exactly once, each from the given solution, whatever was compared, or failed, before."""
import collections, contextlib, copy, io, itertools, os, random
import dill
import numpy as np
import scipy.optimize
import radvel, radvel.fitting, radvel.posterior
from sim import lib, setups, evals, pipe
from sim.core import sim_yield
from sim.runner import Check, Violation
from checks.c24 import Recorder

TYPES = ['e', 'nplanets', 'trend', 'jit', 'gp']
LNL, NFREE, NDATA, FREE = r'$\ln{\mathcal{L}}$', r'$N_{\rm free}$', r'$N_{\rm data}$', 'Free Params'


def short_fits(maxfev):
    """The optimizer stops after a few evaluations: what is compared matters here, not how well it is fitted (C24)."""
    real = scipy.optimize.minimize

    def minimize(fun, x0, *a, **k):
        k['options'] = dict(k.get('options') or {}, maxfev=maxfev, maxiter=2)
        return real(fun, x0, *a, **k)
    scipy.optimize.minimize = evals._by_ref(minimize, '_c29_minimize')


def flags(post):
    V = post.vector
    return {nm: (float(V.vector[i][0]), bool(V.vector[i][1])) for nm, i in ((nm, V.indices[nm]) for nm in V.names)}


def expected(post, types):
    """The models of a comparison: list of {name of a parameter that is switched off: its value, None for the given one}."""
    F, npl = flags(post), post.likelihood.model.num_planets
    P = post.vector.params.basis if hasattr(post.vector, 'params') else post.params.basis
    E, C = P.get_eparams(), P.get_circparams()
    free = lambda nm: F[nm][1]
    hyper = sorted({h for l in getattr(post.likelihood, 'like_list', [post.likelihood]) for h in getattr(l, 'hnames', [])})
    models = [{}]
    if 'gp' in types and any(h.startswith('gp_amp') for h in hyper) and any(free(h) for h in hyper):
        off = {h: 0.0 if h.startswith('gp_amp') else None for h in hyper if free(h) or h.startswith('gp_amp')}
        models = models + [off]
    if 'jit' in types:
        off = {nm: 1e-6 for nm in F if nm.startswith('jit') and free(nm)}
        models = models + [dict(m, **off) for m in models if off]
    if 'trend' in types:
        steps, off = [{}], {}
        for nm in ('curv', 'dvdt'):
            if free(nm):
                off = dict(off, **{nm: 0.0})
                steps.append(off)
        models = [dict(m, **o) for m in models for o in steps]
    groups = lambda pls: [g for n in range(len(pls) + 1) for g in itertools.combinations(pls, n)]
    out = []
    for m in models:
        some = [p for p in range(1, npl + 1) if any(free('%s%d' % (nm, p)) for nm in E + C)]
        for gone in groups(some) if 'nplanets' in types else [()]:
            o = dict(m)
            for p in gone:
                for nm in E + C:
                    o['%s%d' % (nm, p)] = 0.0 if nm[0] == 'k' else -np.inf if nm.startswith('logk') else None
            ecc = [p for p in range(1, npl + 1) if p not in gone and any(free('%s%d' % (nm, p)) for nm in E)]
            for circ in groups(ecc) if 'e' in types else [()]:
                out.append(dict(o, **{'%s%d' % (nm, p): 0.0 for p in circ for nm in E}))
    return out


def matches(F, before, model, trend):
    """None or why the fit of the posterior `before` is not that of the model."""
    B = flags(before)
    if sorted(B) != sorted(F):
        return 'parameters'
    for nm, (v, fr) in F.items():
        if before.params.get(nm) is not None and before.params[nm].linear:
            continue
        want = v if model.get(nm, None) is None else model[nm]
        ok = [want] + ([0.0] if trend and nm in ('dvdt', 'curv') and fr else [])
        if B[nm][1] != (fr and nm not in model):
            return 'whether %s is free' % nm
        if not any(lib.same(B[nm][0], w) for w in ok):
            return 'the value of %s' % nm
    return None


def row(q):
    """What a comparison has to report about a fitted posterior."""
    F = flags(q)
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        r = copy.deepcopy(q)
        lp = float(r.logprob())
        res = r.likelihood.residuals()
        out = {NFREE: sum(f for _, f in F.values()), NDATA: len(q.likelihood.y), 'RMS': np.round(np.std(res), 2), LNL: np.round(lp, 2),
               'BIC': np.round(r.likelihood.bic(), 2), 'AICc': np.round(r.likelihood.aic(), 2)}
    b = q.params.basis
    k, e = b.get_circparams()[-1], b.get_eparams()[0]
    letters = q.params.planet_letters or {i: 'abcdefgh'[i] for i in range(1, 6)}
    n = collections.Counter()
    for i in range(1, q.likelihood.model.num_planets + 1):
        n['$K_{%s}$' % letters[i]] += F['%s%d' % (k, i)][1]
        n['$e_{%s}$' % letters[i]] += F['%s%d' % (e, i)][1]
    n[r'$\dot{\gamma}$'] += F['dvdt'][1]
    n[r'$\ddot{\gamma}$'] += F['curv'][1]
    n[r'{$\sigma$}'] += any(f for nm, (_, f) in F.items() if nm.startswith('jit'))
    for nm, (_, f) in F.items():
        if nm.startswith('gp_amp'):
            n[r'GP$_{\rm %s}$' % nm[6:].replace('_', '')] += f
    out[FREE] = sorted(n.elements())
    return out


def entry(e):
    return {k: (sorted(v[0]) if k == FREE else v[0]) for k, v in e.items()}


def close(a, b):
    if isinstance(a, (list, int)) and not isinstance(a, bool):
        return a == b
    return lib.same(float(a), float(b)) or abs(float(a) - float(b)) <= 0.0101 + 1e-9 * abs(float(b))


def judge(F, given, types, fits, comp):
    """None or (rule, message)."""
    want = expected(given, types)
    names = lambda m: ', '.join(sorted(m)) or 'nothing'
    left = list(range(len(want)))
    trend = 'trend' in types
    for f in fits:
        hit = [j for j in left if matches(F, f['before'], want[j], trend) is None]
        if not hit:
            B = flags(f['before'])
            off = sorted(nm for nm in F if F[nm][1] and not B.get(nm, (0, 0))[1])
            twin = [j for j in range(len(want)) if matches(F, f['before'], want[j], trend) is None]
            if twin:
                return 'model-twice', 'the model without %s is fitted twice' % names(want[twin[0]])
            near = [matches(F, f['before'], m, trend) for m in want if sorted(nm for nm in m if F[nm][1]) == off]
            return 'wrong-model', 'a model without %s is fitted that was not asked for%s' % (', '.join(off) or 'nothing', ' (it differs in %s)' % near[0] if near else '')
        left.remove(hit[0])
        V = f['before'].vector.vector
        x = [V[i][0] for i in range(len(V)) if V[i][1]]
        if len(f['x0']) != len(x) or not all(lib.same(float(a), float(b)) for a, b in zip(f['x0'], x)):
            return 'other-parameters-fitted', 'the fit of the model without %s starts from %s; its free parameters are %s' % (names(want[hit[0]]), list(map(float, f['x0'])), x)
    if left:
        return 'model-missing', 'the model without %s is not fitted (%d of %d are)' % (names(want[left[0]]), len(want) - len(left), len(want))
    if comp is not None:
        return rows_of(comp, fits)
    return None


def rows_of(comp, fits):
    if len(comp) != len(fits):
        return 'rows', '%d models were fitted, the comparison has %d rows' % (len(fits), len(comp))
    left = [row(f['after']) for f in fits]
    for e in map(entry, comp):
        hit = [r for r in left if sorted(r) == sorted(e) and all(close(e[k], r[k]) for k in r)]
        if not hit:
            return 'row-differs', 'the comparison has the row %r, which is none of the fitted models %r' % (e, left)
        left.remove(hit[0])
    return None


class CHECK(Check):
    id = 'C29'
    runs = {'quick': 2700, 'thorough': 10000}
    rule = 'a run counts as non-trivial when at least two models of one comparison were checked'
    real = ['radvel.fitting (comparisons and fits)', 'radvel.driver, radvel.cli (fit, mcmc, ic)', 'radvel.posterior, radvel.likelihood, radvel.gp, radvel.prior']
    stub = ['scipy.optimize.minimize stops after a few evaluations', 'evaluations and factorisations fail or are interrupted where the plan says so', 'multiprocess.Pool (simulated pool)', 'wall clock, entropy']
    assumptions = ['which models a comparison consists of follows the documentation of radvel ic: all combinations of what is switched off, trend terms one after the other']

    def gen(self, rng, i, tier):
        gp = rng.choice(['SqExp', 'QuasiPer', 'Celerite', 'Per']) if rng.random() < 0.4 else False
        spec = evals.rand_setup(rng, gp=gp)
        spec.update(npl=rng.choice([1, 1, 2, 2, 3]), free=rng.choice(['few', 'some', 'all', 'all']), dvdt=rng.random() < 0.5, curv=rng.random() < 0.4, jitlo=rng.choice(['0.01', '0.0', '0.0']), errscale=None)
        spec['n'] = 18 + 8 * spec['npl']
        spec['priors'] = [p for p in spec['priors'] if 'Eccentricity' not in p and 'PositiveK' not in p and 'Numerical' not in p]
        types = lambda: rng.sample(TYPES, rng.choice([0, 1, 1, 2, 2, 3])) if not gp or rng.random() < 0.5 else rng.sample(TYPES[:4], rng.choice([0, 1, 1])) + ['gp']
        if spec['npl'] == 3:
            types = lambda t=types: [x for x in t() if x != 'jit'][:2]
        big = spec['npl'] == 3 or gp
        if rng.random() < 0.4:
            cmds = [['fit']]
            for _ in range(rng.choice([1, 1, 2])):
                t = types()
                cmds.append(['ic'] + (['-t'] + t if t else rng.choice([[], ['--simple']])) + rng.choice([[], [], ['-u'], ['-m'], ['-f'], ['-f', '-u']]) + rng.choice([[], [], ['-v']]))
                if rng.random() < 0.3:
                    cmds.append(['fit'])
            stops = [rng.choice([0, 0, 0, 3, 30, 90]) for _ in cmds]
            return dict(mode='cmd', spec=spec, cmds=cmds, stops=stops, seed=rng.randrange(2**31), npool=rng.randrange(2**31), maxfev=rng.choice([10, 40]))
        steps = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < 0.6:
                steps.append(dict(do=rng.choice(['eval', 'dill', 'copy', 'flags', 'flags', 'move', 'fit']), seed=rng.randrange(10**6), kind=rng.choice(['near', 'wide', 'bad'])))
            d = dict(do='comp', seed=rng.randrange(10**6), types=types())
            r = rng.random()
            if r < 0.25:
                d['rate'] = rng.choice([0.01, 0.1, 0.4])
            elif r < 0.4:
                d['factor'] = rng.choice([0.05, 0.4])
            elif r < 0.55:
                d['stop'] = rng.choice([1, 2, 5, 20, 60])
            if rng.random() < 0.2:
                d['list'] = 1
            if rng.random() < 0.3:
                d['verbose'] = 1
            steps.append(d)
        return dict(mode='direct', spec=spec, steps=steps, maxfev=rng.choice([10, 40]), npool=rng.randrange(2**31))

    def shrink(self, plan):
        key = 'steps' if plan['mode'] == 'direct' else 'cmds'
        for st in lib.without_each(plan[key]):
            if st and (key == 'steps' or st[0] == ['fit']):
                yield dict(plan, **{key: st}, **({'stops': [0] * len(st)} if key == 'cmds' else {}))
        for j, d in enumerate(plan.get('steps', [])):
            for k in ('rate', 'factor', 'stop', 'list', 'verbose'):
                if d.get(k):
                    yield dict(plan, steps=plan['steps'][:j] + [{a: b for a, b in d.items() if a != k}] + plan['steps'][j + 1:])
            for t in lib.without_each(d.get('types', [])):
                yield dict(plan, steps=plan['steps'][:j] + [dict(d, types=t)] + plan['steps'][j + 1:])
        yield from lib.shrink_keys(plan, {'spec.priors': [[]], 'spec.npl': [1, 2], 'spec.ninst': [1], 'spec.free': ['few'], 'spec.dvdt': [False], 'spec.curv': [False], 'spec.gp': [False], 'spec.gpfree': [False], 'spec.decorr': [False], 'spec.linear': [False]})

    def execute(self, plan, ctx):
        root = ctx.root()
        setups.write(plan['spec'], root)
        getattr(self, plan['mode'])(plan, ctx, root)

    def direct(self, plan, ctx, root):
        spec = plan['spec']
        last = [j for j, d in enumerate(plan['steps']) if d['do'] == 'comp'][-1:]

        def compare(post, rec, d):
            rec.fits[:] = []
            given, F, n0 = copy.deepcopy(post), flags(post), 0
            k = {}
            if d.get('list'):
                k['mc_list'] = [collections.OrderedDict(mine=(1, 'of the caller'))]
                n0 = 1
            with rec.faults(d):
                o = attempt(lambda: radvel.fitting.model_comp(post, list(d['types']), **dict(k, **({'verbose': True} if d.get('verbose') else {}))))
            if n0 and o[0] == 'ok' and (o[2][:1] != [collections.OrderedDict(mine=(1, 'of the caller'))] or not all(a is b for a, b in zip(o[2], k['mc_list']))):
                return o, ('caller-list', 'the rows of the given list are not kept before those of the comparison'), []
            comp = o[2][n0:] if o[0] == 'ok' else None
            bad = None
            if o[0] == 'ok':
                bad = judge(F, given, d['types'], rec.fits, comp if not d.get('factor') else None)
            keep = any(t != 'gp' for t in d['types'])
            G = flags(post)
            if not bad:
                for nm in F:
                    if F[nm][1] != G[nm][1] or (post.params[nm].vary != given.params[nm].vary if nm in post.params else False):
                        bad = ('given-changed', 'the comparison changed whether %s of the given posterior is free' % nm)
                    elif (keep or not F[nm][1]) and not post.params[nm].linear and not lib.same(F[nm][0], G[nm][0]):
                        bad = ('given-changed', 'the comparison changed %s of the given posterior from %r to %r' % (nm, F[nm][0], G[nm][0]))
                    elif keep and not lib.same(float(post.params[nm].value), float(given.params[nm].value)):
                        bad = ('given-changed', 'the comparison changed the parameter %s of the given posterior from %r to %r' % (nm, given.params[nm].value, post.params[nm].value))
                if [repr(p) for p in post.priors] != [repr(p) for p in given.priors]:
                    bad = ('given-changed', 'the comparison changed the priors of the given posterior')
            if not bad and o[0] == 'ok' and not keep and not (d.get('rate') or d.get('factor')):
                full = row(post)
                if not close(entry(comp[-1])[LNL], full[LNL]):
                    bad = ('given-not-fitted', 'the comparison reports ln L = %r for the full model and leaves the given posterior at %r' % (entry(comp[-1])[LNL], full[LNL]))
            return o, bad, [entry(e) for e in comp or []]

        def body():
            evals.install()
            short_fits(plan['maxfev'])
            rec = Recorder().install()
            post = evals.load(spec)
            base = evals.base_values(post)
            out, saved = [], None
            for j, d in enumerate(plan['steps']):
                v = lambda kind: evals.vector(post, base, kind, d['seed'])
                if d['do'] == 'eval':
                    evals.outcome(lambda: post.logprob_array(v(d['kind'])))
                elif d['do'] == 'dill':
                    post = dill.loads(dill.dumps(post))
                elif d['do'] == 'copy':
                    post = copy.deepcopy(post)
                elif d['do'] == 'move':
                    evals.outcome(lambda: post.likelihood.set_vary_params(v('near')))
                    post.vector.vector_to_dict()
                elif d['do'] == 'fit':
                    attempt(lambda: radvel.fitting.maxlike_fitting(post, verbose=False))
                elif d['do'] == 'flags':
                    r = random.Random(d['seed'])
                    post.vector.vector_to_dict()
                    for nm in r.sample(sorted(post.params), 3):
                        if not post.params[nm].linear:
                            post.params[nm].vary = not post.params[nm].vary
                    if not any(p.vary for p in post.params.values()):
                        post.params['jit_a'].vary = True
                    post.vector.dict_to_vector()
                    post.list_vary_params(), post.likelihood.list_vary_params()
                else:
                    if [j] == last:
                        saved = dill.dumps(post)
                    o, bad, comp = compare(post, rec, d)
                    if o[0] != 'ok':
                        # an interrupted comparison leaves the cached list of free parameters as it was
                        post.list_vary_params(), post.likelihood.list_vary_params()
                    out.append((d, o[:2], bad, comp, len(rec.fits)))
            return out, rec.hits, evals.INJ.count, saved
        s = ctx.sim(root, [body], mask=0, pool_seed=plan['npool'])
        out, hits, count, saved = lib.must_ok(s.results[0], 'comparisons')
        for k, n in hits.items():
            ctx.faults['inject_' + k] += n
        ctx.faults['inject_factor'] += count
        for d, o, bad, comp, n in out:
            what = 'comparison of %s of a %s likelihood%s' % (d['types'], spec['gp'] or 'plain', ''.join(' with %s %s' % (k, d[k]) for k in ('rate', 'factor', 'stop') if d.get(k)))
            ctx.mark('comp', d['types'], o[0], comp)
            if bad:
                raise Violation(bad[0], '%s: %s' % (what, bad[1]))
            if o[0] != 'ok':
                ctx.probe('ended:' + o[1].split(':')[0])
                if not (d.get('rate') or d.get('factor') or d.get('stop') or spec['gp'] and o[1].startswith(('ValueError', 'LinAlgError'))):
                    raise Violation('comparison-fails', '%s: %s' % (what, o[1]))
            elif n >= 2:
                ctx.nontrivial = True
            ctx.probe('models', n)
        d, o, bad, comp, n = out[-1]
        if len(plan['steps']) > 1 and not (d.get('rate') or d.get('factor') or d.get('stop')) and o[0] == 'ok':
            def fresh():
                evals.install()
                short_fits(plan['maxfev'])
                r = Recorder().install()
                o, bad, c = compare(dill.loads(saved), r, d)
                return o[0], c
            f = lib.must_ok(ctx.sim(root, [fresh], mask=0, pool_seed=plan['npool']).results[0], 'comparison in a fresh process')
            if f[0] != 'ok' or not lib.same(f[1], comp):
                raise Violation('depends-on-history', 'comparison of %s after %s: %r; in a fresh process: %r' % (d['types'], [x['do'] for x in plan['steps'][:-1]], comp, f[1]))
            ctx.probe('fresh')

    def cmd(self, plan, ctx, root):
        spec = plan['spec']
        sf = pipe.status_file(root, spec)
        for j, (c, stop) in enumerate(zip(plan['cmds'], plan['stops'])):
            def body():
                evals.install()
                short_fits(plan['maxfev'])
                rec = Recorder().install()
                given = radvel.posterior.load(pipe.read_status(sf)['fit']['postfile']) if c[0] == 'ic' else None
                with contextlib.redirect_stdout(io.StringIO()), rec.faults(dict(seed=1, stop=stop)):
                    o = attempt(lambda: pipe.run_cli(pipe.argv(c, spec), plan['seed'] + j))
                if c[0] == 'fit' or o[0] != 'ok':
                    return o[:2], None, None, len(rec.fits), rec.hits
                T = c[c.index('-t') + 1:] if '-t' in c else ['trend']
                T = [t for t in itertools.takewhile(lambda t: t[0] != '-', T)]
                if '--simple' in c:
                    T = []
                elif '-f' in c:
                    for nm in given.vector.names:
                        if nm.startswith('jit'):
                            given.params[nm].vary = False
                            given.vector.vector[given.vector.indices[nm]][1] = False
                    given.list_vary_params(), given.likelihood.list_vary_params()
                F = flags(given)
                st = pipe.read_status(sf)
                ic = eval(st['ic_compare']['ic'], dict(inf=np.inf, nan=np.nan, OrderedDict=dict, np=np))
                if '-u' in c and T:
                    return o[:2], unmixed(F, given, T, rec.fits, ic), len(ic), len(rec.fits), rec.hits
                return o[:2], judge(F, given, T, rec.fits, ic), len(ic), len(rec.fits), rec.hits
            def old():
                st = pipe.read_status(sf)
                return (st or {}).get('ic_compare') if not isinstance(st, str) else st
            was = old()
            o, bad, n, fits, hits = lib.must_ok(ctx.sim(root, [body], mask=0, pool_seed=plan['npool']).results[0], 'radvel ' + ' '.join(c))
            what = 'radvel %s after %s' % (' '.join(c), plan['cmds'][:j])
            ctx.mark(c, o[0], n, fits)
            for k, m in hits.items():
                ctx.faults['inject_' + k] += m
            if bad:
                raise Violation(bad[0], '%s: %s' % (what, bad[1]))
            if o[0] != 'ok':
                if not stop and not (spec['gp'] and o[1].startswith(('ValueError', 'LinAlgError'))):
                    raise Violation('command-fails', '%s: %s' % (what, o[1]))
                if old() != was:
                    raise Violation('partial-record', '%s was interrupted and changed the record of the comparison' % what)
                if c[0] == 'fit' and not os.path.exists(sf):
                    return
            elif c[0] == 'ic':
                ctx.probe('ic')
                ctx.probe('models', fits)
                ctx.nontrivial = ctx.nontrivial or fits >= 2


def unmixed(F, given, types, fits, ic):
    """Each kind of comparison by itself; models with the same free parameters are reported once."""
    left = list(fits)
    for t in types:
        m = expected(given, [t])
        n = len(m)
        part, left = left[:n], left[n:]
        bad = judge(F, given, [t], part, None)
        if bad:
            return bad
        if t == 'gp':                           # comparing with and without GP refits the given posterior
            given = copy.deepcopy(part[-1]['after'])
            F = flags(given)
    if left:
        return 'model-twice', '%d models too many are fitted' % len(left)
    rows, seen = [row(f['after']) for f in fits], []
    for r in rows:
        if r[FREE] not in seen:
            seen.append(r[FREE])
    got = [entry(e) for e in ic]
    if sorted(e[FREE] for e in got) != sorted(seen):
        return 'rows', 'models with the free parameters %s were fitted, the comparison shows %s' % (seen, [e[FREE] for e in got])
    for e in got:
        if not any(sorted(e) == sorted(r) and all(close(e[k], r[k]) for k in r) for r in rows):
            return 'row-differs', 'the comparison has the row %r, which is none of the fitted models %r' % (e, rows)
    return None


def attempt(fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = fn()
        return 'ok', '', r
    except (Exception, KeyboardInterrupt) as e:
        import traceback
        return 'x', '%s: %s\n%s' % (type(e).__name__, str(e)[:300], traceback.format_exc()[-600:]), None
