"""C14: whatever was evaluated before, or failed, a posterior's values at given parameters are those of a fresh posterior."""
import random
import numpy as np
import radvel
from sim import lib, setups, core, evals
from sim.runner import Check, Violation


def close(a, b):
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    if a.shape != b.shape:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.all(fa == fb):
        return False
    if not np.all((a[~fa] == b[~fb]) | (np.isnan(a[~fa]) & np.isnan(b[~fb]))):
        return False
    if not fa.any():
        return True
    scale = max(1.0, float(np.max(np.abs(b[fb]))))
    return bool(np.max(np.abs(a[fa] - b[fb])) <= 1e-7 * scale)


class CHECK(Check):
    id = 'C14'
    runs = {'quick': 2000, 'thorough': 20000}
    rule = 'a run counts as non-trivial when at least five values were compared after a history with an injected failure, a prediction, a copy or a reload in it'
    real = ['radvel.likelihood (RV, composite, GP, celerite)', 'radvel.gp kernels', 'radvel.posterior, radvel.model, radvel.prior, radvel.kepler', 'scipy.linalg, celerite, dill']
    stub = ['factorisations and distance-matrix allocations fail when the plan says so']
    assumptions = ['the same floating-point operations on the same values in one process image give the same result to 1e-7']

    def gen(self, rng, i, tier):
        if rng.random() < 0.08:             # a whole sampler or fit with failing factorisations
            spec = setups.rand_spec(rng, npl=1, gp=rng.choice(['QuasiPer', 'SqExp', 'Per', 'Celerite']))
            spec.update(linear=False, gpfree=rng.random() < 0.5)
            return dict(mode='sampler', spec=spec, what=rng.choice(['mcmc', 'mcmc', 'fit', 'ns']), rate=rng.choice([0.02, 0.1, 0.4]), seed=rng.randrange(2**31))
        ops = evals.gen_ops(rng, rng.randrange(6, 60 if tier == 'thorough' else 36))
        return dict(spec=evals.rand_setup(rng), other=evals.rand_setup(rng, name='other'), ops=ops)

    def shrink(self, plan):
        if plan.get('mode') == 'sampler':
            yield from lib.shrink_keys(plan, {'spec.ninst': [1], 'spec.free': ['few'], 'spec.dvdt': [False], 'spec.gpfree': [False], 'rate': [0.02]})
            return
        n = len(plan['ops'])
        k = n // 2
        while k >= 1:
            for j in range(0, n, k):
                q = dict(plan); q['ops'] = plan['ops'][:j] + plan['ops'][j + k:]
                if q['ops']:
                    yield q
            k //= 2
        yield from lib.shrink_keys(plan, {'spec.priors': [[]], 'spec.npl': [1], 'spec.ninst': [1], 'spec.free': ['few'], 'spec.dvdt': [False], 'spec.gp': [None], 'spec.gpfree': [False], 'spec.gpsplit': [False],
                                          'spec.errscale': [None], 'spec.decorr': [False], 'spec.linear': [False]})
        for j, o in enumerate(plan['ops']):
            if 'inj' in o:
                q = dict(plan); q['ops'] = plan['ops'][:j] + [{k: v for k, v in o.items() if k != 'inj'}] + plan['ops'][j + 1:]
                yield q

    def execute(self, plan, ctx):
        if plan.get('mode') == 'sampler':
            return self.sampler(plan, ctx)
        spec = plan['spec']
        root = ctx.root()
        setups.write(spec, root)
        setups.write(plan['other'], root)

        def a():
            evals.install()
            other = evals.load(plan['other'])
            post = evals.load(spec)
            post, recs = evals.play(post, plan['ops'], other)
            return recs, evals.INJ.calls
        s = ctx.sim(root, [a], mask=0)
        recs, calls = lib.must_ok(s.results[0], 'history')
        ctx.probe('factorisations', calls)

        def b():
            out = {}
            for r in reversed(recs):
                if r.get('side') or r['v'] is None:
                    continue
                post = evals.load(spec)
                v, d = r['v'], r['d']
                if d['op'] == 'cur':
                    d = dict(d, op='lp')
                out[r['i']] = evals.outcome(lambda: evals.value(post, d, v))
            return out
        s = ctx.sim(root, [b], mask=0)
        fresh = lib.must_ok(s.results[0], 'fresh evaluations')
        hist = lambda r: '%s on %s after %s' % (r['d']['op'], spec['gp'] or 'plain likelihood', [o['op'] + ('!' + o['inj'][0] if 'inj' in o else '') for o in plan['ops'][:r['i']]])
        n = 0
        for r in recs:
            o, out = r['d']['op'], r['out']
            ctx.mark(o, r['inj'], out[0], np.array(out[1]).tobytes() if out[0] == 'v' else out[1])
            if r['inj']:
                ctx.faults['inject_' + r['inj']] += 1
            if r.get('side'):
                if out[1] not in ('ValueError',):
                    raise Violation('side-fails-' + o, '%s: %s: %s\n%s' % (hist(r), out[1], out[2], out[3]))
                continue
            if o in evals.STRICT and out[0] == 'x':
                if not (out[1] == 'ValueError' and spec['gp'] == 'QuasiPer' and 'Invalid gp_' in out[2]) and r['inj'] not in ('int', 'alloc'):
                    raise Violation('evaluation-raises', '%s%s: %s: %s\n%s' % (hist(r), ' with a failing factorisation' if r['inj'] else '', out[1], out[2], out[3]))
            if r['inj'] == 'factor' and o in evals.STRICT and out[0] == 'v':
                f = fresh.get(r['i'])
                want = np.inf if o == 'bic' else -np.inf
                if not (out[1] == want) and not (r['v'] is None and np.isnan(out[1]).any()) and not (f is not None and f[0] == 'v' and np.isnan(f[1]).any() and np.isnan(out[1]).any()):
                    raise Violation('failure-not-infinite', '%s with a failing factorisation gives %s, not minus infinity' % (hist(r), out[1]))
                continue
            if r['inj'] or r['i'] not in fresh:
                continue
            f = fresh[r['i']]
            if f[0] != out[0] or (f[0] == 'x' and f[1] != out[1]):
                raise Violation('differs-from-fresh', '%s: %s, on a fresh posterior: %s' % (hist(r), out[:3], f[:3]))
            if f[0] == 'v' and not close(out[1], f[1]):
                raise Violation('differs-from-fresh', '%s: %s, on a fresh posterior: %s' % (hist(r), out[1], f[1]))
            n += 1
        ctx.probe('compared', n)
        ctx.probe('finite', sum(1 for r in recs if r['out'][0] == 'v' and np.isfinite(r['out'][1]).all()))
        if n >= 5 and any('inj' in o or o['op'] in ('predict', 'copy', 'copyswitch', 'dill', 'dillswitch', 'resid') for o in plan['ops']):
            ctx.nontrivial = True

    def sampler(self, plan, ctx):
        """A sampler carries on when factorisations fail, and what it returns are values of the posterior."""
        spec = plan['spec']
        root = ctx.root()
        setups.write(spec, root)

        def run():
            evals.install()
            post = evals.load(spec)
            evals.INJ.often = [random.Random(plan['seed']), plan['rate']]
            np.random.seed(plan['seed'])
            if plan['what'] == 'fit':
                q = radvel.fitting.maxlike_fitting(post, verbose=False)
                evals.INJ.often = None
                names, rows, lps = q.name_vary_params(), [list(q.get_vary_params())], None
            elif plan['what'] == 'mcmc':
                df = radvel.mcmc(post, nwalkers=2 * len(post.get_vary_params()) + 2, nrun=20, ensembles=2, checkinterval=10, minsteps=10, minpercent=50, serial=True, headless=True)
                evals.INJ.often = None
                names = [c for c in df.columns if c != 'lnprobability']
                rows, lps = df[names].values[::7].tolist(), df['lnprobability'].values[::7].tolist()
            else:
                rng = np.random.RandomState(plan['seed'])
                names, rows, lps = post.name_vary_params(), [], []
                for _ in range(40):
                    x = post.prior_transform(rng.uniform(size=len(names)))
                    l = post.likelihood_ns_array(x)
                    if np.isfinite(l):
                        rows.append(list(x)); lps.append(float(l))
                evals.INJ.often = None
            return list(names), rows, lps, evals.INJ.count
        s = ctx.sim(root, [run], mask=0)
        names, rows, lps, count = lib.must_ok(s.results[0], '%s of a %s likelihood with factorisations failing at rate %s' % (plan['what'], spec['gp'], plan['rate']))
        ctx.faults['inject_factor'] += count
        ctx.mark(rows, lps)

        def fresh():
            post = evals.load(spec)
            f = post.likelihood_ns_array if plan['what'] == 'ns' else post.logprob_array
            return [float(f(np.array(r))) for r in rows]
        if lps is not None:
            s = ctx.sim(root, [fresh], mask=0)
            want = lib.must_ok(s.results[0], 'fresh evaluations')
            for r, a, b in zip(rows, lps, want):
                if np.isfinite(a) and not close(a, b):
                    raise Violation('sampler-wrong-value', '%s with failing factorisations returns %s for %s, a fresh posterior gives %s' % (plan['what'], a, dict(zip(names, r)), b))
        if count:
            ctx.nontrivial = True
