"""C24: wherever evaluations fail and whatever happened before, a fit leaves the posterior at the best point it evaluated."""
import contextlib, copy, io, os, random, re
import dill
import numpy as np
import radvel, radvel.fitting, radvel.posterior
from sim import lib, setups, core, evals, pipe
from sim.core import sim_yield
from sim.runner import Check, Violation

METHODS = ['Powell'] * 6 + ['Nelder-Mead', 'L-BFGS-B', 'CG', 'COBYLA', 'TNC']
COMPS = [[], ['e'], ['trend'], ['jit'], ['nplanets'], ['e', 'jit'], ['nplanets', 'trend'], ['gp']]
CMDS = [[['fit']], [['fit'], ['fit']], [['fit'], ['mcmc']], [['fit'], ['ns', '--sampler', 'ultranest', '--overwrite']], [['fit'], ['mcmc'], ['mcmc']], [['fit'], ['ic', '-t', 'e', 'jit']], [['fit'], ['mcmc'], ['ic', '-t', 'trend']]]


class Recorder(object):
    """Every evaluation of a posterior's log-probability, with failures where the plan wants them."""

    def __init__(self):
        self.fits, self.rate, self.seed, self.stop, self.n, self.hits = [], 0, 0, None, 0, {}
        self.depth = 0

    def install(self):
        rec, o, m = self, radvel.posterior.Posterior.logprob, radvel.fitting.maxlike_fitting

        def logprob(post):
            val = o(post)
            if rec.depth:
                rec.n += 1
                if rec.stop and rec.n == rec.stop:
                    rec.hit('interrupt')
                    raise KeyboardInterrupt('injected')
                # a point at which the evaluation fails fails again when it is evaluated again
                r = random.Random('%d/%s' % (rec.seed, np.array(post.get_vary_params()).tobytes().hex()))
                if rec.rate and r.random() < rec.rate:
                    kind = r.choice(['minf', 'minf', 'nan'])
                    rec.hit(kind)
                    return -np.inf if kind == 'minf' else np.nan
                f = rec.fits[-1]
                f['n'] += 1
                if np.isfinite(val) and (f['best'] is None or val > f['best'][0]):
                    f['best'] = (float(val), np.array(post.get_vary_params()))
            return val

        def fitting(post, *a, **k):
            rec.fits.append(dict(before=copy.deepcopy(post), best=None, n=0, x0=np.array(post.get_vary_params())))
            rec.n = 0
            rec.depth += 1
            try:
                q = m(post, *a, **k)
                rec.fits[-1]['after'] = q
                return q
            except KeyboardInterrupt:
                rec.fits[-1]['after'] = None
                raise
            finally:
                rec.depth -= 1
        radvel.posterior.Posterior.logprob = evals._by_ref(logprob, '_c24_logprob')
        radvel.fitting.maxlike_fitting = evals._by_ref(fitting, '_c24_fitting')
        return self

    def hit(self, kind):
        self.hits[kind] = self.hits.get(kind, 0) + 1
        sim_yield('inject-' + kind)

    @contextlib.contextmanager
    def faults(self, d):
        self.rate, self.seed, self.stop = d.get('rate', 0), d['seed'], d.get('stop')
        if d.get('factor'):
            evals.INJ.often = [random.Random(d['seed'] + 1), d['factor']]
        try:
            with np.errstate(all='ignore'):
                yield
        finally:
            self.rate, self.stop, evals.INJ.often = 0, None, None


def state(post):
    return {nm: (float(post.vector.vector[i][0]), bool(post.vector.vector[i][1]), bool(post.vector.vector[i][3]) if post.vector.vector.shape[1] > 3 else False) for nm, i in post.vector.indices.items()}


def judge(fit, q, clean):
    """None or (rule, message); q the fitted posterior, fit the record of its fit."""
    b, f = fit['before'], copy.deepcopy(fit['before'])
    x = np.array(q.get_vary_params())
    want, got = state(b), state(q)
    lin = [nm for nm, p in b.params.items() if p.linear]
    if sorted(want) != sorted(got) or b.name_vary_params() != q.name_vary_params():
        return 'parameters-changed', 'free parameters %s before the fit, %s after' % (b.name_vary_params(), q.name_vary_params())
    for nm, (v, free, _) in want.items():
        if not free and nm not in lin and not lib.same(v, got[nm][0]):
            return 'fixed-changed', 'the fixed parameter %s was %r before the fit and is %r after it' % (nm, v, got[nm][0])
        if nm in q.params and nm not in lin and not lib.same(float(q.params[nm].value), got[nm][0]):
            return 'parameters-differ', 'after the fit the parameter %s is %r in the parameters and %r in the vector' % (nm, float(q.params[nm].value), got[nm][0])
    try:
        val = float(f.logprob_array(x))
    except ValueError as e:
        if 'Invalid gp_' in str(e):
            return None
        raise
    top = fit['best'][0] if fit['best'] else -np.inf
    if clean:                               # where nothing was made to fail the starting point counts too
        try:
            top = np.nanmax([top, float(copy.deepcopy(b).logprob_array(fit['x0']))])
        except ValueError:
            pass
    if np.isfinite(top) and not val >= top - 1e-6 * (1 + abs(top)):
        return 'not-the-best', 'the fit ended at log-probability %r; of the %d points it evaluated the best has %r' % (val, fit['n'], top)
    if lin and np.isfinite(val):
        g = state(f)
        for nm in lin:
            for a in (got[nm][0], float(q.params[nm].value)):
                if abs(g[nm][0] - a) > 1e-6 * (1 + abs(g[nm][0])):
                    return 'offset-differs', 'after the fit the analytic offset %s is %r; at the fitted parameters it is %r' % (nm, a, g[nm][0])
    fit['val'] = val
    return None


class CHECK(Check):
    id = 'C24'
    runs = {'quick': 420, 'thorough': 6000}
    rule = 'a run counts as non-trivial when a fit that evaluated at least twenty points was compared with the best of them'
    real = ['radvel.fitting (fits and model comparisons)', 'radvel.driver, radvel.cli (fit, mcmc, ns, ic)', 'radvel.posterior, radvel.likelihood, radvel.gp, radvel.prior', 'scipy.optimize']
    stub = ['evaluations and factorisations fail or are interrupted where the plan says so', 'nested-sampling packages', 'multiprocess.Pool (simulated pool)', 'wall clock, entropy']
    assumptions = ['an evaluation that was not made to fail has the same value when it is repeated (C14)']

    def gen(self, rng, i, tier):
        if rng.random() < 0.3:
            return dict(mode='cmd', spec=setups.rand_spec(rng, npl=1), cmds=rng.randrange(len(CMDS)), seed=rng.randrange(2**31), npool=rng.randrange(2**31), rate=rng.choice([0, 0, 0.02, 0.2]))
        steps = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < 0.5:
                steps.append(dict(do=rng.choice(['eval', 'dill', 'copy', 'free', 'move']), seed=rng.randrange(10**6), kind=rng.choice(['near', 'wide', 'bad'])))
            d = dict(do=rng.choice(['fit', 'fit', 'fit', 'comp']), seed=rng.randrange(10**6), method=rng.choice(METHODS), start=rng.choice([None, 'near', 'wide', 'wide', 'bad']), comp=rng.choice(COMPS), verbose=rng.random() < 0.3)
            r = rng.random()
            if r < 0.3:
                d['rate'] = rng.choice([0.01, 0.1, 0.4])
            elif r < 0.45:
                d['factor'] = rng.choice([0.05, 0.4])
            elif r < 0.6 and d['do'] == 'fit':
                d['stop'] = rng.choice([1, 2, 5, 20, 60, 150])
            steps.append(d)
        spec = evals.rand_setup(rng, gp=rng.choice([None, None, 'SqExp', 'QuasiPer', 'Celerite', 'Per']) if rng.random() < 0.4 else False)
        return dict(mode='direct', spec=spec, steps=steps)

    def shrink(self, plan):
        if plan['mode'] == 'direct':
            for st in lib.without_each(plan['steps']):
                if st:
                    yield dict(plan, steps=st)
            for j, d in enumerate(plan['steps']):
                for k in ('rate', 'factor', 'stop'):
                    if d.get(k):
                        yield dict(plan, steps=plan['steps'][:j] + [{a: b for a, b in d.items() if a != k}] + plan['steps'][j + 1:])
                if d.get('start'):
                    yield dict(plan, steps=plan['steps'][:j] + [dict(d, start=None)] + plan['steps'][j + 1:])
        yield from lib.shrink_keys(plan, {'rate': [0], 'cmds': [0], 'spec.priors': [[]], 'spec.npl': [1], 'spec.ninst': [1], 'spec.free': ['few'], 'spec.dvdt': [False], 'spec.gp': [False], 'spec.gpfree': [False], 'spec.errscale': [None], 'spec.decorr': [False], 'spec.linear': [False]})

    def execute(self, plan, ctx):
        root = ctx.root()
        setups.write(plan['spec'], root)
        getattr(self, plan['mode'])(plan, ctx, root)

    def direct(self, plan, ctx, root):
        spec = plan['spec']

        def body():
            evals.install()
            rec = Recorder().install()
            post = evals.load(spec)
            base = evals.base_values(post)
            out = []
            for d in plan['steps']:
                v = lambda kind: evals.vector(post, base, kind, d['seed'])
                if d['do'] == 'eval':
                    evals.outcome(lambda: post.logprob_array(v(d['kind'])))
                elif d['do'] == 'dill':
                    post = dill.loads(dill.dumps(post))
                elif d['do'] == 'copy':
                    post = copy.deepcopy(post)
                elif d['do'] == 'move':
                    evals.outcome(lambda: post.likelihood.set_vary_params(v('near')))
                elif d['do'] == 'free':
                    nm = post.name_vary_params()
                    if len(nm) > 2:
                        post.params[nm[d['seed'] % len(nm)]].vary = False
                        post.vector.dict_to_vector()
                        post.list_vary_params(), post.likelihood.list_vary_params()
                else:
                    if d['start']:
                        post.likelihood.set_vary_params(v(d['start']))
                    rec.fits[:] = []
                    clean = not (d.get('rate') or d.get('factor') or d.get('stop'))
                    with rec.faults(d):
                        if d['do'] == 'fit':
                            o = self.attempt(lambda: radvel.fitting.maxlike_fitting(post, verbose=d['verbose'] and not d.get('factor'), method=d['method']))
                        else:
                            o = self.attempt(lambda: radvel.fitting.model_comp(copy.deepcopy(post), params=d['comp']))
                    r = dict(o=o[:3], fits=[], bad=None)
                    with np.errstate(all='ignore'):
                        for f in rec.fits:
                            q = f.get('after')
                            if q is None:
                                continue
                            bad = judge(f, q, clean)
                            r['bad'] = r['bad'] or bad
                            r['fits'].append((f['n'], f.get('val')))
                        if o[0] == 'ok' and d['do'] == 'comp' and not r['bad'] and not d.get('factor'):
                            r['bad'] = self.entries(o[3], rec.fits)
                    if d['do'] == 'fit' and o[0] == 'ok':
                        post = rec.fits[-1]['after']
                    out.append((d, r))
            return out, rec.hits, evals.INJ.count
        s = ctx.sim(root, [body], mask=0)
        out, hits, count = lib.must_ok(s.results[0], 'fits')
        for k, n in hits.items():
            ctx.faults['inject_' + k] += n
        ctx.faults['inject_factor'] += count
        for d, r in out:
            what = '%s%s of a %s likelihood from %s' % (d['do'], ' by ' + d['method'] if d['do'] == 'fit' else ' ' + str(d['comp']), spec['gp'] or 'plain', d['start'] or 'its current values')
            what += ''.join(' with %s %s' % (k, d[k]) for k in ('rate', 'factor', 'stop') if d.get(k))
            ctx.mark(d['do'], d['method'], r['o'][0], [f[1] for f in r['fits']])
            if r['o'][0] != 'ok':
                ctx.probe('%s:%s' % (d['do'], r['o'][1]))
                # an optimizer that was given nan or infinity may go on to points at which priors and kernels raise
                hard = not (d.get('rate') or d.get('factor') or d.get('stop')) and d['start'] in (None, 'near') and d['method'] == 'Powell' and d['do'] == 'fit' and not spec['gp'] and not spec.get('errscale')
                if hard and not (r['o'][1] == 'ValueError' and 'Invalid gp_' in r['o'][2]):
                    raise Violation('fit-fails-' + r['o'][1], '%s: %s: %s' % (what, r['o'][1], r['o'][2]))
            if r['bad']:
                raise Violation(r['bad'][0], '%s: %s' % (what, r['bad'][1]))
            for n, val in r['fits']:
                ctx.probe('fits')
                if val is not None and np.isfinite(val):
                    ctx.probe('finite')
                    if n >= 20:
                        ctx.nontrivial = True

    def attempt(self, fn):
        try:
            with contextlib.redirect_stdout(io.StringIO()) as f:
                r = fn()
            return ('ok', f.getvalue(), None, r)
        except (Exception, KeyboardInterrupt) as e:
            import traceback
            return ('x', type(e).__name__, str(e)[:300] + '\n' + traceback.format_exc()[-600:], None)

    def entries(self, comp, fits):
        """A comparison reports, model by model, the posterior its fit found."""
        if len(comp) != len(fits):
            return 'comparison-entries', '%d models were fitted, the comparison has %d entries' % (len(fits), len(comp))
        for e, f in zip(comp, fits):
            if f.get('val') is None or not np.isfinite(f['val']):
                continue
            lnl = [v[0] for k, v in e.items() if 'ln' in k and 'L' in k]
            if lnl and abs(lnl[0] - f['val']) > 0.0051 + 1e-6 * abs(f['val']):
                return 'comparison-value', 'the comparison reports ln L = %r for a model fitted with %r' % (lnl[0], f['val'])
        return None

    def cmd(self, plan, ctx, root):
        spec = plan['spec']
        n = 0
        for j, c in enumerate(CMDS[plan['cmds']]):
            if c[0] == 'mcmc' and spec['free'] == 'all':
                continue                        # eight walkers are too few
            def body():
                rec = Recorder().install()
                with contextlib.redirect_stdout(io.StringIO()) as so, rec.faults(dict(rate=plan['rate'], seed=plan['seed'] + j)):
                    pipe.run_cli(pipe.argv(c, spec), plan['seed'] + j)
                bad = [b for b in (judge(f, f['after'], not plan['rate']) for f in rec.fits if f.get('after') is not None) if b]
                return bad, [(f['n'], f['best'], f.get('val')) for f in rec.fits], so.getvalue(), rec.hits
            s = ctx.sim(root, [body], mask=0, pool_seed=plan['npool'])
            bad, fits, text, hits = lib.must_ok(s.results[0], 'radvel ' + ' '.join(c))
            for k, m in hits.items():
                ctx.faults['inject_' + k] += m
            what = 'radvel %s after %s' % (' '.join(c), CMDS[plan['cmds']][:j])
            if bad:
                raise Violation(bad[0][0], '%s: %s' % (what, bad[0][1]))
            key = {'fit': 'fit', 'mcmc': 'mcmc', 'ns': 'ns'}.get(c[0])
            if key and fits:
                st = pipe.read_status(pipe.status_file(root, spec))
                f = os.path.join(root, st[key]['postfile'])
                got = lib.isolated(lambda: float(radvel.posterior.load(f).logprob()))
                if got[0] != 'ok':
                    raise Violation('saved-unusable', '%s: the saved posterior cannot be evaluated: %s' % (what, got[1]))
                best = fits[-1][1]
                if best and not got[1] >= best[0] - 1e-6 * (1 + abs(best[0])):
                    raise Violation('saved-not-the-best', '%s saved a posterior of log-probability %r; of the %d points its fit evaluated the best has %r' % (what, got[1], fits[-1][0], best[0]))
                say = re.findall(r'Final loglikelihood = (\S+)', text)
                if say and not plan['rate'] and np.isfinite(got[1]) and abs(float(say[-1]) - got[1]) > 1e-5 * (1 + abs(got[1])):
                    raise Violation('printed-differs', '%s printed a log-probability of %s and saved a posterior with %r' % (what, say[-1], got[1]))
                ctx.mark(c[0], got[1])
                n += fits[-1][0]
        ctx.probe('evaluations', n)
        ctx.nontrivial = n >= 20
