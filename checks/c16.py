"""C16: the compiled Kepler solver fails to load at start-up, in some processes or now and then; results and outcomes stay those of the compiled one."""
import importlib, json, os, random, sys
import numpy as np
import radvel, radvel.kepler, radvel.model, radvel.fitting
from sim import lib, setups, core, pipe, ext, evals, pool
from sim.core import sim_yield
from sim.runner import Check, Violation

EXC = {'missing': lambda: ModuleNotFoundError("No module named 'radvel._kepler'"), 'symbol': lambda: ImportError('undefined symbol: PyExc_Gone'), 'nomem': lambda: ImportError('cannot allocate memory in static TLS block'),
       'abi': lambda: ValueError('numpy.dtype size changed, may indicate binary incompatibility'), 'capi': lambda: RuntimeError('module compiled against ABI version 0x1000009 but this version of numpy is 0x2000000'),
       'init': lambda: SystemError('initialization of _kepler failed without raising an exception'), 'attr': lambda: AttributeError("module 'numpy' has no attribute 'core'"), 'io': lambda: OSError(5, 'Input/output error')}
CMDS = [['fit'], ['mcmc'], ['derive'], ['ic', '-t', 'e'], ['table', '-t', 'params', 'rv', 'priors', 'derived'], ['ns', '--sampler', 'ultranest', '--overwrite']]
USED = [0, 0]                               # evaluations with and without the compiled solver


class Flaky(object):
    """Takes the compiled solver away and gives it back."""

    def __init__(self):
        self.mod = sys.modules.get('radvel._kepler')

    def lose(self, exc):
        r = sys.modules['radvel']
        sys.modules.pop('radvel._kepler', None)
        r.__dict__.pop('_kepler', None)
        ext.FINDER.blocked = EXC[exc]()

    def back(self):
        ext.FINDER.blocked = None
        if self.mod is not None:
            sys.modules['radvel._kepler'] = self.mod
            sys.modules['radvel']._kepler = self.mod


def flaky_model(seed, p, exc):
    """Every model evaluation may find the solver lost or back again; each process draws for itself."""
    F, R, pid = Flaky(), [random.Random(seed)], [os.getpid()]
    cls = radvel.model.RVModel
    o = cls.__call__

    def call(self, *a, **k):
        if os.getpid() != pid[0]:
            pid[0] = os.getpid()
            R[0] = random.Random('%d/%d' % (seed, len(pool.LIVE)))
        if R[0].random() < p:
            if R[0].random() < 0.5:
                F.lose(exc)
                USED[1] += 1
            else:
                F.back()
        return o(self, *a, **k)
    cls.__call__ = call


def restart(exc):
    """In a node: RadVel is imported anew, as a new process would, with the solver failing to load (exc None: loading)."""
    import sim
    for k in list(sys.modules):
        if k == 'radvel' or k.startswith('radvel.') and k != 'radvel._kepler' or k in ('sim.lib', 'sim.pipe', 'sim.nsstub', 'sim.nslib', 'sim.evals'):
            del sys.modules[k]
    for k in ('lib', 'pipe', 'nsstub', 'nslib', 'evals'):
        sim.__dict__.pop(k, None)
    mod = sys.modules.pop('radvel._kepler', None)
    ext.FINDER.blocked = EXC[exc]() if exc else None
    if not exc and mod is not None:         # an extension cannot be initialised twice in one process
        sys.modules['radvel._kepler'] = mod
    importlib.import_module('radvel')
    if not exc and mod is not None:
        sys.modules['radvel']._kepler = mod
    return importlib.import_module('sim.pipe')


def gen_orbit(rng):
    e = rng.choice([0.0, rng.uniform(0, 0.99), rng.uniform(0, 0.99), 1 - 10 ** rng.uniform(-2, 0), 10 ** rng.uniform(-12, -1), 0.99, rng.uniform(-0.5, 0), rng.uniform(0.99, 1.6), 1.0, 0.999999])
    per = rng.choice([10 ** rng.uniform(-2, 4), 10 ** rng.uniform(0, 3), 10 ** rng.uniform(0, 3), -10 ** rng.uniform(-2, 2), 1e-9, 1e7])
    return [per, rng.choice([0.0, 2450000.0]) + rng.uniform(-50, 50), e, rng.choice([rng.uniform(-7, 7), 0.0, np.pi / 2, -np.pi]), rng.choice([rng.uniform(0, 100), 0.0, -3.0, 1e4])]


def times(seed, orb):
    r = np.random.RandomState(seed)
    kind = r.randint(9)
    m = np.concatenate([r.uniform(0, 1, 30), 10 ** r.uniform(-17, -1, 10), 1 - 10 ** r.uniform(-17, -1, 10), [0, .5, .25, .75]])
    t = orb[1] + abs(orb[0]) * (m + r.choice([0, 0, 0, r.randint(-50, 50)]))
    return {0: t[:1], 1: t[:0], 2: np.round(t).astype(int), 3: t[::2], 4: t[::-1], 5: t.astype(np.float32).astype(float), 6: t, 7: t, 8: t}[kind]


def near(a, b, scale, tol):
    a, b = np.atleast_1d(np.asarray(a, dtype=float)).ravel(), np.atleast_1d(np.asarray(b, dtype=float)).ravel()
    if a.shape != b.shape:
        return False
    f = np.isfinite(a) & np.isfinite(b)
    if not np.all(f | (np.isnan(a) & np.isnan(b)) | (a == b)):
        return False
    return not f.any() or bool(np.max(np.abs(a[f] - b[f])) <= tol * scale)


class CHECK(Check):
    id = 'C16'
    runs = {'quick': 480, 'thorough': 6000}
    rule = 'a run counts as non-trivial when values computed without the compiled solver were compared with values computed with it, or a command ran to its end without it'
    real = ['radvel.kepler, radvel.orbit, the compiled solver (built from /repo\'s current sources)', 'the import system of Python', 'radvel.cli, radvel.driver, radvel.mcmc, radvel.fitting, radvel.likelihood, radvel.model', 'emcee, scipy']
    stub = ['loading of the extension (fails when and how the plan says)', 'multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'wall clock, entropy']
    assumptions = ['the two solvers stop at 1e-12 in the eccentric anomaly, which is 1e-8 of the semi-amplitude at the largest eccentricity allowed (0.99)']

    def gen(self, rng, i, tier):
        m = rng.choice(['curve', 'curve', 'curve', 'post', 'post', 'mcmc', 'fit', 'startup', 'startup'])
        d = dict(mode=m, spec=setups.rand_spec(rng, npl=None if m == 'post' else 1), exc=rng.choice(sorted(EXC)), seed=rng.randrange(2**31), npool=rng.randrange(2**31), p=rng.choice([0.02, 0.2, 1.0]))
        if m == 'curve':
            d['orbits'] = [[gen_orbit(rng), rng.randrange(10**6)] for _ in range(400 if tier == 'thorough' else 150)]
        elif m == 'post':
            d['spec'] = evals.rand_setup(rng)
            d['ops'] = [o for o in evals.gen_ops(rng, 60, inj=0) if o['op'] in ('lp', 'like', 'ns', 'resid', 'model', 'model1', 'predict', 'bic')]
        elif m == 'mcmc':
            d['spec']['free'] = rng.choice(['few', 'some'])
            d.update(kw=dict(nrun=rng.choice([6, 12]), ensembles=rng.choice([1, 2, 3]), checkinterval=rng.choice([3, 6]), minsteps=1, minpercent=0, serial=rng.random() < 0.4))
        elif m == 'startup':
            d.update(cmds=rng.choice([[0], [0, 1, 2, 4], [0, 5, 2], [0, 3], [5], [0, 1, 3]]), half=rng.random() < 0.3)
        return d

    def shrink(self, plan):
        for k in ('orbits', 'ops'):
            if k in plan:
                for x in lib.without_each(plan[k]):
                    if x:
                        yield dict(plan, **{k: x})
        if plan.get('cmds'):
            for j in range(1, len(plan['cmds'])):
                yield dict(plan, cmds=plan['cmds'][:j])
        yield from lib.shrink_keys(plan, {'half': [False], 'p': [1.0], 'kw.serial': [True], 'kw.ensembles': [1], 'kw.nrun': [6], 'spec.free': ['few'], 'spec.ninst': [1], 'spec.dvdt': [False], 'spec.npl': [1], 'spec.priors': [[]], 'spec.gp': [None]})

    def execute(self, plan, ctx):
        root = ctx.root()
        setups.write(plan['spec'], root)
        getattr(self, plan['mode'])(plan, ctx, root)
        ctx.faults['load_' + plan['exc']] += 1

    def pair(self, plan, ctx, root, body, what):
        """body(with or without) in a process whose solver loads and one whose solver never loads."""
        s = ctx.sim(root, [body], mask=0, pool_seed=plan['npool'])
        a = lib.must_ok(s.results[0], what + ' with the compiled solver')

        def without():
            Flaky().lose(plan['exc'])
            return body()
        s = ctx.sim(root, [without], mask=0, pool_seed=plan['npool'])
        b = lib.must_ok(s.results[0], '%s with the solver failing to load (%s) from now on' % (what, EXC[plan['exc']]()))
        return a, b

    def curve(self, plan, ctx, root):
        def body():
            out = []
            for orb, ts in plan['orbits']:
                with np.errstate(all='ignore'):
                    out.append(evals.outcome(lambda: radvel.kepler.rv_drive(times(ts, orb), list(orb))))
            return out
        a, b = self.pair(plan, ctx, root, body, 'velocities')
        for (orb, ts), x, y in zip(plan['orbits'], a, b):
            t = times(ts, orb)
            what = 'period %r, periastron %r, e %r, omega %r, K %r at %d times (%s)' % (tuple(orb) + (len(t), t.dtype))
            if x[0] == 'x' or y[0] == 'x':
                raise Violation('velocity-fails', '%s: with the compiled solver %s, without %s' % (what, x[:3], y[:3]))
            if not near(x[1], y[1], abs(orb[4]) + 1e-3, 1e-8):
                raise Violation('velocity-differs', '%s: up to %g' % (what, np.max(np.abs(np.ravel(x[1]) - np.ravel(y[1]))) if np.size(x[1]) == np.size(y[1]) else np.nan))
        ctx.probe('orbits', len(a))
        ctx.mark([x[1] for x in a])
        ctx.nontrivial = True

    def post(self, plan, ctx, root):
        spec = plan['spec']

        def body():
            post = evals.load(spec)
            base = evals.base_values(post)
            out = []
            for d in plan['ops']:
                v = evals.vector(post, base, d['kind'], d['seed'])
                out.append((d['op'], d['kind'], evals.outcome(lambda: evals.value(post, d, v))))
            return out

        def shaken(n):
            # how much an answer depends on an error of the solver is a matter of the data and of the kernel: measured
            o, r = radvel.kepler.rv_drive, np.random.RandomState(plan['seed'] + n)

            def rv(t, orbel, *a, **k):
                x = o(t, orbel, *a, **k)
                return x + (0 if orbel[2] == 0 else 3e-9 * abs(orbel[4]) * r.uniform(-1, 1, np.shape(x)))
            radvel.kepler.rv_drive = radvel.model.kepler.rv_drive = rv
            return body()
        a, b = self.pair(plan, ctx, root, body, 'evaluations')
        c = [lib.must_ok(ctx.sim(root, [lambda: shaken(n)], mask=0, pool_seed=plan['npool']).results[0], 'evaluations') for n in (1, 2)]
        n = 0
        for j, ((o, kind, x), (_, _, y)) in enumerate(zip(a, b)):
            z = [k[j][2] for k in c]
            if any(k[0] != x[0] or k[0] == 'v' and np.any(np.isfinite(k[1]) != np.isfinite(x[1])) for k in z):
                continue                    # on the edge: an error of the size of the solver's decides
            if x[0] != y[0] or (x[0] == 'x' and x[1] != y[1]):
                raise Violation('evaluation-fails', '%s (%s): with the compiled solver %s, without %s' % (o, kind, x[:3], y[:3]))
            if x[0] == 'v':
                fin = np.isfinite(x[1])
                scale = 1 + (np.max(np.abs(x[1][fin])) if fin.any() else 0)
                shift = max([np.max(np.abs(k[1][fin] - x[1][fin])) if fin.any() else 0 for k in z])
                if not near(x[1], y[1], 1, 1e-8 * scale + 300 * shift):
                    raise Violation('evaluation-differs', '%s (%s) of a %s likelihood: %s with the compiled solver, %s without' % (o, kind, spec['gp'] or 'plain', x[1], y[1]))
                ctx.probe('tight' if 300 * shift < 1e-3 * scale else 'loose')
                n += 1
        ctx.probe('evaluations', n)
        ctx.mark([x[2][1] for x in a if x[2][0] == 'v'])
        ctx.nontrivial = n > 3

    def mcmc(self, plan, ctx, root):
        spec, kw = plan['spec'], dict(plan['kw'])

        def body():
            flaky_model(plan['seed'], plan['p'], plan['exc'])
            post = lib.load(spec['name'] + '.py')
            kw['nwalkers'] = 2 * len(post.get_vary_params()) + 2
            df = lib.run_mcmc(post, kw, plan['seed'])['df']
            names = post.name_vary_params()
            c = [df['cols'].index(n) for n in names]
            return [(r[c], -r[df['cols'].index('lnprobability')]) for r in df['val']], USED
        self.reevaluate(plan, ctx, root, body)

    def fit(self, plan, ctx, root):
        def body():
            flaky_model(plan['seed'], plan['p'], plan['exc'])
            rec, o = [], radvel.posterior.Posterior.neglogprob_array

            def nlp(post, v):
                rec.append((np.array(v, dtype=float), o(post, v)))
                return rec[-1][1]
            radvel.posterior.Posterior.neglogprob_array = nlp
            post = radvel.fitting.maxlike_fitting(lib.load(plan['spec']['name'] + '.py'), verbose=False)
            rec.append((np.array([post.params[n].value for n in post.name_vary_params()]), -post.logprob()))
            return rec[::max(1, len(rec) // 300)] + rec[-1:], USED
        self.reevaluate(plan, ctx, root, body)

    def reevaluate(self, plan, ctx, root, body):
        """Each value recorded while the solver came and went is the one the compiled solver gives."""
        s = ctx.sim(root, [body], mask=0, pool_seed=plan['npool'])
        rec, used = lib.must_ok(s.results[0], '%s with the solver failing to load (%s) now and then' % (plan['mode'], EXC[plan['exc']]()))

        def again():
            post = lib.load(plan['spec']['name'] + '.py')
            return [post.neglogprob_array(v) for v, _ in rec]
        s = ctx.sim(root, [again], mask=0, pool_seed=plan['npool'])
        vals = lib.must_ok(s.results[0], 'evaluation with the compiled solver')
        for (v, a), b in zip(rec, vals):
            if not near(a, b, 1 + (abs(b) if np.isfinite(b) else 0), 1e-5):
                raise Violation('run-differs', '%s with the solver failing to load (%s) at %g of the evaluations: -log-probability %r at %s; the compiled solver gives %r' % (plan['mode'], plan['exc'], plan['p'], a, v, b))
        ctx.mark(plan['mode'], [a for _, a in rec])
        ctx.probe('recorded', len(rec))
        ctx.probe('losses', used[1])
        ctx.nontrivial = len(rec) > 0

    def logprob(self, f, exc):
        if exc:
            Flaky().lose(exc)
        return float(radvel.posterior.load(f).logprob())

    def startup(self, plan, ctx, root):
        spec, out = plan['spec'], {}
        cmds = [CMDS[i] for i in plan['cmds']]
        for exc in (None, plan['exc']):
            d = ctx.root()
            setups.write(spec, d)
            for j, c in enumerate(cmds):
                # half: only some of the processes of the analysis lose it
                e = None if plan['half'] and j % 2 == 0 else exc

                def body():
                    pp = restart(e)
                    pp.run_cli(pp.argv(c, spec), plan['seed'] + j)
                    return sys.modules['radvel'].kepler.cext
                s = ctx.sim(d, [body], mask=0, pool_seed=plan['npool'])
                lib.must_ok(s.results[0], 'radvel %s in a process whose compiled solver %s' % (' '.join(c), 'fails to load: %s' % EXC[e]() if e else 'loads'))
                ctx.probe('%s:%s' % (c[0], 'without' if e else 'with'))
            S = pipe.summary(d, spec)
            f = os.path.join(d, pipe.OUT, spec['name'] + '_post_obj.pkl')
            lp = [lib.isolated(lambda: self.logprob(f, e)) for e in (None, plan['exc'])] if os.path.exists(f) else None
            out[exc] = ({k: sorted(v) for k, v in S['status'].items()}, sorted(S['files']), lp, [k for k, v in S['files'].items() if v.startswith('BROKEN')])
        a, b = out[None], out[plan['exc']]
        if b[3]:
            raise Violation('artefact-broken', 'without the compiled solver %s cannot be read' % b[3])
        if a[:2] != b[:2]:
            raise Violation('records-differ', '%s without the compiled solver (%s): %s' % (cmds, plan['exc'], lib.diff(list(a[:2]), list(b[:2]))))
        for how, lp in (('with', a[2]), ('without', b[2])):
            if lp is not None and (lp[0][0] != 'ok' or lp[1][0] != 'ok' or not near(lp[0][1], lp[1][1], 1 + np.nan_to_num(abs(lp[0][1])), 1e-5)):
                raise Violation('fit-differs', '%s: log-probability of the posterior made %s the compiled solver: %s when evaluated with it, %s without (%s)' % (cmds, how, lp[0], lp[1], plan['exc']))
        ctx.mark(a[0], a[2] and a[2][1])
        ctx.nontrivial = True
