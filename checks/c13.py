"""C13: a posterior saved after any history and loaded by another process is the same posterior; a failed save keeps the old one."""
import copy, os, shutil
import numpy as np
import pandas as pd
import radvel, radvel.posterior, radvel.driver
from sim import lib, setups, core, evals
from sim.runner import Check, Violation
from .c14 import close

KINDS = ['crash', 'crash', 'torn', 'torn', 'enospc', 'enospc', 'eio', 'emfile', 'int', 'short']
EXTRA = ['fit', 'mcmc', 'summary', 'summary', 'fix', 'setvals', 'scale', 'uparams', 'like', 'predict']
EVAL = ['lp', 'like', 'ns', 'resid', 'errs', 'predict', 'model', 'bic']


def gen_hist(rng, n):
    ops = []
    for o in evals.gen_ops(rng, n, inj=0.1):
        if rng.random() < 0.25:
            o = dict(op=rng.choice(EXTRA), seed=o['seed'], kind='near')
        ops.append(o)
    return ops


def play(post, ops, base):
    """The history; whatever an operation raises is part of it."""
    for d in ops:
        o = d['op']
        r = np.random.RandomState(d['seed'])
        if o not in EXTRA or o in ('like', 'predict'):
            post, _ = evals.play(post, [d], None, base)
            continue

        def do():
            nonlocal post
            names = post.name_vary_params()
            if o == 'fit':
                post.likelihood.set_vary_params(evals.vector(post, base, 'near', d['seed']))
                post = radvel.fitting.maxlike_fitting(post, verbose=False, method='Nelder-Mead' if d['seed'] % 2 else 'Powell')
            elif o == 'mcmc':
                np.random.seed(d['seed'])
                post.likelihood.set_vary_params(evals.vector(post, base, 'near', d['seed']))
                radvel.mcmc(post, nwalkers=2 * len(names) + 2, nrun=12, ensembles=2, checkinterval=6, minsteps=6, minpercent=50, serial=True, headless=True)
            elif o == 'summary':
                v = evals.vector(post, base, 'near', d['seed'])
                ch = pd.DataFrame(v + 0.01 * r.normal(size=(60, len(v))), columns=names)
                ch['lnprobability'] = r.normal(size=60)
                radvel.driver.sampling_postprocessing(post, ch)
            elif o == 'fix':
                nm = names[d['seed'] % len(names)]
                if len(names) > 2:
                    post.params[nm].vary = False
                    post.vector.dict_to_vector()
                    post.list_vary_params()
                    post.likelihood.list_vary_params()
            elif o == 'setvals':
                for nm in names:
                    post.params[nm].value = base[nm] * (1 + 1e-3 * r.normal()) if nm in base else 0.0
                post.vector.dict_to_vector()
            elif o == 'scale':
                post.params[names[d['seed'] % len(names)]].mcmcscale = float(r.uniform(0.1, 3))
                post.vector.dict_to_vector()
            elif o == 'uparams':
                post.uparams = {nm: float(r.uniform()) for nm in names}
        evals.outcome(lambda: (do(), 0)[1])
    return post


class SaveChanged(Exception):
    """The posterior in memory is not what it was before it was saved."""


def save(post, fn):
    """Saving, successful or not, leaves the posterior in memory as it is."""
    a = static(post)

    def check():
        d = lib.diff(a, static(post))
        if d:
            raise SaveChanged('saving changed the posterior in memory at %s' % d)
    try:
        post.writeto(fn)
    except (Exception, KeyboardInterrupt):
        check()
        raise
    check()


def static(post):
    return dict(
        params={k: (float(p.value) if p.value is not None else None, bool(p.vary), None if p.mcmcscale is None else float(p.mcmcscale), bool(p.linear)) for k, p in post.params.items()},
        order=list(post.params), basis=str(post.params.basis), planets=post.params.num_planets, letters=post.params.planet_letters, tex=post.params.tex_labels(),
        vector=np.array(post.vector.vector), names=list(post.vector.names), free=list(post.name_vary_params()), current=np.array(post.get_vary_params()),
        priors=[(type(p).__name__, repr(p), bool(p.extra_constraint)) for p in post.priors],
        attached={a: ({k: float(v) for k, v in getattr(post, a).items()} if getattr(post, a, None) else None) for a in ('uparams', 'medparams', 'maxparams')},
        data=[(type(l).__name__, np.array(l.x), np.array(l.y), np.array(l.yerr), list(map(str, l.telvec)), str(l.suffix)) for l in evals.likes(post)],
        time_base=float(post.likelihood.model.time_base))


def describe(post, base, seed):
    """What a user can see of a posterior, as plain data."""
    fixed = static(post)
    vals = {'cur': evals.outcome(lambda: post.logprob())}
    for j in range(5):
        v = evals.vector(post, base, ['near', 'near', 'wide', 'bad', 'near'][j], seed + j)
        for o in EVAL[j % 2::2] + ['lp']:
            vals['%d.%s' % (j, o)] = evals.outcome(lambda: evals.value(post, dict(op=o, seed=seed + j), v))
    fixed['text'] = [printed(x) for x in (post, post.likelihood)]        # last: printing copies the vector to the parameters
    return fixed, vals


def printed(x):
    try:
        return repr(x)
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e)


def compare(a, b, what):
    d = lib.diff(a[0], b[0])
    if d:
        raise Violation('restored-differently', '%s: saved and loaded differ at %s' % (what, d))
    for k in a[1]:
        x, y = a[1][k], b[1][k]
        if x[0] != y[0] or (x[0] == 'x' and x[1] != y[1]) or (x[0] == 'v' and not close(x[1], y[1])):
            raise Violation('restored-values', '%s: %s gives %s before saving and %s after loading' % (what, k, x[:3], y[:3]))


def equal(a, b):
    try:
        compare(a, b, '')
        return True
    except Violation:
        return False


class CHECK(Check):
    id = 'C13'
    runs = {'quick': 155, 'thorough': 8000}
    rule = 'a run counts as non-trivial when a fault hit between the first and the last file operation of a save, or the history before the save had at least five operations'
    real = ['radvel.posterior (writeto, load)', 'radvel.likelihood, radvel.gp, radvel.model, radvel.prior, radvel.fitting, radvel.mcmc (serial), radvel.driver.sampling_postprocessing', 'dill, emcee, scipy, celerite']
    stub = ['file system behind the shim: real tmpfs, every call may fail, be cut or be the last', 'factorisations fail when the plan says so', 'wall clock, entropy']
    assumptions = ['a crash is the death of the process: completed writes survive it (no power loss)', 'loaded with the versions of Python and of the libraries it was saved with']

    def gen(self, rng, i, tier):
        return dict(spec=evals.rand_setup(rng), h1=gen_hist(rng, rng.randrange(0, 14)), h2=gen_hist(rng, rng.randrange(1, 10)), seed=rng.randrange(10**6),
                    first=rng.random() < 0.15, faults=[dict(kind=rng.choice(KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 1000])) for _ in range(4)])

    def shrink(self, plan):
        for k in ('h1', 'h2'):
            for x in lib.without_each(plan[k]):
                yield dict(plan, **{k: x})
        for x in lib.without_each(plan['faults']):
            yield dict(plan, faults=x)
        yield from lib.shrink_keys(plan, {'first': [False], 'spec.priors': [[]], 'spec.npl': [1], 'spec.ninst': [1], 'spec.free': ['few'], 'spec.dvdt': [False], 'spec.gp': [None], 'spec.gpfree': [False],
                                          'spec.gpsplit': [False], 'spec.errscale': [None], 'spec.decorr': [False], 'spec.linear': [False]})

    def execute(self, plan, ctx):
        spec = plan['spec']
        root = ctx.root()
        setups.write(spec, root)
        os.makedirs(root + '/elsewhere')
        seed = plan['seed']

        def base():
            return evals.base_values(evals.load(spec))

        def save1():
            evals.install()
            b = base()
            post = play(evals.load(spec), plan['h1'], b)
            save(post, 'p.pkl')
            return describe(post, b, seed)

        def again():
            evals.install()
            b = base()
            post = radvel.posterior.load('p.pkl')
            post = play(post, plan['h2'], b)
            save(post, 'p.pkl')
            return describe(post, b, seed)

        def look():
            b = base()
            os.chdir('elsewhere')
            return describe(radvel.posterior.load('../p.pkl'), b, seed)
        hist = lambda *h: [o['op'] + ('!' + o['inj'][0] if 'inj' in o else '') for x in h for o in x]
        s = ctx.sim(root, [save1], mask=0)
        D1 = lib.must_ok(s.results[0], 'saving after %s' % hist(plan['h1']))
        s = ctx.sim(root, [look], mask=0)
        compare(D1, lib.must_ok(s.results[0], 'loading after %s' % hist(plan['h1'])), '%s posterior after %s' % (spec['gp'] or 'plain', hist(plan['h1'])))
        if plan['first']:
            os.unlink(root + '/p.pkl')

            def again():                # noqa: the save under test is the first one
                evals.install()
                b = base()
                post = play(evals.load(spec), plan['h1'] + plan['h2'], b)
                save(post, 'p.pkl')
                return describe(post, b, seed)
        good = self.clone(ctx, root)
        s = ctx.sim(good, [again], mask=core.MUT)
        D2 = lib.must_ok(s.results[0], 'saving again after %s' % hist(plan['h1'], plan['h2']))
        nev = len([e for e in s.log if e[1] not in ('START', 'EXIT', 'YIELD')])
        s = ctx.sim(good, [look], mask=0)
        compare(D2, lib.must_ok(s.results[0], 'loading'), '%s posterior saved, loaded and saved again after %s' % (spec['gp'] or 'plain', hist(plan['h1'], plan['h2'])))
        ctx.mark(nev, D1[1]['cur'][1], D2[1]['cur'][1])
        ctx.probe('file operations of a save', nev)
        ctx.probe('operations before', len(plan['h1']) + len(plan['h2']))
        if len(plan['h1']) + len(plan['h2']) >= 5:
            ctx.nontrivial = True
        for f in plan['faults']:
            if 'at' not in f:
                f['at'] = 1 + int(f.pop('at_frac') * nev)
            d = self.clone(ctx, root)
            s = ctx.sim(d, [again], mask=core.MUT, faults=[f])
            res, fired = s.results[0], bool(s.faults_fired)
            what = '%s at operation %d of %d of a save over %s' % (f['kind'], f['at'], nev, 'nothing' if plan['first'] else 'an earlier version')
            ctx.probe('%s:%s' % (f['kind'] if fired else 'none', res[0]))
            if res[0] == 'exc' and res[1]['type'] == 'SaveChanged':
                raise Violation('changed-by-saving', '%s: %s' % (what, res[1]['str']))
            if fired:
                ctx.nontrivial = True
            elif res[0] == 'exc':
                lib.must_ok(res, what)
            if not os.path.exists(d + '/p.pkl'):
                if not plan['first']:
                    raise Violation('old-version-gone', '%s (last event %s): there is no file' % (what, s.log[-1]))
                if res[0] == 'ok':
                    raise Violation('silent-failure', '%s: reported success, but there is no file' % what)
                continue
            x = ctx.sim(d, [look], mask=0).results[0]
            if x[0] != 'ok':
                raise Violation('not-loadable', '%s (last event %s): loading gives %s' % (what, s.log[-1], x[1]['str'] if isinstance(x[1], dict) else x[1]))
            new = equal(D2, x[1])
            if not new and (plan['first'] or not equal(D1, x[1])):
                raise Violation('neither-version', '%s: the file holds neither the old nor the new posterior' % what)
            if res[0] == 'ok' and not new:
                raise Violation('silent-failure', '%s: reported success, but the file holds the old posterior' % what)
            if [n for n in os.listdir(d) if n not in os.listdir(root) and n != 'p.pkl'] and res[0] == 'exc' and f['kind'] not in ('crash', 'torn'):
                ctx.probe('leftover temporary file')

    def clone(self, ctx, base):
        d = ctx.root()
        shutil.rmtree(d)
        shutil.copytree(base, d)
        return d
