"""C05: rows of every sample table keep their parameters, log-probability and place."""
import os, random
import numpy as np
import pandas as pd
import emcee
import radvel, radvel.nested_sampling
from sim import lib, setups, pool, core, recorder, nsstub, pipe
from sim.runner import Check, Violation
from .c01 import gen_mcmc

BACK = ['dynesty-static', 'dynesty-dynamic', 'ultranest', 'nautilus', 'multinest']


def hook_yields():
    """Record every state any sampler yields, in whichever process, and every reset."""
    o, r = emcee.EnsembleSampler.sample, emcee.EnsembleSampler.reset
    recorder.start()

    def sample(self, *a, **k):
        for st in o(self, *a, **k):
            recorder.add(np.concatenate([np.array(st.coords, dtype=float), np.array(st.log_prob, dtype=float)[:, None]], axis=1))
            yield st

    def reset(self, *a, **k):
        if getattr(self.backend, 'initialized', False) and self.backend.iteration:      # not the one of the constructor
            recorder.add('reset')
        return r(self, *a, **k)
    emcee.EnsembleSampler.sample = sample
    emcee.EnsembleSampler.reset = reset


def kept(rec, pre=None):
    """States since the last reset (or before it when nothing came after)."""
    segs, cur = [], list(pre or [])
    for x in rec:
        if isinstance(x, str):
            if cur:
                segs.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        segs.append(cur)
    return np.concatenate(segs[-1]) if segs else np.zeros((0, 0))


def check_rows(fn, cols, val, what, idx=None, tol=1e-9, exact_free=True):
    """lnprobability of each row = the posterior's value at the row's named parameters, in a posterior of its own."""
    post = lib.load(fn)
    free = [k for k in post.params if post.params[k].vary]
    names = [c for c in cols if c != 'lnprobability']
    if exact_free and sorted(names) != sorted(free):
        raise Violation('columns', '%s: columns %s, free parameters are %s' % (what, names, free))
    j = list(cols).index('lnprobability')
    for i in (range(len(val)) if idx is None else idx):
        for k in free:
            post.params[k].value = float(val[i][list(cols).index(k)])
        post.vector.dict_to_vector()
        lp = float(post.logprob())
        got = float(val[i][j])
        if not (lp == got or abs(lp - got) <= tol * max(1.0, abs(lp))):
            raise Violation('row-logprob', '%s: row %d says %r, the posterior at its parameters is %r' % (what, i, got, lp))


class CHECK(Check):
    id = 'C05'
    runs = {'quick': 500, 'thorough': 5000}
    rule = 'a run counts as non-trivial when a table with samples of at least two ensembles, or of a nested-sampling backend, was compared row by row'
    real = ['radvel.mcmc', 'radvel.nested_sampling.run, load_results', 'radvel.driver/cli in the pipeline runs', 'radvel posterior/likelihood/model', 'emcee', 'h5py, pytables, pandas']
    stub = ['multiprocess.Pool (simulated pool)', 'dynesty, ultranest, nautilus, pymultinest (deterministic stand-ins with the same interface)', 'wall clock, entropy']
    assumptions = []

    def gen(self, rng, i, tier):
        mode = rng.choice(['mcmc', 'mcmc', 'mcmc', 'ns', 'ns', 'pipe'])
        gp = rng.choice(['QuasiPer', 'SqExp', 'Per', 'Celerite']) if rng.random() < 0.2 else False
        spec = setups.rand_spec(rng, gp=gp if mode != 'pipe' else False, npl=None if mode != 'pipe' else 1)
        p = dict(mode=mode, spec=spec, npseed=rng.randrange(2**31), npool=rng.randrange(2**31))
        if mode == 'mcmc':
            p['kw'] = gen_mcmc(rng)
            p['serial'] = rng.random() < 0.4
            p['proceed'] = rng.random() < 0.4
        elif mode == 'ns':
            p['runs'] = [dict(sampler=rng.choice(BACK), seed=rng.randrange(1000), out=rng.random() < 0.6, nstep=rng.randrange(1, 4), nper=rng.randrange(3, 9)) for _ in range(2)]
        else:
            p['cmd'] = rng.choice(['mcmc', 'mcmc', 'ns'])
            p['sampler'] = rng.choice(BACK)
            p['thin'] = rng.choice([1, 1, 2, 3])
        return p

    def shrink(self, plan):
        t = {'spec.gp': [False], 'spec.npl': [1], 'spec.free': ['few'], 'spec.ninst': [1], 'spec.dvdt': [False], 'serial': [True], 'proceed': [False], 'thin': [1]}
        if 'kw' in plan:
            ci = plan['kw']['checkinterval']
            t.update({'kw.thin': [1], 'kw.ensembles': [1, 2, 3], 'kw.nwalkers': [2], 'kw.nrun': [ci - 1, 2 * ci - 2]})
        yield from lib.shrink_keys(plan, t)
        if len(plan.get('runs', [])) > 1:
            for r in lib.without_each(plan['runs']):
                q = dict(plan); q['runs'] = r
                yield q

    def execute(self, plan, ctx):
        root = ctx.root()
        fn = setups.write(plan['spec'], root)
        getattr(self, 'do_' + plan['mode'])(plan, ctx, root, fn)

    # -- MCMC
    def do_mcmc(self, plan, ctx, root, fn):
        spec = plan['spec']

        def node(thin, name):
            def f():
                hook_yields()
                kw = dict(plan['kw'], serial=plan['serial'], thin=thin, save=True, savename=name)
                post = lib.load(spec['name'] + '.py')
                out = [(lib.run_mcmc(post, kw, plan['npseed']), recorder.take())]
                if plan['proceed']:
                    out.append((lib.run_mcmc(post, dict(kw, proceed=True, proceedname=name), plan['npseed'] + 1), recorder.take()))
                    h = None
                return out
            return f
        N = plan['kw']['thin']
        s = ctx.sim(root, [node(1, 'a.h5')], mask=0, pool_seed=plan['npool'])
        out = lib.must_ok(s.results[0], 'MCMC run')
        E = plan['kw']['ensembles']
        for j, (r, rec) in enumerate(out):
            what = 'segment %d of the MCMC run' % j
            cols, val = r['df']['cols'], r['df']['val']
            check_rows(fn, cols, val, what)
            if j == 0:
                truth = kept(rec)
            else:
                # what was saved before: everything since the last reset, unless that reset was the last thing that happened
                prev = out[0][1]
                pre = []
                for x in prev:
                    pre = pre + [x]
                last = [i for i, x in enumerate(pre) if isinstance(x, str)]
                if last and last[-1] == len(pre) - 1:
                    k = len(pre) - 1
                    while k >= 0 and isinstance(pre[k], str):
                        k -= 1
                    pre = pre[:k + 1]            # reset after the last save: the file still has the samples
                    last = [i for i, x in enumerate(pre) if isinstance(x, str)]
                if last:
                    pre = pre[last[-1] + 1:]
                truth = kept(rec, pre)
            ctx.mark(val.shape, float(np.nansum(val)))
            if truth.shape != val.shape or not lib.same(lib.rows(truth), lib.rows(val)):
                raise Violation('rows', '%s: the table (%s) is not every kept step of every walker exactly once (%s sampled and kept)' % (what, val.shape, truth.shape))
        h = lib.read_h5(root + '/a.h5')
        if not isinstance(h, dict):
            raise Violation('unreadable', str(h))
        n, nw, nd = h['0_chain'].shape
        r = out[-1][0]
        v = r['df']['val']
        if v.shape[0] != E * n * nw:
            raise Violation('rows', 'the table has %d rows, the saved chains hold %d samples' % (v.shape[0], E * n * nw))
        t = v.reshape(nw, E, n, nd + 1)
        for e in range(E):
            x = np.concatenate([h['%d_chain' % e], h['%d_log_prob' % e][:, :, None]], axis=2).transpose(1, 0, 2)
            if not lib.same(x, t[:, e]):
                raise Violation('place', 'walker tracks of ensemble %d are not where the trend plot reads them' % e)
        if E > 1:
            ctx.nontrivial = True
        if N > 1:
            s = ctx.sim(root, [node(N, 'b.h5')], mask=0, pool_seed=plan['npool'])
            thin = lib.must_ok(s.results[0], 'thinned MCMC run')
            for j in range(len(out)):
                v = out[j][0]['df']['val']
                v = v.reshape(nw * E, -1, v.shape[1])[:, ::N].reshape(-1, v.shape[1])
                d = lib.diff(v, thin[j][0]['df']['val'])
                if d or out[j][0]['df']['cols'] != thin[j][0]['df']['cols']:
                    raise Violation('thinning', 'thin=%d is not every %d-th step of every walker of the unthinned table%s' % (N, N, d))
            ctx.probe('thinned')
        ctx.probe('mcmc_rows', int(v.shape[0]))

    # -- nested sampling
    def do_ns(self, plan, ctx, root, fn):
        spec = plan['spec']

        def node():
            out = []
            post = lib.load(spec['name'] + '.py')
            for j, r in enumerate(plan['runs']):
                nsstub.install(seed=r['seed'], nstep=r['nstep'], nper=r['nper'])
                np.random.seed(plan['npseed'] + j)
                d = 'o%d' % j if r['out'] else None
                res = radvel.nested_sampling.run(post, output_dir=d, sampler=r['sampler'])
                out.append(dict(df=lib.df_pack(res['samples']), lnZ=float(res['lnZ']), lnZerr=float(res['lnZerr']), names=post.name_vary_params()))
            return out
        s = ctx.sim(root, [node], mask=0)
        out = lib.must_ok(s.results[0], 'nested sampling')
        for j, (r, g) in enumerate(zip(plan['runs'], out)):
            what = '%s results' % r['sampler']
            want = nsstub.expected(lib.load(fn), r['seed'], r['nstep'], r['nper'])
            cols, val = g['df']['cols'], g['df']['val']
            self.compare_ns(what, g['names'], cols, val, g['lnZ'], g['lnZerr'], want)
            check_rows(fn, cols, val, what)
            ctx.mark(r['sampler'], float(np.nansum(val)))
            if r['out']:
                f = '%s/o%d/results.hdf5' % (root, j)
                x = lib.isolated(lambda: (lambda q: (lib.df_pack(q['samples']), float(q['lnZ']), float(q['lnZerr'])))(radvel.nested_sampling.load_results(f)))
                if x[0] != 'ok':
                    raise Violation('results-unreadable', '%s: %s' % (what, x[1]))
                d = lib.diff((g['df'], g['lnZ'], g['lnZerr']), x[1])
                if d:
                    raise Violation('results-file', '%s differ when loaded back%s' % (what, d))
                ctx.probe('loaded_back')
            ctx.nontrivial = True
            ctx.probe('ns:' + r['sampler'])

    def compare_ns(self, what, names, cols, val, lnZ, lnZerr, want):
        ix = [cols.index(n) for n in names]
        if sorted(cols) != sorted(list(names) + ['lnprobability']):
            raise Violation('columns', '%s: columns %s' % (what, cols))
        got = val[:, ix]
        if got.shape != want['samples'].shape or not np.allclose(got, want['samples'], rtol=1e-12, atol=0):
            if got.shape == want['samples'].shape and np.allclose(lib.rows(got), lib.rows(want['samples']), rtol=1e-12, atol=0):
                raise Violation('order', '%s: samples are not in the order of the backend' % what)
            raise Violation('samples', '%s: not the equally weighted samples of the backend (%s, should be %s)' % (what, got.shape, want['samples'].shape))
        if abs(lnZ - want['lnZ']) > 1e-9 * abs(want['lnZ']) or abs(lnZerr - want['lnZerr']) > 1e-9:
            raise Violation('evidence', '%s: lnZ %r +- %r, backend says %r +- %r' % (what, lnZ, lnZerr, want['lnZ'], want['lnZerr']))

    # -- pipeline
    def do_pipe(self, plan, ctx, root, fn):
        spec = plan['spec']

        def one(cmd, seed):
            def f():
                if cmd[0] == 'mcmc':
                    hook_yields()
                pipe.run_cli(pipe.argv(cmd, spec), seed)
                return recorder.take()
            return f
        s = ctx.sim(root, [pipe.node(spec, ['fit'], 1)], mask=0)
        lib.must_ok(s.results[0], 'fit')
        cmd = ['mcmc', '--save', '--thin', str(plan['thin'])] if plan['cmd'] == 'mcmc' else ['ns', '--sampler', plan['sampler']]
        s = ctx.sim(root, [one(cmd, plan['npseed'])], mask=0, pool_seed=plan['npool'])
        rec = lib.must_ok(s.results[0], cmd[0])
        st = pipe.read_status(pipe.status_file(root, spec))
        sec = plan['cmd']
        chain = pd.read_csv(os.path.join(root, st[sec]['chainfile']), index_col=0)
        cols, val = list(chain.columns), chain.values.astype(float)
        what = 'chain file of %s' % sec
        check_rows(fn, cols, val, what, tol=1e-7)
        post = lib.load(fn)
        names = post.name_vary_params()
        if sec == 'mcmc':
            truth = kept(rec)
            v = val[:, [cols.index(n) for n in names] + [cols.index('lnprobability')]]
            if plan['thin'] == 1:
                if truth.shape != v.shape or not np.allclose(lib.rows(truth), lib.rows(v), rtol=1e-9, atol=1e-12):
                    raise Violation('rows', '%s: %s rows, %s kept' % (what, v.shape, truth.shape))
            elif v.shape[0] != int(st['mcmc']['nwalkers']) * int(st['mcmc']['nensembles']) * -(-truth.shape[0] // (int(st['mcmc']['nwalkers']) * int(st['mcmc']['nensembles'])) // plan['thin']):
                raise Violation('rows', '%s: %s rows with thin %d, %s kept' % (what, v.shape, plan['thin'], truth.shape))
        else:
            p0 = radvel.posterior.load(os.path.join(root, st['fit']['postfile']))
            want = nsstub.expected(lib.load(fn))
            self.compare_ns(what, names, cols, val, want['lnZ'], want['lnZerr'], want)
        ctx.nontrivial = True
        ctx.mark(val.shape, float(np.nansum(val)))
        ctx.probe('pipe:' + sec)
