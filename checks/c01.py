"""C01: serial run = parallel run under every worker schedule; the ensembles' random streams never coincide."""
import os, random
import numpy as np
from sim import lib, setups, pool, recorder, core
from sim.runner import Check, Violation


def gen_mcmc(rng):
    """Settings of a small MCMC run that reach every branch of the convergence logic."""
    ci = rng.choice([3, 4, 5, 8])
    rounds = rng.randrange(1, 6)
    k = dict(ensembles=rng.choice([1, 2, 2, 3, 3, 4]), nwalkers=rng.choice([2, 6, 10, 14]), checkinterval=ci, nrun=rounds * (ci - 1) + rng.choice([0, 0, 1]),
             minsteps=rng.choice([0, 0, ci, 3 * ci, 1000]), minpercent=rng.choice([0, 20, 50, 101]), thin=rng.choice([1, 1, 2, 3]),
             burnGR=rng.choice([1.0001, 1.2, 100.0]), burnAfactor=rng.choice([1e-3, 2.0, 1e6]),
             minAfactor=rng.choice([1e-3, 3.0, 1e6]), maxArchange=rng.choice([1e6, 0.03]), maxGR=rng.choice([100.0, 1.3, 1.0001]),
             minTz=rng.choice([-10, 1000]))
    if rng.random() < 0.1:      # ensembles whose numbers need two digits
        k.update(ensembles=rng.choice([11, 12]), nwalkers=2, checkinterval=3, nrun=rng.choice([2, 4]))
    return k


class CHECK(Check):
    id = 'C01'
    runs = {'quick': 220, 'thorough': 6000}
    rule = 'a run counts as non-trivial when the pool reordered completions or let one worker take several ensembles and at least two rounds ran'
    real = ['radvel.mcmc', 'radvel posterior/likelihood/model', 'emcee', 'h5py', 'compiled Kepler solver']
    stub = ['multiprocess.Pool (simulated pool: forked workers, seeded task assignment and completion order)', 'wall clock, entropy (shim)']
    assumptions = ['the pool hands whole batches to idle workers; a worker runs one batch at a time']

    def gen(self, rng, i, tier):
        gp = rng.choice(['QuasiPer', 'SqExp', 'Celerite']) if rng.random() < 0.15 else False
        p = dict(spec=setups.rand_spec(rng, gp=gp), kw=gen_mcmc(rng), npseed=rng.randrange(2**31), save=rng.random() < 0.5,
                 proceed=rng.random() < 0.35, pools=[dict(seed=rng.randrange(2**31)) for _ in range(2)])
        return p

    def shrink(self, plan):
        for ps in lib.without_each(plan['pools']):
            if ps:
                q = dict(plan); q['pools'] = ps
                yield q
        yield from lib.shrink_keys(plan, {'proceed': [False], 'save': [False], 'spec.gp': [False], 'spec.npl': [1], 'spec.free': ['few'],
                                          'spec.ninst': [1], 'spec.dvdt': [False], 'kw.thin': [1], 'kw.ensembles': [1, 2, 3],
                                          'kw.nrun': [plan['kw']['checkinterval'] - 1, 2 * plan['kw']['checkinterval'] - 2],
                                          'kw.nwalkers': [2], 'kw.minpercent': [101], 'kw.minsteps': [1000]})
        for j, p in enumerate(plan['pools']):
            c = p.get('choices')
            if c:
                for cand in ([0] * len(c), c[:len(c) // 2]):
                    if cand != c:
                        q = dict(plan); q['pools'] = list(plan['pools']); q['pools'][j] = dict(choices=cand)
                        yield q

    def execute(self, plan, ctx):
        spec, kw = plan['spec'], dict(plan['kw'])
        if plan['save'] or plan['proceed']:
            kw.update(save=True, savename='s.h5')

        def node(serial):
            def f():
                lib.hook_streams()
                post = lib.load(spec['name'] + '.py')
                out = [lib.run_mcmc(post, dict(kw, serial=serial), plan['npseed'])]
                streams = [recorder.take()]
                if plan['proceed']:
                    out.append(lib.run_mcmc(post, dict(kw, serial=serial, proceed=True, proceedname='s.h5'), plan['npseed'] + 1))
                    streams.append(recorder.take())
                return dict(out=out, streams=streams, pool=lib.pool_log())
            return f

        ref = None
        for j in range(-1, len(plan['pools'])):
            root = ctx.root()
            setups.write(spec, root)
            pl = plan['pools'][j] if j >= 0 else {}
            s = ctx.sim(root, [node(j < 0)], mask=0, pool_seed=pl.get('seed'), pool_choices=pl.get('choices'))
            v = lib.must_ok(s.results[0], 'serial run' if j < 0 else 'parallel run')
            h5 = lib.read_h5(root + '/s.h5') if kw.get('save') else None
            got = dict(out=v['out'], file=h5)
            if j < 0:
                ref = got
                for r, st in enumerate(v['streams']):
                    dup = lib.replayed(st)
                    if dup:
                        raise Violation('stream-replayed', 'run %d: %d of %d proposals reuse the generator state of another proposal' % (r, dup, len(st)))
                ctx.probe('proposals', sum(map(len, v['streams'])))
                ch = v['out'][0]['df']['val']
                ctx.mark(ch.tobytes().__hash__() if False else ch.shape, float(np.sum(ch)))
                if h5 is not None:
                    self.distinct(h5, kw['ensembles'])
            else:
                plan['pools'][j] = dict(choices=v['pool']['log'])
                st = v['pool']['stats']
                ctx.mark(v['pool']['log'])
                ctx.probe('reordered', st['reordered']); ctx.probe('shared_worker', st['shared']); ctx.probe('pools', st['pools'])
                ctx.faults['worker_reordering'] += st['reordered']
                if st['reordered'] and st['pools'] >= 2:
                    ctx.nontrivial = True
                for r in v['streams']:
                    if lib.replayed(r):
                        raise Violation('stream-replayed', 'parallel run: %d of %d proposals reuse the generator state of another' % (lib.replayed(r), len(r)))
                d = lib.diff(ref, got)
                if d:
                    raise Violation('differs', 'serial and parallel run differ at %s' % d)

    def distinct(self, h5, E):
        """No two ensembles start from or visit the same positions."""
        for a in range(E):
            for b in range(a):
                x, y = h5['%d_chain' % a], h5['%d_chain' % b]
                if x.shape == y.shape and x.size and np.any(np.all(x == y, axis=2)):
                    raise Violation('ensembles-coincide', 'ensembles %d and %d share positions' % (b, a))
