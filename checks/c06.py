"""C06: whatever the wall clock does, results, records and artefacts are those of a well-behaved clock."""
import os, random, shutil
import numpy as np
from sim import lib, setups, pool, core, pipe, curs
from sim.runner import Check, Violation
from .c01 import gen_mcmc

S = 10**9
GOOD = [10**6]


def gen_clock(rng):
    k = rng.choice(['frozen', 'coarse', 'back', 'leap', 'mixed', 'mixed'])
    n = rng.randrange(2, 60)
    if k == 'frozen':
        return k, [0]
    if k == 'coarse':
        return k, [0] * n + [rng.choice([1, 10**7, S])]
    if k == 'back':
        return k, [rng.choice([-1, -10**6, -S, -3600 * S]) if rng.random() < 0.5 else 10**6 for _ in range(n)]
    if k == 'leap':
        return k, [rng.choice([S, 3600 * S, 86400 * S, 40 * 86400 * S]) if rng.random() < 0.3 else 10**6 for _ in range(n)]
    return k, [rng.choice([0, 0, 0, 1, 10**6, -10**6, -S, -86400 * S, S, 7200 * S]) for _ in range(n)]


class CHECK(Check):
    id = 'C06'
    runs = {'quick': 400, 'thorough': 4000}
    rule = 'a run counts as non-trivial when the code under test read the scripted wall clock at least twice'
    real = ['radvel.mcmc', 'radvel.cli and radvel.driver (fit, mcmc, ns, derive, ic, table)', 'radvel posterior/likelihood/model', 'emcee', 'h5py, pandas']
    stub = ['wall clock (scripted readings)', 'multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'curses terminal in runs that are not headless', 'entropy']
    assumptions = ['the monotonic clock is well behaved']

    def gen(self, rng, i, tier):
        kind, clock = gen_clock(rng)
        p = dict(kind=kind, clock=clock, spec=setups.rand_spec(rng, npl=1, gp=False), npseed=rng.randrange(2**31), npool=rng.randrange(2**31), start=rng.choice([1600000000, 1600000000, 5, 2**31 - 2]))
        if rng.random() < 0.6:
            p.update(mode='mcmc', kw=gen_mcmc(rng), serial=rng.random() < 0.6, headless=rng.random() < 0.6, proceed=rng.random() < 0.3)
        else:
            cmds = [['fit']]
            smp = rng.choice(['mcmc', 'ns'])
            cmds.append(['mcmc', '--save'] if smp == 'mcmc' else ['ns', '--sampler', rng.choice(['dynesty-static', 'ultranest', 'nautilus', 'multinest'])])
            cmds += rng.sample([['derive'], ['ic', '-t', 'trend'], ['table', '-t', 'params', 'priors', 'rv']], rng.randrange(0, 3))
            p.update(mode='pipe', cmds=cmds)
        return p

    def shrink(self, plan):
        c = plan['clock']
        for cand in ([0], c[:1], c[:len(c) // 2], c[len(c) // 2:]):
            if cand and cand != c:
                q = dict(plan); q['clock'] = cand
                yield q
        yield from lib.shrink_keys(plan, {'proceed': [False], 'serial': [True], 'headless': [True], 'start': [1600000000], 'spec.free': ['few'], 'spec.ninst': [1], 'spec.dvdt': [False]})
        if 'kw' in plan:
            ci = plan['kw']['checkinterval']
            yield from lib.shrink_keys(plan, {'kw.ensembles': [1, 2], 'kw.thin': [1], 'kw.nrun': [ci - 1, 2 * ci - 2], 'kw.minpercent': [101], 'kw.minsteps': [1000]})
        else:
            for cs in lib.without_each(plan['cmds']):
                if cs and cs[0] == ['fit']:
                    q = dict(plan); q['cmds'] = cs
                    yield q

    def execute(self, plan, ctx):
        out = []
        reads = 0
        for clock in (GOOD, plan['clock']):
            root = ctx.root()
            setups.write(plan['spec'], root)
            r, n = (self.mcmc if plan['mode'] == 'mcmc' else self.pipe)(plan, ctx, root, clock)
            out.append(r)
            reads = n
        if reads >= 2:
            ctx.nontrivial = True
        ctx.probe('clock_reads', reads)
        ctx.faults['clock_' + plan['kind']] += reads
        a, b = out
        d = lib.diff(a, b)
        if d:
            raise Violation('clock-changes-result', 'with a %s clock%s' % (plan['kind'], d))

    def run(self, ctx, root, node, plan, clock, what):
        s = ctx.sim(root, [node], mask=0, pool_seed=plan['npool'], clock=clock, start_ns=(plan['start'] if clock is not GOOD else 1600000000) * S)
        if s.spin:
            raise Violation('clock-hang', '%s: waits for the wall clock for ever' % what)
        res = s.results[0]
        if res[0] != 'ok':
            label = 'clock-failure' if clock is not GOOD else 'failed'
            if isinstance(res[1], dict):
                label += '-' + res[1]['type']
            raise Violation(label, '%s with a %s clock: %s' % (what, plan['kind'] if clock is not GOOD else 'good', (res[1]['type'] + ': ' + res[1]['str'] + '\n' + res[1]['tb'][-500:]) if isinstance(res[1], dict) else res[1]))
        return res[1], s

    def mcmc(self, plan, ctx, root, clock):
        kw = dict(plan['kw'], serial=plan['serial'], save=True, savename='s.h5')

        def node():
            curs.install()
            post = lib.load(plan['spec']['name'] + '.py')
            out = [lib.run_mcmc(post, kw, plan['npseed'], headless=plan['headless'])]
            if plan['proceed']:
                out.append(lib.run_mcmc(post, dict(kw, proceed=True, proceedname='s.h5'), plan['npseed'] + 1, headless=plan['headless']))
            return out
        out, s = self.run(ctx, root, node, plan, clock, 'MCMC run')
        ctx.mark(len(out[0]['df']['val']))
        return dict(out=out, file=lib.read_h5(root + '/s.h5')), s.rt_reads

    def pipe(self, plan, ctx, root, clock):
        n = 0
        for j, c in enumerate(plan['cmds']):
            _, s = self.run(ctx, root, pipe.node(plan['spec'], c, plan['npseed'] + j), plan, clock, ' '.join(c))
            n += s.rt_reads
        return pipe.summary(root, plan['spec']), n
