"""C08: two or three pipeline commands at the same time in one output directory, under every interleaving of their file operations."""
import os, shutil
from sim import lib, setups, core, pipe
from sim.runner import Check, Violation

NS = ['dynesty-static', 'dynesty-dynamic', 'ultranest', 'nautilus', 'multinest']
SECTION = {'fit': 'fit', 'mcmc': 'mcmc', 'ns': 'ns', 'derive': 'derive', 'ic': 'ic_compare', 'table': 'table'}
# what a command reads and writes besides its own record; 'post' is the posterior that fit, mcmc and derive share by design
READS = {'fit': set(), 'ns': set(), 'mcmc': {'post'}, 'ic': {'post'}, 'derive': {'post', 'chains', 'nschains'}, 'table': {'post', 'chains', 'nschains', 'derived'}}
WRITES = {'fit': {'post'}, 'ns': {'nschains', 'post'}, 'mcmc': {'post', 'chains'}, 'ic': set(), 'derive': {'post', 'derived'}, 'table': set()}
OWN = {'fit': (), 'mcmc': ('_post_summary.csv', '_chains.csv.bz2', '_autocorr.csv'), 'ns': ('_post_summary_ns.csv', '_chains_ns.csv.bz2'),
       'derive': ('_derived_quantiles.csv', '_derived.csv.bz2'), 'ic': (), 'table': ()}
HOT = ('.stat', '.stat.', '_post_obj')


def gen_case(rng):
    if rng.random() < 0.25:             # nothing there yet, not even the directory
        n = rng.choice([2, 2, 3])
        cmds = [['fit'] for _ in range(n)]
        if rng.random() < 0.5:
            cmds[rng.randrange(n)] = ['ns', '--sampler', rng.choice(NS), '--overwrite']
        return [], cmds
    hist = [['fit']]
    ns = ['ns', '--sampler', rng.choice(NS), '--overwrite']
    sampled = rng.random() < 0.7
    if sampled:
        hist.append(rng.choice([['mcmc', '--save'], ['mcmc'], ns]))
        if rng.random() < 0.4:
            hist.append(['derive'])
    pool = [['mcmc', '--save'], ['mcmc'], ns, ['ic', '-t', 'trend'], ['ic', '-t', 'jit', 'nplanets']]
    if sampled:
        t = ['params', 'priors', 'rv'] + (['crit'] if hist[1][0] == 'mcmc' else []) + (['derived'] if hist[-1] == ['derive'] else [])
        pool += [['derive'], ['table', '-t', rng.choice(t)], ['table', '-t'] + rng.sample(t, 2), ['table', '-t', rng.choice(t)]]
    if not sampled or hist[1][0] == 'ns':
        pool.append(['fit'])            # a new fit beside commands that use MCMC results: see the finding recorded for C09
    cmds = []
    while len(cmds) < rng.choice([2, 2, 3]):
        c = list(rng.choice(pool))
        if c[0] == 'ns' and any(x[0] == 'ns' for x in cmds):
            continue                    # two backends in one directory are the backends' business
        if {c[0]} | {x[0] for x in cmds} >= {'fit', 'mcmc'} and any(x[0] in ('table', 'derive') for x in cmds + [c]):
            continue
        cmds.append(c)
    return hist, cmds


def gen_sched(rng, n):
    m = rng.random()
    if m < 0.7:
        return dict(mode='park', seed=rng.randrange(2**31), parks=[[rng.randrange(n), rng.randrange(1, 40)] for _ in range(rng.randrange(1, 5))], hot=list(HOT))
    if m < 0.85:
        return dict(mode='random', seed=rng.randrange(2**31), p=0.02, p_hot=0.4, hot=list(HOT))
    return dict(mode='random', seed=rng.randrange(2**31), p=rng.choice([0.1, 0.3]), p_hot=0.5, hot=list(HOT))


class CHECK(Check):
    id = 'C08'
    runs = {'quick': 130, 'thorough': 4000}
    rule = 'a run counts as non-trivial when control passed from one command to another inside an access to the status file, a posterior or the creation of the directory'
    real = ['radvel.cli, radvel.driver', 'radvel.mcmc, radvel.nested_sampling, radvel.fitting, radvel.report tables, Posterior.writeto/load', 'file locks of the kernel', 'emcee, h5py, pandas, dill, configparser']
    stub = ['scheduling of the commands: one runs at a time, control passes at file operations only', 'multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'wall clock, entropy']
    assumptions = ['file operations are atomic and take effect in order (one machine)']

    def gen(self, rng, i, tier):
        hist, cmds = gen_case(rng)
        return dict(spec=setups.rand_spec(rng, npl=1), hist=hist, cmds=cmds, npseed=rng.randrange(2**31), npool=rng.randrange(2**31),
                    scheds=[gen_sched(rng, len(cmds)) for _ in range(5)])

    def shrink(self, plan):
        for x in lib.without_each(plan['scheds']):
            if x:
                yield dict(plan, scheds=x)
        if len(plan['cmds']) > 2 and len(plan['scheds']) == 1 and plan['scheds'][0]['mode'] == 'park':
            for i in range(len(plan['cmds'])):
                yield dict(plan, cmds=plan['cmds'][:i] + plan['cmds'][i + 1:])
        yield from lib.shrink_keys(plan, {'spec.free': ['few'], 'spec.dvdt': [False], 'spec.ninst': [1], 'spec.linear': [False], 'spec.rp': [False]})
        if len(plan['scheds']) == 1:
            s = plan['scheds'][0]
            if s['mode'] == 'park':
                for x in lib.without_each(s['parks']):
                    yield dict(plan, scheds=[dict(s, parks=x)])
            elif s['mode'] == 'explicit':
                for x in lib.without_each(s['switches']):
                    yield dict(plan, scheds=[dict(s, switches=x)])
            if plan.get('taken'):
                yield dict(plan, scheds=[dict(mode='explicit', switches=plan['taken'])], taken=None)

    def execute(self, plan, ctx):
        spec = plan['spec']
        base = ctx.root()
        setups.write(spec, base)
        for j, c in enumerate(plan['hist']):
            s = ctx.sim(base, [pipe.node(spec, c, plan['npseed'] + j)], mask=0, pool_seed=plan['npool'])
            lib.must_ok(s.results[0], 'undisturbed %s' % ' '.join(c))
        A = pipe.summary(base, spec)
        alone = []
        for j, c in enumerate(plan['cmds']):
            d = self.clone(ctx, base)
            s = ctx.sim(d, [pipe.node(spec, c, plan['npseed'] + 50 + j)], mask=0, pool_seed=plan['npool'] + j)
            lib.must_ok(s.results[0], 'alone: %s' % ' '.join(c))
            alone.append(pipe.summary(d, spec))
            shutil.rmtree(d)
        for sc in plan['scheds']:
            self.one(plan, ctx, base, A, alone, sc)

    def one(self, plan, ctx, base, A, alone, sc):
        spec, cmds = plan['spec'], plan['cmds']
        d = self.clone(ctx, base)
        s = ctx.sim(d, [pipe.node(spec, c, plan['npseed'] + 50 + j) for j, c in enumerate(cmds)], mask=core.ALL, pool_seed=plan['npool'],
                    sched=sc, names=[' '.join(c) for c in cmds])
        plan['taken'] = s.switches if len(plan['scheds']) == 1 and sc['mode'] == 'random' else None
        what = '%s at the same time after %s' % (' | '.join(' '.join(c) for c in cmds), [c[0] for c in plan['hist']] or 'nothing')
        hot = 0
        for x, y in zip(s.log, s.log[1:]):
            if x[0] != y[0] and (any(h in y[2] + x[2] + x[3] for h in HOT) or 'MKDIR' in (x[1], y[1])):
                hot += 1
        ctx.probe('hot switches', hot)
        if hot:
            ctx.nontrivial = True
        if s.deadlock or s.livelock:
            raise Violation('stuck', '%s: the commands wait for one another for ever' % what)
        for j, r in enumerate(s.results):
            if r[0] != 'ok':
                r = r[1]
                raise Violation('command-fails', '%s: "%s" fails: %s' % (what, ' '.join(cmds[j]), (r['type'] + ': ' + r['str'] + '\n' + r['tb'][-500:]) if isinstance(r, dict) else r))
        now = pipe.summary(d, spec)
        st = now['status']
        if not isinstance(st, dict):
            raise Violation('status-unreadable', '%s: %s' % (what, st))
        ctx.mark(sorted(st), sorted(now['files'].items()))
        a = A['status'] or {}
        touched = {}
        for j, c in enumerate(cmds):
            touched.setdefault(SECTION[c[0]], []).append(j)
        for k in a:
            if k not in touched and st.get(k) != a[k]:
                raise Violation('record-lost', '%s: the record of %s changed: %s' % (what, k, lib.diff(a[k], st.get(k))))
        for k, js in touched.items():
            if k not in st:
                raise Violation('record-lost', '%s: all completed, but the status file holds no record of %s' % (what, k))
            if k == 'table':
                for j in js:
                    for key, v in alone[j]['status'][k].items():
                        if st[k].get(key) != v:
                            raise Violation('record-lost', '%s: the record %s of the tables is %r' % (what, key, st[k].get(key)))
                continue
            want = [alone[j]['status'][k] for j in js]
            if any(set(st[k]) != set(w) | set(a.get(k, {})) for w in want):
                raise Violation('record-incomplete', '%s: the record of %s is %s' % (what, k, st[k]))
            if all(self.independent(cmds, j) for j in js) and st[k] not in want:
                raise Violation('record-mixed', '%s: the record of %s differs from that of the command alone: %s' % (what, k, lib.diff(want[0], st[k])))
        for (s_, k), fn in pipe.named_files(st).items():
            dg = now['files'].get(os.path.relpath(fn, pipe.OUT))
            if dg is None or dg.startswith('BROKEN'):
                raise Violation('artefact-broken', '%s: %s named by [%s] %s: %s' % (what, fn, s_, k, dg or 'missing'))
        for k, js in touched.items():
            if all(self.independent(cmds, j) for j in js):
                own = OWN[cmds[js[0]][0]]
                for f, dg in now['files'].items():
                    if own and f[len(spec['name']):] in own and dg not in [alone[j]['files'].get(f) for j in js]:
                        raise Violation('artefact-other', '%s: %s differs from what the command writes alone' % (what, f))
                    if k == 'table' and f.endswith('.tex') and dg not in [alone[j]['files'].get(f) for j in js] + [A['files'].get(f)]:
                        raise Violation('artefact-other', '%s: %s differs from what the command writes alone' % (what, f))
        if not isinstance(st.get('fit', {}), dict) or (('fit' in touched or 'fit' in a) and st['fit'].get('run') != 'True'):
            raise Violation('record-incomplete', '%s: the record of fit is %s' % (what, st.get('fit')))

    def independent(self, cmds, j):
        return not any(i != j and READS[cmds[j][0]] & WRITES[c[0]] for i, c in enumerate(cmds))

    def clone(self, ctx, base):
        d = ctx.root()
        shutil.rmtree(d)
        shutil.copytree(base, d)
        return d
