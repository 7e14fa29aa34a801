"""C12: scratch space of MultiNest runs."""
import os, shutil
from sim import lib, setups, core, nslib, nsstub
from sim.runner import Check, Violation

KINDS = ['raise', 'raise', 'raise', 'enospc', 'eio', 'emfile', 'int', 'int', 'crash']
NAMES = ['tmpdir', 'tmpdir/out', 'out', 'chains', 'tmpdir/sub', 'tmp', 'multinest']
FILES = ['outresume.dat', 'outpost_equal_weights.dat', 'outstats.dat', 'thesis.txt', 'out', '1-']


class CHECK(Check):
    id = 'C12'
    runs = {'quick': 1300, 'thorough': 20000}
    rule = 'a run counts as non-trivial when a run failed part way, or two runs overlapped, or the directories a run could collide with already existed'
    real = ['radvel.nested_sampling.run, _run_multinest', 'Posterior, priors, likelihoods', 'tempfile, shutil']
    stub = ['pymultinest (same interface and files, resumes from its basename)', 'scheduling of concurrent runs', 'file system behind the shim']
    assumptions = ['a killed run cannot clean up after itself: only "private" and "never the user\'s files" are required of it']

    def gen(self, rng, i, tier):
        n = rng.choice([1, 1, 2, 2, 3])
        runs = []
        for j in range(n):
            out = None if rng.random() < 0.65 else nslib.rand_out(rng, 'res%d' % j)
            fault = None
            if rng.random() < 0.5:
                k = rng.choice(KINDS)
                fault = dict(kind=k, node=j, tag='ns.step', at=rng.choice([1, 2, 3])) if k in ('raise', 'crash', 'int') else dict(kind=k, node=j, path='/out', at=rng.randrange(1, 25), len=rng.choice([1, 1000]))
            flags = rng.choice([{}, {}, dict(proceed=True), dict(overwrite=True)])
            if out:
                flags = rng.choice([dict(proceed=True), dict(overwrite=True)])
            runs.append(dict(outdir=out, flags=flags, fault=fault, seed=rng.randrange(1, 1000), again=rng.random() < 0.3, way=nslib.rand_form(rng, 'multinest')))
        prior = {}
        for d in rng.sample(NAMES, rng.choice([0, 1, 2, 2])) + [r['outdir'] for r in runs if r['outdir'] and rng.random() < 0.5]:
            if any(d.startswith(x + '/') and prior[x] is None for x in prior):
                continue
            if rng.random() < 0.15 and not any(x.startswith(d + '/') for x in prior):
                prior[d] = None             # a plain file of that name
            else:
                prior[d] = rng.sample(FILES if d not in [r['outdir'] for r in runs] else ['thesis.txt', 'data.csv'], rng.choice([0, 1, 2]))
        sched = dict(mode='random', seed=rng.randrange(2**31), p=rng.choice([0.05, 0.3]), p_hot=rng.choice([0.2, 0.6]), hot=['out', 'tmp'])
        return dict(spec=setups.rand_spec(rng), runs=runs, prior=prior, sched=sched, nstep=rng.choice([2, 3]), nper=rng.choice([2, 3]))

    def shrink(self, plan):
        yield from lib.shrink_keys(plan, {'spec.free': ['few'], 'spec.dvdt': [False], 'spec.ninst': [1], 'spec.npl': [1], 'spec.linear': [False], 'nstep': [2], 'nper': [2]})
        for k in sorted(plan['prior']):
            yield dict(plan, prior={a: b for a, b in plan['prior'].items() if a != k})
        for j, r in enumerate(plan['runs']):
            if r['fault']:
                yield dict(plan, runs=plan['runs'][:j] + [dict(r, fault=None)] + plan['runs'][j + 1:])
            if r['again']:
                yield dict(plan, runs=plan['runs'][:j] + [dict(r, again=False)] + plan['runs'][j + 1:])
        if len(plan['runs']) > 1 and plan['sched']['mode'] == 'random':
            yield dict(plan, runs=plan['runs'][:-1])
        if plan.get('taken') and plan['sched']['mode'] == 'random':
            yield dict(plan, sched=dict(mode='explicit', switches=plan['taken']), taken=None)
        if plan['sched']['mode'] == 'explicit':
            for x in lib.without_each(plan['sched']['switches']):
                yield dict(plan, sched=dict(mode='explicit', switches=x))

    def body(self, plan, r):
        def f():
            nsstub.install(seed=r['seed'], nstep=plan['nstep'], nper=plan['nper'])
            post = lib.load(plan['spec']['name'] + '.py')
            import random
            random.seed(r['seed'])          # separate processes draw separate scratch names
            out = []
            for j in range(2 if r['again'] else 1):
                fl = r['flags'] if j == 0 or not r['outdir'] else dict(overwrite=True)
                out.append(nslib.outcome(post, dict(fl, sampler='multinest', outdir=r['outdir'], **r['way'])))
                if out[-1]['out'][0] == 'int':
                    break
            return out, os.getcwd()
        return f

    def execute(self, plan, ctx):
        spec = plan['spec']
        d = ctx.root()
        fn = setups.write(spec, d)
        os.makedirs(os.path.join(d, 'tmp'), exist_ok=True)
        for name in sorted(plan['prior']):
            p = os.path.join(d, name)
            if plan['prior'][name] is None:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.exists(p):
                    open(p, 'w').write('a file of the user\n')
                continue
            if os.path.isfile(p):
                continue
            os.makedirs(p, exist_ok=True)
            for x in plan['prior'][name]:
                if not os.path.isdir(os.path.join(p, x)):
                    open(os.path.join(p, x), 'w').write('7.5 8.5 9.5\nprecious\n')
        before = nslib.tree(d)
        want = {}
        for r in plan['runs']:
            x = lib.isolated(lambda: nsstub.expected(lib.load(fn), r['seed'], plan['nstep'], plan['nper']))
            if x[0] != 'ok':
                raise core.HarnessError(str(x))
            want[r['seed']] = x[1]
        blocked = [r for r in plan['runs'] if r['outdir'] and plan['prior'].get(r['outdir'], 0) is None]
        if blocked:
            return                          # a plain file where the output directory should be: refused by the system
        faults = [r['fault'] for r in plan['runs'] if r['fault']]
        reads = []

        def watch(sim, ev):
            if ev.type in ('OPENR', 'READ') and os.path.relpath(ev.path, sim.root) in before and not ev.path.endswith(spec['name'] + '.py'):
                reads.append((ev.node, os.path.relpath(ev.path, sim.root)))
        s = ctx.sim(d, [self.body(plan, r) for r in plan['runs']], mask=core.ALL & ~core.ST, faults=faults, sched=plan['sched'], on_event=watch)
        plan['taken'] = s.switches
        what = '%d run(s) %s' % (len(plan['runs']), [(r['outdir'] or 'no directory', r['flags'], (r['fault'] or {}).get('kind')) for r in plan['runs']])
        after = nslib.tree(d)
        crashed = False
        for j, (r, res) in enumerate(zip(plan['runs'], s.results)):
            f = r['fault']
            if f or len(plan['runs']) > 1 or plan['prior']:
                ctx.nontrivial = True
            if res[0] == 'dead':
                if not (f and f['kind'] == 'crash'):
                    raise Violation('run-fails', '%s: run %d died: %s' % (what, j, res[1]))
                crashed = True
                ctx.probe('dead')
                continue
            if res[0] == 'exc' and res[1]['type'] == 'KeyboardInterrupt':
                ctx.probe('interrupted early')
                continue
            if res[0] == 'exc' and f and res[1]['errno'] is not None:
                continue                    # the disk fault hit the loading of the setup file
            outs, cwd = lib.must_ok(res, what)
            if cwd != s.root:
                raise Violation('cwd-changed', '%s: run %d ended in %s' % (what, j, cwd))
            for k, o in enumerate(outs):
                ctx.probe('%s:%s' % ((f or {}).get('kind', 'none') if k == 0 else 'again', o['out'][0]))
                ctx.mark(o['out'][0])
                if o['out'][0] == 'ok':
                    got = o['out'][1]
                    resumed = any(e[0] == 'restore' for e in o['log'])
                    if resumed and not r['outdir']:
                        raise Violation('not-private', '%s: run %d continued from a checkpoint it found' % (what, j))
                    if not lib.same(got['samples']['val'][:, :-1], want[r['seed']]['samples']):
                        raise Violation('not-private', '%s: run %d returned samples that are not its own' % (what, j))
                elif not f:
                    raise Violation('run-fails', '%s: run %d fails: %s' % (what, j, o['out'][1:3]))
                elif k == 1 and not (f.get('len', 1) > 1 or outs[0]['out'][0] == 'ok'):
                    raise Violation('cannot-repeat', '%s: run %d, repeated after it failed: %s' % (what, j, o['out'][1:3]))
                if f and f['kind'] == 'raise' and k == 0 and o['out'][0] == 'exc' and o['out'][1] != 'SimBackendError':
                    raise Violation('other-error', '%s: run %d failed with %s instead of the error of the backend' % (what, j, o['out'][1:3]))
        outdirs = tuple(r['outdir'] + '/' for r in plan['runs'] if r['outdir'])
        gone = [k for k in before if k not in after]
        changed = [k for k in before if k in after and before[k] != after[k]]
        if gone or changed:
            raise Violation('user-files', '%s: files that were there before: deleted %s, changed %s' % (what, gone, changed))
        if reads:
            raise Violation('reads-user-files', '%s: run %d read %s, which was there before' % ((what,) + reads[0]))
        new = [k for k in after if k not in before and not any(k.startswith(o) or k.endswith('/') and o.startswith(k) for o in outdirs)]
        if new and not crashed:
            raise Violation('leftovers', '%s: left behind %s' % (what, new[:6]))

    def describe(self, plan):
        return {k: v for k, v in plan.items() if k != 'taken'}
