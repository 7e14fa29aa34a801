"""C10: the results file of nested sampling is replaced only on request, and as a whole or not at all."""
import os, shutil
from sim import lib, setups, core, nslib, nsstub
from sim.runner import Check, Violation

KINDS = ['crash', 'crash', 'crash', 'torn', 'torn', 'enospc', 'enospc', 'eio', 'eio', 'emfile', 'int', 'int', 'short', 'raise', 'raise']


class CHECK(Check):
    id = 'C10'
    runs = {'quick': 135, 'thorough': 6000}
    rule = 'a run counts as non-trivial when a fault hit after sampling had begun in a directory that holds results, or when a run without permission was refused'
    real = ['radvel.nested_sampling.run, load_results', 'Posterior, priors, likelihoods', 'h5py, pytables']
    stub = ['nested-sampling packages (same interface and checkpoint files, deterministic points)', 'file system behind the shim', 'wall clock, entropy']
    assumptions = ['a crash is the death of the process: completed writes survive it (no power loss)']

    def gen(self, rng, i, tier):
        hist = []
        drop = rng.choice(['dynesty-static', 'dynesty-dynamic'])       # both keep their checkpoint in the same file
        pick = lambda: rng.choice([x for x in nslib.SAMPLERS if x != drop])
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2])):
            hist.append(dict(sampler=pick(), overwrite=True, cut=rng.choice([None, None, 'raise', 'crash'])))
        if hist and rng.random() < 0.7:
            hist[0]['cut'] = None
        mode = rng.choice(['none', 'overwrite', 'overwrite', 'overwrite', 'proceed', 'proceed'])
        target = dict(sampler=rng.choice([hist[-1]['sampler'], pick()]) if hist else pick(), overwrite=mode == 'overwrite', proceed=mode == 'proceed')
        return dict(spec=setups.rand_spec(rng), hist=hist, target=target, outdir=nslib.rand_out(rng), way=nslib.rand_form(rng, target['sampler']), nstep=rng.choice([1, 2, 3]), nper=rng.choice([2, 5]),
                    faults=[dict(kind=rng.choice(KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 1000]), tail=rng.random() < 0.7) for _ in range(5)])

    def shrink(self, plan):
        for x in lib.without_each(plan['faults']):
            if x:
                yield dict(plan, faults=x)
        for x in lib.without_each(plan['hist']):
            yield dict(plan, hist=x)
        yield from lib.shrink_keys(plan, {'spec.free': ['few'], 'spec.dvdt': [False], 'spec.ninst': [1], 'spec.npl': [1], 'spec.linear': [False], 'outdir': ['res'], 'way': [{}], 'nstep': [1], 'nper': [2], 'faults.0.len': [1]})

    def body(self, plan, c, seed, nstep=None):
        def f():
            nsstub.install(seed=seed, nstep=nstep or plan['nstep'], nper=plan['nper'])
            return nslib.outcome(lib.load(plan['spec']['name'] + '.py'), dict(c, outdir=plan['outdir'], **(plan['way'] if c is plan['target'] else {})))
        return f

    def execute(self, plan, ctx):
        spec, target = plan['spec'], plan['target']
        base = ctx.root()
        setups.write(spec, base)
        os.makedirs(os.path.join(base, os.path.dirname(plan['outdir'])), exist_ok=True)
        for j, c in enumerate(plan['hist']):
            f = []
            if c['cut'] == 'raise':
                f = [dict(kind='raise', tag='ns.step', at=plan['nstep'])]
            elif c['cut'] == 'crash':
                f = [dict(kind='crash', tag='ns.step', at=plan['nstep'])]
            s = ctx.sim(base, [self.body(plan, c, 10 + j)], mask=0, faults=f)
            if not c['cut'] and (s.results[0][0] != 'ok' or s.results[0][1]['out'][0] != 'ok'):
                raise Violation('run-fails', 'undisturbed %s with overwriting requested: %s' % (c['sampler'], s.results[0]))
        fn = os.path.join(plan['outdir'], 'results.hdf5')
        old = nslib.read_results(os.path.join(base, fn))
        if isinstance(old, str):
            raise Violation('results-damaged', 'after an undisturbed history: %s' % old)
        before = nslib.tree(base, skip=('tmp/',))
        what = '%s %s after %s' % (target['sampler'], 'with overwriting' if target['overwrite'] else 'continuing' if target['proceed'] else 'without permission', [(c['sampler'], c['cut'] or 'complete') for c in plan['hist']])
        if old is not None and not target['overwrite'] and not target['proceed']:
            s = ctx.sim(base, [self.body(plan, target, 77)], mask=core.MUT)
            r = lib.must_ok(s.results[0], what)
            if r['out'][0] != 'exc':
                raise Violation('not-refused', '%s: an existing results file did not stop the run' % what)
            if r['out'][1] != 'FileExistsError':
                raise Violation('refused-wrongly', '%s: raised %s' % (what, r['out'][1:3]))
            if r['log']:
                raise Violation('sampled-before-refusing', '%s: the backend was used: %s' % (what, r['log'][:3]))
            d = nslib.tree_diff(before, nslib.tree(base, skip=('tmp/',)))
            if d:
                raise Violation('refused-but-changed', '%s: refused, but %s' % (what, d))
            ctx.nontrivial = True
            ctx.probe('refused')
            return
        good = self.clone(ctx, base)
        s = ctx.sim(good, [self.body(plan, target, 77)], mask=core.MUT)
        r = lib.must_ok(s.results[0], what)
        allowed_refusal = target['sampler'] == 'multinest' and not target['overwrite'] and not target['proceed'] and os.path.isdir(os.path.join(base, plan['outdir']))
        if r['out'][0] != 'ok':
            if allowed_refusal and r['out'][1] == 'FileExistsError':
                return
            raise Violation('run-fails', '%s: %s' % (what, r['out']))
        new = nslib.read_results(os.path.join(good, fn))
        if not lib.same(new, r['out'][1]):
            raise Violation('results-differ', '%s: the file holds something else than what was returned: %s' % (what, new if isinstance(new, (str, type(None))) else lib.diff(r['out'][1], new)))
        log = [e for e in s.log if e[1] not in ('START', 'EXIT')]
        nev = len(log)
        first = next((i for i, e in enumerate(log) if 'results.hdf5' in e[2] or 'results.hdf5' in e[3]), 0)
        nsteps = sum(1 for e in log if e[1] == 'YIELD' and e[2] == 'ns.step')
        ctx.mark(nev, r['out'])
        for f in plan['faults']:
            if 'at' not in f:
                x, tail = f.pop('at_frac'), f.pop('tail')
                if f['kind'] == 'raise':
                    f.update(tag='ns.step', at=1 + int(x * nsteps))
                else:
                    f['at'] = 1 + (first + int(x * (nev - first)) if tail else int(x * nev))
            d = self.clone(ctx, base)
            s = ctx.sim(d, [self.body(plan, target, 77)], mask=core.MUT, faults=[f])
            res = s.results[0]
            fired = bool(s.faults_fired)
            w = '%s, %s at %s %d' % (what, f['kind'], f.get('tag', 'operation'), f['at'])
            now = nslib.read_results(os.path.join(d, fn))
            oc = res[0] if res[0] != 'ok' else res[1]['out'][0]
            ctx.mark(f, oc)
            ctx.probe('%s:%s' % (f['kind'] if fired else 'none', oc))
            if fired and old is not None:
                ctx.nontrivial = True
            if isinstance(now, str):
                raise Violation('results-damaged', '%s (%s): the results file is %s' % (w, oc, now))
            if not (lib.same(now, old) or lib.same(now, new)):
                raise Violation('results-gone' if now is None else 'results-mixed', '%s (%s): the results file is neither the previous nor the new one%s' % (w, oc, ' but absent' if now is None else ''))
            if oc == 'ok':
                if not lib.same(now, res[1]['out'][1]):
                    raise Violation('silent-failure', '%s: the run returned, but its results are not in the file' % w)
            elif not fired:
                raise Violation('run-fails', '%s: %s' % (w, res))
            shutil.rmtree(d)

    def clone(self, ctx, base):
        d = ctx.root()
        shutil.rmtree(d)
        shutil.copytree(base, d)
        return d
