"""C11: nested-sampling runs that died can be continued, and a call can be repeated with the same option dictionaries."""
import copy, os, shutil
from sim import lib, setups, core, nslib, nsstub
from sim.runner import Check, Violation

KINDS = ['crash', 'crash', 'crash', 'raise', 'raise', 'enospc', 'eio', 'emfile', 'int', 'torn']


class CHECK(Check):
    id = 'C11'
    runs = {'quick': 360, 'thorough': 6000}
    rule = 'a run counts as non-trivial when a fault ended a run between its first file operation and its end and the run was continued, or a call was repeated with shared option dictionaries'
    real = ['radvel.nested_sampling.run and its five backend functions', 'Posterior, priors, likelihoods', 'h5py, pytables', 'dynesty in the runs marked real']
    stub = ['nested-sampling packages (same interface, checkpoint files and resume rules, deterministic points)', 'file system behind the shim', 'wall clock, entropy']
    assumptions = ['a crash is the death of the process: completed writes survive it (no power loss)', 'the backends replace their own checkpoints as a whole']

    def gen(self, rng, i, tier):
        sampler = rng.choice(nslib.SAMPLERS)
        real = i % 16 == 5
        if real:
            sampler = rng.choice(['dynesty-static', 'dynesty-dynamic'])
        fault = dict(kind=rng.choice(KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 1000]), step=rng.random() < 0.4)
        if real:
            fault = dict(kind='crash', at_frac=rng.random(), frac=0.5, len=1, step=False)
        second = rng.choice([None, None, dict(kind='crash', tag='ns.step', at=rng.choice([1, 2]))]) if not real else None
        return dict(spec=setups.rand_spec(rng, npl=1 if real else None), sampler=sampler, real=real, outdir=rng.choice([nslib.rand_out(rng), nslib.rand_out(rng), None] if not real else ['res']), way=nslib.rand_form(rng, sampler), prior=rng.choice(['absent', 'absent', 'empty', 'foreign', 'done']),
                    flags=rng.choice([dict(proceed=True), dict(overwrite=True), dict(proceed=True, overwrite=True)]), same_process=rng.random() < 0.5,
                    dicts=rng.choice(['none', 'both', 'both', 'empty']), repeat=rng.choice([1, 2, 3]) if not real else 1,
                    nstep=rng.choice([2, 3, 4]), nper=rng.choice([2, 4]), fault=fault, second=second)

    def shrink(self, plan):
        yield from lib.shrink_keys(plan, {'spec.free': ['few'], 'spec.dvdt': [False], 'spec.ninst': [1], 'spec.npl': [1], 'spec.linear': [False], 'prior': ['absent'], 'way': [{}], 'outdir': ['res'] if plan['outdir'] else [], 'second': [None],
                                          'dicts': ['none', 'empty'], 'repeat': [1, 2], 'nper': [2], 'nstep': [2], 'same_process': [False], 'flags': [dict(overwrite=True)], 'fault': [None]})

    def dicts(self, plan):
        if plan['real']:
            return dict(sampler=dict(nlive=12), run=dict(print_progress=False, maxiter=30) if plan['sampler'] == 'dynesty-static' else dict(print_progress=False, maxiter_init=20, maxbatch=0))
        if plan['dicts'] == 'none':
            return dict(sampler=None, run=None)
        if plan['dicts'] == 'empty':
            return dict(sampler={}, run={})
        return dict(sampler=copy.deepcopy(nslib.SAMPLER_KW[plan['sampler']]), run=copy.deepcopy(nslib.RUN_KW[plan['sampler']]))

    def body(self, plan, flagseq, seed=1):
        """Node: calls with the given flags one after another, sharing one pair of option dictionaries."""
        def f():
            if not plan['real']:
                nsstub.install(seed=seed, nstep=plan['nstep'], nper=plan['nper'])
            post = lib.load(plan['spec']['name'] + '.py')
            d = self.dicts(plan)
            out = []
            for fl in flagseq:
                out.append(nslib.outcome(post, dict(fl, sampler=plan['sampler'], outdir=plan['outdir'], **plan['way']), d))
            return out
        return f

    def execute(self, plan, ctx):
        spec, sampler = plan['spec'], plan['sampler']
        base = ctx.root()
        fn = setups.write(spec, base)
        nsteps = plan['nstep']
        out = plan['outdir']
        want = None
        if not plan['real']:
            r = lib.isolated(lambda: nsstub.expected(lib.load(fn), 1, nsteps, plan['nper']))
            if r[0] != 'ok':
                raise core.HarnessError(str(r))
            want = r[1]
            r = lib.isolated(lambda: nsstub.expected(lib.load(fn), 5, nsteps, plan['nper']))
            self.older = r[1] if plan['prior'] == 'done' and out else None
        if out:
            os.makedirs(os.path.join(base, os.path.dirname(out)), exist_ok=True)
            if plan['prior'] in ('empty', 'foreign'):
                os.makedirs(os.path.join(base, out))
            if plan['prior'] == 'foreign':
                open(os.path.join(base, out, 'notes.txt'), 'w').write('mine\n')
            if plan['prior'] == 'done':
                s = ctx.sim(base, [self.body(plan, [dict(overwrite=True)], seed=5)], mask=0)
                self.ok(plan, s.results[0], 'a complete run', None)
        # ---- repeated calls with the same dictionaries
        d = self.clone(ctx, base)
        seq = [plan['flags']] + [dict(overwrite=True)] * (plan['repeat'] - 1)
        if plan['repeat'] == 3:
            seq[2] = dict(proceed=True)
        s = ctx.sim(d, [self.body(plan, seq)], mask=core.MUT)
        r = self.ok(plan, s.results[0], 'calls %s' % seq, None)
        if plan['repeat'] > 1 and plan['dicts'] == 'both':
            ctx.nontrivial = True
        proceeding = out and plan['prior'] == 'done' and plan['flags'].get('proceed')
        if want is not None:
            for j, x in enumerate(r):
                if not (proceeding and j == 0):
                    self.same_as(x['out'][1], want, 'call %d of %s' % (j, seq))
                self.restored(plan, x, (j == 0 and proceeding) or (j > 0 and seq[j].get('proceed') and out), 'call %d of %s with prior content: %s' % (j, seq, plan['prior']))
        if plan['fault'] is None:
            return
        # ---- a fault, then continuing
        log = [e for e in s.log if e[1] not in ('START', 'EXIT')]
        f = plan['fault']
        if 'at' not in f:
            x = f.pop('at_frac')
            if f.pop('step') and not plan['real']:
                f.update(tag='ns.step', at=1 + int(x * nsteps))
                if f['kind'] in ('enospc', 'eio', 'emfile', 'torn'):
                    f['kind'] = 'crash'
            else:
                per = max(1, len(log) // plan['repeat'])
                f['at'] = 1 + int(x * per)
                if f['kind'] == 'raise':
                    f.update(kind='raise', tag='ns.step', at=1 + int(x * nsteps))
        d = self.clone(ctx, base)
        flags = plan['flags']
        seq = [flags, dict(proceed=True)] if plan['same_process'] else [flags]
        s = ctx.sim(d, [self.body(plan, seq)], mask=core.MUT, faults=[f])
        fired = bool(s.faults_fired)
        w = '%s into %s (%s) with %s, %s at %s %d' % (sampler, out, plan['prior'], flags, f['kind'], f.get('tag', 'operation'), f['at'])
        res = s.results[0]
        ctx.probe('%s:%s' % (f['kind'] if fired else 'none', res[0]))
        if fired and (f['at'] > 1 or f.get('tag')):
            ctx.nontrivial = True
        if res[0] == 'ok':
            for x in res[1]:
                if x['changed']:
                    raise Violation('options-changed', '%s: the option dictionaries of the caller are %s' % (w, x['changed']))
            if res[1][0]['out'][0] == 'exc' and not fired:
                raise Violation('run-fails', '%s: %s' % (w, res[1][0]['out']))
            if len(res[1]) == 2 and f.get('len', 1) == 1:
                if res[1][1]['out'][0] != 'ok':
                    if res[1][0]['out'][0] == 'ok' and fired:
                        pass            # the fault hit the continued call
                    elif res[1][1]['out'][0] == 'int' or not s.faults_fired:
                        raise Violation('cannot-continue', '%s, then continued in the same process: %s' % (w, res[1][1]['out']))
                    else:
                        raise Violation('cannot-continue', '%s, then continued in the same process: %s' % (w, res[1][1]['out']))
                elif want is not None:
                    self.same_as(res[1][1]['out'][1], want, w + ', then continued in the same process', self.older)
        elif res[0] == 'exc' and res[1]['type'] != 'KeyboardInterrupt' and not fired:
            lib.must_ok(res, w)
        faults2 = [plan['second']] if plan['second'] else []
        for n, fs in ((0, faults2), (1, [])):
            if n == 0 and not fs:
                continue
            have = self.checkpoint(plan, d)
            s = ctx.sim(d, [self.body(plan, [dict(proceed=True)])], mask=core.MUT if fs or plan['real'] else 0, faults=fs)
            if fs and s.faults_fired:
                w += ', continued and killed at step %d' % fs[0]['at']
                continue
            r = self.ok(plan, s.results[0], w + ', then continued', 'cannot-continue')
            if want is not None:
                self.same_as(r[0]['out'][1], want, w + ', then continued', self.older)
                self.restored(plan, r[0], have, w + ', then continued')
            ctx.mark(r[0]['out'][1] if not plan['real'] else r[0]['out'][0])
        if out:
            got = nslib.read_results(os.path.join(d, out, 'results.hdf5'))
            if not lib.same(got, r[0]['out'][1]):
                raise Violation('results-differ', '%s, then continued: the results file is %s' % (w, got if not isinstance(got, dict) else 'another'))
            if plan['prior'] == 'foreign' and open(os.path.join(d, out, 'notes.txt')).read() != 'mine\n':
                raise Violation('foreign-file', '%s: a file of the user changed' % w)

    def ok(self, plan, res, what, label):
        r = lib.must_ok(res, what)
        for x in r:
            if x['out'][0] != 'ok':
                raise Violation(label or 'call-fails', '%s with %s: %s' % (what, plan['sampler'], x['out'][:3]))
            if x['changed']:
                raise Violation('options-changed', '%s with %s: the option dictionaries of the caller are %s' % (what, plan['sampler'], x['changed']))
        return r

    def same_as(self, got, want, what, older=None):
        """older: result of the run whose checkpoint was there before; it may be what was continued."""
        if older is not None and lib.same(lib.rows(got['samples']['val'][:, :-1]), lib.rows(older['samples'])):
            return
        if not lib.same(got['samples']['val'][:, :-1], want['samples']) or got['lnZ'] != want['lnZ']:
            raise Violation('other-result', '%s: not the result of an uninterrupted run: %s' % (what, lib.diff(want['samples'], got['samples']['val'][:, :-1]) or (got['lnZ'], want['lnZ'])))

    def checkpoint(self, plan, d):
        return bool(plan['outdir']) and os.path.exists(os.path.join(d, plan['outdir'], nslib.CHECKPOINT[plan['sampler']]))

    def restored(self, plan, x, should, what):
        did = any(e[0] == 'restore' for e in x['log'])
        if did != bool(should):
            raise Violation('resumed' if did else 'not-resumed', '%s: the checkpoint %s' % (what, 'was used although a fresh run was asked for' if did else 'was not used'))

    def clone(self, ctx, base):
        d = ctx.root()
        shutil.rmtree(d)
        shutil.copytree(base, d)
        return d
