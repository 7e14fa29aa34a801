"""C03: one fault at any file operation or step of a saving MCMC run; the checkpoint is always the old or a complete new one."""
import os, random, shutil
import numpy as np
from sim import lib, setups, pool, core
from sim.runner import Check, Violation
from .c01 import gen_mcmc

KINDS = ['crash', 'crash', 'crash', 'torn', 'torn', 'enospc', 'enospc', 'eio', 'short', 'int', 'emfile']


class CHECK(Check):
    id = 'C03'
    runs = {'quick': 230, 'thorough': 5000}
    rule = 'a run counts as non-trivial when its fault hit after the first file operation of the run and before the last one'
    real = ['radvel.mcmc', 'radvel posterior/likelihood/model', 'emcee', 'h5py + libhdf5 (its system calls pass through the shim)', 'compiled Kepler solver']
    stub = ['multiprocess.Pool (simulated pool) in parallel runs', 'file system behind the shim: real tmpfs, every call may fail, be cut or be the last', 'wall clock, entropy']
    assumptions = ['a crash is the death of the process: completed writes survive it (no power loss)']

    def gen(self, rng, i, tier):
        spec = setups.rand_spec(rng, npl=1, gp=False)
        kw = gen_mcmc(rng)
        kw['thin'] = 1
        kw['minpercent'], kw['minsteps'] = rng.choice([(0, 0), (0, 0), (1e9, 10**6)])      # makes prefix runs comparable
        return dict(spec=spec, kw=kw, rounds=rng.randrange(1, 4), before=rng.choice(['none', 'run', 'run', 'bigger', 'proceed', 'proceed', 'proceed-other']),
                    npseed=rng.randrange(2**31), npool=rng.randrange(2**31), serial=rng.random() < 0.7,
                    faults=[dict(kind=rng.choice(KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 3, 1000])) for _ in range(4)])

    def shrink(self, plan):
        yield from lib.shrink_keys(plan, {'rounds': [1, 2], 'before': ['none', 'run'], 'serial': [True], 'kw.ensembles': [1, 2], 'spec.free': ['few'], 'spec.dvdt': [False],
                                          'spec.ninst': [1], 'faults.0.len': [1]})
        if len(plan['faults']) > 1:
            for f in plan['faults']:
                yield dict(plan, faults=[f])
            return
        at = plan['faults'][0].get('at')
        if at:
            for b in (1, at // 2, at - 1):
                if 0 < b < at:
                    q = dict(plan); q['faults'] = [dict(plan['faults'][0], at=b)]
                    yield q

    def execute(self, plan, ctx):
        spec, kw = plan['spec'], dict(plan['kw'])
        ci, R = kw['checkinterval'], plan['rounds']
        kw.update(serial=plan['serial'], save=True, savename='s.h5')
        before = plan['before']
        prep = {k: v for k, v in kw.items()}
        prep.update(nrun=2 * (ci - 1), serial=True)
        if before == 'bigger':
            prep['ensembles'] += 1
        if before == 'proceed-other':
            prep['savename'] = 'p.h5'
        if before.startswith('proceed'):
            kw.update(proceed=True, proceedname=prep['savename'])

        def node(kw, seed):
            def f():
                lib.hook_sample()
                return lib.run_mcmc(lib.load(spec['name'] + '.py'), kw, seed)
            return f

        base = ctx.root()
        setups.write(spec, base)
        if before != 'none':
            s = ctx.sim(base, [node(prep, 7)], mask=0)
            lib.must_ok(s.results[0], 'preparing run')
        B = lib.read_h5(base + '/s.h5')
        if isinstance(B, str):
            raise Violation('unreadable', 'after an undisturbed run: %s' % B)

        truth, Y = [], []
        for k in range(1, R + 1):
            d = self.clone(ctx, base)
            s = ctx.sim(d, [node(dict(kw, nrun=k * (ci - 1)), plan['npseed'])], mask=core.MUT, pool_seed=plan['npool'])
            ref = lib.must_ok(s.results[0], 'undisturbed run of %d rounds' % k)
            t = lib.read_h5(d + '/s.h5')
            if not isinstance(t, dict):
                raise Violation('unreadable', 'after an undisturbed run: %s' % t)
            truth.append(t)
            Y.append(sum(1 for e in s.log if e[1] == 'YIELD' and e[2] == 'sample'))
        nev = s.nodes[0].nev
        ops = sum(1 for e in s.log if e[1] not in ('YIELD', 'START', 'EXIT'))

        writes = [i + 1 for i, e in enumerate(s.log) if e[1] == 'WRITE']
        plan['faults'] = [self.place(f, Y, nev, writes) for f in plan['faults']]
        for f in plan['faults']:
            self.one(plan, ctx, base, node, kw, f, Y, nev, truth, B, ref)

    def place(self, f, Y, nev, writes):
        f = dict(f)
        if 'at' in f:
            return f
        frac = f.pop('at_frac')
        if f['kind'] == 'int' and f['frac'] >= 0.3:
            f['tag'], f['at'] = 'sample', 1 + int(frac * Y[-1])
        elif f['kind'] in ('eio', 'enospc', 'short', 'torn') and writes and f['frac'] < 0.4:
            f['at'] = writes[int(frac * len(writes))]
        else:
            f['at'] = 1 + int(frac * nev)
        return f

    def one(self, plan, ctx, base, node, kw, f, Y, nev, truth, B, ref):
        ci, R, before = plan['kw']['checkinterval'], plan['rounds'], plan['before']
        d = self.clone(ctx, base)
        seen = {'y': 0, 'k': 0, 'low': 0}

        def on_event(sim, ev):
            if ev.type == 'YIELD' and ev.path == 'sample':
                seen['y'] += 1
                k = sum(1 for y in Y if y < seen['y'])      # saves that must have finished before this step
                if k > seen['low'] and not sim.faults_fired:
                    h = lib.read_h5(d + '/s.h5')
                    if lib.diff(h, truth[k - 1]):
                        raise Violation('late-checkpoint', 'step %d is running but the file is not the checkpoint of check %d%s' % (seen['y'], k, lib.diff(h, truth[k - 1])))
                seen['low'] = max(seen['low'], k)
        s = ctx.sim(d, [node(dict(kw, nrun=R * (ci - 1)), plan['npseed'])], mask=core.MUT, faults=[f], on_event=on_event, pool_seed=plan['npool'])
        res = s.results[0]
        fired = bool(s.faults_fired)
        if fired and 1 < f['at'] < (Y[-1] if 'tag' in f else nev):
            ctx.nontrivial = True
        h = lib.read_h5(d + '/s.h5')
        low = seen['low']
        what = '%s at %s %d of a %s run over %d rounds' % (f['kind'], f.get('tag', 'operation'), f['at'], before, R)
        last = s.log[-1] if s.log else None
        ctx.mark(res[0], f['kind'])
        if isinstance(h, str):
            raise Violation('checkpoint-destroyed', '%s: %s (last event %s)' % (what, h, last))
        k = None
        if not lib.diff(h, B):
            k = 0
        for j, t in enumerate(truth):
            if not lib.diff(h, t):
                k = j + 1
        if k is None:
            near = truth[low - 1] if low else (B if B is not None else truth[0])
            raise Violation('checkpoint-destroyed', '%s: the file is neither the earlier one nor a complete checkpoint of this run: %s (last event %s)' % (
                what, 'no file' if h is None else lib.diff(h, near), last))
        if k < low:
            raise Violation('checkpoint-old', '%s: the file is that of check %d, check %d had been saved' % (what, k, low))
        ctx.probe('state:before' if k == 0 else 'state:check')
        if res[0] == 'ok':
            if not fired or f['kind'] in ('enospc', 'eio', 'emfile', 'short'):
                d_ = lib.diff(res[1], ref)
                if d_:
                    raise Violation('fault-changes-result', '%s: the run completed with another result%s' % (what, d_))
                if k != R:
                    raise Violation('silent-save-failure', '%s: the run completed without an error but the file is that of check %d of %d' % (what, k, R))
        elif res[0] == 'exc' and not fired:
            lib.must_ok(res, what)
        ctx.probe('outcome:%s' % (res[0] if res[0] != 'exc' else 'exception'))
        # it can be continued
        if h is not None:
            E = sum(1 for x in h if x.endswith('_chain'))
            kk = dict(kw, ensembles=E, nrun=ci - 1, proceed=True, proceedname='s.h5')
            s = ctx.sim(d, [node(kk, 99)], mask=0, pool_seed=1)
            if s.results[0][0] != 'ok':
                raise Violation('not-continuable', '%s: continuing from it: %s' % (what, s.results[0][1]['str'] if isinstance(s.results[0][1], dict) else s.results[0][1]))

    def clone(self, ctx, base):
        d = ctx.root()
        shutil.rmtree(d)
        shutil.copytree(base, d)
        return d
