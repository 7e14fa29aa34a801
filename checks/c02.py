"""C02: histories of saved and continued MCMC runs against a reference of what the checkpoint must hold."""
import os, random
import numpy as np
from sim import lib, setups, pool, core, recorder
from sim.runner import Check, Violation
from .c01 import gen_mcmc


class CHECK(Check):
    id = 'C02'
    runs = {'quick': 600, 'thorough': 4000}
    rule = 'a run counts as non-trivial when at least one continuation with kept samples completed and its prefix was compared'
    real = ['radvel.mcmc', 'radvel posterior/likelihood/model', 'emcee', 'h5py + libhdf5', 'compiled Kepler solver']
    stub = ['multiprocess.Pool (simulated pool) in the parallel operations', 'wall clock, entropy (shim)']
    assumptions = ['interruptions in these histories arrive while a sampler runs; crashes and disk errors are decided by C03']

    def gen(self, rng, i, tier):
        spec = setups.rand_spec(rng, gp=False)
        base = gen_mcmc(rng)
        base['thin'] = 1
        if rng.random() < 0.5:
            base['minpercent'] = 0
        ops = []
        for j in range(rng.randrange(2, 6)):
            r = rng.random()
            op = dict(op='run' if j == 0 or r < 0.25 else 'cont', to=rng.choice([0, 0, 1]), rounds=rng.randrange(1, 4), seed=rng.randrange(2**31),
                      serial=rng.random() < 0.75)
            if op['op'] == 'cont':
                op['src'] = rng.choice([0, 0, 1])
                op['save'] = rng.random() < 0.9
                if rng.random() < 0.3:
                    op['mismatch'] = rng.choice(['ensembles+', 'ensembles-', 'nwalkers', 'ndim'])
                elif rng.random() < 0.5:
                    op['to'] = op['src']
            else:
                op['ensembles'] = rng.choice([1, 2, 3, base['ensembles']]) if base['ensembles'] < 10 else rng.choice([2, base['ensembles'], base['ensembles']])
                op['nwalkers'] = base['nwalkers'] + rng.choice([0, 0, 2])
            if 'mismatch' not in op and rng.random() < 0.12:
                op['interrupt'] = rng.randrange(1, 12)
            for k in ('burnGR', 'burnAfactor', 'minAfactor'):
                if rng.random() < 0.3:
                    op[k] = gen_mcmc(rng)[k]
            ops.append(op)
        return dict(spec=spec, kw=base, ops=ops, session=rng.random() < 0.4, npool=rng.randrange(2**31))

    def shrink(self, plan):
        for ops in lib.without_each(plan['ops']):
            if ops:
                q = dict(plan); q['ops'] = ops
                yield q
        t = {'session': [False], 'spec.npl': [1], 'spec.free': ['few'], 'spec.ninst': [1], 'spec.dvdt': [False]}
        for i, op in enumerate(plan['ops']):
            t['ops.%d.rounds' % i] = [1]
            t['ops.%d.serial' % i] = [True]
            if op.get('interrupt'):
                t['ops.%d.interrupt' % i] = [None]
        yield from lib.shrink_keys(plan, t)

    def execute(self, plan, ctx):
        spec = plan['spec']
        root = ctx.root()
        setups.write(spec, root)
        setups.write(dict(spec, name='other', dvdt=not spec['dvdt']), root)
        ndim0 = len(lib.load(root + '/toi.py').name_vary_params())
        files = {0: None, 1: None}      # slot -> (contents, meta) as the reference knows it
        meta = {0: None, 1: None}
        starts = []

        def one(op, kw, setup):
            def f():
                if op.get('interrupt'):
                    lib.hook_sample()
                lib.hook_streams()
                post = lib.load(setup)
                r = lib.run_mcmc(post, kw, op['seed'])
                r['starts'] = sorted(set(c for _, c in recorder.take()))
                r['ndim'] = len(post.name_vary_params())
                return r
            return f

        for j, op in enumerate(plan['ops']):
            kw = dict(plan['kw'])
            kw.update({k: op[k] for k in ('burnGR', 'burnAfactor', 'minAfactor') if k in op})
            kw.update(serial=op['serial'], nrun=op['rounds'] * (kw['checkinterval'] - 1), save=True, savename='f%d.h5' % op['to'])
            setup, refuse, src = 'toi.py', False, None
            if op['op'] == 'cont':
                src = op['src']
                if files[src] is None:
                    continue
                m = meta[src]
                kw.update(ensembles=m['E'], nwalkers=m['nw'], proceed=True, proceedname='f%d.h5' % src)
                if not op['save']:
                    kw['save'] = False
                    kw.pop('savename')
                mm = op.get('mismatch')
                if mm:
                    refuse = True
                    if mm == 'ensembles+': kw['ensembles'] += 1
                    elif mm == 'ensembles-': kw['ensembles'] = kw['ensembles'] - 1 or 2
                    elif mm == 'nwalkers': kw['nwalkers'] += 2
                    else: setup = 'other.py'
            else:
                kw.update(ensembles=op['ensembles'], nwalkers=op['nwalkers'])
            what = 'operation %d (%s%s)' % (j, op['op'], '/' + op['mismatch'] if op.get('mismatch') else '')
            faults = [dict(kind='int', tag='sample', at=op['interrupt'])] if op.get('interrupt') else []
            before = {s: lib.read_h5('%s/f%d.h5' % (root, s)) for s in (0, 1)}
            s = ctx.sim(root, [one(op, kw, setup)], mask=0, faults=faults, pool_seed=plan['npool'] + j)
            res = s.results[0]
            after = {s_: lib.read_h5('%s/f%d.h5' % (root, s_)) for s_ in (0, 1)}
            other = 1 - op['to']
            d = lib.diff(before[other], after[other])
            if d:
                raise Violation('other-file-changed', '%s changed f%d%s' % (what, other, d))
            if refuse:
                ctx.probe('refused')
                if res[0] == 'ok' or 'ValueError' not in res[1].get('mro', []):
                    raise Violation('not-refused', '%s: %s instead of a ValueError' % (what, 'completed' if res[0] == 'ok' else res[1]['type'] + ': ' + res[1]['str']))
                d = lib.diff(before[op['to']], after[op['to']])
                if d:
                    raise Violation('refused-but-changed', '%s: f%d%s' % (what, op['to'], d))
                continue
            if res[0] != 'ok' and not (op.get('interrupt') and s.faults_fired):
                lib.must_ok(res, what)
            r = res[1] if res[0] == 'ok' else None
            interrupted = bool(s.faults_fired)
            if not interrupted and (r is None or r['df'] is None):
                raise Violation('no-table', '%s returned no table' % what)
            if op['op'] == 'cont' and r is not None and not interrupted:
                # every ensemble starts from its own last saved positions
                c0 = files[src]
                for e in range(kw['ensembles']):
                    if lib.coords_key(c0['%d_chain' % e][-1]) not in r['starts']:
                        raise Violation('wrong-start', '%s: no step starts from the last saved positions of ensemble %d' % (what, e))
            if not kw['save']:
                if lib.diff(before[op['to']], after[op['to']]):
                    raise Violation('unsaved-run-changed-file', what)
                if op['op'] == 'cont' and not interrupted:
                    self.prefix_df(files[src], r, kw['ensembles'], what)
                    ctx.probe('continued')
                continue
            now = after[op['to']]
            if interrupted:
                ctx.probe('interrupted')
                if not lib.diff(before[op['to']], now):
                    continue
            E = kw['ensembles']
            nw = max(kw['nwalkers'], 2 * ndim0)
            n = lib.check_layout(now, E, nw, ndim0, what)
            ctx.mark(what, n, float(now['0_chain'].sum()))
            if not interrupted:
                self.file_is_table(now, r, E, what)
            if op['op'] == 'cont':
                if self.prefix_file(files[src], now, E, what):
                    ctx.nontrivial = True
                ctx.probe('continued')
            else:
                if n % kw['checkinterval']:
                    raise Violation('fresh-run-rows', '%s: %d rows per ensemble, check interval %d' % (what, n, kw['checkinterval']))
                if n > op['rounds'] * kw['checkinterval']:
                    raise Violation('fresh-run-rows', '%s: %d rows after %d rounds of %d' % (what, n, op['rounds'], kw['checkinterval']))
            files[op['to']], meta[op['to']] = now, dict(E=E, nw=nw)

    def file_is_table(self, h, r, E, what):
        df, sv = r['df'], r['sv']
        allrows = np.concatenate([np.concatenate([h['%d_chain' % e], h['%d_log_prob' % e][:, :, None]], axis=2).reshape(-1, h['0_chain'].shape[2] + 1) for e in range(E)])
        if allrows.shape != df['val'].shape or not lib.same(lib.rows(allrows), lib.rows(df['val'])):
            raise Violation('file-not-table', '%s: the saved samples are not the returned ones (%s saved, %s returned)' % (what, allrows.shape, df['val'].shape))
        for k, s in (('autosample', 'autosamples'), ('automin', 'automin'), ('automean', 'automean'), ('automax', 'automax')):
            if sv[s] is not None and not lib.same(h[k], np.array(sv[s], dtype=float)):
                raise Violation('file-history', '%s: saved %s %s, run has %s' % (what, k, h[k], sv[s]))
        crit = [sv[k] for k in ('minafactor', 'maxarchange', 'mintz', 'maxgr')]
        if None not in crit and not lib.same(h['crit'], np.array(crit, dtype=float)):
            raise Violation('file-crit', '%s: saved criteria %s, run has %s' % (what, h['crit'], crit))
        if h['burned'].shape != (1,) or sv['nburn'] is not None and h['burned'][0] not in (0, sv['nburn']):
            raise Violation('file-burned', '%s: saved burned %s, run has %s' % (what, h['burned'], sv['nburn']))

    def prefix_file(self, a, b, E, what):
        for k in ('autosample', 'automin', 'automean', 'automax'):
            if b[k].shape[0] < a[k].shape[0] or not lib.same(b[k][:a[k].shape[0]], a[k]):
                raise Violation('history-lost', '%s: %s was %s, is %s' % (what, k, a[k], b[k]))
        if a['burned'][0] != 0 and b['burned'][0] != a['burned'][0]:
            raise Violation('burned-lost', '%s: burned was %s, is %s' % (what, a['burned'], b['burned']))
        if a['burned'][0] == 0 and b['burned'][0] != 0:
            if b['burned'][0] <= a['0_chain'].shape[0] * a['0_chain'].shape[1] * E:
                raise Violation('burned-count', '%s: burn-in of %s samples is shorter than what was saved before' % (what, b['burned'][0]))
            return False                       # burn-in completed in this run: earlier samples may go
        for e in range(E):
            for s in ('chain', 'log_prob'):
                x, y = a['%d_%s' % (e, s)], b['%d_%s' % (e, s)]
                if y.shape[0] <= x.shape[0] or not lib.same(y[:x.shape[0]], x):
                    raise Violation('prefix-lost', '%s: saved samples of ensemble %d are not the beginning of the continued %s (%s -> %s)' % (what, e, s, x.shape, y.shape))
            n = a['0_chain'].shape[0]
            for f in range(E):                 # the first new step is one from the ensemble's own last positions
                if f != e and np.any(np.all(b['%d_chain' % e][n] == a['%d_chain' % f][-1], axis=1)):
                    raise Violation('wrong-start', '%s: ensemble %d goes on from the last positions of ensemble %d' % (what, e, f))
            if np.any(b['%d_accepted' % e] < a['%d_accepted' % e]):
                raise Violation('accepted-lost', '%s: ensemble %d' % (what, e))
        return True

    def prefix_df(self, a, r, E, what):
        """A continuation that is not saved: the table starts with the saved samples unless burn-in completed."""
        v = r['df']['val']
        nw, nd = a['0_chain'].shape[1:]
        n = v.shape[0] // (E * nw)
        if a['burned'][0] == 0 and r['sv']['nburn']:
            if r['sv']['ncomplete'] != r['sv']['nburn']:
                return
        if v.shape[0] < E * nw * a['0_chain'].shape[0]:
            raise Violation('prefix-lost', '%s: %d rows returned, %d were saved' % (what, v.shape[0], E * nw * a['0_chain'].shape[0]))
        have = set(map(bytes, np.ascontiguousarray(v)))
        for e in range(E):
            rowsA = np.concatenate([a['%d_chain' % e], a['%d_log_prob' % e][:, :, None]], axis=2).reshape(-1, nd + 1)
            for row in np.ascontiguousarray(rowsA):
                if bytes(row) not in have:
                    raise Violation('prefix-lost', '%s: a saved sample of ensemble %d is not in the returned table' % (what, e))
