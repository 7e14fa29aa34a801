"""C07: one fault in a pipeline command, anywhere; the status file and what it names stay usable."""
import os, random, shutil
import numpy as np
from sim import lib, setups, pool, core, pipe
from sim.runner import Check, Violation

KINDS = ['crash', 'crash', 'crash', 'crash', 'torn', 'torn', 'torn', 'enospc', 'enospc', 'enospc', 'eio', 'emfile', 'int', 'int', 'short']
NS = ['dynesty-static', 'dynesty-dynamic', 'ultranest', 'nautilus', 'multinest']


def gen_history(rng):
    """-> (prefix commands, target command)"""
    samplers = lambda: rng.choice([['mcmc', '--save'], ['mcmc'], ['mcmc', '--serial', 'True'], ['ns', '--sampler', rng.choice(NS), '--overwrite']])
    target = rng.choice(['fit', 'mcmc', 'mcmc', 'ns', 'derive', 'derive', 'ic', 'table', 'table'])
    hist = []
    if target == 'fit':
        if rng.random() < 0.6:
            hist = [['fit']] + ([samplers()] if rng.random() < 0.5 else [])
        return hist, ['fit']
    hist.append(['fit'])
    if target == 'mcmc':
        if rng.random() < 0.5:
            hist.append(['mcmc', '--save'])
            return hist, rng.choice([['mcmc', '--save'], ['mcmc', '--save', '--proceed'], ['mcmc']])
        return hist, rng.choice([['mcmc', '--save'], ['mcmc'], ['mcmc', '--serial', 'True']])
    if target == 'ns':
        if rng.random() < 0.5:
            hist.append(['ns', '--sampler', rng.choice(NS), '--overwrite'])
            return hist, hist[-1][:-1] + [rng.choice(['--overwrite', '--proceed'])]
        return hist, ['ns', '--sampler', rng.choice(NS), '--overwrite']
    if target == 'ic':
        if rng.random() < 0.4:
            hist.append(['ic', '-t', 'e'])
        return hist, ['ic', '-t', rng.choice(['trend', 'jit', 'nplanets'])]
    hist.append(samplers())
    if target == 'derive':
        if rng.random() < 0.5:
            hist.append(['derive'])
        return hist, ['derive']
    if rng.random() < 0.5:
        hist.append(['derive'])
    t = ['params', 'priors', 'rv'] + (['derived'] if hist[-1] == ['derive'] else []) + (['crit'] if hist[1][0] == 'mcmc' else [])
    now = rng.sample(t, rng.randrange(1, 3))
    if rng.random() < 0.7:
        hist.append(['table', '-t'] + (rng.sample(now, 1) if rng.random() < 0.7 else rng.sample(t, 1)))
    return hist, ['table', '-t'] + now


SECTION = {'fit': 'fit', 'mcmc': 'mcmc', 'ns': 'ns', 'derive': 'derive', 'ic': 'ic_compare', 'table': 'table', 'plot': 'plot'}


class CHECK(Check):
    id = 'C07'
    runs = {'quick': 220, 'thorough': 3000}
    rule = 'a run counts as non-trivial when one of its faults hit between the first and the last file operation of the command'
    real = ['radvel.cli, radvel.driver', 'radvel.mcmc, radvel.nested_sampling, radvel.fitting, radvel.report tables, Posterior.writeto/load', 'emcee, h5py, pandas, bz2, dill, configparser']
    stub = ['multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'file system behind the shim: real tmpfs, every call may fail, be cut or be the last', 'wall clock, entropy']
    assumptions = ['a crash is the death of the process: completed writes survive it (no power loss)']

    def gen(self, rng, i, tier):
        hist, target = gen_history(rng)
        return dict(spec=setups.rand_spec(rng, npl=1, gp=False), hist=hist, target=target, npseed=rng.randrange(2**31), npool=rng.randrange(2**31),
                    faults=[dict(kind=rng.choice(KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 1000]),
                                 place=rng.choice(['any', 'tail', 'file', 'file'])) for _ in range(4)])

    def shrink(self, plan):
        for fs in lib.without_each(plan['faults']):
            if fs:
                q = dict(plan); q['faults'] = fs
                yield q
        yield from lib.shrink_keys(plan, {'spec.free': ['few'], 'spec.dvdt': [False], 'spec.ninst': [1], 'spec.linear': [False], 'spec.rp': [False], 'faults.0.len': [1]})
        f = plan['faults'][0]
        if len(plan['faults']) == 1 and f.get('at'):
            for b in (1, f['at'] // 2, f['at'] - 1):
                if 0 < b < f['at']:
                    q = dict(plan); q['faults'] = [dict(f, at=b)]
                    yield q

    def execute(self, plan, ctx):
        spec, target = plan['spec'], plan['target']
        sec = SECTION[target[0]]
        base = ctx.root()
        setups.write(spec, base)
        for j, c in enumerate(plan['hist']):
            s = ctx.sim(base, [self.command(spec, c, plan['npseed'] + j)], mask=0, pool_seed=plan['npool'])
            lib.must_ok(s.results[0], 'undisturbed %s' % ' '.join(c))
        A = pipe.summary(base, spec)
        self.sane(A, base, 'before the command', spec)
        seed = plan['npseed'] + 77
        good = self.clone(ctx, base)
        s = ctx.sim(good, [self.command(spec, target, seed)], mask=core.MUT, pool_seed=plan['npool'])
        got = lib.must_ok(s.results[0], 'undisturbed %s' % ' '.join(target))
        self.check_result(got, base, spec, target, A, '%s after %s' % (' '.join(target), [' '.join(c) for c in plan['hist']]))
        B = pipe.summary(good, spec)
        self.sane(B, good, 'after undisturbed %s' % ' '.join(target), spec)
        for k in set(A['status'] or {}) - {sec}:
            if A['status'][k] != B['status'].get(k):
                raise Violation('other-section', '%s changed the record of %s: %s' % (target[0], k, lib.diff(A['status'][k], B['status'].get(k))))
        log = [e for e in s.log if e[1] not in ('START', 'EXIT')]
        nev = len(log)
        # the artefacts are written at the end: most of the faults fall after the computing, many on a file chosen first, however few operations it takes
        first = next((i for i, e in enumerate(log) if e[1] not in ('YIELD',) and 'rawchain' not in e[2] and '_ns' not in e[2]), 0)
        ctx.mark(nev, B['status'])
        for f in plan['faults']:
            if 'at' not in f:
                x, place = f.pop('at_frac'), f.pop('place')
                if place == 'file':
                    groups = {}
                    for j, e in enumerate(log):
                        if j >= first and e[1] != 'YIELD':
                            groups.setdefault(os.path.basename(e[2]).split('.')[0], []).append(j)
                    if groups:
                        x *= len(groups)
                        g = groups[sorted(groups)[int(x)]]
                        f['at'] = 1 + g[int((x - int(x)) * len(g))]
                if 'at' not in f:
                    f['at'] = 1 + (int(x * nev) if place == 'any' else first + int(min(x, 0.999) * (nev - first)))
            self.one(plan, ctx, base, A, B, f, nev, sec, seed)

    def command(self, spec, cmd, seed):
        return pipe.node(spec, cmd, seed)

    def check_result(self, got, root, spec, cmd, before, what):
        pass

    def one(self, plan, ctx, base, A, B, f, nev, sec, seed):
        spec, target = plan['spec'], plan['target']
        d = self.clone(ctx, base)
        s = ctx.sim(d, [self.command(spec, target, seed)], mask=core.MUT, pool_seed=plan['npool'], faults=[f])
        res = s.results[0]
        fired = bool(s.faults_fired)
        last = s.log[-1] if s.log else None
        what = '%s at operation %d of %d of "%s" after %s' % (f['kind'], f['at'], nev, ' '.join(target), [c[0] for c in plan['hist']])
        now = pipe.summary(d, spec)
        ctx.mark(f, res[0], last)
        ctx.probe('%s:%s' % (f['kind'] if fired else 'none', res[0]))
        if fired and 1 < f['at'] < nev:
            ctx.nontrivial = True
        st = now['status']
        if isinstance(st, str):
            raise Violation('status-unreadable', '%s: %s (last event %s)' % (what, st, last))
        if A['status'] is not None and st is None:
            raise Violation('status-gone', what)
        st = st or {}
        a, b = A['status'] or {}, B['status']
        for k in sorted(set(a) | set(st)):
            if k != sec:
                if st.get(k) != a.get(k):
                    raise Violation('record-lost', '%s: the record of %s was %s, is %s (last event %s)' % (what, k, a.get(k), st.get(k), last))
            elif k in ('table', 'plot'):
                for key in set(st.get(k, {})) | set(a.get(k, {})):
                    if st.get(k, {}).get(key) not in (a.get(k, {}).get(key), b[k].get(key)):
                        raise Violation('record-torn', '%s: %s record %s is %r' % (what, k, key, st.get(k, {}).get(key)))
                if k not in st and k in a:
                    raise Violation('record-lost', '%s: %s records are gone' % (what, k))
            elif st.get(k) not in (a.get(k), b.get(k)):
                raise Violation('record-torn', '%s: the record of %s is neither the old nor the new one: %s' % (what, k, lib.diff(b.get(k), st.get(k))))
        for (s_, k), fn in pipe.named_files(st).items():
            p = os.path.relpath(fn, pipe.OUT)
            dg = now['files'].get(p)
            if dg is None:
                raise Violation('artefact-missing', '%s: %s named by [%s] %s is missing (last event %s)' % (what, fn, s_, k, last))
            if dg.startswith('BROKEN'):
                raise Violation('artefact-broken', '%s: %s named by [%s] %s: %s (last event %s)' % (what, fn, s_, k, dg, last))
            if dg not in (A['files'].get(p), B['files'].get(p)):
                raise Violation('artefact-other', '%s: %s is neither the earlier nor the new version' % (what, fn))
        if res[0] == 'ok':
            if st != b:
                raise Violation('silent-failure', '%s: completed, but the status differs from that of an undisturbed run%s' % (what, lib.diff(b, st)))
            bad = [p for p in B['files'] if now['files'].get(p) != B['files'][p]]
            if bad:
                raise Violation('silent-failure', '%s: completed, but %s differ from an undisturbed run' % (what, bad))
        elif res[0] == 'exc' and not fired:
            lib.must_ok(res, what)
        # again, undisturbed
        s = ctx.sim(d, [self.command(spec, target, seed)], mask=0, pool_seed=plan['npool'])
        if s.results[0][0] != 'ok':
            r = s.results[0][1]
            raise Violation('rerun-fails', '%s: running the command again: %s' % (what, (r['type'] + ': ' + r['str'] + '\n' + r['tb'][-500:]) if isinstance(r, dict) else r))
        again = pipe.summary(d, spec)
        self.sane(again, d, '%s, then run again' % what, spec)
        for k in b:
            if k not in again['status']:
                raise Violation('rerun-incomplete', '%s, then run again: no record of %s' % (what, k))
            if k != sec and again['status'][k] != a[k]:
                raise Violation('record-lost', '%s, then run again: the record of %s changed' % (what, k))

    def sane(self, S, root, what, spec):
        st = S['status']
        if isinstance(st, str):
            raise Violation('status-unreadable', '%s: %s' % (what, st))
        for (s_, k), fn in pipe.named_files(st or {}).items():
            dg = S['files'].get(os.path.relpath(fn, pipe.OUT))
            if dg is None or dg.startswith('BROKEN'):
                raise Violation('artefact-broken', '%s: %s named by [%s] %s: %s' % (what, fn, s_, k, dg or 'missing'))

    def clone(self, ctx, base):
        d = ctx.root()
        shutil.rmtree(d)
        shutil.copytree(base, d)
        return d
