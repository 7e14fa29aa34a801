"""C04: scripted autocorrelation times drive the real run; a reference state machine predicts burn-in, stopping and records."""
import os, random
import numpy as np
import emcee
import emcee.moves.red_blue
from sim import lib, setups, recorder
from sim.runner import Check, Violation

INF = float('inf')


def gr_tz(x, E):
    """Ford (2006) eqs 21-26 from the samples (steps of all ensembles stacked, walkers, parameters)."""
    blocks = np.split(x, E, axis=0)
    pars = [b.reshape(-1, b.shape[2]) for b in blocks]                     # samples x parameters, one per ensemble
    n = float(pars[0].shape[0])
    W = np.mean([np.var(p, axis=0) for p in pars], axis=0)
    mu = np.array([np.mean(p, axis=0) for p in pars])
    B = np.var(mu, axis=0) * n
    var = (1 - 1 / n) * W + B / n
    with np.errstate(all='ignore'):
        gr = np.sqrt(var / W)
        if E == 1:
            return gr, None
        bz = np.var(mu, axis=0) / (E - 1.0) * n
        r = var / bz
        tz = E * n * r[r < 1]
    return gr, tz


class Ref(object):
    """What the documentation of the convergence criteria says."""

    def __init__(self, p, E, nw, ndim, start=None):
        self.p, self.E, self.nw, self.ndim = p, E, nw, ndim
        self.kept = 0 if start is None else start['kept']
        self.nburn = 0 if start is None else start['nburn']
        self.burn = self.nburn != 0
        self.auto = dict(autosamples=[], automean=[], automin=[], automax=[]) if start is None else {k: list(v) for k, v in start['auto'].items()}
        self.mix, self.old, self.ismixed = 0, np.zeros(1), 0
        self.stats = dict(minafactor=-1, maxarchange=INF, maxgr=INF, mintz=-1)
        self.evals = 0
        self.stopped = False
        self.margin = INF
        self.last_reset = False

    def near(self, value, limit):
        if np.isfinite(value) and np.isfinite(limit):
            self.margin = min(self.margin, abs(value - limit) / max(1e-12, abs(limit)))

    def check(self, evaluation, tau):
        """One convergence check after a round. evaluation: samples handed to the autocorrelation estimator, or None."""
        p = self.p
        self.kept += p['checkinterval']
        self.ncomplete = self.nburn + self.kept * self.nw * self.E
        pc = self.ncomplete / float(p['nrun'] * self.nw * self.E) * 100
        due = not (pc < p['minpercent'] and self.kept * self.nw <= p['minsteps'] * self.nw)
        if due != (evaluation is not None):
            raise Violation('threshold', 'after %d kept steps (%.1f%%; minsteps %s, minpercent %s) the statistics were %s' % (
                self.kept, pc, p['minsteps'], p['minpercent'], 'evaluated' if evaluation is not None else 'not evaluated'))
        self.last_reset = False
        if not due:
            self.ismixed, self.stats = 0, dict(minafactor=-1.0, maxarchange=INF, maxgr=INF, mintz=-1.0)
        else:
            self.evals += 1
            if evaluation.shape != (self.kept * self.E, self.nw, self.ndim):
                raise Violation('samples-used', 'statistics use samples of shape %s, kept are %s' % (evaluation.shape, (self.kept * self.E, self.nw, self.ndim)))
            gr, tz = gr_tz(evaluation, self.E)
            tau = np.asarray(tau, dtype=float)
            with np.errstate(all='ignore'):
                af = evaluation.shape[0] / tau
                ac = np.abs(tau - self.old) / self.old
            if tz is None:
                mintz, tzok = -1, True
            else:
                mintz = tz.min() if tz.size else -1
                tzok = mintz > p['minTz']
                self.near(mintz, p['minTz'])
            self.stats = dict(minafactor=af.min(), maxarchange=ac.max(), maxgr=gr.max(), mintz=mintz)
            self.ismixed = int(tzok and gr.max() < p['maxGR'] and af.min() > p['minAfactor'] and ac.max() < p['maxArchange'])
            self.near(gr.max(), p['maxGR']); self.near(gr.max(), p['burnGR']); self.near(af.min(), p['minAfactor'])
            self.near(af.min(), p['burnAfactor']); self.near(ac.max(), p['maxArchange'])
            self.old = tau
            if self.burn:
                self.auto['autosamples'].append(self.kept * self.E)
                self.auto['automean'].append(tau.mean()); self.auto['automin'].append(tau.min()); self.auto['automax'].append(tau.max())
            self.mix = self.mix + 1 if self.ismixed else 0
        self.table = self.kept
        if not self.burn and (self.stats['maxgr'] <= p['burnGR'] or self.stats['minafactor'] >= p['burnAfactor']):
            self.burn, self.nburn, self.kept, self.last_reset = True, self.ncomplete, 0, True
        if self.mix >= 2:
            self.stopped = True
        return self.stopped


class CHECK(Check):
    id = 'C04'
    runs = {'quick': 1000, 'thorough': 6000}
    rule = 'a run counts as non-trivial when burn-in completed or the run stopped early, with at least two evaluations'
    real = ['radvel.mcmc incl. Gelman-Rubin and T_z computation', 'radvel posterior/likelihood/model', 'emcee sampling', 'h5py']
    stub = ['emcee.autocorr.integrated_time returns the scripted autocorrelation times of the plan', 'multiprocess.Pool (simulated pool)', 'wall clock, entropy']
    assumptions = ['the statistics themselves are compared to a relative 1e-5; runs in which one comes within 1e-4 of a limit are skipped']

    def gen(self, rng, i, tier):
        ci = rng.choice([3, 4, 5])
        rounds = rng.randrange(2, 13)

        def limits():
            return dict(burnGR=rng.choice([-1.0, -1.0, 1.02, 1.1, 1.3, 100.0]), burnAfactor=rng.choice([1.5, 5.0, 20.0, 1e9]),
                        minAfactor=rng.choice([0.01, 2.0, 6.0, 40.0]), maxArchange=rng.choice([0.03, 0.3, 1e9]), maxGR=rng.choice([1.05, 1.3, 100.0, 100.0]),
                        minTz=rng.choice([-10, -10, 5, 100]), minsteps=rng.choice([0, ci, 2 * ci + 1, 4 * ci, 1000]), minpercent=rng.choice([0, 10, 30, 60, 101]))
        base = rng.choice([0.3, 1.0, 4.0])
        script = []
        v = base
        for _ in range(40):
            r = rng.random()
            v = v * rng.choice([1.0, 1.01, 0.99]) if r < 0.55 else v * rng.choice([0.4, 0.7, 1.5, 2.5]) if r < 0.9 else base
            script.append([round(v, 6), round(rng.choice([0, 0, 0.2]), 3)])
        seg = [dict(limits(), nrun=rounds * (ci - 1) + rng.choice([0, 0, 1]), checkinterval=ci)]
        if rng.random() < 0.3:
            seg.append(dict(seg[0], nrun=rng.randrange(1, 6) * (ci - 1)))
        return dict(spec=setups.rand_spec(rng, npl=1, gp=False), E=rng.choice([1, 2, 3, 3]), nw=rng.choice([2, 10, 12]), segs=seg, script=script,
                    npseed=rng.randrange(2**31), serial=rng.random() < 0.8, npool=rng.randrange(2**31), tie=rng.choice(['', '', 'maxgr', 'minafactor']), tie_round=rng.choice([1, 1, 2, 3]))

    def shrink(self, plan):
        if len(plan['segs']) > 1:
            q = dict(plan); q['segs'] = plan['segs'][:1]
            yield q
        ci = plan['segs'][0]['checkinterval']
        yield from lib.shrink_keys(plan, {'serial': [True], 'tie': [''], 'E': [1, 2], 'segs.0.nrun': [(ci - 1) * k for k in range(1, 12)], 'spec.free': ['few'], 'spec.ninst': [1],
                                          'spec.dvdt': [False], 'nw': [2], 'segs.0.minsteps': [0], 'segs.0.minpercent': [0]})

    def execute(self, plan, ctx):
        spec, E = plan['spec'], plan['E']
        root = ctx.root()
        setups.write(spec, root)

        def node():
            post = lib.load(spec['name'] + '.py')
            ndim = len(post.name_vary_params())
            calls, out = [], []
            real = emcee.autocorr.integrated_time
            # steps taken, in whichever process (workers ship their recordings back with their results)
            mv = emcee.moves.red_blue.RedBlueMove
            propose = mv.propose

            def counted(self, *a, **k):
                recorder.add(1)
                return propose(self, *a, **k)
            mv.propose = counted
            recorder.start()
            done = [0]

            def steps():
                done[0] += len(recorder.take())
                return done[0]

            def scripted(x, *a, **k):
                x = np.array(x)
                if x.ndim != 3:
                    return real(x, *a, **k)
                v, s = plan['script'][len(calls) % len(plan['script'])]
                tau = v * (1 + s * np.arange(x.shape[2]))
                calls.append((steps(), x, tau))
                return tau
            emcee.autocorr.integrated_time = scripted
            for j, seg in enumerate(plan['segs']):
                kw = dict(seg, ensembles=E, nwalkers=plan['nw'], serial=plan['serial'])
                if len(plan['segs']) > 1:
                    kw.update(save=True, savename='s%d.h5' % j)
                if j:
                    kw.update(proceed=True, proceedname='s%d.h5' % (j - 1))
                n0, m0 = len(calls), steps()
                r = lib.run_mcmc(post, kw, plan['npseed'] + j)
                out.append((r, calls[n0:], steps() - m0, m0))
            tie = None
            if plan.get('tie'):
                # the same run twice, the second time with the limit at exactly the statistic of the first one's last check
                kw = dict(plan['segs'][0], ensembles=E, nwalkers=plan['nw'], serial=plan['serial'], minsteps=0, minpercent=0, burnGR=-1.0, burnAfactor=1e9)
                kw['nrun'] = (kw['checkinterval'] - 1) * plan['tie_round']      # the first checks: a later one seldom has the best statistic yet
                limit = {'maxgr': 'burnGR', 'minafactor': 'burnAfactor'}[plan['tie']]
                del calls[:]
                a = lib.run_mcmc(post, kw, plan['npseed'])['sv']
                if a[plan['tie']] is not None and np.isfinite(a[plan['tie']]):
                    del calls[:]
                    b = lib.run_mcmc(post, dict(kw, **{limit: float(a[plan['tie']])}), plan['npseed'])['sv']
                    tie = (limit, a[plan['tie']], b[plan['tie']], b['burn_complete'])
            return out, ndim, tie
        s = ctx.sim(root, [node], mask=0, pool_seed=plan['npool'])
        out, ndim, tie = lib.must_ok(s.results[0], 'MCMC run')
        if tie is not None and tie[1] == tie[2] and tie[3] is not None:
            ctx.probe("ties"); ctx.probe("tie-%s" % tie[0])
            if not tie[3]:
                raise Violation('burn-limit', 'the last check found exactly %s = %r, burn-in did not end' % tie[:2])
        nw = max(plan['nw'], 2 * ndim)
        start = None
        for j, ((r, calls, nsteps, m0), seg) in enumerate(zip(out, plan['segs'])):
            ref = Ref(seg, E, nw, ndim, start)
            num = int(np.round(int(seg['nrun']) / (seg['checkinterval'] - 1)))
            per = E * seg['checkinterval']                  # ensemble steps of a round
            if nsteps % per:
                raise Violation('partial-round', 'segment %d took %d ensemble steps, which is no multiple of %d ensembles x %d steps' % (j, nsteps, E, seg['checkinterval']))
            rounds = nsteps // per
            todo = list(calls)
            for k in range(rounds):
                # an evaluation belongs to the round after whose sampling it was made
                ev = None
                if todo and todo[0][0] - m0 == (k + 1) * per:
                    ev = todo.pop(0)
                stop = ref.check(None if ev is None else ev[1], None if ev is None else ev[2])
                if ref.margin < 1e-4:
                    ctx.probe('skipped_margin')
                    return
                if stop:
                    break
            if todo:
                raise Violation('threshold', '%d more evaluations than checks' % len(todo))
            k += 1
            ctx.mark(j, rounds, k, ref.nburn, ref.mix)
            if rounds > k:
                raise Violation('not-stopped', 'two consecutive checks passed after round %d but the run went on for %d of %d rounds' % (k, rounds, num))
            if rounds < num and not ref.stopped:
                raise Violation('stopped-early', 'the run stopped after %d of %d rounds without two consecutive passed checks' % (rounds, num))
            sv = r['sv']
            # what the command line and the convergence plots read; internal counters are judged by what they decide
            want = dict(nburn=ref.nburn, ncomplete=ref.ncomplete, burn_complete=ref.burn)
            for key, v in want.items():
                if sv[key] is not None and float(sv[key]) != float(v):
                    raise Violation('record', 'segment %d after %d rounds: %s is %s, should be %s' % (j, rounds, key, sv[key], v))
            for key, v in list(ref.stats.items()) + list(ref.auto.items()):
                if sv[key] is None:
                    continue
                a, b = np.atleast_1d(np.array(sv[key], dtype=float)), np.atleast_1d(np.array(v, dtype=float))
                if a.shape != b.shape or not np.allclose(a, b, rtol=1e-5, atol=1e-9, equal_nan=True):
                    raise Violation('record', 'segment %d after %d rounds: %s is %s, should be %s' % (j, rounds, key, sv[key], v))
            n = r['df']['val'].shape[0]
            if n != ref.table * nw * E:
                raise Violation('table-size', 'segment %d: table has %d rows, should have %d (burn-in complete: %s)' % (j, n, ref.table * nw * E, ref.burn))
            if ref.evals >= 2 and (ref.burn or ref.stopped):
                ctx.nontrivial = True
            ctx.probe('burned', int(ref.burn)); ctx.probe('stopped_early', int(ref.stopped and rounds < num)); ctx.probe('evaluations', ref.evals)
            if j + 1 < len(plan['segs']):
                # what the saved file carries on: burn-in state as of the last check
                h = lib.read_h5(root + '/s%d.h5' % j)
                if not isinstance(h, dict):
                    raise Violation('unreadable', str(h))
                if ref.last_reset:
                    start = dict(kept=ref.table, nburn=0, auto=ref.auto)
                else:
                    start = dict(kept=ref.kept, nburn=ref.nburn if ref.burn else 0, auto=ref.auto)
                if h['0_chain'].shape[0] != start['kept'] or float(h['burned'][0]) != start['nburn']:
                    raise Violation('carried-state', 'saved: %d steps, burned %s; should be %s' % (h['0_chain'].shape[0], h['burned'], start))
