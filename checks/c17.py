"""C17: failing evaluations and interrupts at any point of an MCMC run; what the caller sees, what is left, what the next run does."""
import os, random, shutil, signal
import numpy as np
import radvel.posterior
from sim import lib, setups, pool, core, curs, pipe
from sim.core import sim_yield
from sim.runner import Check, Violation
from .c01 import gen_mcmc


class EvalError(Exception):
    pass


EXC = {'EvalError': EvalError, 'ValueError': ValueError, 'MemoryError': MemoryError, 'FloatingPointError': FloatingPointError, 'LinAlgError': np.linalg.LinAlgError,
       'KeyError': KeyError, 'OSError': OSError, 'AttributeError': AttributeError, 'SystemExit': SystemExit}
# a handler of SIGTERM that calls sys.exit raises in whatever the process was doing; a real pool does not survive a worker that exits
PLAIN = sorted(k for k in EXC if k != 'SystemExit')


PHASE = dict(first=True)


def hook_eval(exc):
    o = radvel.posterior.Posterior.logprob_array

    def logprob_array(self, v):
        code = sim_yield('eval') if PHASE['first'] else 0
        if code:
            raise EXC[exc]('injected')
        return o(self, v)
    radvel.posterior.Posterior.logprob_array = logprob_array


def surroundings():
    """Process-wide state that a run must not leave changed."""
    return dict(sigint=repr(signal.getsignal(signal.SIGINT)), err=np.geterr(), cwd=os.getcwd())


class CHECK(Check):
    id = 'C17'
    runs = {'quick': 280, 'thorough': 5000}
    rule = 'a run counts as non-trivial when its fault hit a running MCMC run and the run in the same process afterwards was compared with a fresh process'
    real = ['radvel.mcmc', 'radvel posterior/likelihood/model', 'emcee', 'h5py']
    stub = ['multiprocess.Pool (simulated pool; an interrupted worker dies as a real one does)', 'curses terminal (counts opening, use and closing)', 'wall clock, entropy']
    assumptions = ['libhdf5 itself may crash after a failed write: such runs end undecided', 'an interrupt hits the process that is running; the parent then sees its worker end']

    def gen(self, rng, i, tier):
        if rng.random() < 0.2:              # the pipeline command
            return dict(mode='cli', spec=setups.rand_spec(rng, npl=1), fit=rng.random() < 0.6, earlier=rng.random() < 0.3, args=rng.choice([[], ['--save'], ['--serial', 'True'], ['--save', '--serial', 'True']]),
                        fault=rng.choice(['raise', 'int', 'int', 'int-pool']), exc=rng.choice(PLAIN), at_frac=rng.random(), npseed=rng.randrange(2**31), npool=rng.randrange(2**31))
        kw = gen_mcmc(rng)
        f = rng.choice(['raise', 'raise', 'int', 'int', 'int-pool', 'screen', 'disk'])
        p = dict(spec=setups.rand_spec(rng, npl=1, gp=False), kw=kw, npseed=rng.randrange(2**31), npool=rng.randrange(2**31), serial=rng.random() < 0.45,
                 headless=rng.random() < 0.4, save=rng.random() < 0.3, fault=f, exc=rng.choice(PLAIN), at_frac=rng.random(), len=rng.choice([1, 1, 1000]))
        if f == 'raise' and p['serial'] and rng.random() < 0.3:
            p['exc'] = 'SystemExit'
        if f == 'screen':
            p['headless'] = False
        if f == 'disk':
            p['save'] = True
        if f == 'int-pool':
            p['serial'] = False
        return p

    def shrink(self, plan):
        if plan.get('mode') == 'cli':
            yield from lib.shrink_keys(plan, {'earlier': [False], 'fit': [False], 'args': [[], ['--serial', 'True']], 'spec.free': ['few'], 'spec.ninst': [1], 'spec.dvdt': [False], 'spec.linear': [False]})
            return
        ci = plan['kw']['checkinterval']
        yield from lib.shrink_keys(plan, {'serial': [True], 'headless': [True], 'save': [False], 'exc': ['EvalError'], 'spec.free': ['few'], 'spec.ninst': [1], 'spec.dvdt': [False],
                                          'kw.ensembles': [1, 2], 'kw.thin': [1], 'kw.nrun': [ci - 1, 2 * ci - 2], 'kw.minpercent': [101], 'kw.minsteps': [1000], 'len': [1]})
        at = plan.get('at')
        if at:
            for b in (1, at // 2, at - 1):
                if 0 < b < at:
                    q = dict(plan); q['at'] = b
                    yield q

    def cli(self, plan, ctx):
        """radvel mcmc from the command line (or called again by the same process)."""
        spec, fault = plan['spec'], plan['fault']
        base = ctx.root()
        setups.write(spec, base)
        for j, c in enumerate(([['fit']] if plan['fit'] or plan['earlier'] else []) + ([['mcmc']] if plan['earlier'] else [])):
            s = ctx.sim(base, [pipe.node(spec, c, plan['npseed'] + 5 + j)], mask=0, pool_seed=plan['npool'])
            lib.must_ok(s.results[0], 'undisturbed %s' % ' '.join(c))
        if not plan['fit'] and not plan['earlier']:
            # the status file of a directory in which only something else has run
            os.makedirs(os.path.join(base, pipe.OUT))
            with open(pipe.status_file(base, spec), 'w') as f:
                f.write('[fit]\nrun = False\n\n')
        A = pipe.summary(base, spec)

        def node():
            hook_eval(plan['exc'])
            out = {}
            try:
                pipe.run_cli(pipe.argv(['mcmc'] + plan['args'], spec), plan['npseed'], ns=False)
                out['first'] = ('ok',)
            except BaseException as e:
                import traceback
                out['first'] = ('exc', type(e).__name__, str(e)[:300], traceback.format_exc()[-900:])
            out['pool'] = lib.pool_log()
            sim_yield('after-first')
            PHASE['first'] = False
            del pool.LIVE[:]
            pipe.run_cli(pipe.argv(['mcmc', '--serial', 'True'], spec), plan['npseed'] + 1, ns=False)
            return out

        def go(d, faults, ev=None):
            shutil.rmtree(d)
            shutil.copytree(base, d)
            return ctx.sim(d, [node], mask=0, faults=faults, pool_seed=plan['npool'], on_event=ev)
        tag = {'raise': 'eval', 'int': 'eval', 'int-pool': 'pool.wait'}[fault]
        s = go(ctx.root(), [])
        base_out = lib.must_ok(s.results[0], 'undisturbed commands')
        if base_out['first'][0] != 'ok':
            raise Violation('failed', 'undisturbed radvel mcmc: %s' % (base_out['first'],))
        cut = [i for i, e in enumerate(s.log) if e[2] == 'after-first'][0]
        total = sum(1 for e in s.log[:cut] if e[1] == 'YIELD' and e[2] == tag)
        if not total:
            return
        if 'at' not in plan:
            plan['at'] = 1 + int(plan['at_frac'] * total)
        at = min(plan['at'], total)
        d, mid = ctx.root(), []

        def ev(sim, e):
            if e.type == 'YIELD' and e.path == 'after-first':
                mid.append(pipe.summary(d, spec))
        s = go(d, [dict(kind='raise' if fault == 'raise' else 'int', tag=tag, at=at, upto=at)], ev)
        what = 'radvel mcmc %s with %s at %s %d of %d' % (' '.join(plan['args']), plan['exc'] if fault == 'raise' else 'an interrupt', tag, at, total)
        out = lib.must_ok(s.results[0], 'next radvel mcmc in the same process after ' + what)
        first = out['first']
        ctx.mark(first[:3])
        if not s.faults_fired:
            return
        ctx.nontrivial = True
        ctx.probe('cli-%s:%s' % (fault, first[0] if first[0] == 'ok' else first[1]))
        if out['pool']['live'] or out['pool']['workers']:
            raise Violation('workers-left', '%s: %d pools with %d workers are left' % (what, out['pool']['live'], out['pool']['workers']))
        done = first[0] == 'ok' and mid[0]['status'].get('mcmc') != A['status'].get('mcmc')
        if fault == 'raise' and first[0] == 'exc' and first[1] != plan['exc'] or fault != 'raise' and first[0] == 'exc' and first[1] not in ('KeyboardInterrupt', 'SystemExit'):
            raise Violation('other-error', '%s: the command raised %s: %s\n%s' % (what, first[1], first[2], first[3]))
        if not done:
            raw = lambda f: {k: v for k, v in f.items() if not k.endswith('_rawchain.h5')}
            if mid[0]['status'] != A['status'] or raw(mid[0]['files']) != raw(A['files']):
                raise Violation('interrupt-records', '%s: it did not complete but changed its output: %s' % (what, lib.diff(A, mid[0])))
        elif fault == 'raise':
            raise Violation('error-swallowed', '%s: the command completed' % what)
        d2 = ctx.root()
        shutil.rmtree(d2)
        shutil.copytree(base, d2)
        if done:
            return
        s = ctx.sim(d2, [pipe.node(spec, ['mcmc', '--serial', 'True'], plan['npseed'] + 1)], mask=0)
        lib.must_ok(s.results[0], 'fresh radvel mcmc')
        a, b = pipe.summary(d2, spec), pipe.summary(d, spec)
        for x in (a, b):
            x['files'] = {k: v for k, v in x['files'].items() if not k.endswith('_rawchain.h5')}
        df = lib.diff(a, b)
        if df:
            raise Violation('next-run-differs', '%s: the next command in the same process differs from one in a fresh process%s' % (what, df))

    def execute(self, plan, ctx):
        if plan.get('mode') == 'cli':
            return self.cli(plan, ctx)
        spec = plan['spec']
        kw = dict(plan['kw'], serial=plan['serial'])
        if plan['save']:
            kw.update(save=True, savename='s.h5')
        headless, fault = plan['headless'], plan['fault']
        next_kw = dict(plan['kw'], serial=True)

        def node(fail_at=0):
            def f():
                curs.install(fail_at)
                hook_eval(plan['exc'])
                lib.hook_sample()
                before = surroundings()
                post = lib.load(spec['name'] + '.py')
                out = {}
                try:
                    r = lib.run_mcmc(post, kw, plan['npseed'], headless=headless)
                    out['first'] = ('ok', None if r['df'] is None else r['df']['val'].shape)
                except BaseException as e:
                    if type(e).__name__ == 'HarnessError':
                        raise
                    out['first'] = ('exc', type(e).__name__, str(e)[:300])
                    out['pool'] = lib.pool_log()          # while the caller still handles the exception
                    out['screen'] = curs.state()
                    import traceback
                    out['tb'] = traceback.format_exc()[-1200:]
                if 'pool' not in out:
                    out['pool'] = lib.pool_log()
                    out['screen'] = curs.state()
                sim_yield('after-first')
                PHASE['first'] = False
                out['around'] = (before, surroundings())
                del pool.LIVE[:]
                post = lib.load(spec['name'] + '.py')
                out['next'] = lib.run_mcmc(post, next_kw, plan['npseed'] + 1)
                return out
            return f

        def fresh():
            return lib.run_mcmc(lib.load(spec['name'] + '.py'), next_kw, plan['npseed'] + 1)

        # an undisturbed execution: how many evaluations, steps, messages, file operations there are
        root = ctx.root()
        setups.write(spec, root)
        s = ctx.sim(root, [node()], mask=core.MUT, pool_seed=plan['npool'])
        base = lib.must_ok(s.results[0], 'undisturbed run')
        if base['first'][0] != 'ok' or base['first'][1] is None:
            raise Violation('failed', 'undisturbed run: %s' % (base['first'],))
        cut = [i for i, e in enumerate(s.log) if e[2] == 'after-first'][0]
        log = s.log[:cut]
        count = lambda tag: sum(1 for e in log if e[1] == 'YIELD' and e[2] == tag)
        ops = sum(1 for e in log if e[1] not in ('YIELD', 'START'))
        total = {'raise': count('eval'), 'int': count('eval'), 'int-pool': count('pool.wait'), 'screen': base['screen']['writes'], 'disk': ops}[fault]
        self.after(base, 'undisturbed run', headless, ctx)
        if total < 1:
            return
        if 'at' not in plan:
            plan['at'] = 1 + int(plan['at_frac'] * total)
        at = min(plan['at'], total)
        faults = {'raise': [dict(kind='raise', tag='eval', at=at, upto=at + plan['len'] - 1)], 'int': [dict(kind='int', tag='eval', at=at)],
                  'int-pool': [dict(kind='int', tag='pool.wait', at=at)], 'screen': [], 'disk': [dict(kind='eio' if plan['len'] == 1 else 'enospc', at=log_index(log, at), len=plan['len'])]}[fault]
        if fault == 'raise' and plan['len'] > 1:
            faults[0]['upto'] = total          # keeps failing for the rest of this run only
        root = ctx.root()
        setups.write(spec, root)
        seen = dict(evals=0, over=False)

        def on_event(sim, ev):
            if ev.type == 'YIELD':
                if ev.path == 'after-first':
                    seen['over'] = True
                elif ev.path == 'eval' and sim.faults_fired and not seen['over']:
                    seen['evals'] += 1
        s = ctx.sim(root, [node(at if fault == 'screen' else 0)], mask=core.MUT, faults=faults, pool_seed=plan['npool'], on_event=on_event)
        what = '%s at %d of %d (%s, %s)' % (fault, at, total, 'serial' if plan['serial'] else 'parallel', 'headless' if headless else 'terminal')
        if s.results[0][0] == 'dead' and fault == 'disk':
            ctx.probe('libhdf5_crashed')        # libhdf5 may crash after a failed write; not the code under test
            return
        if s.results[0][0] != 'ok':
            r = s.results[0][1]
            raise Violation('next-run-fails', '%s: a later run in the same process: %s' % (what, r['type'] + ': ' + r['str'] + r['tb'][-600:] if isinstance(r, dict) else r))
        out = s.results[0][1]
        fired = bool(s.faults_fired) or fault == 'screen'
        ctx.mark(fault, out['first'])
        ctx.probe('%s:%s' % (fault, out['first'][0]))
        first = out['first']
        if fired:
            if fault == 'screen':
                ctx.faults['terminal_too_small'] += 1
            if fault == 'raise':
                if first[0] == 'ok':
                    raise Violation('error-swallowed', '%s: a %s raised by an evaluation did not reach the caller' % (what, plan['exc']))
                if first[1] != plan['exc'] or 'injected' not in first[2]:
                    raise Violation('other-error', '%s: the evaluation raised %s, the caller saw %s: %s\n%s' % (what, plan['exc'], first[1], first[2], out.get('tb')))
            if fault.startswith('int'):
                if first[0] != 'ok':
                    raise Violation('interrupt-error', '%s: the interrupted run raised %s: %s\n%s' % (what, first[1], first[2], out.get('tb')))
                if first[1] is not None:
                    raise Violation('interrupt-result', '%s: the interrupted run returned a table' % what)
                if seen['evals'] > 2 * max(plan['kw']['nwalkers'], 14):
                    raise Violation('interrupt-ignored', '%s: %d more evaluations after the interrupt' % (what, seen['evals']))
            ctx.nontrivial = True
        self.after(out, what, headless, ctx)
        s = ctx.sim(root, [fresh], mask=0)
        ref = lib.must_ok(s.results[0], 'fresh process')
        d = lib.diff(ref, out['next'])
        if d:
            raise Violation('next-run-differs', '%s: the next run in the same process differs from one in a fresh process%s' % (what, d))

    def after(self, out, what, headless, ctx):
        if out['pool']['live'] or out['pool']['workers']:
            raise Violation('workers-left', '%s: %d pools with %d worker processes are left' % (what, out['pool']['live'], out['pool']['workers']))
        sc = out['screen']
        if sc['open']:
            raise Violation('terminal-left', '%s: the terminal was not restored' % what)
        if sc['misuse']:
            raise Violation('terminal-misuse', '%s: used while closed: %s' % (what, sc['misuse'][:3]))
        if headless and sc['init']:
            raise Violation('terminal-opened', '%s: a headless run opened the terminal' % what)
        a, b = out['around']
        if a != b:
            raise Violation('process-state', '%s: %s' % (what, lib.diff(a, b)))


def log_index(log, at):
    """Operation number (as the simulator counts a node's events) of the at-th file operation."""
    n = k = 0
    for e in log:
        if e[1] == 'START':
            continue
        n += 1
        if e[1] != 'YIELD':
            k += 1
            if k == at:
                return n
    return n
