"""C18: any analysis in a long-lived session, after any history of successful, failed and interrupted ones, against a fresh process."""
import copy, os, random, re, shutil
import numpy as np
import radvel, radvel.fitting, radvel.driver, radvel.posterior, radvel.report
from sim import lib, setups, core, pipe, pool, nsstub, nslib
from sim.core import sim_yield
from sim.runner import Check, Violation

SYS = ('toi', 'kep')
NS = nslib.SAMPLERS
COMP = ['e', 'nplanets', 'trend', 'jit', 'gp']
EXC = {'ValueError': ValueError, 'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError, 'KeyError': KeyError}


class Boom(object):
    """Makes the k-th call of the chosen seam fail during one operation."""

    def __init__(self):
        self.want, self.n, self.fired = None, 0, False

    def arm(self, want):
        self.want, self.n, self.fired = want, 0, False

    def hit(self, where):
        if self.want and self.want[0] == where:
            self.n += 1
            if self.n == self.want[1]:
                self.fired = True
                sim_yield('inject-' + where)
                raise EXC[self.want[2]]('injected')


BOOM = Boom()
_done = []


def install():
    """In a node: the seams at which operations fail."""
    if _done:
        return
    _done.append(1)

    def wrap(owner, name, where):
        o = getattr(owner, name, None)
        if o is None:
            return

        def f(*a, **k):
            BOOM.hit(where)
            return o(*a, **k)
        f.__name__ = name
        setattr(owner, name, f)
    wrap(radvel.posterior.Posterior, 'logprob_array', 'eval')
    wrap(radvel.posterior.Posterior, 'likelihood_ns_array', 'eval')
    wrap(radvel.posterior.Posterior, 'writeto', 'write')
    wrap(lib.M, 'convergence_check', 'check')
    o = os.replace

    def replace(*a, **k):
        BOOM.hit('replace')
        return o(*a, **k)
    os.replace = replace


def gen_op(rng, specs):
    s = rng.choice(SYS)
    npl = specs[s]['npl']
    d = dict(sys=s, seed=rng.randrange(2**31), npool=rng.randrange(2**31))
    k = rng.choice(['mcmc', 'mcmc', 'fit', 'comp', 'comp', 'ns', 'synth', 'cli', 'cli', 'cli', 'cli', 'cli', 'cli', 'cli'])
    d['op'] = k
    if k == 'mcmc':
        d.update(serial=rng.random() < 0.6, nrun=rng.choice([6, 9, 12]), ensembles=rng.choice([1, 2, 3]), ci=rng.choice([3, 4]), thin=rng.choice([1, 1, 2]), save=rng.random() < 0.3,
                 proceed=rng.random() < 0.15, mp=rng.choice([0, 50, 100]), burn=rng.random() < 0.3)
    elif k == 'fit':
        d['method'] = rng.choice(['Powell', 'Nelder-Mead'])
    elif k == 'comp':
        d['params'] = rng.sample(COMP, rng.choice([0, 1, 1, 2]))
        if len(d['params']) == 2 and 'nplanets' in d['params'] and npl == 2:
            d['params'].remove('nplanets')
        d['own'] = rng.random() < 0.3
    elif k == 'ns':
        d.update(sampler=rng.choice(NS), outdir=rng.random() < 0.4, dicts=rng.random() < 0.6)
    elif k == 'cli':
        c = rng.choice(['fit', 'fit', 'mcmc', 'mcmc', 'ns', 'derive', 'derive', 'ic', 'ic', 'table', 'table', 'table', 'report'])
        cmd = [c]
        if c == 'mcmc':
            cmd += rng.choice([[], ['--save'], ['--serial', 'True'], ['--save', '--proceed'], ['--burnGR', '9.', '--minTz', '0'], ['--maxGR', '5', '--minTz', '0', '--maxArchange', '9']])
        elif c == 'ns':
            cmd += ['--sampler', rng.choice(NS), rng.choice(['--overwrite', '--overwrite', '--proceed'])] + rng.choice([[], ['--run-kwargs', 'a=1']])
        elif c == 'ic':
            cmd += ['-t'] + (rng.sample(COMP, 1) if npl == 2 or rng.random() < 0.5 else rng.sample(['e', 'trend', 'jit'], 2)) + rng.choice([[], ['-u'], ['-f'], ['--simple'], ['-v']])
        elif c == 'table':
            cmd += ['-t'] + rng.sample(['params', 'params', 'priors', 'rv', 'ic_compare', 'derived', 'crit'], rng.choice([1, 1, 2])) + rng.choice([[], [], [], [], ['--sampler', 'ns'], ['--sampler', 'mcmc'], ['--name_in_title']])
        elif c == 'derive':
            cmd += rng.choice([[], [], [], ['--sampler', 'ns'], ['--sampler', 'mcmc']])
        elif c == 'report':
            cmd += ['--latex-compiler', '/nonexistent/latex']
        d['cmd'] = cmd
    if rng.random() < 0.25:
        d['boom'] = [rng.choice(['eval', 'eval', 'check', 'write', 'replace']), rng.choice([1, 2, 3, 30, 60]), rng.choice(sorted(EXC))]
    if k != 'cli':
        d['reuse'] = rng.random() < 0.4
    return d


def gen_hist(rng, specs, n):
    ops = []
    if rng.random() < 0.85:                 # mostly something to work on
        for s in rng.sample(SYS, rng.choice([1, 2])):
            ops.append(dict(op='cli', sys=s, cmd=['fit'], seed=rng.randrange(2**31), npool=1))
            if rng.random() < 0.75:
                ops.append(dict(op='cli', sys=s, cmd=rng.choice([['mcmc'], ['mcmc', '--save'], ['ns', '--sampler', 'ultranest', '--overwrite']]), seed=rng.randrange(2**31), npool=2))
    ops += [gen_op(rng, specs) for _ in range(n)]
    return ops


def do(op, specs, state):
    """One analysis. state: what the session keeps between them (posteriors, option dictionaries)."""
    spec = specs[op['sys']]
    install()
    pool.configure(seed=op['npool'])
    nsstub.install(seed=op['seed'] % 1000)
    lib.hook_sample()
    del pool.LIVE[:]
    if op['op'] == 'cli':
        BOOM.arm(op.get('boom'))
        import io, contextlib
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            pipe.run_cli(pipe.argv(op['cmd'], spec), op['seed'], ns=False)
        return dict(ok=True)
    post = None
    if op.get('reuse') and op['sys'] in state['posts']:
        post, vec = state['posts'][op['sys']]
        post.vector.vector[:] = vec
        post.vector.vector_to_dict()
    if post is None:
        post = lib.load(spec['name'] + '.py')
        state['posts'][op['sys']] = (post, np.array(post.vector.vector))
    np.random.seed(op['seed'])
    BOOM.arm(op.get('boom'))
    k = op['op']
    if k == 'mcmc':
        nd = len(post.get_vary_params())
        kw = dict(nwalkers=2 * nd + 2, nrun=op['nrun'], ensembles=op['ensembles'], checkinterval=op['ci'], thin=op['thin'], minsteps=1, minpercent=op['mp'], serial=op['serial'])
        if op['burn']:
            kw.update(burnAfactor=0.01, burnGR=50., maxGR=50., minAfactor=0.01, maxArchange=50., minTz=0)
        if op['save'] or op['proceed']:
            kw.update(save=True, savename='%s.h5' % op['sys'], proceed=op['proceed'], proceedname='%s.h5' % op['sys'])
        r = lib.run_mcmc(post, kw, op['seed'])
        return dict(df=r['df'], sv=r['sv'])
    if k == 'fit':
        q = radvel.fitting.maxlike_fitting(post, verbose=False, method=op['method'])
        return dict(v=np.array(q.get_vary_params()), lp=float(q.logprob()))
    if k == 'comp':
        kw = dict(mc_list=[]) if op['own'] else {}
        r = radvel.fitting.model_comp(post, **(dict(params=list(op['params']), **kw) if op['params'] else kw))
        return dict(comp=[[(a, b[0], b[1]) for a, b in d.items()] for d in r])
    if k == 'ns':
        dicts = None
        if op['dicts']:
            dicts = state['dicts'].setdefault(op['sampler'], dict(run=copy.deepcopy(nslib.RUN_KW[op['sampler']]), sampler=copy.deepcopy(nslib.SAMPLER_KW[op['sampler']])))
        r = nslib.call(post, dict(sampler=op['sampler'], outdir='nsout_' + op['sys'] if op['outdir'] else None, overwrite=op['outdir']), dicts)
        return dict(ns=nslib.pack(r), log=re.sub(r"'/[^']*'", '<path>', repr(nsstub.LOG))[:2000])
    if k == 'synth':
        import pandas as pd
        r = np.random.RandomState(op['seed'])
        v = np.array(post.get_vary_params())
        ch = pd.DataFrame(v * (1 + 0.003 * r.normal(size=(50, len(v)))), columns=post.name_vary_params())
        ch['lnprobability'] = r.normal(size=50)
        q, summ, _ = radvel.driver.sampling_postprocessing(post, ch)
        return dict(summ=lib.df_pack(summ.reset_index(drop=True)), u={a: float(b) for a, b in q.uparams.items()}, med={a: float(b) for a, b in q.medparams.items()},
                    best={a: float(b) for a, b in q.maxparams.items()}, tex=radvel_tex(q, ch))
    raise core.HarnessError(k)


def radvel_tex(post, chains):
    return '\n'.join(post.params.tex_labels(list(post.params)).values())


def play(op, specs, state):
    import traceback
    try:
        out = ('ok', do(op, specs, state))
    except SystemExit as e:
        out = ('exc', 'SystemExit', str(e), '')
    except core.HarnessError:
        raise
    except BaseException as e:
        out = ('exc', type(e).__name__, re.sub(r'/[^ \':]*', '<path>', str(e)[:300]), traceback.format_exc()[-1200:])
    fired = BOOM.fired
    BOOM.arm(None)
    return out, fired


def files(root, specs):
    """Every artefact and status below root by content."""
    out = {}
    for base, dirs, fs in os.walk(root):
        if os.path.basename(base) == 'tmp' and base != root:
            continue
        for f in fs:
            p = os.path.relpath(os.path.join(base, f), root)
            if p.startswith('tmp/') or p.endswith(('.py', '.lock', '.pyc')):
                continue
            if p.endswith('.stat'):
                out[p] = pipe.read_status(os.path.join(root, p))
            elif p.endswith(('.pkl', '.csv', '.csv.bz2', '.tex', '.h5', '.hdf5', '.pdf')):
                out[p] = pipe.digest(os.path.join(root, p))
    return out


class CHECK(Check):
    id = 'C18'
    runs = {'quick': 180, 'thorough': 4000}
    rule = 'a run counts as non-trivial when at least three operations completed after another operation of the session, or one completed after a failed or interrupted one'
    real = ['radvel.cli, radvel.driver', 'radvel.mcmc, radvel.fitting, radvel.nested_sampling, radvel.report tables, radvel posterior/likelihood/model/prior/basis/utils', 'emcee, scipy, h5py, pandas, dill']
    stub = ['multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'evaluations, convergence checks and replacements of files that fail or are interrupted when the plan says so', 'wall clock, entropy']
    assumptions = ['the caller gives the same inputs: files, parameter values of a posterior it uses again, and the random seed']

    def gen(self, rng, i, tier):
        specs = {}
        for s in SYS:
            specs[s] = setups.rand_spec(rng, name=s, gp=rng.choice([False, False, False, 'QuasiPer', 'SqExp']))
            if specs[s]['gp']:
                specs[s]['linear'] = False
                specs[s]['npl'] = 1
                specs[s]['n'] = 12
                specs[s]['free'] = 'few'
        return dict(specs=specs, ops=gen_hist(rng, specs, rng.randrange(2, 20 if tier == 'thorough' else 7)))

    def shrink(self, plan):
        for x in lib.without_each(plan['ops']):
            if x:
                yield dict(plan, ops=x)
        for j, o in enumerate(plan['ops']):
            if 'boom' in o:
                yield dict(plan, ops=plan['ops'][:j] + [{k: v for k, v in o.items() if k != 'boom'}] + plan['ops'][j + 1:])
        t = {}
        for s in SYS:
            t.update({'specs.%s.free' % s: ['few'], 'specs.%s.dvdt' % s: [False], 'specs.%s.ninst' % s: [1], 'specs.%s.linear' % s: [False], 'specs.%s.gp' % s: [False], 'specs.%s.npl' % s: [1]})
        yield from lib.shrink_keys(plan, t)

    def execute(self, plan, ctx):
        specs = plan['specs']
        # the session: one node; the simulator is told about the end of every operation and takes stock of the files
        root = ctx.root()
        for s in SYS:
            setups.write(specs[s], root)
        stock = []

        def on_event(sim, ev):
            if ev.type == 'YIELD' and ev.path == 'op-done':
                stock.append(files(root, specs))

        def session():
            state = dict(posts={}, dicts={})
            out = []
            for op in plan['ops']:
                out.append(play(op, specs, state))
                sim_yield('op-done')
            return out
        s = ctx.sim(root, [session], mask=0, on_event=on_event)
        got = lib.must_ok(s.results[0], 'session')
        # the same operations, each in a process of its own
        root2 = ctx.root()
        for x in SYS:
            setups.write(specs[x], root2)
        bad = done = 0
        for j, op in enumerate(plan['ops']):
            s = ctx.sim(root2, [lambda: play(op, specs, dict(posts={}, dicts={}))], mask=0)
            want, fired = lib.must_ok(s.results[0], 'fresh process')
            g, gf = got[j]
            what = 'operation %d %s after %s' % (j, brief(op), [brief(o) for o in plan['ops'][:j]])
            ctx.mark(j, g[0], g[1] if g[0] != 'ok' else None)
            ctx.probe('%s:%s' % (op['op'] if op['op'] != 'cli' else op['cmd'][0], g[0] if g[0] == 'ok' else g[1]))
            if gf:
                ctx.faults['inject_%s_%s' % (op['boom'][0], op['boom'][2])] += 1
            if g[0] != want[0] or (g[0] == 'exc' and g[1] != want[1]):
                raise Violation('outcome-differs', '%s: %s, in a fresh process: %s' % (what, short(g), short(want)))
            if g[0] == 'ok':
                d = lib.diff(want[1], g[1])
                if d:
                    raise Violation('result-differs', '%s: differs from a fresh process at %s' % (what, d))
            elif g[2] != want[2]:
                raise Violation('outcome-differs', '%s: %s, in a fresh process: %s' % (what, short(g), short(want)))
            d = lib.diff(files(root2, specs), stock[j])
            if d:
                raise Violation('artefact-differs', '%s: files differ from those of a fresh process at %s' % (what, d))
            if g[0] == 'ok' and j:
                done += 1
                if bad or done >= 3:
                    ctx.nontrivial = True
            if g[0] != 'ok':
                bad += 1


def brief(op):
    b = ' '.join(op['cmd']) if op['op'] == 'cli' else op['op'] + (str(op['params']) if op['op'] == 'comp' else '') + (' (same posterior)' if op.get('reuse') else '')
    return '%s:%s%s' % (op['sys'], b, '!%s at %s %d' % (op['boom'][2], op['boom'][0], op['boom'][1]) if 'boom' in op else '')


def short(o):
    return o[:1] if o[0] == 'ok' else o[1:3] + (o[3][-500:],)
