"""C19: setup files edited between (and during) loads, with every kind of time stamp, by long-lived and by several processes."""
import json, os, re, shutil, sys
import numpy as np
import radvel, radvel.utils
from sim import lib, setups, core, pipe
from sim.core import sim_yield
from sim.runner import Check, Violation

FILES = ['toi.py', 'd1/toi.py', 'd2/toi.py', 'd1/json.py', 'd2/copy.py', 'd1/radvel.py']
TS = ['keep', 'keep', 'second', 'back', 'future', 'zero', 'wrap', 'normal']
SIZE = 6000
KINDS = ['enospc', 'eio', 'emfile', 'torn', 'short', 'int']


def gen_variant(rng):
    v = dict(star='T%03d' % rng.randrange(1000), mstar=round(rng.uniform(0.5, 1.5), 2), pad=rng.random() < 0.85)
    r = rng.random()
    if r < 0.4:
        v['k'] = round(rng.uniform(3, 30), 2)
    if rng.random() < 0.3:
        v['dvdt'] = round(rng.uniform(-0.01, 0.01), 4)
    if rng.random() < 0.3:
        v['fix'] = rng.choice(['jit_a', 'gamma_a'])
    if rng.random() < 0.3:
        v['prior'] = rng.choice(['dvdt', 'curv'])
    if rng.random() < 0.2:
        v['rp'] = round(rng.uniform(1, 3), 2)
    if rng.random() < 0.3:
        v['extra'] = 'only_%d' % rng.randrange(10)
    if rng.random() < 0.2:
        v['drop'] = rng.choice(['stellar', 'bjd0'])
    return v


def text(spec, v):
    t = setups.text(spec)
    L = ['starname = %r' % v['star']]
    if v.get('drop'):
        L.append('del %s' % v['drop'])
    if v.get('drop') != 'stellar':
        L.append("stellar = dict(mstar=%r, mstar_err=0.04)" % v['mstar'])
    if 'k' in v:
        L.append("params['%s1'].value = %r" % (('k', v['k']) if spec['basis'].endswith(' k') else ('logk', float(np.log(v['k'])))))
    if 'dvdt' in v:
        L.append("params['dvdt'].value = %r" % v['dvdt'])
    if 'fix' in v:
        L.append("params[%r].vary = False" % v['fix'])
    if 'prior' in v:
        L.append("priors.append(radvel.prior.Gaussian(%r, 0., 0.1))" % v['prior'])
    if 'rp' in v:
        L.append('planet = dict(rp1=%r, rp_err1=0.2)' % v['rp'])
    if 'extra' in v:
        L.append('%s = %r' % (v['extra'], v['star']))
    t += '\n'.join(L) + '\n'
    if v['pad']:
        t += '#' * (SIZE - len(t) - 1) + '\n'
    return t


def digest(P, post):
    """What a user sees of a loaded setup."""
    pub = {}
    for k, x in vars(P).items():
        if k.startswith('__') or type(x).__name__ in ('module', 'function'):
            continue
        pub[k] = x.to_csv() if hasattr(x, 'to_csv') else repr(x)
    return json.loads(json.dumps(dict(pub=pub, params={k: [repr(float(p.value)), bool(p.vary), bool(p.linear)] for k, p in post.params.items()}, free=post.name_vary_params(),
                                      priors=[repr(p) for p in post.priors], lp=repr(float(post.logprob())), vec=np.array(post.vector.vector, dtype=float).tolist())))


class CHECK(Check):
    id = 'C19'
    runs = {'quick': 640, 'thorough': 8000}
    rule = 'a run counts as non-trivial when a file was loaded, edited with a time stamp that does not tell the edit (equal, coarse, backwards or wrapped), and loaded again'
    real = ['radvel.utils (load_module_from_file, initialize_posterior)', 'radvel.cli, radvel.driver', 'the import system of Python with its bytecode cache']
    stub = ['time stamps of the setup files (set by the simulator)', 'the editor', 'scheduling of the processes', 'file system behind the shim for the faults while a setup file is loaded', 'multiprocess.Pool (simulated pool)', 'wall clock, entropy']
    assumptions = ['an edit replaces the file at one moment']

    def gen(self, rng, i, tier):
        spec = setups.rand_spec(rng, npl=1)
        spec['n'] = 14
        cli = rng.random() < 0.3
        nproc = 1 if cli else rng.choice([1, 1, 2, 3])
        files = ['toi.py'] + rng.sample(FILES[1:], rng.choice([0, 1, 2]))
        procs = []
        for p in range(nproc):
            ops = []
            for _ in range(rng.randrange(3, 14 if tier == 'thorough' else 9)):
                r = rng.random()
                f = rng.choice(files)
                if r < 0.45:
                    ops.append(['edit', f, gen_variant(rng), rng.choice(TS)])
                elif cli and r < 0.75:
                    ops.append(['cli', rng.choice([['fit'], ['fit'], ['derive'], ['table', '-t', 'rv'], ['table', '-t', 'params'], ['ic', '-t', 'trend'], ['mcmc', '--serial', 'True']]), rng.randrange(2**31)])
                else:
                    ops.append(['load', f, rng.choice(['rel', 'rel', 'abs', 'module'])])
            procs.append(ops)
        return dict(spec=spec, cli=cli, procs=procs, first={f: gen_variant(rng) for f in files}, npseed=rng.randrange(2**31), npool=rng.randrange(2**31), sched=dict(mode='random', seed=rng.randrange(2**31), p=0.4, p_hot=0.4, hot=[]),
                    faults=[dict(kind=rng.choice(KINDS), at=rng.randrange(1, 12), frac=rng.random(), len=1)] if not cli and rng.random() < 0.25 else [])

    def shrink(self, plan):
        for x in lib.without_each(plan['procs']):
            if x:
                yield dict(plan, procs=x)
        if plan['faults']:
            yield dict(plan, faults=[])
        for j, ops in enumerate(plan['procs']):
            for x in lib.without_each(ops):
                yield dict(plan, procs=plan['procs'][:j] + [x] + plan['procs'][j + 1:])
        yield from lib.shrink_keys(plan, {'cli': [False], 'spec.free': ['few'], 'spec.ninst': [1], 'spec.dvdt': [False], 'spec.linear': [False], 'spec.rp': [False]})

    def execute(self, plan, ctx):
        spec = plan['spec']
        root = ctx.root()
        now = {}                            # file -> [versions], the last one is there now

        def put(f, v, ts):
            fn = os.path.join(root, f)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            old = os.stat(fn) if os.path.exists(fn) else None
            with open(fn + '~', 'w') as g:
                g.write(text(spec, v))
            m = old.st_mtime_ns if old else 1500000000 * 10**9 + 123456789
            m = {'keep': m, 'second': m // 10**9 * 10**9 + (m // 10**9 * 7919 + 1) % 10**9, 'back': m - 100 * 10**9, 'future': m + 10**6 * 10**9, 'zero': 0, 'wrap': m + 2**32 * 10**9, 'normal': m + 5 * 10**9}[ts]
            if m > 2**33 * 10**9:
                m -= 2**33 * 10**9
            os.utime(fn + '~', ns=(m, m))
            os.replace(fn + '~', fn)
            now.setdefault(f, []).append(v)
            wrote[f] = (text(spec, v), m)
        wrote = {}
        for f, v in plan['first'].items():
            put(f, v, 'normal')
        if plan['cli']:
            for j, c in enumerate([['fit'], ['mcmc', '--serial', 'True']]):
                s = ctx.sim(root, [pipe.node(spec, c, plan['npseed'] + j)], mask=0, pool_seed=plan['npool'])
                lib.must_ok(s.results[0], 'undisturbed %s' % ' '.join(c))
            base = ctx.root()
            shutil.rmtree(base)
            shutil.copytree(root, base, ignore=shutil.ignore_patterns('__pycache__'))
        spans, stock, open_ = {}, {}, {}    # (process, operation) -> file contents there during the operation

        def on_event(sim, ev):
            if ev.type != 'YIELD':
                return
            if ev.path == 'edit':
                op = plan['procs'][ev.node][ev.a]
                if op[1] in now:
                    put(op[1], op[2], op[3])
            elif ev.path == 'begin':
                open_[ev.node] = (ev.a, {f: len(x) - 1 for f, x in now.items()})
            elif ev.path == 'end':
                a, first = open_.pop(ev.node)
                spans[(ev.node, a)] = {f: (first[f], len(now[f]) - 1) for f in first}
                if plan['procs'][ev.node][a][0] == 'cli':
                    stock[a] = pipe.summary(root, spec)
                for f, (t, m) in wrote.items():
                    fn = os.path.join(root, f)
                    if open(fn).read() != t or os.stat(fn).st_mtime_ns != m:
                        raise Violation('setup-changed', 'after %s: the setup file %s was changed' % (plan['procs'][ev.node][a], f))

        def proc(j):
            def body():
                import traceback
                sys.dont_write_bytecode = False
                out, kept = {}, []
                mods = {k: id(m) for k, m in sys.modules.items()}
                for a, op in enumerate(plan['procs'][j]):
                    if op[0] == 'edit':
                        sim_yield('edit', a)
                        continue
                    sim_yield('begin', a)
                    try:
                        if op[0] == 'cli':
                            pipe.run_cli(pipe.argv(op[1], spec), op[2])
                            out[a] = ('ok', None)
                        else:
                            f = op[1] if op[2] != 'abs' else os.path.abspath(op[1])
                            if op[2] == 'module':
                                P = radvel.utils.load_module_from_file('one_name', os.path.abspath(f))
                                post = radvel.utils.initialize_posterior(f)[1]
                                out[a] = ('ok', (P.starname, vars(P).get('stellar'), sorted(k for k in vars(P) if k.startswith('only_'))))
                            else:
                                P, post = radvel.utils.initialize_posterior(f)
                                out[a] = ('ok', digest(P, post))
                                kept.append((a, P, post))
                    except BaseException as e:
                        out[a] = ('exc', type(e).__name__, re.sub(r'/[^ \':]*', '<path>', str(e)[:300]), traceback.format_exc()[-900:])
                    sim_yield('end', a)
                late = {a: digest(P, post) for a, P, post in kept}
                lost = sorted(k for k, i in mods.items() if id(sys.modules.get(k)) != i)
                return out, late, lost
            return body
        s = ctx.sim(root, [proc(j) for j in range(len(plan['procs']))], mask=core.MUT if plan['faults'] else 0, on_event=on_event, sched=plan['sched'], faults=plan['faults'], pool_seed=plan['npool'])
        hist = lambda j, a: '%s of process %d after %s' % (brief(plan['procs'][j][a]), j, [brief(o) for o in plan['procs'][j][:a]])
        hit = bool(s.faults_fired)
        want = {}
        need = sorted({(f, n) for (j, a), sp in spans.items() for f, (lo, hi) in sp.items() if plan['procs'][j][a][0] == 'load' and plan['procs'][j][a][1] == f for n in range(lo, hi + 1)})
        fresh = ctx.root()
        for f, n in need:
            os.makedirs(os.path.join(fresh, 'v', str(n), os.path.dirname(f)), exist_ok=True)
            open(os.path.join(fresh, 'v', str(n), f), 'w').write(text(spec, now[f][n]))

        def reference():
            out = {}
            for f, n in need:
                P, post = radvel.utils.initialize_posterior(os.path.join('v', str(n), f))
                out[(f, n)] = digest(P, post)
            return out
        want = {}
        if need:
            r = ctx.sim(fresh, [reference], mask=0)
            want = lib.must_ok(r.results[0], 'setup files in a fresh process')
        seen = {}
        for j in range(len(plan['procs'])):
            if s.results[j][0] != 'ok':
                if hit:
                    continue
                lib.must_ok(s.results[j], 'process %d' % j)
            out, late, lost = s.results[j][1]
            for a, o in sorted(out.items()):
                op = plan['procs'][j][a]
                ctx.mark(j, a, o[:2] if o[0] == 'exc' else o[1] and json.dumps(o[1], sort_keys=True, default=str))
                if op[0] == 'cli':
                    continue
                ctx.probe('load:' + (o[0] if o[0] == 'ok' else o[1]))
                lo, hi = spans[(j, a)][op[1]]
                if o[0] == 'exc':
                    if not hit or o[1] not in ('OSError', 'KeyboardInterrupt'):
                        raise Violation('load-fails', '%s: %s: %s\n%s' % (hist(j, a), o[1], o[2], o[3]))
                    continue
                ws = [want[(op[1], n)] for n in range(lo, hi + 1)]
                if op[2] == 'module':
                    ok = any(o[1][0] == now[op[1]][n]['star'] and o[1][2] == [x for x in [now[op[1]][n].get('extra')] if x] and
                             (o[1][1] is None if now[op[1]][n].get('drop') == 'stellar' else o[1][1]['mstar'] == now[op[1]][n]['mstar']) for n in range(lo, hi + 1))
                    if not ok:
                        raise Violation('stale', '%s: %s loaded, the file says %s' % (hist(j, a), o[1], now[op[1]][hi]))
                elif o[1] not in ws:
                    raise Violation('stale', '%s: what was loaded is not what the file says: %s' % (hist(j, a), lib.diff(ws[-1], o[1])))
                elif late[a] != o[1]:
                    raise Violation('leak', '%s: later loads changed it: %s' % (hist(j, a), lib.diff(o[1], late[a])))
                if seen.get((j, op[1]), hi) != hi:
                    ctx.nontrivial = True
                seen[(j, op[1])] = hi
            if lost:
                raise Violation('modules', 'process %d: loading setup files replaced the modules %s' % (j, lost))
        if plan['cli']:
            self.commands(plan, ctx, base, s.results[0][1][0], stock)

    def commands(self, plan, ctx, base, got, stock):
        """The same commands, each in a fresh process, with no bytecode cache."""
        spec = plan['spec']
        ops = plan['procs'][0]
        ran = False
        for a, op in enumerate(ops):
            if op[0] == 'edit' and op[1] in plan['first']:
                open(os.path.join(base, op[1]), 'w').write(text(spec, op[2]))
            if op[0] != 'cli':
                continue

            def node():
                import traceback
                try:
                    pipe.run_cli(pipe.argv(op[1], spec), op[2])
                    return ('ok', None)
                except BaseException as e:
                    return ('exc', type(e).__name__, re.sub(r'/[^ \':]*', '<path>', str(e)[:300]), traceback.format_exc()[-900:])
            s = ctx.sim(base, [node], mask=0, pool_seed=plan['npool'])
            w, g = lib.must_ok(s.results[0], 'fresh process'), got[a]
            what = '%s after %s' % (brief(op), [brief(o) for o in ops[:a]])
            ctx.probe('%s:%s' % (op[1][0], g[0] if g[0] == 'ok' else g[1]))
            if g[0] != w[0] or g[1:3] != w[1:3]:
                raise Violation('command-stale', '%s: %s, in a fresh process without bytecode: %s' % (what, g, w))
            d = lib.diff(pipe.summary(base, spec), stock[a])
            if d:
                raise Violation('command-stale', '%s: its output is not that of the current setup file: %s' % (what, d))
            if ran and any(o[0] == 'edit' for o in ops[:a]):
                ctx.nontrivial = True
            ran = True


def brief(op):
    return {'edit': lambda: 'edit %s (time stamp %s)' % (op[1], op[3]), 'load': lambda: 'load %s (%s)' % (op[1], op[2]), 'cli': lambda: 'radvel ' + ' '.join(op[1])}[op[0]]() if op[0] in ('edit', 'load', 'cli') else str(op)
