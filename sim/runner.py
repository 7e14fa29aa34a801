"""Drives one check: generates plans from the seed, executes them on all cores, minimises and replays what fails,
writes the evidence."""
import argparse, collections, hashlib, importlib, json, mmap, os, pickle, random, select, shutil, signal, struct, subprocess, sys, tempfile, time, traceback

from . import core, ext, pool
from .core import HarnessError


class Violation(Exception):
    """label: the class of failure (minimisation keeps it); detail: what was observed."""

    def __init__(self, label, detail):
        Exception.__init__(self, '%s: %s' % (label, detail))
        self.label, self.detail = label, str(detail)


class Ctx(object):
    """What a check may use during one run; collects the measurements."""

    def __init__(self, debug=False):
        self.count = collections.Counter()
        self.faults = collections.Counter()
        self.sim_s = 0.0
        self.trace = hashlib.sha256()
        self.nontrivial = False
        self.roots = []
        self.debug = debug

    def root(self):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        d = tempfile.mkdtemp(prefix='vsim.', dir=base)
        self.roots.append(d)
        return d

    def sim(self, root, fns, faults=(), sched=None, on_event=None, pool_seed=None, pool_choices=None, **kw):
        """One simulated execution. Returns the finished Sim."""
        names = kw.pop('names', None)
        pool.configure(pool_choices, pool_seed)
        if kw.get('verbose_nodes') is None and self.debug:
            kw['verbose_nodes'] = True
        s = core.Sim(root, **kw)
        try:
            s.run(fns, faults=faults, sched=core.make_schedule(sched) if not isinstance(sched, core.Schedule) else sched,
                  on_event=on_event, names=names)
        except BaseException:
            for n in s.nodes:
                for fd in (n.out, n.mem):
                    if fd is not None:
                        os.close(fd)
                n.mem = None
            s.close()
            raise
        self.count['executions'] += 1
        self.count['events'] += len(s.log)
        self.faults.update(s.faults_fired)
        if len(s.switches) > len(s.nodes):
            self.faults['context_switch'] += len(s.switches)
        self.sim_s += s.simulated_s()
        for k in s.log:
            self.trace.update(repr(k).encode())
        s.outputs = [s.output(n) for n in s.nodes]
        for n in s.nodes:
            os.close(n.out)
            if n.mem is not None:
                os.close(n.mem)
                n.mem = None
            r = n.result
            if r[0] == 'exc' and r[1]['type'] == 'HarnessPickle':
                raise HarnessError(r[1]['tb'])
            if r[0] == 'exc' and r[1]['type'] == 'HarnessError':
                raise HarnessError(r[1]['tb'])
            self.trace.update(repr((r[0], r[1]['type'] if r[0] == 'exc' else '')).encode())
        s.results = [n.result for n in s.nodes]
        s.close()
        return s

    def mark(self, *a):
        self.trace.update(repr(a).encode())

    def probe(self, name, n=1):
        self.count['probe:' + name] += n

    def cleanup(self):
        for d in self.roots:
            shutil.rmtree(d, ignore_errors=True)
        self.roots = []


class Check(object):
    id = None
    level = 'exploration'
    runs = {'quick': 100, 'thorough': 1000}
    preload = ()
    rule = ''
    real = []
    stub = []
    assumptions = []

    def setup(self):
        pass

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, plan, ctx):
        """Runs the plan; raises Violation. May write concrete choices into plan['concrete'] for the replay file."""
        raise NotImplementedError

    def shrink(self, plan):
        return iter(())

    def describe(self, plan):
        return plan


def plan_rng(seed, pid, i):
    return random.Random(int.from_bytes(hashlib.sha256(('%d/%s/%d' % (seed, pid, i)).encode()).digest()[:8], 'big'))


def attempt(check, plan, debug=False):
    """-> (violation or None, ctx, plan as concretised)."""
    plan = json.loads(json.dumps(plan))
    ctx = Ctx(debug)
    try:
        try:
            check.execute(plan, ctx)
            return None, ctx, plan
        except Violation as v:
            return v, ctx, plan
        except core.Hang as e:
            return Violation('hang', '%s (last event %s)' % e.args), ctx, plan
        except HarnessError:
            raise
        except Exception as e:
            # radvel code that the check itself calls: its exceptions are findings, those of the check are not
            tb = traceback.extract_tb(e.__traceback__)
            if not any(f.filename.startswith('/repo/radvel/') for f in tb[-1:]):
                raise
            return Violation('radvel-' + type(e).__name__, '%s at %s' % (str(e)[:300], ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]])), ctx, plan
    finally:
        ctx.cleanup()


def minimise(check, plan, viol, budget):
    end = time.monotonic() + budget
    tried = 0
    best = plan
    progress = True
    if viol.label == 'hang':
        return best, viol, tried
    while progress and time.monotonic() < end:
        progress = False
        for cand in check.shrink(json.loads(json.dumps(best))):
            if time.monotonic() > end:
                break
            if cand == best:
                continue
            tried += 1
            try:
                v, _, conc = attempt(check, cand)
            except HarnessError:
                continue
            except Exception:
                continue
            if v is not None and v.label == viol.label:
                best, viol, progress = conc, v, True
                break
    return best, viol, tried


def known(here, pid):
    out = []
    fn = os.path.join(here, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('finding:') and 'property=%s ' % pid in l:
                d = dict(x.split('=', 1) for x in l[8:].split() if '=' in x)
                out.append((d.get('label'), l))
    return out


def worker(check, seed, tier, idxs, wfd, stop, cap, t0):
    out = os.fdopen(wfd, 'wb')
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for i in idxs:
        if struct.unpack_from('q', stop, 0)[0] < i or time.monotonic() - t0 > cap:
            break
        plan = None
        try:
            plan = check.gen(plan_rng(seed, check.id, i), i, tier)
            v, ctx, conc = attempt(check, plan)
            rec = dict(i=i, plan=conc, viol=(v.label, v.detail) if v else None, count=dict(ctx.count), faults=dict(ctx.faults), sim_s=ctx.sim_s,
                       trace=ctx.trace.hexdigest()[:16], nontrivial=ctx.nontrivial, t=time.monotonic() - t0)
            if v and not check.is_known(v.label):
                if struct.unpack_from('q', stop, 0)[0] > i:
                    struct.pack_into('q', stop, 0, i)
        except Exception:
            rec = dict(i=i, plan=plan, error=traceback.format_exc())
        pickle.dump(rec, out)
        out.flush()
    pickle.dump(None, out)
    out.flush()
    os._exit(0)


def load_check(here, pid, build):
    so = ext.install(build)
    pool.install()
    mod = importlib.import_module('checks.' + pid.lower())
    check = mod.CHECK()
    check.ext_path = so
    check.known = known(here, pid)
    check.is_known = lambda label: any(k == label for k, _ in check.known)
    import radvel
    if os.path.realpath(radvel.__file__) != '/repo/radvel/__init__.py':
        raise HarnessError('radvel comes from %s' % radvel.__file__)
    check.setup()
    return check


def main(here, build, argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SIM_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--one', type=int, help='execute just run number ONE, with node output')
    ap.add_argument('--traces', help='write "<run> <trace hash>" lines to this file')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    try:
        check = load_check(here, a.pid, build)
        if a.replay:
            return replay(check, a.replay)
        if a.one is not None:
            plan = check.gen(plan_rng(a.seed, check.id, a.one), a.one, a.tier)
            print(json.dumps(check.describe(plan), indent=1, default=str))
            v, ctx, conc = attempt(check, plan, debug=True)
            print(dict(ctx.count), dict(ctx.faults), ctx.trace.hexdigest()[:16])
            print('VIOLATION' if v else 'held', v or '')
            return 1 if v else 0
        return batch(here, build, check, a, t0)
    except HarnessError as e:
        print('HARNESS ERROR: %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        print('HARNESS ERROR: exception in the check itself')
        return 3


def replay(check, fn):
    r = json.load(open(fn))
    v, ctx, _ = attempt(check, r['plan'])
    if v:
        print('replay: %s' % v)
        print('trace %s%s' % (ctx.trace.hexdigest()[:16], '' if ctx.trace.hexdigest()[:16] == r.get('trace') else ' (recorded: %s)' % r.get('trace')))
        print('VIOLATION property=%s replay=%s' % (check.id, os.path.abspath(fn)))
        return 1
    print('replay: no violation')
    return 0


def batch(here, build, check, a, t0):
    n = a.runs or check.runs[a.tier]
    cap = float(os.environ.get('SIM_CAP', '600' if a.tier == 'quick' else '7200'))
    print('%s tier=%s seed=%d runs=%d jobs=%d ext=%s' % (check.id, a.tier, a.seed, n, a.jobs, os.path.relpath(check.ext_path, '/')))
    sys.stdout.flush()
    tstart = time.monotonic()
    stop = mmap.mmap(-1, 8)
    struct.pack_into('q', stop, 0, 1 << 60)
    readers, pids = {}, []
    for j in range(a.jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in readers.values():
                f.close()
            worker(check, a.seed, a.tier, range(a.first + j, a.first + n, a.jobs), w, stop, cap, tstart)
            os._exit(0)
        os.close(w)
        pids.append(pid)
        readers[r] = os.fdopen(r, 'rb')
    recs, errors, done = [], [], set()
    while len(done) < len(readers):
        rr, _, _ = select.select([fd for fd in readers if fd not in done], [], [], 5)
        for fd in rr:
            try:
                rec = pickle.load(readers[fd])
            except EOFError:
                errors.append(dict(error='a worker process died'))
                done.add(fd)
                continue
            if rec is None:
                done.add(fd)
            elif 'error' in rec:
                errors.append(rec)
            else:
                recs.append(rec)
    for p in pids:
        os.waitpid(p, 0)
    wall = time.monotonic() - tstart
    recs.sort(key=lambda r: r['i'])
    viols = [r for r in recs if r['viol']]
    new = [r for r in viols if not check.is_known(r['viol'][0])]
    if a.traces:
        with open(a.traces, 'w') as f:
            for r in recs:
                f.write('%d %s %s\n' % (r['i'], r['trace'], r['viol']))
    status = 0
    replay_fn = None
    info = None
    if new:
        r = new[0]
        v = Violation(*r['viol'])
        print('run %d violates %s: %s' % (r['i'], check.id, v))
        print('seed=%d run=%d plan=%s' % (a.seed, r['i'], json.dumps(check.describe(r['plan']), default=str)[:1500]))
        sys.stdout.flush()
        best, bv, tried = minimise(check, r['plan'], v, 60 if a.tier == 'quick' else 300)
        os.makedirs(os.path.join(here, 'replays'), exist_ok=True)
        replay_fn = os.path.join(here, 'replays', '%s-s%d-r%d.json' % (check.id, a.seed, r['i']))
        confirmed = False
        for cand, cv in ((best, bv), (r['plan'], v)):
            v2, ctx2, _ = attempt(check, cand)
            with open(replay_fn, 'w') as f:
                json.dump(dict(property=check.id, seed=a.seed, run=r['i'], label=cv.label, detail=cv.detail, plan=cand,
                               trace=ctx2.trace.hexdigest()[:16], minimisation_attempts=tried), f, indent=1)
            env = dict(os.environ)
            env.pop('SIM_CHILD', None)
            p = subprocess.run([sys.executable, os.path.join(here, 'run.py'), check.id, '--replay', replay_fn], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 1:
                confirmed = True
                print('minimised (%d attempts): %s' % (tried, cv))
                print(p.stdout.decode().strip().replace('VIOLATION property', 'replayed in a fresh process: property'))
                break
        if confirmed:
            status = 1
        elif v2 is not None:
            print('the violation shows again in this process but not in a fresh one:\n' + p.stdout.decode()[-2000:])
            status = 1
        else:
            print('HARNESS ERROR: the violation did not replay in a fresh process:\n' + p.stdout.decode()[-2000:])
            status = 3
    if errors and not status:
        print('HARNESS ERROR in %d run(s), first:\n%s' % (len(errors), errors[0]['error']))
        print('plan: %s' % json.dumps(errors[0].get('plan'))[:1500])
        status = 3
    if not status and len(recs) < n:
        print('only %d of %d runs fitted into %.0f s' % (len(recs), n, cap))
        if len(recs) < n / 4:
            status = 3
    for label, line in check.known:
        hits = [r for r in viols if r['viol'][0] == label]
        print('KNOWN-FINDING: property=%s %s (seen in %d runs)' % (check.id, line.split(' ', 3)[-1], len(hits)))
    evidence(here, check, a, recs, new, wall, time.monotonic() - t0, replay_fn)
    if os.environ.get('SIM_DEBUG'):
        tot = collections.Counter(); fl = collections.Counter()
        for r in recs:
            tot.update(r['count']); fl.update(r['faults'])
        print('nontrivial %d, probes %s faults %s' % (sum(r['nontrivial'] for r in recs), {k[6:]: v for k, v in sorted(tot.items()) if k.startswith('probe:')}, dict(fl)))
    print('%s: %d runs, %d executions, %d events, %.1f s' % (check.id, len(recs), sum(r['count'].get('executions', 0) for r in recs),
                                                            sum(r['count'].get('events', 0) for r in recs), wall))
    if status == 1:
        print('VIOLATION property=%s replay=%s' % (check.id, replay_fn))
    return status


def evidence(here, check, a, recs, viols, wall, total, replay_fn):
    tot, faults = collections.Counter(), collections.Counter()
    for r in recs:
        tot.update(r['count'])
        faults.update(r['faults'])
    traces = {r['trace'] for r in recs}
    nt = {r['trace'] for r in recs if r['nontrivial']}
    probes = {k[6:]: v for k, v in sorted(tot.items()) if k.startswith('probe:')}
    sims = sum(r['sim_s'] for r in recs)
    samples = []
    for r in [x for x in recs if x['nontrivial']][:3]:
        samples.append(dict(run=r['i'], trace=r['trace'], plan=check.describe(r['plan'])))
    cov = dict(evaluations=len(recs), distinct_nontrivial=len(nt), rule=check.rule, samples=samples,
               simulated_executions=tot['executions'], simulated_events=tot['events'], distinct_event_traces=len(traces),
               runs_per_hour=int(len(recs) / wall * 3600) if wall else 0, executions_per_hour=int(tot['executions'] / wall * 3600) if wall else 0,
               seeds=dict(VERIF_SEED=a.seed, first_run=a.first, runs=len(recs), derivation='sha256("seed/property/run")'),
               simulated_seconds=round(sims, 3), faults_injected=dict(sorted(faults.items())), probes=probes,
               measures={k: v for k, v in sorted(tot.items()) if not k.startswith('probe:') and k not in ('executions', 'events')},
               state_measure='distinct sha256 hashes over the ordered event log (node, operation, path, size) of all executions of a run and their outcomes',
               components_real=check.real, components_stubbed=check.stub)
    d = dict(property=check.id, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=a.seed, level=check.level, coverage=cov,
             assumptions=check.assumptions, wall_s=round(total, 2), violations=len(viols))
    if replay_fn:
        cov['replay'] = replay_fn
    if a.no_evidence:
        return
    os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
    fn = os.path.join(here, 'evidence', check.id + '.json')
    with open(fn + '.tmp', 'w') as f:
        json.dump(d, f, indent=1, default=str)
    os.replace(fn + '.tmp', fn)
