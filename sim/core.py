"""The simulator: nodes are forked processes of which exactly one runs at a time; every file operation they make under
the scratch root is an event that waits for the simulator's verdict."""
import ctypes, errno, io, os, pickle, select, shutil, signal, socket, struct, sys, tempfile, time as _time, traceback, mmap, random

TYPES = ['', 'OPENW', 'OPENR', 'WRITE', 'READ', 'TRUNC', 'RENAME', 'UNLINK', 'MKDIR', 'RMDIR', 'LINK', 'FSYNC', 'CLOSE', 'STAT',
         'BLOCK', 'YIELD', 'START', 'EXIT', 'TORN', 'SLEEP', 'LOCK', 'LIST']
T = {n: i for i, n in enumerate(TYPES) if n}
MUT = sum(1 << T[n] for n in ('OPENW', 'WRITE', 'TRUNC', 'RENAME', 'UNLINK', 'MKDIR', 'RMDIR', 'LINK', 'FSYNC', 'CLOSE', 'LOCK', 'SLEEP'))
RD = sum(1 << T[n] for n in ('OPENR', 'READ'))
ST = 1 << T['STAT']
ALL = MUT | RD | ST

MSG = struct.Struct('iiii qq 512s512s')
REP = struct.Struct('iiq')
PASS, ERR, SHORT, TORN, INT = range(5)
CLK_SCRIPT = 1024


class Hang(Exception):
    """A node computes, or waits, and will not make another event."""


class HarnessError(Exception):
    """Something is wrong with the machinery or the environment: neither 'held' nor 'violated'."""


class Page(ctypes.Structure):
    _fields_ = [('enabled', ctypes.c_int64), ('rt_ns', ctypes.c_int64), ('mono_ns', ctypes.c_int64), ('n', ctypes.c_int64),
                ('idx', ctypes.c_int64), ('reads', ctypes.c_int64), ('max_reads', ctypes.c_int64), ('rng', ctypes.c_uint64),
                ('slept_ns', ctypes.c_int64), ('script', ctypes.c_int64 * CLK_SCRIPT)]


_lib = None


def lib():
    global _lib
    if _lib is None:
        path = os.environ['LD_PRELOAD']
        _lib = ctypes.PyDLL(path)
        _lib.sim_activate.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_uint, ctypes.c_void_p]
        _lib.sim_event.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int64]
        _lib.sim_mask.argtypes = [ctypes.c_uint]
    return _lib


in_node = False


def sim_yield(tag, a=0):
    """A scheduling/fault point that is not a file operation. Returns an errno-like code when a fault is due."""
    if not in_node:
        return 0
    return lib().sim_event(T['YIELD'], tag.encode(), a)


class Event(object):
    __slots__ = ('node', 'type', 'pid', 'fd', 'flags', 'a', 'b', 'path', 'path2', 'seq', 'n')

    def key(self):
        pid = str(self.pid)             # process ids are not under the simulator's control: keep them out of the log
        return (self.node, self.type, self.path.replace(pid, '<pid>'), self.path2.replace(pid, '<pid>'), self.a)


class Node(object):
    def __init__(self, idx, name, fn):
        self.idx, self.name, self.fn = idx, name, fn
        self.alive, self.pid, self.sock, self.mem = False, None, None, None
        self.pending = None          # Event waiting for a verdict
        self.blocked = self.deferred = False
        self.nev = 0                 # announced events so far (the START event excluded)
        self.tags = {}
        self.result = None           # ('ok', value) | ('exc', dict) | ('dead', how)
        self.leftover = False


def _exc_info(e):
    return dict(type=type(e).__name__, mro=[c.__name__ for c in type(e).__mro__], str=str(e)[:500],
                errno=getattr(e, 'errno', None), tb=traceback.format_exc()[-3000:])


class Sim(object):
    """One simulated execution over one scratch root."""

    def __init__(self, root, mask=MUT, seed=0, clock=None, max_events=200000, verbose_nodes=False, start_ns=1600000000 * 10**9):
        self.root = os.path.realpath(root)
        self.mask, self.max_events = mask, max_events
        self.mm = mmap.mmap(-1, ctypes.sizeof(Page))
        self.page = Page.from_buffer(self.mm)
        p = self.page
        p.enabled, p.rt_ns, p.mono_ns, p.rng = 1, start_ns, 10**9, (seed * 2654435761 + 12345) & (2**64 - 1)
        p.max_reads = 2000000
        script = clock if clock else [10**6]          # default: 1 ms per reading
        script = script[:CLK_SCRIPT]
        p.n = len(script)
        for i, v in enumerate(script):
            p.script[i] = int(v)
        self.t0_ns = start_ns
        self.log = []                # event keys, in execution order
        self.faults_fired = {}
        self.deadlock = self.livelock = False
        self.spin = False
        self.switches = []           # [event number, node] actually taken
        self.verbose_nodes = verbose_nodes
        self.nodes = []
        self.gen = 0                 # how often something was released

    # -- life cycle
    def close(self):
        for n in self.nodes:
            self._kill(n)
        p = self.page
        self.rt_reads = int(p.idx)
        self.page = None
        del p
        try:
            self.mm.close()
        except BufferError:
            pass

    def _spawn(self, node):
        node.mem = os.memfd_create('res')
        node.out = os.memfd_create('out')
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                self._child(node, b)
            finally:
                os._exit(98)
        b.close()
        node.pid, node.sock, node.alive = pid, a, True
        try:
            os.setpgid(pid, pid)
        except OSError:
            pass
        self._await(node)

    def _child(self, node, sock):
        global in_node
        os.setpgid(0, 0)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        devnull = os.open('/dev/null', os.O_RDONLY)
        os.dup2(devnull, 0)
        if not self.verbose_nodes:
            os.dup2(node.out, 1); os.dup2(node.out, 2)
        sys.stdout = io.TextIOWrapper(os.fdopen(1, 'wb', 0, closefd=False), write_through=True)
        sys.stderr = io.TextIOWrapper(os.fdopen(2, 'wb', 0, closefd=False), write_through=True)
        os.chdir(self.root)
        tmp = os.path.join(self.root, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        os.environ['TMPDIR'] = tmp
        tempfile.tempdir = tmp
        tempfile._name_sequence = None
        in_node = True
        L = lib()
        fd = os.dup(sock.fileno())
        L.sim_activate(self.root.encode(), fd, self.mask, ctypes.addressof(self.page))
        random.seed(12345)
        import numpy as np
        np.random.seed(12345)
        L.sim_event(T['START'], b'', 0)
        try:
            value = node.fn()
            res = ('ok', value)
        except BaseException as e:      # noqa: KeyboardInterrupt and SystemExit are outcomes too
            res = ('exc', _exc_info(e))
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        L.sim_deactivate()
        try:
            data = pickle.dumps(res)
        except Exception as e:
            data = pickle.dumps(('exc', dict(type='HarnessPickle', mro=[], str=repr(e), errno=None, tb=traceback.format_exc())))
        with os.fdopen(os.dup(node.mem), 'wb') as f:
            f.write(data)
        L.sim_activate(self.root.encode(), fd, 0, ctypes.addressof(self.page))
        L.sim_event(T['EXIT'], b'', 0)
        L.sim_deactivate()
        os._exit(0)

    def _cpu(self, node):
        try:
            with open('/proc/%d/stat' % node.pid) as f:
                v = f.read().rsplit(')', 1)[1].split()
            return sum(int(x) for x in v[11:15]) / os.sysconf('SC_CLK_TCK')
        except (OSError, ValueError, IndexError):
            return 0.0

    def _await(self, node, timeout=240, cpu_limit=90):
        """Wait for the node's next event (it is the only one running)."""
        end = _time.monotonic() + timeout
        cpu = self._cpu(node)
        while True:
            r, _, _ = select.select([node.sock], [], [], 1.0)
            if r:
                data = node.sock.recv(MSG.size)
                if not data:
                    self._reap(node, 'eof')
                    return
                t, pid, fd, flags, a, b, p1, p2 = MSG.unpack(data)
                e = Event()
                e.node, e.type, e.pid, e.fd, e.flags, e.a, e.b = node.idx, TYPES[t], pid, fd, flags, a, b
                e.path, e.path2 = p1.split(b'\0', 1)[0].decode(), p2.split(b'\0', 1)[0].decode()
                node.pending, node.gen = e, self.gen
                return
            pid, st = os.waitpid(node.pid, os.WNOHANG)
            if pid:
                node.status = st
                self._reap(node, 'died', waited=True)
                return
            used = self._cpu(node) - cpu
            late = _time.monotonic() > end
            if used > cpu_limit or (late and used < 2):
                last = self.log[-1] if self.log else None
                self._kill(node)
                raise Hang('%s computes without end' % node.name if used > 2 else '%s waits without end' % node.name, last)
            if late:
                self._kill(node)
                raise HarnessError('node %s made no event for %ds' % (node.name, timeout))

    def _reply(self, node, action=PASS, err=0, arg=0):
        node.pending = None
        node.sock.send(REP.pack(action, err, arg))

    def _reap(self, node, how, waited=False):
        if not node.alive:
            return
        try:
            os.killpg(node.pid, signal.SIGKILL)
        except OSError:
            pass
        if not waited:
            _, node.status = os.waitpid(node.pid, 0)
        node.alive = False
        node.pending = None
        node.sock.close()
        st = node.status
        if node.result is None:
            node.result = ('dead', how if how != 'died' and how != 'eof' else 'status %d' % st)
        self._unblock()

    def _kill(self, node, how='killed'):
        if node.alive:
            self._reap(node, how)
        for fd in ('mem', 'out'):
            v = getattr(node, fd, None)
            if v is not None and fd == 'mem':
                os.close(v); node.mem = None

    def _unblock(self):
        self.gen += 1
        for n in self.nodes:
            n.blocked = False

    def _finish(self, node):
        """The node's EXIT event arrived."""
        os.lseek(node.mem, 0, 0)
        data = b''
        while True:
            c = os.read(node.mem, 1 << 20)
            if not c:
                break
            data += c
        node.result = pickle.loads(data)
        self._reply(node)
        _, node.status = os.waitpid(node.pid, 0)
        try:
            os.killpg(node.pid, 0)
            node.leftover = True
        except OSError:
            pass
        self._reap(node, 'exit', waited=True)

    def output(self, node):
        os.lseek(node.out, 0, 0)
        data = b''
        while True:
            c = os.read(node.out, 1 << 20)
            if not c:
                break
            data += c
        return data.decode('utf8', 'replace')

    # -- the loop
    def run(self, fns, faults=(), sched=None, on_event=None, names=None):
        """fns: callables, one per node. faults: list of dicts. sched: Schedule. on_event(sim, event) is called before the
        verdict of every event while every node is parked."""
        self.nodes = [Node(i, names[i] if names else 'n%d' % i, f) for i, f in enumerate(fns)]
        faults = [dict(f) for f in faults]
        sched = sched or Schedule()
        for n in self.nodes:
            self._spawn(n)
        current = None
        nev = npick = 0
        try:
            while True:
                npick += 1
                live = [n for n in self.nodes if n.alive]
                if not live:
                    break
                ready = [n for n in live if not n.blocked]
                if not ready:
                    self.deadlock = True
                    break
                want = sched.pick(npick, current if current in ready else None, ready)
                if want is not current:
                    self.switches.append([npick, want.idx])
                current = want
                ev = want.pending
                if want.deferred:       # it was waiting for a lock: let it try again
                    want.deferred = False
                    self._reply(want)
                    self._await(want)
                    continue
                if ev.type == 'EXIT':
                    self._finish(want)
                    continue
                nev += 1
                ev.seq = nev
                if nev > self.max_events:
                    self.livelock = True
                    break
                if ev.type != 'START':
                    want.nev += 1
                ev.n = want.nev
                if ev.type == 'YIELD' and ev.path == 'clock-spin':
                    self.spin = True
                    break
                if ev.type == 'TORN':
                    self.log.append(ev.key())
                    self._reap(want, 'killed')
                    continue
                if on_event:
                    on_event(self, ev)
                self.log.append(ev.key())
                if ev.type == 'BLOCK' and want.gen != self.gen:
                    sched.note(ev)          # something was released meanwhile: try again
                    self._reply(want)
                    self._await(want)
                    continue
                if ev.type == 'BLOCK':
                    want.blocked = True
                    # it is retried once some other node has released or ended something
                    if all(n.blocked for n in self.nodes if n.alive):
                        self.deadlock = True
                        break
                    sched.note(ev)
                    want.deferred = True
                    continue
                if ev.type in ('LOCK', 'CLOSE', 'UNLINK', 'SLEEP'):
                    self._unblock()
                sched.note(ev)
                v = self._verdict(want, ev, faults)
                if v is None:
                    continue            # node was killed
                self._reply(want, *v)
                self._await(want)
        finally:
            for n in self.nodes:
                if n.alive:
                    self._reap(n, 'stopped')
        return self

    def fired(self, kind):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + 1

    def _verdict(self, node, ev, faults):
        tagn = None
        if ev.type == 'YIELD':
            tagn = node.tags[ev.path] = node.tags.get(ev.path, 0) + 1
        for f in faults:
            if f.get('done') or f.get('node', 0) != node.idx:
                continue
            if 'tag' in f:
                if ev.type != 'YIELD' or ev.path != f['tag'] or tagn < f['at']:
                    continue
            else:
                if ev.type in ('YIELD', 'START') or node.nev < f['at']:
                    continue
                if 'path' in f and f['path'] not in ev.path and f['path'] not in ev.path2:
                    continue
            k = f['kind']
            if k == 'crash':
                f['done'] = True
                self.fired('crash')
                self._reap(node, 'killed')
                return None
            if k == 'torn':
                if ev.type != 'WRITE':
                    if ev.type in ('RENAME', 'CLOSE') and node.nev > f['at'] + 400:
                        f['done'] = True
                        self.fired('crash')
                        self._reap(node, 'killed')
                        return None
                    continue
                f['done'] = True
                self.fired('torn')
                return (TORN, 0, int(ev.a * f.get('frac', 0.5)))
            if k == 'int':
                f['done'] = True
                self.fired('interrupt')
                return (INT, 0, 0)
            if k == 'raise':
                if f.get('upto') and tagn >= f['upto']:
                    f['done'] = True
                elif not f.get('upto'):
                    f['done'] = True
                self.fired('raise')
                return (ERR, f.get('code', 1), 0)
            if k in ('enospc', 'eio', 'emfile'):
                ok = {'enospc': ('OPENW', 'WRITE', 'TRUNC', 'MKDIR', 'RENAME', 'LINK', 'FSYNC', 'CLOSE'),
                      'eio': ('WRITE', 'READ', 'FSYNC', 'TRUNC', 'CLOSE'),
                      'emfile': ('OPENW', 'OPENR')}[k]
                if ev.type not in ok:
                    continue
                if ev.type == 'OPENW' and k == 'enospc' and not (ev.flags & os.O_CREAT):
                    continue
                if k == 'enospc' and ev.type in ('CLOSE', 'RENAME', 'FSYNC') and f.get('len', 1) > 1:
                    continue             # a full disk refuses new blocks; a single fault may hit anything
                f['left'] = f.get('left', f.get('len', 1)) - 1
                if f['left'] <= 0:
                    f['done'] = True
                self.fired(k)
                return (ERR, {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'emfile': errno.EMFILE}[k], 0)
            if k == 'short':
                if ev.type != 'WRITE' or ev.a < 2:
                    continue
                f['left'] = f.get('left', f.get('len', 1)) - 1
                if f['left'] <= 0:
                    f['done'] = True
                self.fired('short')
                return (SHORT, 0, max(1, int(ev.a * f.get('frac', 0.5))))
            raise HarnessError('unknown fault kind %r' % k)
        return (PASS, 0, 0)

    def simulated_s(self):
        return (self.page.mono_ns - 10**9) / 1e9


class Schedule(object):
    """Which parked node runs next. Default: let the current one run to its end, then the next."""

    def pick(self, nev, current, ready):
        return current or ready[0]

    def note(self, ev):
        pass


class RandomSchedule(Schedule):
    def __init__(self, seed, p=0.05, p_hot=0.5, hot=('.stat',), prio=None):
        self.rng = random.Random(seed)
        self.p, self.p_hot, self.hot = p, p_hot, hot

    def pick(self, nev, current, ready):
        if current is None:
            return ready[self.rng.randrange(len(ready))]
        if len(ready) == 1:
            return ready[0]
        ev = current.pending
        p = self.p
        if ev is not None and (any(h in ev.path or h in ev.path2 for h in self.hot) or ev.type in ('MKDIR', 'LOCK', 'START', 'EXIT')):
            p = self.p_hot
        if self.rng.random() < p:
            others = [n for n in ready if n is not current]
            return others[self.rng.randrange(len(others))]
        return current


class ExplicitSchedule(Schedule):
    def __init__(self, switches):
        self.sw = {int(a): int(b) for a, b in switches}

    def pick(self, nev, current, ready):
        if nev in self.sw:
            for n in ready:
                if n.idx == self.sw[nev]:
                    return n
        if current is not None:
            return current
        return ready[0]


class ParkSchedule(Schedule):
    """Nodes run in a random order of priority, each to its end, except that a node is parked behind all others when it reaches
    certain of its interesting events (few well-placed switches, as in PCT)."""

    def __init__(self, seed, parks, hot=('.stat',)):
        self.rng = random.Random(seed)
        self.parks = [list(p) for p in parks]       # [node, nth interesting event]
        self.hot, self.count, self.prio = hot, {}, {}
        self.low = 0
        self.seen = None

    def interesting(self, ev):
        return any(h in ev.path or h in ev.path2 for h in self.hot) or ev.type in ('MKDIR', 'LOCK')

    def pick(self, nev, current, ready):
        for n in ready:
            if n.idx not in self.prio:
                self.prio[n.idx] = self.rng.random() + 1
        if current is not None:
            ev = current.pending
            if ev is not None and ev is not self.seen and self.interesting(ev):
                self.seen = ev
                c = self.count[current.idx] = self.count.get(current.idx, 0) + 1
                if [current.idx, c] in self.parks:
                    self.low -= 1
                    self.prio[current.idx] = self.low
        return max(ready, key=lambda n: self.prio[n.idx])


def make_schedule(d):
    if not d:
        return Schedule()
    if d['mode'] == 'park':
        return ParkSchedule(d['seed'], d['parks'], tuple(d.get('hot', ('.stat',))))
    if d['mode'] == 'explicit':
        return ExplicitSchedule(d['switches'])
    return RandomSchedule(d['seed'], d.get('p', 0.05), d.get('p_hot', 0.5), tuple(d.get('hot', ('.stat',))))
