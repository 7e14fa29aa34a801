"""A worker pool with the interface of multiprocess.Pool whose workers are real forked processes, but whose task
assignment and completion order are chosen by the simulator's plan."""
import os, pickle, random, signal, sys, itertools

import dill

from . import core

MODE = {'choices': [], 'pos': 0, 'log': [], 'rng': None}     # filled in by install()
LIVE = []                                                    # pools created and not yet shut down


def configure(choices=None, seed=None):
    MODE['choices'] = list(choices or [])
    MODE['pos'] = 0
    MODE['log'] = []
    MODE['rng'] = random.Random(seed) if seed is not None else None
    MODE['stats'] = {'pools': 0, 'tasks': 0, 'reordered': 0, 'shared': 0}
    del LIVE[:]


def choose(n):
    """Next scheduling decision in range(n): recorded choices first, then the seeded stream, then 0."""
    if n <= 1:
        return 0
    i = MODE['pos']
    MODE['pos'] += 1
    if i < len(MODE['choices']):
        c = MODE['choices'][i] % n
    elif MODE['rng'] is not None:
        c = MODE['rng'].randrange(n)
    else:
        c = 0
    MODE['log'].append(c)
    return c


_FDS = set()          # parent-side pipe ends of live workers


class _Worker(object):
    def __init__(self, initializer, initargs):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(w1); os.close(r2)
            for fd in list(_FDS):        # or an older sibling would never see the end of its input
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                self._main(r1, w2, initializer, initargs)
            finally:
                os._exit(0)
        os.close(r1); os.close(w2)
        self.fds = (w1, r2)
        _FDS.update(self.fds)
        self.pid, self.w, self.r, self.ntasks = pid, os.fdopen(w1, 'wb', 0), os.fdopen(r2, 'rb'), 0

    @staticmethod
    def _main(rfd, wfd, initializer, initargs):
        inp, out = os.fdopen(rfd, 'rb'), os.fdopen(wfd, 'wb', 0)
        import threading
        del LIVE[:]
        from . import recorder
        recorder.take()               # what the parent saw before the fork is not this worker's
        try:
            if initializer is not None:
                initializer(*initargs)
        except BaseException:
            return
        while True:
            h = inp.read(8)
            if len(h) < 8:
                return
            data = inp.read(int.from_bytes(h, 'little'))
            try:
                func, args, kwds = dill.loads(data)
                res = (True, func(*args, **kwds))
            except KeyboardInterrupt:
                os._exit(130)             # as a real worker: not caught by the worker loop
            except BaseException as e:
                res = (False, e)
            try:
                blob = dill.dumps(res)
            except Exception as e:
                blob = dill.dumps((False, RuntimeError('Error sending result: %r' % (e,))))
            try:
                from . import recorder
                rec = recorder.take()
            except Exception:
                rec = None
            blob = dill.dumps((blob, rec))
            blob = len(blob).to_bytes(8, 'little') + blob
            off = 0
            while off < len(blob):
                off += out.write(blob[off:])

    def call(self, blob):
        data = len(blob).to_bytes(8, 'little') + blob
        off = 0
        while off < len(data):
            off += self.w.write(data[off:])
        h = self.r.read(8)
        if len(h) < 8:
            raise WorkerDied()
        blob, rec = dill.loads(self.r.read(int.from_bytes(h, 'little')))
        if rec is not None:
            from . import recorder
            recorder.merge(rec)
        self.ntasks += 1
        return dill.loads(blob)

    def stop(self, kill=False):
        _FDS.difference_update(self.fds)
        try:
            self.w.close()
        except Exception:
            pass
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            self.r.close()
        except Exception:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class WorkerDied(Exception):
    pass


class AsyncResult(object):
    def __init__(self, values=None, exc=None):
        self._v, self._e = values, exc

    def ready(self):
        return True

    def successful(self):
        return self._e is None

    def wait(self, timeout=None):
        return

    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._v


class SimPool(object):
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is None:
            processes = os.cpu_count() or 1
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        self._state = 'RUN'
        self._owner = os.getpid()
        self._max = maxtasksperchild
        self._init = (initializer, initargs)
        self._workers = [self._make(initializer, initargs) for _ in range(min(processes, 16))]
        LIVE.append(self)
        MODE['stats']['pools'] += 1
        self._processes = processes

    _dumps = staticmethod(dill.dumps)

    @staticmethod
    def _make(initializer, initargs):
        return _Worker(initializer, initargs)

    # -- execution
    def _check(self):
        if self._state != 'RUN':
            raise ValueError('Pool not running')

    def _batches(self, n, chunksize):
        return [list(range(i, min(i + chunksize, n))) for i in range(0, n, chunksize)]

    def _execute(self, func, argslist, chunksize=1, star=False):
        """Runs every task; yields (index, ok, value) in completion order."""
        tasks = [self._dumps((func, tuple(a) if star else (a,), {})) for a in argslist]   # pickled up front, as the task feeder does
        batches = self._batches(len(tasks), max(1, chunksize or 1))
        # Workers take batches from a common queue in order; who takes which, and who finishes first, is the schedule.
        order = []
        pending = list(range(len(batches)))
        running = []                       # batches started and not finished
        nw = len(self._workers)
        free = list(range(nw))
        owner = {}
        while pending or running:
            # start as many as the schedule wants
            while pending and free and (not running or choose(2)):
                b = pending.pop(0)
                w = free.pop(choose(len(free)))
                owner[b] = w
                running.append(b)
            b = running.pop(choose(len(running)))
            free.append(owner[b])
            free.sort()
            order.append(b)
        if order != sorted(order):
            MODE['stats']['reordered'] += 1
        if len(set(owner.values())) < len(owner):
            MODE['stats']['shared'] += 1
        for b in order:
            w = self._workers[owner[b]]
            for i in batches[b]:
                code = core.sim_yield('pool.wait')
                MODE['stats']['tasks'] += 1
                try:
                    ok, v = w.call(tasks[i])
                except WorkerDied:
                    # the real pool would wait for ever for this task; an interrupted terminal kills parent and worker
                    raise KeyboardInterrupt('worker interrupted')
                yield i, ok, v
                if not ok:
                    # the rest of a failed chunk is dropped by mapstar
                    break
            if self._max and w.ntasks >= self._max:
                w.stop()
                self._workers[owner[b]] = self._make(*self._init)

    def _collect(self, func, argslist, chunksize, star=False):
        argslist = list(argslist)
        if chunksize is None:
            chunksize, extra = divmod(len(argslist), len(self._workers) * 4)
            if extra:
                chunksize += 1
        out = [None] * len(argslist)
        exc = None
        for i, ok, v in self._execute(func, argslist, chunksize, star):
            if ok:
                out[i] = v
            elif exc is None:
                exc = v
        if exc is not None:
            raise exc
        return out

    def map(self, func, iterable, chunksize=None):
        self._check()
        return self._collect(func, iterable, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        self._check()
        return self._collect(func, iterable, chunksize, star=True)

    def _async(self, f, callback, error_callback):
        try:
            r = AsyncResult(f())
            if callback:
                callback(r._v)
        except Exception as e:
            r = AsyncResult(exc=e)
            if error_callback:
                error_callback(e)
        return r

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return self._async(lambda: self._collect(func, iterable, chunksize), callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return self._async(lambda: self._collect(func, iterable, chunksize, star=True), callback, error_callback)

    def imap(self, func, iterable, chunksize=1):
        self._check()
        res = {i: (ok, v) for i, ok, v in self._execute(func, list(iterable), chunksize)}
        for i in sorted(res):
            ok, v = res[i]
            if not ok:
                raise v
            yield v

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        for i, ok, v in self._execute(func, list(iterable), chunksize):
            if not ok:
                raise v
            yield v

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        """Deferred: runs when a result is asked for (or the pool is closed), so that later submissions can overtake."""
        self._check()
        return _Lazy(self, func, args, kwds, callback, error_callback)

    # -- shutdown
    def close(self):
        if self._state == 'RUN':
            self._drain()
            self._state = 'CLOSE'

    def _drain(self):
        todo = getattr(self, '_lazy', [])
        while todo:
            todo.pop(choose(len(todo)))._run()

    def terminate(self):
        if self._state != 'TERMINATE' and self._owner == os.getpid():
            self._state = 'TERMINATE'
            for w in self._workers:
                w.stop(kill=True)
            if self in LIVE:
                LIVE.remove(self)

    def join(self):
        if self._state == 'RUN':
            raise ValueError('Pool is still running')
        if self._owner == os.getpid() and self._state == 'CLOSE':
            self._state = 'TERMINATE'
            for w in self._workers:
                w.stop()
            if self in LIVE:
                LIVE.remove(self)

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')


class _Lazy(AsyncResult):
    def __init__(self, pool, func, args, kwds, cb, ecb):
        self.pool, self.blob = pool, pool._dumps((func, args, kwds))
        self.cb, self.ecb, self.done = cb, ecb, False
        pool.__dict__.setdefault('_lazy', []).append(self)

    def _run(self):
        if self.done:
            return
        self.done = True
        core.sim_yield('pool.wait')
        MODE['stats']['tasks'] += 1
        w = self.pool._workers[choose(len(self.pool._workers))]
        try:
            ok, v = w.call(self.blob)
        except WorkerDied:
            raise KeyboardInterrupt('worker interrupted')
        self._v, self._e = (v, None) if ok else (None, v)
        if ok and self.cb:
            self.cb(v)
        if not ok and self.ecb:
            self.ecb(v)

    def _force(self):
        todo = self.pool._lazy
        while not self.done:
            todo.pop(choose(len(todo)))._run()

    def ready(self):
        return self.done

    def wait(self, timeout=None):
        self._force()

    def get(self, timeout=None):
        self._force()
        if self._e is not None:
            raise self._e
        return self._v


class _ThreadWorker(object):
    """Same schedule, one address space."""
    pid, ntasks = 0, 0

    def call(self, blob):
        func, args, kwds = blob
        self.ntasks += 1
        try:
            return True, func(*args, **kwds)
        except Exception as e:
            return False, e

    def stop(self, kill=False):
        pass


class SimThreadPool(SimPool):
    @staticmethod
    def _dumps(x):
        return x

    @staticmethod
    def _make(initializer, initargs):
        if initializer:
            initializer(*initargs)
        return _ThreadWorker()


class SimExecutor(object):
    """concurrent.futures flavour of the same pool."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._p = SimPool(max_workers, initializer, initargs)
        self._f = []

    def submit(self, fn, *args, **kw):
        r = self._p.apply_async(fn, args, kw)
        r.result = r.get
        r.exception = lambda timeout=None: (r._force(), r._e)[1]
        return r

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter(self._p.starmap(fn, list(zip(*its)), chunksize))

    def shutdown(self, wait=True, cancel_futures=False):
        self._p.close(); self._p.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


def live_workers():
    n = 0
    for p in LIVE:
        for w in p._workers:
            try:
                os.kill(w.pid, 0)
                n += 1
            except OSError:
                pass
    return n


def install():
    """Replace every way of getting a pool, in this process (call before nodes are forked)."""
    import multiprocess, multiprocess.pool, multiprocess.context, concurrent.futures, concurrent.futures.process
    import multiprocessing, multiprocessing.pool, multiprocessing.context
    for m in (multiprocess, multiprocessing):
        m.Pool = SimPool
        m.pool.Pool = SimPool
        m.pool.ThreadPool = SimThreadPool
        m.context.BaseContext.Pool = lambda self, *a, **k: SimPool(*a, **k)
    concurrent.futures.ProcessPoolExecutor = SimExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimExecutor
    configure()
