"""Shared by the checks: building posteriors, running MCMC inside a node, reading checkpoints, generic shrinking."""
import contextlib, hashlib, importlib, io, json, os, pickle, select, shutil, signal, time

import numpy as np
import radvel, radvel.utils
import emcee

from . import core, pool, recorder, setups
from .core import sim_yield
from .runner import Violation

M = importlib.import_module('radvel.mcmc')
SV = ('oac', 'autosamples', 'automean', 'automin', 'automax', 'ncomplete', 'nburn', 'burn_complete', 'minafactor',
      'maxarchange', 'maxgr', 'mintz', 'ar')


def load(fn):
    P, post = radvel.utils.initialize_posterior(fn)
    return post


def sv_record(sv=None):
    sv = sv or M.statevars
    out = {}
    for k in SV:
        v = getattr(sv, k, None)
        try:
            out[k] = np.array(v, dtype=float).tolist() if v is not None else None
        except (TypeError, ValueError):
            out[k] = None
    return out


def df_pack(df):
    """A table as plain data (bitwise)."""
    if df is None:
        return None
    return dict(cols=list(map(str, df.columns)), idx=[int(i) for i in df.index], val=np.array(df.values, dtype=float))


def same(a, b):
    """Bitwise equality of nested plain data with arrays; NaN equals NaN."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
            return bool(np.all((a == b) | ((a != a) & (b != b))))
        return bool(np.all(a == b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


def diff(a, b, path=''):
    """First difference, for messages."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s / %s' % (path, sorted(set(a) - set(b)), sorted(set(b) - set(a)))
        for k in sorted(a, key=str):
            d = diff(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if same(a, b):
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return '%s: shapes %s and %s' % (path, a.shape, b.shape)
        w = np.argwhere(~((a == b) | ((a != a) & (b != b))))
        i = tuple(w[0])
        return '%s: %d of %d entries differ, first at %s: %r and %r' % (path, len(w), a.size, i, a[i], b[i])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
    if isinstance(a, str) and isinstance(b, str):
        i = max(0, next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b))) - 60)
        a, b = ('...' + a[i:] if i else a), ('...' + b[i:] if i else b)
    return '%s: %s and %s' % (path, str(a)[:200], str(b)[:200])


def mcmc_kw(p):
    """Keyword arguments of radvel.mcmc from a plan fragment."""
    return {k: p[k] for k in ('nwalkers', 'nrun', 'ensembles', 'checkinterval', 'minAfactor', 'maxArchange', 'burnAfactor', 'burnGR', 'maxGR',
                              'minTz', 'minsteps', 'minpercent', 'thin', 'serial', 'save', 'savename', 'proceed', 'proceedname') if k in p}


def run_mcmc(post, kw, npseed, headless=True):
    np.random.seed(npseed)
    with quiet():
        df = radvel.mcmc(post, headless=headless, **mcmc_kw(kw))
    return dict(df=df_pack(df), sv=sv_record() if df is not None else None)


@contextlib.contextmanager
def quiet():
    yield


def pool_log():
    return dict(log=list(pool.MODE['log']), stats=dict(pool.MODE['stats']), live=len(pool.LIVE), workers=pool.live_workers())


# -- seams in emcee -------------------------------------------------------------------------------------------------
_orig = {}


def hook_sample(rec=None, yields=True, evals=None):
    """In a node: every EnsembleSampler.sample call becomes a scheduling point 'sample'; rec collects starting positions."""
    if 'sample' not in _orig:
        _orig['sample'] = emcee.EnsembleSampler.sample
    o = _orig['sample']

    def sample(self, initial_state=None, *a, **k):
        if rec is not None:
            st = initial_state
            if st is None:
                c = None if self._previous_state is None else self._previous_state.coords
            else:
                c = getattr(st, 'coords', st)
            rec.append((None if c is None else np.array(c, dtype=float), int(self.iteration)))
        if yields:
            code = sim_yield('sample', int(self.iteration))
            if code:
                raise OSError(code, 'injected')
        return o(self, initial_state, *a, **k)
    emcee.EnsembleSampler.sample = sample


def coords_key(c):
    return hashlib.sha256(np.ascontiguousarray(c, dtype=float).tobytes()).hexdigest()[:20]


def hook_streams():
    """Record the state of the generator that drives every proposal (shipped back from workers)."""
    import emcee.moves.red_blue as rb
    o = rb.RedBlueMove.propose
    recorder.start()

    def propose(self, model, state):
        s = model.random.get_state()
        recorder.add((hashlib.sha256(s[1].tobytes() + repr(s[2:]).encode()).hexdigest()[:20],
                      coords_key(state.coords)))
        return o(self, model, state)
    rb.RedBlueMove.propose = propose


def replayed(rec):
    """How many proposals use a generator state that drives another proposal from other positions. (A step that is simply
    repeated from the same positions is not a replay by another ensemble.)"""
    seen = {}
    for g, c in rec:
        seen.setdefault(g, set()).add(c)
    return sum(len(v) - 1 for v in seen.values())


# -- checkpoints ----------------------------------------------------------------------------------------------------
def isolated(fn, timeout=60):
    """Run fn in a forked process (it may crash on damaged files). ('ok', v) | ('exc', repr) | ('dead', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 1); os.dup2(dn, 2)
                out = ('ok', fn())
            except BaseException as e:
                out = ('exc', '%s: %s' % (type(e).__name__, str(e)[:300]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    data, end = b'', time.monotonic() + timeout
    with os.fdopen(r, 'rb', 0) as f:
        while True:
            rr, _, _ = select.select([f], [], [], max(0, end - time.monotonic()))
            if not rr:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ('dead', 'hangs')
            c = f.read(1 << 16)
            if not c:
                break
            data += c
    _, st = os.waitpid(pid, 0)
    if not data:
        return ('dead', 'status %d' % st)
    return pickle.loads(data)


def _h5(fn):
    import h5py
    out = {}
    with h5py.File(fn, 'r') as f:
        for k in f.keys():
            out[k] = np.array(f[k][...], dtype=float)
    return out


def read_h5(fn):
    """Contents of a checkpoint: None when there is no file, a dict, or a string that says why it cannot be read."""
    if not os.path.exists(fn):
        return None
    tmp = fn + '.vcopy'
    shutil.copyfile(fn, tmp)
    try:
        r = isolated(lambda: _h5(tmp))
    finally:
        os.unlink(tmp)
    return r[1] if r[0] == 'ok' else 'unreadable (%s %s)' % r


KEYS6 = ('crit', 'autosample', 'automin', 'automean', 'automax', 'burned')


def check_layout(h, E, nw, ndim, what):
    """The file holds exactly one run's checkpoint."""
    if not isinstance(h, dict):
        raise Violation('checkpoint-unreadable', '%s: %s' % (what, h))
    want = set(KEYS6) | {'%d_%s' % (i, s) for i in range(E) for s in ('chain', 'log_prob', 'accepted')}
    if set(h) != want:
        raise Violation('checkpoint-keys', '%s: missing %s, extra %s' % (what, sorted(want - set(h)), sorted(set(h) - want)))
    n = h['0_chain'].shape[0]
    for i in range(E):
        if h['%d_chain' % i].shape != (n, nw, ndim) or h['%d_log_prob' % i].shape != (n, nw) or h['%d_accepted' % i].shape != (nw,):
            raise Violation('checkpoint-shape', '%s: ensemble %d has shapes %s %s %s' % (what, i, h['%d_chain' % i].shape, h['%d_log_prob' % i].shape, h['%d_accepted' % i].shape))
    return n


def rows(a):
    """Rows of an array as a sorted list (multiset)."""
    a = np.ascontiguousarray(a)
    return a[np.lexsort(a.T[::-1])]


# -- shrinking ------------------------------------------------------------------------------------------------------
def without_each(lst):
    n = len(lst)
    if n > 3:
        yield lst[:n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


def shrink_keys(plan, table):
    """table: {'a.b.c': [simpler values...]}; yields plans with one key simplified."""
    for path, vals in table.items():
        ks = path.split('.')
        d = plan
        try:
            for k in ks[:-1]:
                d = d[int(k) if isinstance(d, list) else k]
            k = int(ks[-1]) if isinstance(d, list) else ks[-1]
            cur = d[k]
        except (KeyError, IndexError, TypeError):
            continue
        for v in vals:
            if v == cur:
                break
            q = json.loads(json.dumps(plan))
            e = q
            for kk in ks[:-1]:
                e = e[int(kk) if isinstance(e, list) else kk]
            e[k] = v
            yield q


def must_ok(node_result, what):
    """A fault-free node must have succeeded."""
    if node_result[0] != 'ok':
        r = node_result[1]
        raise Violation('failed' if not isinstance(r, dict) else 'failed-' + r['type'], '%s: %s' % (what, (r['type'] + ': ' + r['str'] + '\n' + r['tb'][-700:]) if isinstance(r, dict) else r))
    return node_result[1]
