"""Stand-ins for the nested-sampling packages: same interface, file layout and resume rules, deterministic points, and a
scheduling/fault point at every step."""
import os, pickle, sys, types

import dill
import numpy as np

from .core import sim_yield

CFG = dict(seed=1, nstep=3, nper=6, pts=None)
LOG = []


class SimBackendError(RuntimeError):
    pass


class _State(object):
    """The points evaluated so far."""

    def __init__(self, name):
        self.name, self.it, self.u, self.v, self.logl, self.done = name, 0, [], [], [], False

    def step(self, loglike, ptform, ndim):
        code = sim_yield('ns.step', self.it)
        if code:
            raise SimBackendError('injected failure at step %d' % self.it)
        rs = np.random.RandomState([CFG['seed'], self.it])
        for _ in range(CFG['nper']):
            u = rs.rand(ndim)
            v = np.array(ptform(u.copy()), dtype=float)
            self.u.append(u); self.v.append(v); self.logl.append(float(loglike(v.copy())))
        self.it += 1
        if self.it >= CFG['nstep']:
            self.done = True

    def equal(self):
        v = np.array(self.v)
        # the order the backend returns is its own business: a fixed shuffle
        p = np.random.RandomState(CFG['seed'] + 99).permutation(len(v))
        return v[p]

    def logz(self):
        return float(np.max(self.logl)) - 3.25

    def err(self):
        return 0.125 + 0.001 * self.it


def _dump(obj, fn):
    with open(fn + '.part', 'wb') as f:
        dill.dump(obj, f)
    os.replace(fn + '.part', fn)


def _load(fn):
    with open(fn, 'rb') as f:
        return dill.load(f)


# ---- dynesty
class _DynestyBase(object):
    def __init__(self, loglikelihood, prior_transform, ndim, **kw):
        self.loglike, self.ptform, self.ndim = loglikelihood, prior_transform, ndim
        self.state = _State('dynesty')
        self.started = False
        self.kw = dict(kw)
        LOG.append(('init', type(self).__name__, sorted(kw)))

    @classmethod
    def restore(cls, fname, pool=None):
        kind, args, state, started = _load(fname)
        if kind != cls.__name__:
            raise SimBackendError('checkpoint of another sampler class')
        s = cls.__new__(cls)
        s.loglike, s.ptform, s.ndim = args
        s.state, s.started, s.kw = state, started, {}
        LOG.append(('restore', kind, state.it))
        return s

    def save(self, fname):
        _dump((type(self).__name__, (self.loglike, self.ptform, self.ndim), self.state, self.started), fname)

    def run_nested(self, resume=False, checkpoint_file=None, **kw):
        LOG.append(('run', bool(resume), checkpoint_file, sorted(kw), self.state.it))
        if resume and not self.started and type(self).__name__ == 'DynamicNestedSampler':
            raise SimBackendError('cannot resume a run that was never started')
        self.started = True
        if self.state.done and resume:
            return                        # as dynesty: a finished run is not continued
        while not self.state.done:
            self.state.step(self.loglike, self.ptform, self.ndim)
            if checkpoint_file is not None:
                self.save(checkpoint_file)

    @property
    def results(self):
        return _DynestyResults(self.state)


class _DynestyResults(object):
    def __init__(self, st):
        self.st = st

    def samples_equal(self, rstate=None):
        return self.st.equal()

    def __getitem__(self, k):
        return {'logz': np.array([-50.0, self.st.logz()]), 'logzerr': np.array([9.0, self.st.err()]), 'samples': np.array(self.st.v)}[k]

    logz = property(lambda s: s['logz'])
    logzerr = property(lambda s: s['logzerr'])


class NestedSampler(_DynestyBase):
    pass


class DynamicNestedSampler(_DynestyBase):
    pass


# ---- ultranest
class ReactiveNestedSampler(object):
    def __init__(self, param_names, loglike, transform=None, derived_param_names=[], wrapped_params=None, resume='subfolder', log_dir=None, **kw):
        if resume not in (True, 'overwrite', 'subfolder', 'resume', 'resume-similar'):
            raise AssertionError("resume should be one of 'overwrite' 'subfolder', 'resume' or 'resume-similar'")
        LOG.append(('init', 'ReactiveNestedSampler', resume, log_dir, sorted(kw)))
        self.names, self.loglike, self.transform = list(param_names), loglike, transform
        self.fn = None
        if log_dir is not None:
            for sub in ('', 'results', 'chains'):
                os.makedirs(os.path.join(log_dir, sub), exist_ok=True)
            self.fn = os.path.join(log_dir, 'results', 'points.bin')
        self.state = _State('ultranest')
        if self.fn and resume in (True, 'resume', 'resume-similar') and os.path.exists(self.fn):
            self.state = _load(self.fn)
            LOG.append(('restore', 'ReactiveNestedSampler', self.state.it))
        self.stepsampler = None
        self.results = None

    def run(self, **kw):
        LOG.append(('run', sorted(kw), self.state.it))
        while not self.state.done:
            self.state.step(self.loglike, self.transform, len(self.names))
            if self.fn:
                _dump(self.state, self.fn)
        self.results = dict(samples=self.state.equal(), logz=self.state.logz(), logzerr=self.state.err())
        return self.results


class SliceSampler(object):
    def __init__(self, nsteps, generate_direction=None, **kw):
        LOG.append(('stepsampler', nsteps))


def generate_mixture_random_direction(*a, **k):
    raise NotImplementedError


# ---- nautilus
class Sampler(object):
    def __init__(self, prior, likelihood, n_dim=None, filepath=None, resume=True, **kw):
        LOG.append(('init', 'nautilus', bool(resume), None if filepath is None else str(filepath), sorted(kw)))
        self.prior, self.likelihood, self.n = prior, likelihood, n_dim
        self.fn = None if filepath is None else str(filepath)
        self.state = _State('nautilus')
        if resume and self.fn and os.path.exists(self.fn):
            self.state = _load(self.fn)
            LOG.append(('restore', 'nautilus', self.state.it))

    def run(self, verbose=False, **kw):
        LOG.append(('run', sorted(kw), self.state.it))
        while not self.state.done:
            self.state.step(self.likelihood, self.prior, self.n)
            if self.fn:
                os.makedirs(os.path.dirname(self.fn) or '.', exist_ok=True)
                _dump(self.state, self.fn)
        return True

    def posterior(self, equal_weight=False, **kw):
        v = self.state.equal()
        if not equal_weight:
            v = np.repeat(v, 2, axis=0)
        return v, np.zeros(len(v)), np.zeros(len(v))

    @property
    def log_z(self):
        return self.state.logz()

    @property
    def n_eff(self):
        return self.state.err() ** -2


# ---- pymultinest
def mn_run(LogLikelihood, Prior, n_dims, n_params=None, outputfiles_basename='chains/1-', resume=True, **kw):
    LOG.append(('run', 'multinest', bool(resume), outputfiles_basename, sorted(kw)))
    d = os.path.dirname(outputfiles_basename) or '.'
    if not os.path.isdir(d):
        raise SimBackendError('directory %s does not exist' % d)
    st = _State('multinest')
    ck = outputfiles_basename + 'resume.dat'
    if os.path.exists(ck):
        if resume:
            st = _load(ck)
            LOG.append(('restore', 'multinest', st.it))

    def like(v):
        return LogLikelihood(v, n_dims, n_params or n_dims)

    def pt(u):
        Prior(u, n_dims, n_params or n_dims)
        return u
    while not st.done:
        st.step(like, pt, n_dims)
        _dump(st, ck)
    with open(outputfiles_basename + 'post_equal_weights.dat', 'w') as f:
        for v, l in zip(st.equal(), st.logl):
            f.write(' '.join('%r' % float(x) for x in list(v) + [l]) + '\n')
    with open(outputfiles_basename + 'stats.dat', 'w') as f:
        f.write('%r %r\n' % (st.logz(), st.err()))


class Analyzer(object):
    def __init__(self, n_params, outputfiles_basename='chains/1-', **kw):
        self.b, self.n = outputfiles_basename, n_params

    def get_equal_weighted_posterior(self):
        return np.array([[float(x) for x in l.split()] for l in open(self.b + 'post_equal_weights.dat')])

    def get_stats(self):
        z, e = open(self.b + 'stats.dat').read().split()
        return {'global evidence': float(z), 'global evidence error': float(e), 'nested sampling global log-evidence': float(z),
                'nested sampling global log-evidence error': float(e)}


def install(seed=1, nstep=3, nper=6):
    """In a node: replace the packages."""
    CFG.update(seed=seed, nstep=nstep, nper=nper)
    del LOG[:]

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m
    mod('dynesty', NestedSampler=NestedSampler, DynamicNestedSampler=DynamicNestedSampler)
    ss = mod('ultranest.stepsampler', SliceSampler=SliceSampler, generate_mixture_random_direction=generate_mixture_random_direction)
    mod('ultranest', ReactiveNestedSampler=ReactiveNestedSampler, stepsampler=ss)
    mod('nautilus', Sampler=Sampler)
    mod('pymultinest', run=mn_run, Analyzer=Analyzer)


def expected(post, seed=1, nstep=3, nper=6):
    """What a complete run of any stand-in returns for this posterior."""
    CFG.update(seed=seed, nstep=nstep, nper=nper)
    st = _State('ref')
    nd = len(post.name_vary_params())
    while not st.done:
        st.step(post.likelihood_ns_array, post.prior_transform, nd)
    return dict(samples=st.equal(), lnZ=st.logz(), lnZerr=st.err())
