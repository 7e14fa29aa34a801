"""Histories of evaluations of a posterior, as JSON: used by C13 (before a save) and C14 (against a fresh posterior)."""
import copy, math, os, random
import numpy as np
import scipy.linalg
import scipy.spatial.distance
import dill
import radvel, radvel.likelihood, radvel.gp, radvel.utils
from . import core, setups

VALUE_OPS = ['lp', 'lp', 'lp', 'like', 'ns', 'extra', 'resid', 'resid', 'errs', 'predict', 'predict', 'model', 'model1', 'bic', 'prior', 'trans']
SIDE_OPS = ['cur', 'cur', 'cur', 'repr', 'copy', 'copyeval', 'copyswitch', 'dill', 'dillswitch', 'other', 'badlen', 'names', 'todict', 'viadict', 'climb']
STRICT = ('lp', 'like', 'ns', 'bic', 'cur')            # evaluations that a sampler or fit makes: a failed factorisation is -inf


def rand_setup(rng, name='toi', gp=None):
    """A setup with any likelihood and any prior (not necessarily proper)."""
    s = setups.rand_spec(rng, name=name)
    s['gp'] = rng.choice([None, None, 'QuasiPer', 'QuasiPer', 'SqExp', 'Per', 'Celerite', 'Celerite']) if gp is None else gp
    if s['gp']:
        s['gpfree'] = rng.random() < 0.8
        s['gpsplit'] = rng.random() < 0.5
        s['linear'] = False
        s['errscale'] = rng.choice([None, None, 1e-9])
    elif rng.random() < 0.2:
        s['decorr'] = True
    P = []
    npl = s['npl']
    if rng.random() < 0.5:
        P.append('radvel.prior.EccentricityPrior(%s)' % rng.choice(['%d' % npl, '[1], upperlims=0.8', '[1], upperlims=[0.6]']))
    if rng.random() < 0.4:
        P.append('radvel.prior.PositiveKPrior(%d)' % npl)
    if rng.random() < 0.25:
        P.append('radvel.prior.UserDefinedPrior([%r], user_pdf, "user")' % rng.choice(['jit_a', 'dvdt']))
    if rng.random() < 0.25:
        P.append("radvel.prior.NumericalPrior(['jit_a'], samples)")
    if rng.random() < 0.25:
        P.append('radvel.prior.%s' % rng.choice(["Jeffreys('jit_a', 0.001, 50.)", "ModifiedJeffreys('jit_a', 0.001, 50., 0.)", "ModifiedJeffreys('jit_a', 0.1, 50., -1.)"]))
    if rng.random() < 0.2:
        P.append("radvel.prior.InformativeBaselinePrior('per1', 100., 2.)")
    s['priors'] = P
    return s


def gen_ops(rng, n, inj=0.25):
    ops = []
    for _ in range(n):
        o = rng.choice(VALUE_OPS) if rng.random() < 0.65 else rng.choice(SIDE_OPS)
        d = dict(op=o, seed=rng.randrange(10**6), kind=rng.choice(['near', 'near', 'near', 'wide', 'bad', 'one', 'one', 'back', 'back']))
        if rng.random() < inj and o in STRICT + ('resid', 'predict', 'extra'):
            d['inj'] = [rng.choice(['factor', 'factor', 'factor', 'alloc', 'int']), rng.choice([1, 1, 1, 2, 3])]
        ops.append(d)
    return ops


# -- seams: the factorisations, and the allocation of distance matrices ----------------------------------------------
class Inject(object):
    """Counts the solver calls of the current operation and makes the chosen one fail."""

    def __init__(self):
        self.want, self.n, self.fired, self.calls = None, {}, None, 0
        self.often, self.count = None, 0        # [rng, probability]: failures during a sampler run

    def arm(self, want):
        self.want, self.n, self.fired = want, {}, None

    def hit(self, what):
        self.calls += 1
        self.n[what] = self.n.get(what, 0) + 1
        if self.often and what == 'factor' and self.often[0].random() < self.often[1]:
            self.count += 1
            core.sim_yield('inject-factor')
            raise np.linalg.LinAlgError('injected')
        if not self.want:
            return
        kind, k = self.want
        if {'factor': 'factor', 'alloc': 'dist', 'int': 'factor'}[kind] == what and self.n[what] == k:
            self.fired = kind
            core.sim_yield('inject-' + kind)
            if kind == 'alloc':
                raise MemoryError('injected')
            if kind == 'int':
                raise KeyboardInterrupt('injected')
            raise np.linalg.LinAlgError('injected')


INJ = Inject()
_wrapped = []


def _by_ref(f, name):
    """dill stores whole modules for posteriors with user-defined functions: keep the seams out of them."""
    f.__module__, f.__qualname__, f.__name__ = __name__, name, name
    globals()[name] = f
    return f


def _wrap(orig, what, name):
    def f(*a, **k):
        INJ.hit(what)
        return orig(*a, **k)
    return _by_ref(f, '_w_' + name)


try:
    import celerite, celerite.celerite, celerite.solver
    _CS = celerite.solver.CholeskySolver

    class CholeskySolver(_CS):
        def compute(self, *a, **k):
            try:
                INJ.hit('factor')
            except np.linalg.LinAlgError as e:
                raise celerite.solver.LinAlgError(str(e))
            return _CS.compute(self, *a, **k)
except ImportError:
    CholeskySolver = None
_SEAMS = [(scipy.linalg, 'cho_factor', 'factor'), (scipy.linalg, 'cholesky', 'factor'), (np.linalg, 'cholesky', 'factor'), (scipy.spatial.distance, 'cdist', 'dist')]
_SEAMS = [(getattr(m, n), _wrap(getattr(m, n), w, m.__name__.split('.')[0] + '_' + n)) for m, n, w in _SEAMS]


def install():
    """In a node: wrap every factorisation the likelihoods may use."""
    mods = [scipy.linalg, np.linalg, radvel.likelihood, radvel.gp, scipy.spatial.distance]
    if CholeskySolver is not None:
        mods += [celerite, celerite.celerite, celerite.solver]
    for mm in mods:
        for k, v in list(vars(mm).items()):
            for o, w in _SEAMS + ([(_CS, CholeskySolver)] if CholeskySolver else []):
                if v is o:
                    setattr(mm, k, w)
    return INJ


# -- operations ------------------------------------------------------------------------------------------------------
def load(spec):
    P, post = radvel.utils.initialize_posterior(spec['name'] + '.py', decorr=bool(spec.get('decorr')))
    return post


BAD = {'gp': [0.0, 1e-8, 1e9, float('nan'), float('inf'), -1.0], 'jit': [0.0, -2.0, 1e-12, 1e12], 'k': [-5.0, 0.0, 1e8], 'logk': [-50., 12.],
       'per': [0.05, 1e6], 'e': [1.2, -0.3, 0.999], 'secosw': [1.4, -0.99], 'sesinw': [0.99, -1.4], 'gamma': [-1e3, 1e9], 'dvdt': [5.0], 'w': [40.], 't': [-1e6]}


def vector(post, base, kind, seed):
    """A vector of free-parameter values around the setup's values base."""
    r = random.Random(seed)
    names = [post.vector.names[i] for i in np.where(post.vector.vector[:, 1] == True)[0]]
    v = []
    for nm in names:
        x = base.get(nm, 0.0)
        s = 0.02 if nm[0] in 'kjg' else 0.002 if nm.startswith('per') else 0.05
        v.append(x + r.gauss(0, 1) * s * (max(abs(x), 1) if nm[0] in 'kjg' else 1) * (6 if kind == 'wide' else 1))
    if kind == 'bad':
        gps = [i for i, nm in enumerate(names) if nm.startswith('gp')]
        for _ in range(r.choice([1, 1, 2])):
            i = r.choice(gps) if gps and r.random() < 0.6 else r.randrange(len(names))
            for p in sorted(BAD, key=len, reverse=True):
                if names[i].startswith(p):
                    v[i] = r.choice(BAD[p])
                    break
    return np.array(v)


def revisit(post, base, kind, seed, vecs):
    """A vector like one of those evaluated before: the same again, or with one value changed."""
    r = random.Random(seed)
    v = np.array(r.choice(vecs[-3:]))
    if kind == 'one':
        i = r.randrange(len(v))
        new = vector(post, base, 'near', seed)
        group = [j for j, nm in enumerate(post.name_vary_params()) if nm[:2] == post.name_vary_params()[i][:2]]
        for j in group if r.random() < 0.5 else [i]:
            v[j] = new[j]
    return v


def base_values(post):
    return {nm: float(post.vector.vector[post.vector.indices[nm]][0]) for nm in post.vector.names}


def likes(post):
    return getattr(post.likelihood, 'like_list', [post.likelihood])


def grid(d, post):
    r = random.Random(d['seed'] + 1)
    x = likes(post)[0].x
    return np.sort(np.array([r.uniform(x.min() - 3, x.max() + 3) for _ in range(r.choice([3, 7, len(x)]))]))


def value(post, d, v):
    """The result of one value operation at v (v None: at the current values)."""
    o = d['op']
    if o == 'cur':
        return post.logprob()
    if o == 'lp':
        return post.logprob_array(v)
    if o == 'like':
        return post.likelihood.logprob_array(v)
    if o == 'ns':
        return post.likelihood_ns_array(v)
    if o == 'extra':
        return post.extra_likelihood_array(v)
    if o == 'trans':
        u = np.array([random.Random(d['seed'] + j).random() for j in range(len(v))])
        return post.prior_transform(u)
    post.likelihood.set_vary_params(v)
    if o == 'resid':
        return np.array(post.residuals())
    if o == 'errs':
        return np.array(post.likelihood.errorbars())
    if o == 'predict':
        ls = likes(post)
        l = ls[d['seed'] % len(ls)]
        if not hasattr(l, 'predict'):
            return np.array(l.residuals())
        return np.array(l.predict(grid(d, post)))
    if o == 'model':
        return np.array(post.likelihood.model(grid(d, post)))
    if o == 'model1':
        return np.array(post.likelihood.model(grid(d, post), planet_num=1))
    if o == 'bic':
        return post.bic()
    if o == 'prior':
        return np.array([float(p(post.params, post.vector)) for p in post.priors])
    raise core.HarnessError(o)


def outcome(fn):
    try:
        with np.errstate(all='ignore'):
            return ('v', np.array(fn(), dtype=float))
    except Exception as e:
        import traceback
        return ('x', type(e).__name__, str(e)[:200], traceback.format_exc()[-800:])
    except KeyboardInterrupt as e:
        return ('x', 'KeyboardInterrupt', str(e), '')


def play(post, ops, other=None, base=None):
    """Runs the history. -> (posterior to go on with, records). A record of a value operation is
    dict(i, d, v (the vector it applies to), out, inj); v None when the current values are not known."""
    base = base or base_values(post)
    cur = None
    recs, vecs = [], []
    for i, d in enumerate(ops):
        o = d['op']
        INJ.arm(d.get('inj'))
        again = [x for x in vecs if len(x) == len(post.name_vary_params())] if d['kind'] in ('one', 'back') else []
        v = revisit(post, base, d['kind'], d['seed'], again) if again else vector(post, base, d['kind'] if d['kind'] not in ('one', 'back') else 'near', d['seed'])
        vecs.append(v)
        if o in VALUE_OPS or o == 'cur':
            if o == 'cur':
                v = cur
            out = outcome(lambda: value(post, d, v))
            if o not in ('cur', 'trans'):
                cur = v
            recs.append(dict(i=i, d=d, v=v, out=out, inj=INJ.fired))
            continue
        if o == 'copyeval':
            q = copy.deepcopy(post)
            out = outcome(lambda: value(q, dict(d, op='lp'), v))
            recs.append(dict(i=i, d=dict(d, op='lp'), v=v, out=out, inj=INJ.fired))
            continue

        def side():
            nonlocal post, cur
            if o == 'repr':
                repr(post), repr(post.likelihood), str(post.params)
            elif o in ('copy', 'copyswitch'):
                q = copy.deepcopy(post)
                if o == 'copyswitch':
                    post = q
            elif o in ('dill', 'dillswitch'):
                q = dill.loads(dill.dumps(post))
                if o == 'dillswitch':
                    post = q
                else:
                    q.logprob_array(v)
            elif o == 'other' and other is not None:
                other.logprob_array(vector(other, base_values(other), 'near', d['seed']))
                repr(other)
            elif o == 'badlen':
                cur = None
                post.logprob_array(v[:-1])
            elif o == 'names':
                post.name_vary_params(), post.get_vary_params(), post.list_vary_params(), post.likelihood.get_vary_params(), post.vector.vector_names()
            elif o == 'todict':
                post.vector.vector_to_dict()
            elif o == 'viadict':
                for nm, x in zip(post.name_vary_params(), v):
                    post.params[nm].value = x
                post.vector.dict_to_vector()
                cur = v
            elif o == 'climb':
                import scipy.optimize
                cur = None
                scipy.optimize.minimize(post.neglogprob_array, v, method='Nelder-Mead', options=dict(maxfev=12))
        sv = outcome(lambda: (side(), 0)[1])
        INJ.arm(None)
        if sv[0] == 'x' and o != 'badlen':
            recs.append(dict(i=i, d=d, v=v, out=sv, inj=None, side=True))
    INJ.arm(None)
    return post, recs
