"""The command-line pipeline inside nodes: running commands, reading the status file and every kind of artefact."""
import bz2, configparser, hashlib, json, os, re, pickle, shutil, sys

import numpy as np
import pandas as pd
import radvel, radvel.cli, radvel.posterior

from . import core, lib, nsstub, pool, setups
from .lib import isolated

OUT = 'out'

MCMC = ['--nsteps', '6', '--nwalkers', '8', '--nensembles', '2', '--minsteps', '1', '--minpercent', '0', '--thin', '1', '--headless']


def argv(cmd, spec, outdir=OUT):
    """cmd: list such as ['fit'] or ['mcmc', '--save']."""
    c = list(cmd)
    base = [c[0], '-s', spec['name'] + '.py', '-d', outdir]
    if c[0] == 'mcmc':
        base += MCMC
    return base + c[1:]


def small_intervals(n=4):
    """The pipeline offers no way to choose the check interval: give the real function a small default."""
    import inspect
    f = lib.M.mcmc
    names = [p.name for p in inspect.signature(f).parameters.values() if p.default is not p.empty and p.kind == p.POSITIONAL_OR_KEYWORD]
    d = list(f.__defaults__)
    d[names.index('checkinterval')] = n
    f.__defaults__ = tuple(d)


def run_cli(args, npseed, ns=True):
    """Body of a node: one command through radvel.cli.main()."""
    small_intervals()
    lib.hook_sample()
    if ns:
        nsstub.install()
    np.random.seed(npseed)
    old = sys.argv
    sys.argv = ['radvel'] + list(args)
    try:
        radvel.cli.main()
    finally:
        sys.argv = old
    return True


def node(spec, cmd, npseed, outdir=OUT, pre=None):
    def f():
        if pre:
            pre()
        return run_cli(argv(cmd, spec, outdir), npseed)
    return f


# -- reading -----------------------------------------------------------------------------------------------------
def read_status(fn):
    """None | dict of sections | string saying why it cannot be read."""
    if not os.path.exists(fn):
        return None
    try:
        c = configparser.RawConfigParser()
        with open(fn) as f:
            c.read_file(f)
        return {s: dict(c.items(s)) for s in c.sections()}
    except Exception as e:
        return 'unreadable (%s: %s)' % (type(e).__name__, str(e)[:200])


def status_file(root, spec, outdir=OUT):
    return os.path.join(root, outdir, spec['name'] + '_radvel.stat')


def post_digest(fn):
    post = radvel.posterior.load(fn)
    out = dict(lp=repr(float(post.logprob())), names=post.name_vary_params(), vec=np.array(post.vector.vector, dtype=float).tolist(),
               params={k: (repr(float(p.value)), bool(p.vary), bool(p.linear)) for k, p in post.params.items()},
               priors=[repr(p) for p in post.priors])
    for a in ('uparams', 'medparams', 'maxparams'):
        v = getattr(post, a, None)
        out[a] = None if v is None else {k: repr(float(x)) for k, x in v.items()}
    d = getattr(post, 'derived', None)
    out['derived'] = None if d is None else d.to_csv()
    return json.dumps(out, sort_keys=True)


def h5_digest(fn):
    import h5py
    h = hashlib.sha256()

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            a = o[...]
            h.update(name.encode() + repr(a.shape).encode())
            h.update(repr(a.tolist()).encode())
    with h5py.File(fn, 'r') as f:
        f.visititems(visit)
    return h.hexdigest()


_cache = {}


def digest(fn):
    """Semantic content of an artefact: None (absent), 'BROKEN ...' or a hash. Equal digests: same content."""
    if not os.path.exists(fn):
        return None
    data = open(fn, 'rb').read()
    key = hashlib.sha256(fn.rsplit('.', 1)[-1].encode() + data).hexdigest()
    if key in _cache:
        return _cache[key]

    def load():
        if fn.endswith('.pkl'):
            return post_digest(fn)
        if fn.endswith('.csv.bz2'):
            t = bz2.decompress(data)
            if not t.endswith(b'\n'):
                raise ValueError('cut off')
            d = pd.read_csv(fn)
            return repr((list(d.columns), d.shape)) + hashlib.sha256(t).hexdigest()
        if fn.endswith('.csv'):
            if not data.endswith(b'\n'):
                raise ValueError('cut off')
            d = pd.read_csv(fn)
            return repr((list(d.columns), d.shape)) + hashlib.sha256(data).hexdigest()
        if fn.endswith(('.h5', '.hdf5')):
            return h5_digest(fn)
        if fn.endswith('.pdf'):
            if not (data.startswith(b'%PDF') and data.rstrip().endswith(b'%%EOF')):
                raise ValueError('cut off')
            return hashlib.sha256(re.sub(rb'/(CreationDate|ModDate) \([^)]*\)', b'', data)).hexdigest()
        return hashlib.sha256(data).hexdigest()
    r = isolated(load)
    v = hashlib.sha256(r[1].encode()).hexdigest()[:24] if r[0] == 'ok' else 'BROKEN (%s)' % r[1]
    _cache[key] = v
    return v


def listing(root, outdir=OUT):
    """All files of the output directory with their digests (temporary leftovers excluded: names not ending in a known suffix)."""
    d = os.path.join(root, outdir)
    out = {}
    for base, _, files in os.walk(d):
        for f in files:
            p = os.path.relpath(os.path.join(base, f), d)
            if p.endswith(('.pkl', '.csv', '.csv.bz2', '.tex', '.h5', '.hdf5', '.pdf')):
                out[p] = digest(os.path.join(base, f))
    return out


FILEKEYS = ('postfile', 'chainfile', 'autocorrfile', 'summaryfile', 'quantfile')


def named_files(status):
    """Artefacts the status file names: {(section, key): path relative to the working directory of the command}."""
    out = {}
    for s, d in status.items():
        for k, v in d.items():
            if k in FILEKEYS or k.endswith('_tex') or k.endswith('_plot'):
                out[(s, k)] = v
    return out


def summary(root, spec, outdir=OUT):
    return dict(status=read_status(status_file(root, spec, outdir)), files=listing(root, outdir))
