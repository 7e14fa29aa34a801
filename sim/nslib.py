"""Nested-sampling runs inside nodes, shared by the checks C10, C11 and C12."""
import copy, os

import numpy as np
import radvel
import radvel.nested_sampling as NSM

from . import lib, nsstub
from .core import sim_yield

SAMPLERS = ['dynesty-static', 'dynesty-dynamic', 'ultranest', 'nautilus', 'multinest']
CHECKPOINT = {'dynesty-static': 'sampler.save', 'dynesty-dynamic': 'sampler.save', 'ultranest': os.path.join('results', 'points.bin'),
              'nautilus': 'nautilus_output.hdf5', 'multinest': 'outresume.dat'}
# options a user passes on to the packages; the stand-ins accept and record them
SAMPLER_KW = {'dynesty-static': dict(nlive=40, bound='multi'), 'dynesty-dynamic': dict(bound='multi'), 'ultranest': dict(vectorized=False),
              'nautilus': dict(n_live=40), 'multinest': None}
RUN_KW = {'dynesty-static': dict(print_progress=False, dlogz=0.5), 'dynesty-dynamic': dict(print_progress=False), 'ultranest': dict(show_status=False, min_num_live_points=40),
          'nautilus': dict(verbose=False), 'multinest': dict(n_live_points=40, verbose=False)}


def rand_out(rng, name='res'):
    """An output directory as users name them."""
    return rng.choice([name] * 6 + ['a/' + name, 'my results/' + name, 'x' * 70 + '/' + 'y' * 70 + '/' + name, name + '.v1', name + '_' + 'z' * 120, 'a/b/c/' + name])


def rand_form(rng, sampler):
    alias = rng.choice([None] * 5 + [sampler.upper(), sampler.capitalize()] + (['pymultinest', 'PyMultiNest'] if sampler == 'multinest' else []))
    return dict(form=rng.choice([None, None, None, 'abs', 'slash', 'dot']), alias=alias)


def pack(r):
    """Results as plain data."""
    return dict(lnZ=float(r['lnZ']), lnZerr=float(r['lnZerr']), samples=lib.df_pack(r['samples']))


def read_results(fn):
    """Contents of a results file: None (absent), a dict, or a string saying why it cannot be read."""
    if not os.path.exists(fn):
        return None
    data = open(fn, 'rb').read()
    tmp = fn + '.vcopy'
    with open(tmp, 'wb') as f:
        f.write(data)
    try:
        r = lib.isolated(lambda: pack(NSM.load_results(tmp)))
    finally:
        os.unlink(tmp)
    return r[1] if r[0] == 'ok' else 'unreadable (%s %s)' % r


def call(post, c, dicts=None):
    """One call of radvel.nested_sampling.run as described by c; dicts: the caller's option dictionaries (shared between calls)."""
    kw = dict(sampler=c.get('alias') or c['sampler'])
    if c.get('outdir'):
        o, form = c['outdir'], c.get('form')
        kw['output_dir'] = os.path.abspath(o) if form == 'abs' else o + '/' if form == 'slash' else './' + o if form == 'dot' else o
    for k in ('overwrite', 'proceed'):
        if c.get(k):
            kw[k] = True
    if dicts:
        if dicts.get('run') is not None:
            kw['run_kwargs'] = dicts['run']
        if dicts.get('sampler') is not None:
            kw['sampler_kwargs'] = dicts['sampler']
    return NSM.run(post, **kw)


def outcome(post, c, dicts=None):
    """('ok', packed result) or ('exc', type name, text); the log of the stand-in is taken along."""
    del nsstub.LOG[:]
    before = copy.deepcopy(dicts)
    try:
        r = ('ok', pack(call(post, c, dicts)))
    except Exception as e:
        r = ('exc', type(e).__name__, str(e)[:300], [x.__name__ for x in type(e).__mro__])
    except KeyboardInterrupt:
        r = ('int', '', '')
    return dict(out=r, log=list(nsstub.LOG), changed=None if dicts == before else '%s instead of %s' % (dicts, before))


def tree(root, skip=()):
    """Every file and directory below root with its contents."""
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            p = os.path.relpath(os.path.join(base, d), root)
            out[p + '/'] = None
        for f in files:
            p = os.path.relpath(os.path.join(base, f), root)
            q = os.path.join(base, f)
            out[p] = os.readlink(q) if os.path.islink(q) else open(q, 'rb').read()
    return {k: v for k, v in out.items() if not any(k.startswith(s) for s in skip)}


def tree_diff(a, b):
    gone, new = sorted(set(a) - set(b)), sorted(set(b) - set(a))
    ch = sorted(k for k in set(a) & set(b) if a[k] != b[k])
    return ', '.join(x for x in ('deleted: %s' % gone if gone else '', 'changed: %s' % ch if ch else '', 'new: %s' % new if new else '') if x)
