"""C27: figures show what is recorded; one fault in a plot command, anywhere: every figure named stays whole."""
import json, os, random
import numpy as np
import pandas as pd
import radvel
from sim import lib, setups, pool, core, pipe
from sim.runner import Violation
from . import c07

NS = c07.NS
MPSINI = (1.0, 0.00315, 0.000954265748)


def sampler(rng):
    return rng.choice([['mcmc', '--save'], ['mcmc'], ['mcmc', '--serial', 'True'], ['mcmc', '--thin', rng.choice(['2', '3', '4', '5'])],
                       ['mcmc', '--nwalkers', rng.choice(['10', '12'])], ['mcmc', '--nensembles', rng.choice(['1', '3']), '--nsteps', rng.choice(['6', '9', '12'])],
                       ['ns', '--sampler', rng.choice(NS), '--overwrite']])


BURN = ['--burnAfactor', '0', '--nsteps', '9']       # burn-in ends at the first check, so that autocorrelation times are recorded


def gen_history(rng):
    hist = [['fit']]
    burn = rng.random() < 0.6
    long = burn and rng.random() < 0.2      # a long record of checks

    def run():
        if long:
            return ['mcmc', '--burnAfactor', '0', '--nsteps', str(rng.randrange(200, 330))] + rng.choice([[], ['--save'], ['--thin', '7']])
        c = sampler(rng)
        return c[:1] + BURN + c[1:] if burn and c[0] == 'mcmc' else c
    if rng.random() < 0.85:
        hist.append(run())
        if rng.random() < 0.3:
            hist.append(run())
        if rng.random() < 0.6:
            hist.append(['derive'])
            if rng.random() < 0.2:
                hist.append(['fit'])
    ran = {h[0] for h in hist}
    types = ['rv'] + (['corner'] if ran & {'mcmc', 'ns'} else []) + (['trend'] + ['auto'] * burn if 'mcmc' in ran else []) + (['derived'] if 'derive' in ran else [])

    def plot():
        ts = rng.sample(types, min(len(types), rng.choice([1, 1, 2])))
        if long and 'auto' in types and 'auto' not in ts:
            ts = ['auto'] + ts[:1]
        c = ['plot', '-t'] + ts
        if {'mcmc', 'ns'} <= ran and rng.random() < 0.6:
            c += ['--sampler', 'mcmc' if set(ts) & {'trend', 'auto'} else rng.choice(['mcmc', 'ns'])]
        return c
    target = plot()
    if rng.random() < 0.5:                  # an earlier version is there, perhaps of earlier results
        hist.append(target if rng.random() < 0.7 else plot())
        if rng.random() < 0.5:
            hist.append(['fit'] if 'mcmc' not in ran or rng.random() < 0.3 else run())
    return hist, target


class Shown:
    """What is on a figure when it is saved."""
    def __init__(self):
        self.figures = []

    def install(self):
        import matplotlib.backend_bases as mb
        real = mb.FigureCanvasBase.print_figure
        shown, depth = self, [0]

        def print_figure(canvas, *a, **k):
            if depth[0] == 0:
                shown.figures.append(shown.read(canvas.figure))
            depth[0] += 1
            try:
                return real(canvas, *a, **k)
            finally:
                depth[0] -= 1
        mb.FigureCanvasBase.print_figure = print_figure

    def read(self, fig):
        out = []
        for ax in fig.axes:
            out.append(dict(xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(),
                            lines=[(np.array(l.get_xdata(orig=True), dtype=float).ravel(), np.array(l.get_ydata(orig=True), dtype=float).ravel(), l.get_linestyle()) for l in ax.lines],
                            points=[np.array(c.get_offsets(), dtype=float) for c in ax.collections if len(c.get_offsets()) > 0]))
        return out


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def match(drawn, expected):
    """None when the two lists of arrays pair up, else a description."""
    if len(drawn) != len(expected):
        return '%d drawn, %d expected' % (len(drawn), len(expected))
    left = sorted(drawn, key=lambda a: (a.size, a.ravel().tolist()))
    want = sorted(expected, key=lambda a: (a.size, a.ravel().tolist()))
    for a, b in zip(left, want):
        if not close(a, b):
            i = next((j for j, c in enumerate(left) if close(c, b)), None)
            if i is None:
                return 'expected %s..., not drawn' % np.asarray(b).ravel()[:4].tolist()
    return None


class CHECK(c07.CHECK):
    id = 'C27'
    runs = {'quick': 44, 'thorough': 2000}
    rule = 'a run counts as non-trivial when one of its faults hit between the first and the last file operation of the plot command'
    real = ['radvel.cli, radvel.driver', 'radvel.plot (orbit, trend, auto, corner and derived figures)', 'matplotlib (Agg, PDF), corner', 'radvel.mcmc, radvel.fitting, radvel.nested_sampling, pandas, bz2, dill, configparser']
    stub = ['multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'file system behind the shim: real tmpfs, every call may fail, be cut or be the last', 'wall clock, entropy']
    assumptions = ['a crash is the death of the process: completed writes survive it (no power loss)', 'what is drawn is read from the matplotlib figure when it is saved']

    def gen(self, rng, i, tier):
        hist, target = gen_history(rng)
        spec = setups.rand_spec(rng, gp=False)
        if spec['npl'] == 2 or spec['free'] == 'all':
            spec['free'] = 'few'
        return dict(spec=spec, hist=hist, target=target, npseed=rng.randrange(2**31), npool=rng.randrange(2**31),
                    faults=[dict(kind=rng.choice(c07.KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 1000]), place=rng.choice(['any', 'file'])) for _ in range(3)])

    def command(self, spec, cmd, seed):
        if cmd[0] != 'plot':
            return pipe.node(spec, cmd, seed)

        def f():
            shown = Shown()
            shown.install()
            pipe.run_cli(pipe.argv(cmd, spec), seed)
            return shown.figures
        return f

    def check_result(self, figs, root, spec, cmd, before, what):
        """The figures drawn by a completed plot command against what is recorded."""
        st = before['status']
        types = [t for t in cmd[2:] if t in ('rv', 'corner', 'auto', 'trend', 'derived')]
        rows = setups.synth(spec)[1]
        at = lambda p: os.path.join(root, p)
        r = lib.isolated(lambda: self.free(at(st['fit']['postfile'])))
        if r[0] != 'ok':
            raise Violation('posterior', '%s: %s' % (what, r[1]))
        free, resid, times = r[1]
        which = cmd[cmd.index('--sampler') + 1] if '--sampler' in cmd else ('mcmc' if st.get('mcmc', {}).get('run') == 'True' else 'ns')
        figs = list(figs)
        for t in types:
            if t == 'trend':
                npages = len(free)
            else:
                npages = 1
            pages, figs = figs[:npages], figs[npages:]
            if len(pages) < npages:
                raise Violation('figure-missing', '%s: %d figures saved for %s' % (what, len(pages), t))
            w = '%s: the %s figure' % (what, t)
            if t == 'rv':
                self.rv(pages[0], resid, times, w)
            elif t == 'auto':
                self.auto(pages[0], pd.read_csv(at(st['mcmc']['autocorrfile'])), w)
            elif t == 'corner':
                self.corner(pages[0], pd.read_csv(at(st[which]['chainfile']))[free], w, (1.0,))
            elif t == 'derived':
                c = pd.read_csv(at(st['derive']['chainfile']))
                cols = [k + str(i + 1) for i in range(spec['npl']) for k in ('mpsini', 'rhop', 'a') if list(c.columns).count(k + str(i + 1)) == 1]
                self.corner(pages[0], c[[k for k in cols if not c[k].isnull().any()]], w, MPSINI)
            elif t == 'trend':
                c = pd.read_csv(at(st['mcmc']['chainfile']))
                nw, ne = int(st['mcmc']['nwalkers']), int(st['mcmc']['nensembles'])
                n = len(c) // (nw * ne)
                want = [[c[k].values[j * n:(j + 1) * n] for j in range(nw * ne)] for k in sorted(free)]
                self.trend(pages, want, w)
        if figs:
            raise Violation('figure-extra', '%s: %d more figures saved than asked for' % (what, len(figs)))

    def free(self, fn):
        post = radvel.posterior.load(fn)
        return [k for k in post.params if post.params[k].vary], np.array(post.likelihood.residuals(), float), np.array(post.likelihood.x, float)

    def rv(self, fig, resid, times, w):
        axes = [a for a in fig if 'esidual' in a['ylabel']]
        if len(axes) != 1:
            raise Violation('rv-figure', '%s has %d residual panels' % (w, len(axes)))
        pts = [(x, y) for xs, ys, ls in axes[0]['lines'] if ls in ('None', '', ' ') for x, y in zip(xs, ys)]
        x0 = min((p[0] for p in pts), default=0)
        got = sorted((round(x - x0, 4), y) for x, y in pts)
        want = sorted((round(x - times.min(), 4), y) for x, y in zip(times, resid))
        if len(got) != len(want):
            raise Violation('rv-figure', '%s shows %d observations of %d' % (w, len(got), len(want)))
        bad = [(g, e) for g, e in zip(got, want) if abs(g[0] - e[0]) > 1e-3 or abs(g[1] - e[1]) > 1e-6 * (1 + abs(e[1]))]
        if bad:
            raise Violation('rv-figure', '%s shows other residuals than those of the recorded posterior: (day, velocity) %s, should be %s' % (w, bad[0][0], bad[0][1]))

    def auto(self, fig, auto, w):
        drawn = [p for a in fig for p in a['points']]
        want = [np.column_stack([auto['autosamples'], auto[k]]) for k in ('automin', 'automean', 'automax')]
        m = match(drawn, want)
        if m:
            raise Violation('auto-figure', '%s does not show the recorded autocorrelation times: %s' % (w, m))

    def corner(self, fig, df, w, factors):
        drawn = []
        for a in fig:
            v = sorted({float(xs[0]) for xs, ys, ls in a['lines'] if len(xs) == 2 and xs[0] == xs[1]})
            if v:
                drawn.append(np.array(v))
        want = [np.unique(np.percentile(df[k].values, [16, 50, 84])) for k in df.columns]
        if len(drawn) != len(want):
            raise Violation('corner-figure', '%s shows %d quantities of %d' % (w, len(drawn), len(want)))
        for k, q in zip(df.columns, want):
            j = next((j for j, d in enumerate(drawn) for f in factors if close(d, q * f)), None)
            if j is None:
                raise Violation('corner-figure', '%s does not mark the 16th, 50th and 84th percentile of the recorded samples of %s, %s; marked %s' % (w, k, q.tolist(), [d.tolist() for d in drawn][:6]))
            del drawn[j]

    def trend(self, pages, want, w):
        for page, curves in zip(pages, want):
            m = match([ys for a in page for xs, ys, ls in a['lines']], curves)
            if m:
                raise Violation('trend-figure', '%s does not show the stored samples of each walker of each ensemble in order: %s' % (w, m))
