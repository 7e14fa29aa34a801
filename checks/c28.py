"""C28: tables and the report's tables show what is recorded; one fault in a table command, anywhere: every table named stays whole."""
import math, os, random, re, shutil
from decimal import Decimal
import numpy as np
import pandas as pd
import radvel
from sim import lib, setups, core, pipe
from sim.runner import Violation
from . import c07, c27

UNIT = {'M$_{\\oplus}$': 1.0, 'M$_{\\rm Jup}$': 0.00315, 'M$_{\\odot}$': 0.000954265748}
ORBIT = ('per', 'tc', 'tp', 'e', 'w', 'k')
CRIT = (('minAfactor', 'minafactor'), ('maxArchange', 'maxarchange'), ('maxGR', 'maxgr'), ('minTz', 'mintz'))
LATEX = '/nonexistent/latex'


def gen_history(rng):
    hist = [['fit']]
    smp = lambda: c27.sampler(rng)
    hist.append(smp())
    if rng.random() < 0.5:
        hist.append(['ic', '-t'] + rng.sample(['trend', 'jit', 'nplanets', 'e'], rng.choice([1, 2])))
    if rng.random() < 0.25:
        hist.append(['table', '-t', rng.choice(['rv', 'params', 'crit', 'priors'])] if hist[1][0] == 'mcmc' else ['table', '-t', 'rv'])
    if rng.random() < 0.4:
        hist.append(smp())
    ran = [h[0] for h in hist if h[0] in ('mcmc', 'ns')]
    opt = []
    if len(set(ran)) == 2 and rng.random() < 0.6:
        opt = ['--sampler', rng.choice(['mcmc', 'ns'])]
    use = opt[1] if opt else 'mcmc' if 'mcmc' in ran else 'ns'
    if rng.random() < 0.5:
        hist.append(['derive'] + opt)
    if rng.random() < 0.2:
        hist.append(['ic', '-t', rng.choice(['trend', 'jit', 'nplanets'])])
    types = ['rv', 'params', 'params', 'priors'] + ['derived'] * 2 * (hist[-1][0] == 'derive' or ['derive'] + opt in hist) + ['crit'] * (use == 'mcmc') + ['ic_compare'] * 2 * any(h[0] == 'ic' for h in hist)

    def table():
        ts = list(dict.fromkeys(rng.sample(types, min(len(types), rng.choice([1, 2, 3])))))
        return ['table', '-t'] + ts + opt + ['--header'] * 0
    target = table()
    if rng.random() < 0.4:
        hist.append(target if rng.random() < 0.5 else table())
    report = opt if rng.random() < 0.35 else None
    return hist, target, report


def rows_of(text):
    """[(caption, [row, ...], notes)] of the tables of a document."""
    out = []
    for m in re.finditer(r'\\begin\{deluxetable\*?\}.*?\\end\{deluxetable\*?\}', text, re.S):
        t = m.group(0)
        cap = re.search(r'\\tablecaption\{(.*?)\}', t)
        body = re.split(r'\\enddata|\\tablecomments', t.split('\\startdata')[1])[0]
        rows = [r.strip() for r in body.split('\n') if r.strip()]
        out.append((cap.group(1).strip() if cap else '', rows, t))
    return out


def cells(row):
    row = row.strip()
    while row.endswith('\\\\'):
        row = row[:-2].strip()
    return [c.strip() for c in row.split('&')]


def number(s):
    m = re.match(r'^\$?\s*(?:\\equiv)?\s*([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))', s)
    return float(m.group(1)) if m else None


def interval(s):
    """Credible interval -> (value, err low, err high, unit of the last place shown), errors 0 for a fixed value."""
    unit = lambda *errs: 10.0 ** min(Decimal(e).as_tuple().exponent for e in errs)
    v = number(s)
    if v is None:
        return None
    if '\\equiv' in s:
        return v, 0.0, 0.0, 1e-4
    m = re.search(r'\\pm\s*([\d.eE+-]+)', s)
    if m:
        return v, float(m.group(1)), float(m.group(1)), unit(m.group(1))
    m = re.search(r'\^\{\+([\d.eE+-]+)\}_\{-([\d.eE+-]+)\}', s)
    return (v, float(m.group(2)), float(m.group(1)), unit(m.group(1), m.group(2))) if m else None


def step(x):
    """The unit of the second significant digit."""
    return 10.0 ** (math.floor(math.log10(abs(x)) + 1e-9) - 1) if x else 0.0


def quantiles(x, angle):
    """Possible (median, low, high) of samples: percentiles by interpolation, or, for an angle, order statistics on the branch the samples are on."""
    x = np.asarray(x, float)
    out = [tuple(np.percentile(x, [50, 15.9, 84.1]))]
    if angle:
        for v in (x, np.where(x < 0, x + 2 * np.pi, x), np.where(x >= 0, x - 2 * np.pi, x)):
            s = np.sort(v)
            out.append((np.median(v), s[int(0.159 * len(s))], s[int(0.841 * len(s))]))
            out.append(tuple(np.percentile(v, [50, 15.9, 84.1])))
    return out


def shows(got, want):
    """A shown interval against (median, low, high)."""
    med, lo, hi = want
    lo, hi = med - lo, hi - med
    scale = 1e-9 * (1 + abs(med)) + 1e-12
    if min(got[1], got[2]) == 0.0:
        return min(lo, hi) <= 1e-9 * (1 + abs(med)) and abs(got[0] - med) <= 0.51e-4 + scale
    # two significant digits of the errors, the value to as many places; whole numbers when those have one digit or none after the point
    tol = lambda e: 0.56 * (max(step(e), 1.0) if e >= 9.4 else step(e)) + scale
    return abs(got[1] - lo) <= tol(lo) and abs(got[2] - hi) <= tol(hi) and abs(got[0] - med) <= 0.51 * got[3] + scale


def orbit(df, basis, npl):
    """Orbital elements of samples in a fitting basis: {name: column}."""
    out = {}
    for i in range(1, npl + 1):
        c = {nm: np.asarray(df['%s%d' % (nm, i)], float) for nm in basis.split()}
        k = c['k'] if 'k' in c else np.exp(c['logk'])
        if 'e' in c:
            e, w = c['e'], c['w']
        else:
            e, w = c['secosw'] ** 2 + c['sesinw'] ** 2, np.arctan2(c['sesinw'], c['secosw'])
        per, tc = c['per'], c['tc']
        f = np.pi / 2 - w
        E = 2 * np.arctan(np.tan(f / 2) * np.sqrt((1 - e) / (1 + e)))
        tp = tc - per / (2 * np.pi) * (E - e * np.sin(E))
        for nm, x in (('per', per), ('tc', tc), ('tp', tp), ('e', e), ('w', w), ('k', k)):
            out['%s%d' % (nm, i)] = x
    return out


class CHECK(c07.CHECK):
    id = 'C28'
    runs = {'quick': 220, 'thorough': 4000}
    rule = 'a run counts as non-trivial when one of its faults hit between the first and the last file operation of the table command'
    real = ['radvel.cli, radvel.driver', 'radvel.report (all tables, the document of the report), jinja2, radvel.basis, radvel.utils', 'radvel.mcmc, radvel.fitting, radvel.nested_sampling, pandas, bz2, dill, configparser']
    stub = ['multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'the LaTeX compiler (absent)', 'file system behind the shim: real tmpfs, every call may fail, be cut or be the last', 'wall clock, entropy']
    assumptions = ['a crash is the death of the process: completed writes survive it (no power loss)', 'values are compared to the precision shown, two significant digits of the error']

    def gen(self, rng, i, tier):
        hist, target, report = gen_history(rng)
        spec = setups.rand_spec(rng, gp=False)
        if spec['npl'] == 2:
            spec['free'] = rng.choice(['few', 'some'])
        if rng.random() < 0.3:
            spec['kscale'] = 3                          # heavy planets are given in Jupiter masses
        if rng.random() < 0.2:
            spec['n'] = rng.randrange(48, 75)           # more than the report shows
        if rng.random() < 0.5 and not any(h[0] == 'ns' for h in hist):
            k = ('logk1', 3.0, 2.0) if 'logk' in spec['basis'] else ('k1', 20.0, 15.0)
            spec['priors'] = rng.sample(["radvel.prior.Gaussian('%s', %r, %r)" % k, "radvel.prior.PositiveKPrior(%d)" % spec['npl'], "radvel.prior.Gaussian('jit_a', 2.0, 4.0)", "radvel.prior.HardBounds('jit_a', 0.0, 30.0)"], rng.choice([1, 2]))
        if rng.random() < 0.04:                         # more models than a table shows
            spec.update(npl=2, free='all', dvdt=True, n=26)
            hist = [hist[0], ['ic', '-t', 'nplanets', 'e', 'trend', 'jit'], hist[1]]
            target, report = ['table', '-t', 'ic_compare'], None
        return dict(spec=spec, hist=hist, target=target, report=report, npseed=rng.randrange(2**31), npool=rng.randrange(2**31),
                    faults=[dict(kind=rng.choice(c07.KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 1000]), place=rng.choice(['any', 'tail', 'file'])) for _ in range(3)])

    def shrink(self, plan):
        if plan['report'] is not None:
            yield dict(plan, report=None)
        yield from super().shrink(plan)

    def execute(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        super().execute(plan, ctx)

    def command(self, spec, cmd, seed):
        if cmd[0] != 'table':
            return pipe.node(spec, cmd, seed)

        def f():
            pipe.run_cli(pipe.argv(cmd, spec), seed)
            st = pipe.read_status(pipe.status_file('.', spec))
            return {t: open(st['table'][t + '_tex']).read() for t in self.types(cmd)}
        return f

    def types(self, cmd):
        out = []
        for t in cmd[2:]:
            if t.startswith('--'):
                break
            out.append(t)
        return out

    def check_result(self, texts, root, spec, cmd, before, what):
        facts = self.facts(root, spec, cmd, before['status'])
        for t, text in texts.items():
            tabs = rows_of(text)
            if len(tabs) != 1:
                raise Violation('table-malformed', '%s: the %s table: %d tables in the file' % (what, t, len(tabs)))
            self.table(t, tabs[0], spec, facts, '%s: the %s table' % (what, t), None)
            self.ctx.probe('table:' + t)
        if self.plan.get('report') is None:
            return
        # the same tables in the document of the report
        d = self.clone(self.ctx, root)
        out = os.path.join(d, pipe.OUT)
        fig = os.path.join(pipe.OUT, spec['name'] + '_rv_multipanel.pdf')
        open(os.path.join(d, fig), 'w').write('%PDF figure')
        with open(pipe.status_file(d, spec), 'a') as f:
            f.write('[plot]\nrv_plot = %s\n' % fig)
        c = ['report', '--latex-compiler', LATEX] + self.plan['report']
        s = self.ctx.sim(d, [pipe.node(spec, c, self.plan['npseed'])], mask=0, pool_seed=self.plan['npool'])
        lib.must_ok(s.results[0], 'report after %s' % what)
        fn = os.path.join(out, spec['name'] + '_results.tex')
        w = 'report after %s' % what.split(' after ', 1)[-1]
        if not os.path.exists(fn):
            raise Violation('report-missing', '%s: no %s' % (w, fn))
        tabs = rows_of(open(fn).read())
        facts = self.facts(root, spec, c, before['status'])
        names = {'Model Comparison': 'ic_compare', 'Posteriors': 'params', 'Derived Posteriors': 'derived', 'Summary of Priors': 'priors', 'Final Convergence Criterion': 'crit', 'Radial Velocities': 'rv'}
        found = set()
        for cap, rows, text in tabs:
            t = names.get(cap)
            if t:
                found.add(t)
                if t != 'derived' or facts['derived'] is not None:
                    self.table(t, (cap, rows, text), spec, facts, '%s: the %s table' % (w, t), 50 if t == 'rv' else None)
        need = {'params', 'priors', 'crit', 'rv'} | ({'derived'} if 'derive' in before['status'] else set()) | ({'ic_compare'} if 'ic_compare' in before['status'] else set())
        if need - found:
            raise Violation('report-incomplete', '%s: no %s table' % (w, sorted(need - found)))
        self.ctx.probe('report')

    def facts(self, root, spec, cmd, st):
        which = cmd[cmd.index('--sampler') + 1] if '--sampler' in cmd else ('mcmc' if st.get('mcmc', {}).get('run') == 'True' else 'ns')
        at = lambda p: os.path.join(root, p)

        def read():
            post = radvel.posterior.load(at(st[which]['postfile']))
            free = [k for k in post.params if post.params[k].vary]
            return dict(values={k: float(p.value) for k, p in post.params.items()}, free=free, tex=dict(post.params.tex_labels(list(post.params) + [n + str(i) for n in ORBIT for i in range(1, spec['npl'] + 1)])),
                        max={k: float(v) for k, v in post.maxparams.items()}, med={k: float(v) for k, v in post.medparams.items()}, priors=[str(p) for p in post.priors])
        r = lib.isolated(read)
        if r[0] != 'ok':
            raise Violation('posterior', 'the posterior of %s: %s' % (which, r[1]))
        f = r[1]
        f['which'] = which
        f['status'] = st
        c = pd.read_csv(at(st[which]['chainfile']))
        for k, v in f['values'].items():
            if k not in c.columns:
                c[k] = v
        f['chain'] = c
        f['orbit'] = orbit(c, spec['basis'], spec['npl'])
        f['derived'] = None
        if 'derive' in st:
            # the record does not say which samples the derived ones are of: judged when the history says so
            last = max(j for j, h in enumerate(self.plan['hist']) if h[0] == 'derive')
            smp = lambda h, ran: h[h.index('--sampler') + 1] if '--sampler' in h else 'mcmc' if 'mcmc' in ran else 'ns'
            if smp(self.plan['hist'][last], {h[0] for h in self.plan['hist'][:last]}) == which and not any(h[0] == which for h in self.plan['hist'][last:]):
                f['derived'] = pd.read_csv(at(st['derive']['chainfile']))
        f['rows'] = setups.synth(spec)[1]
        return f

    def table(self, t, tab, spec, f, w, limit):
        cap, rows, text = tab
        getattr(self, 'tab_' + t)(rows, text, spec, f, w, limit)

    def tab_rv(self, rows, text, spec, f, w, limit):
        want = sorted((x[0], x[1], x[2], x[3]) for x in f['rows'])
        n = len(want) if limit is None else min(limit, len(want))
        got = []
        for r in rows:
            c = cells(r)
            if len(c) != 4:
                raise Violation('table-malformed', '%s: row %r' % (w, r))
            got.append((float(c[0]), float(c[1]), float(c[2]), c[3]))
        if len(got) != n:
            raise Violation('rv-table', '%s shows %d observations of %d' % (w, len(got), len(want)))
        left = list(want)
        for g in got:
            m = next((x for x in left if abs(g[0] - x[0]) <= 6e-6 and abs(g[1] - x[1]) <= 0.0051 and abs(g[2] - x[2]) <= 0.0051 and g[3] == x[3]), None)
            if m is None:
                near = min(want, key=lambda x: abs(x[0] - g[0]))
                raise Violation('rv-table', '%s shows the observation %s, the data have %s' % (w, g, near))
            left.remove(m)

    def by_label(self, rows, f, names, w):
        """Rows by parameter, each once."""
        lab = {}
        for nm in names:
            lab.setdefault(f['tex'].get(nm, nm), []).append(nm)
        amb = [v for v in lab.values() if len(v) > 1]
        if amb:
            raise Violation('labels-not-distinct', '%s: one label for %s' % (w, amb[0]))
        out = {}
        for r in rows:
            c = cells(r)
            if len(c) != 4 or c[0] not in lab:
                raise Violation('table-malformed', '%s: row %r' % (w, r))
            nm = lab[c[0]][0]
            if nm in out:
                raise Violation('row-twice', '%s: two rows for %s' % (w, nm))
            out[nm] = c
        miss = [nm for nm in names if nm not in out]
        if miss:
            raise Violation('row-missing', '%s: no row for %s' % (w, miss))
        return out

    def value(self, c, x, angle, best, nm, w, factor=1.0):
        got, mx = interval(c[1]), number(c[2])
        if got is None or mx is None:
            raise Violation('table-malformed', '%s: row %s' % (w, c))
        x = np.asarray(x, float) * factor
        q = quantiles(x, angle)
        ok = [a for a in q if shows(got, a)]
        if not ok:
            raise Violation('table-value', '%s shows %s for %s; median, 15.9th and 84.1th percentile of the %d recorded samples are %r, %r, %r' % (w, c[1], nm, len(x), q[0][0], q[0][1], q[0][2]))
        a = ok[0]
        u = got[3]
        if got[1] == 0.0 and got[2] == 0.0:
            best = a[0]
        if abs(mx - best) > 0.51 * u + 1e-9 * (1 + abs(best)) and not (abs(best) < u and abs(mx - best) <= 0.06 * abs(best)):
            raise Violation('table-value', '%s shows the maximum-likelihood value %s for %s, recorded is %r' % (w, c[2], nm, best))

    def tab_params(self, rows, text, spec, f, w, limit):
        secs, cur = [], None
        for r in rows:
            if r.startswith('\\sidehead'):
                cur = []
                secs.append((r, cur))
            elif not r.startswith('\\hline'):
                if cur is None:
                    raise Violation('table-malformed', '%s: row %r before any heading' % (w, r))
                cur.append(r)
        if len(secs) != 3:
            raise Violation('table-malformed', '%s has %d sections' % (w, len(secs)))
        pl = range(1, spec['npl'] + 1)
        fit = ['%s%d' % (b, i) for i in pl for b in spec['basis'].split()]
        orb = ['%s%d' % (b, i) for i in pl for b in ORBIT]
        other = [k for k in f['values'] if k not in fit and k not in orb]
        for (head, rs), names, src in ((secs[0], fit, f['chain']), (secs[1], orb, f['orbit']), (secs[2], other, f['chain'])):
            got = self.by_label(rs, f, names, w + ', ' + head)
            for nm in names:
                best = f['max'].get(nm)
                if best is None:
                    raise Violation('record-incomplete', '%s: no recorded maximum-likelihood value of %s' % (w, nm))
                self.value(got[nm], src[nm], nm[:-1] == 'w', best, nm, w + ', ' + head)
        m = re.search(r'(\d+) links saved', text)
        if not m or int(m.group(1)) != len(f['chain']):
            raise Violation('table-value', '%s: %s links saved, recorded are %d samples' % (w, m and m.group(1), len(f['chain'])))

    def tab_derived(self, rows, text, spec, f, w, limit):
        d = f['derived']
        if d is None:
            return
        names, tex = [], dict(f['tex'])
        for i in range(1, spec['npl'] + 1):
            for b in ('mpsini', 'rhop', 'a'):
                nm = '%s%d' % (b, i)
                if nm in d.columns and not d[nm].isnull().any():
                    names.append(nm)
                    L = 'bcdefgh'[i - 1]
                    tex[nm] = {'mpsini': '$M_%s\\sin i$' % L, 'rhop': '$\\rho_%s$' % L, 'a': '$a_%s$' % L}[b]
        got = self.by_label(rows, dict(tex=tex), names, w)
        j = int(np.argmax(f['chain']['lnprobability'].values))
        for nm in names:
            c = got[nm]
            fac = 1.0
            if nm.startswith('mpsini'):
                if c[3] not in UNIT:
                    raise Violation('table-malformed', '%s: unit %r of %s' % (w, c[3], nm))
                fac = UNIT[c[3]]
            self.value(c, d[nm], False, float(d[nm].iloc[j]) * fac, nm, w, fac)

    def tab_crit(self, rows, text, spec, f, w, limit):
        st = f['status'][f['which']]
        got = {cells(r)[0]: cells(r)[1] for r in rows}
        for shown, key in CRIT:
            c = got.get(shown)
            if c is None:
                raise Violation('row-missing', '%s: no row for %s' % (w, shown))
            if f['which'] == 'ns':
                if c != 'None':
                    raise Violation('table-value', '%s shows %s = %s after nested sampling' % (w, shown, c))
                continue
            v = float(st[key])
            x = number(c.replace(' ', ''))
            if x is None or not (x == v or abs(x - v) <= 0.00051 or np.isnan(x) and np.isnan(v)):
                raise Violation('table-value', '%s shows %s = %s, recorded is %r' % (w, shown, c, v))

    def tab_priors(self, rows, text, spec, f, w, limit):
        norm = lambda s: s.rstrip('\\ ').replace(' ', '')
        got, want = sorted(norm(r) for r in rows), sorted(norm(p) for p in f['priors'])
        if got != want:
            raise Violation('priors-table', '%s does not list the priors of the recorded posterior once each: %s' % (w, sorted(set(got) ^ set(want))[:3] or '%d rows for %d priors' % (len(got), len(want))))

    def tab_ic_compare(self, rows, text, spec, f, w, limit):
        ic = eval(f['status']['ic_compare']['ic'], dict(inf=np.inf, nan=np.nan, OrderedDict=dict, np=np))
        ic = [{k: v[0] for k, v in dict(e).items()} for e in ic]
        rows = [r for r in rows if not r.startswith('\\hline')]
        if len(rows) != min(50, len(ic)):
            raise Violation('ic-table', '%s shows %d models of %d' % (w, len(rows), len(ic)))
        if any(e['AICc'] != e['AICc'] for e in ic):
            return
        best = min(e['AICc'] for e in ic)
        left, last = list(ic), -np.inf
        for r in rows:
            c = cells(r)
            e = None
            for x in left:
                keys = [k for k in x if k != 'Free Params']
                pars = [p.strip() for p in c[1].split(',')]
                if pars[:-1] != list(x['Free Params']) or len(c) != len(keys) + 3:
                    continue
                if all(abs(float(a) - float(x[k])) <= 0.0051 or float(a) == float(x[k]) for a, k in zip(c[2:-1], keys)):
                    e = x
                    break
            if e is None:
                raise Violation('ic-table', '%s: the row %r shows no recorded model' % (w, r))
            left.remove(e)
            if e['AICc'] < last - 1e-9:
                raise Violation('ic-table', '%s is not in the order of the AICc: %r' % (w, r))
            last = e['AICc']
            d = e['AICc'] - best
            x = float(c[-1])
            if not (x == d or abs(x - d) <= 0.0051 or x != x and d != d):
                raise Violation('ic-table', '%s: Delta AICc of the row %r should be %r' % (w, r, d))
