"""C09: histories of pipeline commands, some refused, some killed, against a model of prerequisites, records and data flow."""
import os, random, re, shutil
import numpy as np
import pandas as pd
import radvel, radvel.posterior
from sim import lib, setups, core, pipe
from sim.runner import Check, Violation

DIRS = ('out', 'alt')
SEC = {'fit': 'fit', 'mcmc': 'mcmc', 'ns': 'ns', 'derive': 'derive', 'ic': 'ic_compare', 'table': 'table', 'plot': 'plot'}
TABLES = ['params', 'params', 'priors', 'rv', 'derived', 'derived', 'crit', 'ic_compare']
FAULTS = ['crash', 'crash', 'int', 'enospc', 'eio']
ME, MS = 5.9722e24, 1.98841e30


def gen_cmd(rng):
    c = rng.choice(['fit', 'mcmc', 'mcmc', 'ns', 'derive', 'derive', 'derive', 'ic', 'table', 'table', 'table', 'plot', 'report'])
    pick = lambda: rng.choice([[], [], [], ['--sampler', 'ns'], ['--sampler', 'mcmc'], ['--sampler', 'auto']])
    if c == 'mcmc':
        return ['mcmc'] + rng.choice([[], ['--save'], ['--serial', 'True'], ['--thin', '2'], ['--save', '--proceed'], ['--proceed']])
    if c == 'ns':
        return ['ns', '--sampler', rng.choice(['ultranest', 'dynesty-static', 'nautilus', 'multinest']), rng.choice(['--overwrite', '--overwrite', '--proceed'])]
    if c == 'derive':
        return ['derive'] + pick()
    if c == 'ic':
        return ['ic', '-t', rng.choice(['e', 'jit', 'trend', 'nplanets'])]
    if c == 'table':
        return ['table', '-t'] + rng.sample(sorted(set(TABLES)), rng.choice([1, 1, 2])) + pick()
    if c == 'plot':
        return ['plot', '-t', rng.choice(['auto', 'auto', 'derived', 'corner', 'trend'])] + pick()
    if c == 'report':
        return ['report', '--latex-compiler', '/nonexistent/latex'] + pick()
    return [c]


def rec(st, sec):
    return bool(st) and st.get(sec, {}).get('run') == 'True'


def opt(cmd, name, default=None):
    return cmd[cmd.index(name) + 1] if name in cmd else default


def sampler_of(cmd, st):
    """The sampler whose samples the command has to use, or None."""
    s = opt(cmd, '--sampler', 'auto')
    if s == 'auto':
        s = 'mcmc' if rec(st, 'mcmc') else 'ns'
    return s if rec(st, s) else None


def types_of(cmd):
    i = cmd.index('-t') + 1
    out = []
    while i < len(cmd) and not cmd[i].startswith('--'):
        out.append(cmd[i]); i += 1
    return out


def may(cmd, st):
    """Prerequisites: 'run', 'refuse', 'part' (some of the requested tables) or 'free' (not judged)."""
    c = cmd[0]
    if c in ('fit', 'ns'):
        return 'run'
    if c in ('mcmc', 'ic'):
        return 'run' if rec(st, 'fit') else 'refuse'
    if c == 'derive':
        return 'run' if sampler_of(cmd, st) else 'refuse'
    s = sampler_of(cmd, st)
    if c == 'report':
        return 'refuse' if not s or not (st or {}).get('plot') else 'free'
    if c == 'plot':
        t = types_of(cmd)[0]
        if not rec(st, 'fit') or t in ('auto', 'trend') and s != 'mcmc' or t == 'corner' and not s or t == 'derived' and not rec(st, 'derive'):
            return 'refuse'
        return 'free'
    if not s:
        return 'refuse'
    ok = [table_ok(t, st, s) for t in types_of(cmd)]
    return 'run' if all(x is True for x in ok) else 'free' if None in ok else 'refuse' if ok[0] is False else 'part'


def table_ok(t, st, s):
    if t == 'derived':
        return rec(st, 'derive')
    if t == 'ic_compare':
        return bool((st or {}).get('ic_compare'))
    if t == 'crit':
        return True if s == 'mcmc' else None
    return True


def writes(cmd, spec, st):
    """Files of the output directory a command may write."""
    n = spec['name']
    c = cmd[0]
    if c == 'fit':
        return {n + '_post_obj.pkl'}
    if c == 'mcmc':
        return {n + x for x in ('_post_obj.pkl', '_post_summary.csv', '_chains.csv.bz2', '_autocorr.csv')} | ({n + '_rawchain.h5'} if '--save' in cmd or '--proceed' in cmd else set())
    if c == 'ns':
        return {n + x for x in ('_post_obj_ns.pkl', '_post_summary_ns.csv', '_chains_ns.csv.bz2')} | {'NS'}
    if c == 'derive':
        s = sampler_of(cmd, st)
        return {n + '_derived.csv.bz2', n + '_derived_quantiles.csv'} | ({os.path.basename(st[s]['postfile'])} if s else set())
    if c == 'table':
        return {'%s_%s.tex' % (n, t) for t in types_of(cmd)}
    if c == 'report':
        return {n + '_results.tex', n + '_results.pdf'}
    if c == 'plot':
        return {'%s_%s.pdf' % (n, {'auto': 'auto', 'corner': 'corner', 'trend': 'trends', 'derived': 'corner_derived_pars'}[types_of(cmd)[0]])}
    return set()


def text(spec):
    s = setups.text(spec)
    s = s.replace('stellar = dict(mstar=1.1, mstar_err=0.05)', 'stellar = dict(mstar=%r, mstar_err=%r)' % tuple(spec['mass']))
    if spec.get('radius') and spec.get('rp'):
        s = re.sub(r'rp1=[0-9.]+, rp_err1=[0-9.]+', 'rp1=%r, rp_err1=%r' % tuple(spec['radius']), s)
    if spec.get('shift'):
        s = re.sub(r"(params\['per1'\] = radvel.Parameter\(value=)([0-9.]+)", lambda m: m.group(1) + repr(round(float(m.group(2)) + spec['shift'], 6)), s)
    return s


def write(spec, root):
    with open(os.path.join(root, spec['name'] + '.py'), 'w') as f:
        f.write(text(spec))


LNL = '$\\ln{\\mathcal{L}}$'


def post_facts(fn):
    p = radvel.posterior.load(fn)
    return dict(params={k: (float(v.value), bool(v.vary)) for k, v in p.params.items()}, med={k: float(v) for k, v in p.medparams.items()} if hasattr(p, 'medparams') else None,
                unc={k: float(v) for k, v in p.uparams.items()} if getattr(p, 'uparams', None) else None,
                derived=None if getattr(p, 'derived', None) is None else (list(p.derived.columns), p.derived.values.tolist()), lp=float(p.logprob()), vec=p.vector.vector.tolist())


def synth(chains, facts, npl):
    """Period, eccentricity and semi-amplitude of every sample (independent of the code's conversions)."""
    n = len(chains)

    def col(nm):
        if nm in chains.columns:
            return np.array(chains[nm], dtype=float)
        return np.full(n, facts['params'][nm][0]) if nm in facts['params'] else None
    out = []
    for i in range(1, npl + 1):
        e = col('e%d' % i)
        if e is None:
            e = col('secosw%d' % i) ** 2 + col('sesinw%d' % i) ** 2
        k = col('k%d' % i)
        if k is None:
            k = np.exp(col('logk%d' % i))
        out.append(dict(per=col('per%d' % i), e=e, k=k))
    return out


def agree(a, b, rel):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    f = np.isfinite(a) & np.isfinite(b)
    return bool(np.all(np.isfinite(a) == np.isfinite(b)) and np.all(np.abs(a[f] - b[f]) <= rel * np.maximum(np.abs(a[f]), np.abs(b[f])) + 1e-12))


class CHECK(Check):
    id = 'C09'
    runs = {'quick': 260, 'thorough': 4000}
    rule = 'a run counts as non-trivial when a command was refused for want of a prerequisite or the data flow of a command with a prerequisite was checked'
    real = ['radvel.cli, radvel.driver', 'radvel.mcmc, radvel.nested_sampling, radvel.fitting, radvel.report tables, radvel.basis, Posterior.writeto/load', 'emcee, h5py, pandas, bz2, dill, configparser']
    stub = ['multiprocess.Pool (simulated pool)', 'nested-sampling packages', 'file system behind the shim: real tmpfs, a chosen call may fail or be the last', 'wall clock, entropy']
    assumptions = ['fit and mcmc share one posterior file by design: the record of either names what the later of the two left']

    def gen(self, rng, i, tier):
        spec = setups.rand_spec(rng, npl=rng.choice([1, 1, 1, 2]), gp=False)
        spec.update(mass=[1.1, rng.choice([0.05, 0.0])], linear=False)
        if i < 2:       # the histories of the known findings
            t = ['fit', 'mcmc', 'fit', 'table -t params'] if i == 0 else ['fit', 'mcmc', 'ns --sampler ultranest --overwrite', 'derive --sampler mcmc', 'table -t derived --sampler ns']
            return dict(spec=dict(spec, npl=1), ops=[dict(cmd=x.split(), dir='out', seed=rng.randrange(2**31)) for x in t], npool=rng.randrange(2**31))
        if spec['npl'] == 2:
            spec['free'] = 'few'
        r = rng.random()
        if r < 0.12:        # the setup file is edited between the fit and what has to start from it
            spec['free'] = 'few'
            mk = lambda *a: dict(cmd=list(a), dir='out')
            ops = [mk('fit')] + ([mk('mcmc', '--save')] if rng.random() < 0.4 else []) + [dict(edit=self.edit(rng, spec)), dict(edit=dict(shift=rng.choice([0.02, 0.5])))]
            ops += [rng.choice([mk('mcmc'), mk('mcmc', '--proceed'), mk('mcmc', '--save', '--proceed'), mk('ic', '-t', rng.choice(['e', 'jit', 'trend', 'nplanets'])), mk('ic', '--simple')])
                    for _ in range(rng.choice([1, 1, 2]))]
        elif r < 0.42:
            ops = self.gen_edited(rng, spec)
        else:
            ops = self.gen_ops(rng, spec, tier)
        for o in ops:
            o['seed'] = rng.randrange(2**31)
        return dict(spec=spec, ops=ops, npool=rng.randrange(2**31))

    def edit(self, rng, spec):
        return rng.choice([dict(mass=[2.0, 0.0]), dict(mass=[0.7, 0.1]), dict(radius=[5.0, 0.0]), dict(rp=not spec['rp']), dict(shift=0.02), dict(shift=0.5)])

    def gen_edited(self, rng, spec):
        """Samples, then an edited setup file (or commands that replace other sections), then what uses the samples."""
        mk = lambda *a: dict(cmd=list(a), dir='out')
        mcmc, ns = mk(*rng.choice([('mcmc',), ('mcmc', '--save'), ('mcmc', '--thin', '2')])), mk('ns', '--sampler', rng.choice(['ultranest', 'dynesty-static', 'multinest']), '--overwrite')
        kind = rng.choice(['mcmc', 'mcmc', 'ns', 'both', 'both'])
        both = [mcmc, ns]
        rng.shuffle(both)
        ops = ([mk('fit')] if kind != 'ns' or rng.random() < 0.6 else []) + (both if kind == 'both' else [mcmc if kind == 'mcmc' else ns])
        smp = lambda: rng.choice([[], ['--sampler', rng.choice(['mcmc', 'ns'] if kind == 'both' else [kind])]])
        use = lambda: rng.choice([mk('derive', *smp()), mk('derive', *smp()), mk('table', '-t', 'params', *smp()), mk('table', '-t', 'derived', *smp())])
        if rng.random() < 0.3:
            ops.append(use())
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.append(dict(edit=self.edit(rng, spec)))
        if kind == 'both' and rng.random() < 0.3:
            ops.append(rng.choice([mk('fit'), dict(mcmc), dict(ns)]))
        ops.append(mk('derive', *smp()))
        for _ in range(rng.choice([0, 1, 2])):
            ops.append(use())
        return ops

    def gen_ops(self, rng, spec, tier):
        ops = []
        if rng.random() < 0.8:
            ops.append(dict(cmd=['fit'], dir='out'))
            if rng.random() < 0.7:
                ops.append(dict(cmd=rng.choice([['mcmc'], ['mcmc', '--save'], ['ns', '--sampler', 'ultranest', '--overwrite']]), dir='out'))
        two = rng.random() < 0.3
        for _ in range(rng.randrange(3, 12 if tier == 'thorough' else 8)):
            if rng.random() < 0.12:
                ops.append(dict(edit=self.edit(rng, spec)))
                continue
            d = dict(cmd=gen_cmd(rng), dir=rng.choice(DIRS) if two else 'out')
            if rng.random() < 0.15:
                d['fault'] = dict(kind=rng.choice(FAULTS), at=rng.choice([rng.randrange(1, 8), rng.randrange(1, 30), rng.randrange(1, 90)]), frac=rng.random(), len=rng.choice([1, 1000]))
            ops.append(d)
        return ops

    def shrink(self, plan):
        for ops in lib.without_each(plan['ops']):
            if ops:
                yield dict(plan, ops=ops)
        for j, o in enumerate(plan['ops']):
            if 'fault' in o:
                yield dict(plan, ops=plan['ops'][:j] + [{k: v for k, v in o.items() if k != 'fault'}] + plan['ops'][j + 1:])
            if o.get('dir') == 'alt':
                yield dict(plan, ops=plan['ops'][:j] + [dict(o, dir='out')] + plan['ops'][j + 1:])
        yield from lib.shrink_keys(plan, {'spec.npl': [1], 'spec.free': ['few'], 'spec.dvdt': [False], 'spec.ninst': [1], 'spec.rp': [False]})

    def snap(self, root, spec):
        out = {}
        for d in DIRS:
            st = pipe.read_status(pipe.status_file(root, spec, d))
            if isinstance(st, str):
                raise Violation('status-unreadable', st)
            out[d] = (st, pipe.listing(root, d))
        return out

    def execute(self, plan, ctx):
        spec = dict(plan['spec'])
        root = ctx.root()
        write(spec, root)
        derived_from, fixed = {}, {}
        late = None
        done = []
        for op in plan['ops']:
            if 'edit' in op:
                spec.update(op['edit'])
                write(spec, root)
                done.append('edit %s' % op['edit'])
                continue
            cmd, d = list(op['cmd']), op['dir']
            before = self.snap(root, spec)
            st, files = before[d]
            raw = os.path.join(d, spec['name'] + '_rawchain.h5')
            if '--proceed' in cmd and cmd[0] == 'mcmc' and not os.path.exists(os.path.join(root, raw)):
                cmd = ['mcmc', '--save']
            if cmd[0] == 'ns' and '--proceed' in cmd and os.path.isdir(os.path.join(root, d, spec['name'] + '_ns')):
                cmd[cmd.index('--proceed')] = '--overwrite'     # what a backend makes of another one's directory is C11's business
            want = may(cmd, st)
            what = 'radvel %s in %s after %s' % (' '.join(cmd), d, done)
            room = None
            if want in ('run', 'part'):
                room = self.room(ctx, root, spec, cmd, d, st)
            f = op.get('fault')
            s = ctx.sim(root, [pipe.node(spec, cmd, op['seed'], d)], mask=core.MUT if f else 0, pool_seed=plan['npool'], faults=[f] if f else [])
            res = s.results[0]
            fired = bool(s.faults_fired)
            after = self.snap(root, spec)
            ok = res[0] == 'ok'
            ctx.mark(cmd, d, res[0], after[d][0])
            ctx.probe('%s:%s' % (cmd[0], 'fault' if fired else want if want != 'run' else 'ran'))
            done.append(' '.join(cmd) + (' (%s)' % f['kind'] if fired else '') + (' [%s]' % d if d != 'out' else ''))
            self.own_only(cmd, spec, d, before, after, what)
            if want == 'refuse':
                if ok:
                    raise Violation('not-refused', '%s: completed although its prerequisite is not recorded: %s' % (what, sorted(st or {})))
                if before != after and not fired:
                    raise Violation('refusal-changes', '%s: refused, but changed %s' % (what, self.changes(before, after)))
                ctx.nontrivial = True
                continue
            if fired:
                if cmd[0] == 'derive':
                    derived_from[d] = None
                continue
            if want == 'free':
                if not ok and before != after and cmd[0] not in ('table', 'report'):
                    raise Violation('failure-changes', '%s: failed, but changed %s' % (what, self.changes(before, after)))
                continue
            if want == 'part':
                if ok:
                    raise Violation('not-refused', '%s: completed although a prerequisite is not recorded: %s' % (what, sorted(st or {})))
                for t in types_of(cmd):
                    if table_ok(t, st, sampler_of(cmd, st)) is False and (after[d][0].get('table', {}).get(t + '_tex') != st.get('table', {}).get(t + '_tex') or self.tex(after[d], spec, t) != self.tex(before[d], spec, t)):
                        raise Violation('refusal-changes', '%s: the %s table was made without its prerequisite' % (what, t))
                continue
            # the posterior the mcmc record names may be that of a later fit
            smp = sampler_of(cmd, st) if cmd[0] in ('derive', 'table') else None
            stale = smp == 'mcmc' and self.replaced(done, d)
            if not ok and stale and cmd[0] == 'table' and {'params', 'derived'} & set(types_of(cmd)) and 'maxparams' in self.err(res):
                late = late or Violation('mcmc-posterior-replaced-by-fit', '%s: %s' % (what, self.err(res)))
                continue
            if ok and stale and cmd[0] == 'derive' and d in fixed:
                now = lib.isolated(lambda: post_facts(os.path.join(root, st['mcmc']['postfile'])))[1]['params']
                x = {k: (v, now[k][0]) for k, v in fixed[d].items() if k in now and now[k][0] != v}
                if x:
                    late = late or Violation('mcmc-posterior-replaced-by-fit', '%s: the fixed parameters (of the samples, used) are %s' % (what, x))
            if ok and cmd[0] == 'mcmc':
                fixed[d] = {k: v for k, (v, free) in lib.isolated(lambda: post_facts(os.path.join(root, after[d][0]['mcmc']['postfile'])))[1]['params'].items() if not free}
            if not ok:
                raise Violation('command-fails', '%s: %s' % (what, self.err(res)))
            st2, files2 = after[d]
            if cmd[0] == 'derive':
                derived_from[d] = files.get(os.path.basename(st[smp]['chainfile']))
            other = cmd[0] == 'table' and 'derived' in types_of(cmd) and derived_from.get(d) and derived_from[d] != files.get(os.path.basename(st[smp]['chainfile']))
            if other:
                late = late or Violation('derived-table-of-other-samples', '%s: the derived samples are those of an earlier run or of the other sampler' % what)
            self.flow(ctx, plan, op, spec, cmd, d, root, room, st, st2, files2, smp, what)
            ctx.nontrivial = True
        if late:
            raise late

    def replaced(self, done, d):
        """True when a fit was the last to write the posterior file that the record of mcmc names too."""
        tag = ' [%s]' % d if d != 'out' else ''
        for x in reversed(done):
            if (x.endswith(']') and x.endswith(tag) and tag) or (not tag and not x.endswith(']')):
                if x.split()[0] == 'fit':
                    return True
                if x.split()[0] == 'mcmc':
                    return False
        return False

    def err(self, res):
        r = res[1]
        return (r['type'] + ': ' + r['str'] + '\n' + r['tb'][-600:]) if isinstance(r, dict) else '%s %s' % (res[0], r)

    def tex(self, snap, spec, t):
        return snap[1].get('%s_%s.tex' % (spec['name'], t))

    def changes(self, a, b):
        out = []
        for d in DIRS:
            x = lib.diff(a[d][0] or {}, b[d][0] or {})
            if x:
                out.append('%s: status %s' % (d, x))
            out += ['%s/%s' % (d, k) for k in sorted(set(a[d][1]) | set(b[d][1])) if a[d][1].get(k) != b[d][1].get(k)]
        return out

    def own_only(self, cmd, spec, d, before, after, what):
        for x in DIRS:
            (s1, f1), (s2, f2) = before[x], after[x]
            sec = SEC.get(cmd[0]) if x == d else None
            for k in sorted(set(s1 or {}) | set(s2 or {})):
                if k != sec and (s1 or {}).get(k) != (s2 or {}).get(k):
                    raise Violation('other-record', '%s changed the record of %s in %s: %s' % (what, k, x, lib.diff((s1 or {}).get(k), (s2 or {}).get(k))))
            w = writes(cmd, spec, before[d][0]) if x == d else set()
            for k in sorted(set(f1) | set(f2)):
                mine = k in w or 'NS' in w and k.startswith(spec['name'] + '_ns' + os.sep)
                if not mine and f1.get(k) != f2.get(k):
                    raise Violation('other-artefact', '%s %s %s/%s' % (what, 'made' if k not in f1 else 'removed' if k not in f2 else 'changed', x, k))

    # -- a directory with nothing but the prerequisites, under other names ------------------------------------------
    def room(self, ctx, root, spec, cmd, d, st):
        new = ctx.root()
        write(spec, new)
        os.makedirs(os.path.join(new, d))
        os.makedirs(os.path.join(new, 'elsewhere'))
        c = cmd[0]
        smp = sampler_of(cmd, st) if c in ('derive', 'table') else None
        need = {'mcmc': ['fit'], 'ic': ['fit'], 'derive': [smp], 'table': [smp, 'derive', 'ic_compare']}.get(c, [])
        out, names = {}, {}
        for sec in need:
            if sec not in (st or {}):
                continue
            out[sec] = dict(st[sec])
            for k, v in st[sec].items():
                if k in pipe.FILEKEYS:
                    suffix = v[v.index('.', v.rindex('/') + 1):] if '/' in v else v[v.index('.'):]
                    to = os.path.join('elsewhere', '%s_%s%s' % (sec, k, suffix))
                    if os.path.exists(os.path.join(root, v)):
                        shutil.copy(os.path.join(root, v), os.path.join(new, to))
                    out[sec][k] = to
                    names[(sec, k)] = to
        if out:
            with open(pipe.status_file(new, spec, d), 'w') as f:
                for sec in out:
                    f.write('[%s]\n%s\n\n' % (sec, '\n'.join('%s = %s' % kv for kv in out[sec].items())))
        raw = os.path.join(d, spec['name'] + '_rawchain.h5')
        if '--proceed' in cmd and c == 'mcmc':
            shutil.copy(os.path.join(root, raw), os.path.join(new, raw))
        return new, names

    def flow(self, ctx, plan, op, spec, cmd, d, root, room, st, st2, files2, smp, what):
        new, names = room
        sec = SEC[cmd[0]]
        s = ctx.sim(new, [pipe.node(spec, cmd, op['seed'], d)], mask=0, pool_seed=plan['npool'])
        lib.must_ok(s.results[0], '%s, with nothing but its prerequisites in the directory' % what)
        ref, rfiles = pipe.read_status(pipe.status_file(new, spec, d)), pipe.listing(new, d)
        a, b = dict(st2[sec]), dict(ref[sec])
        if cmd[0] == 'table':
            a = {k: v for k, v in a.items() if k in b}
        elif cmd[0] == 'ns' and st and 'ns' in st:
            a = {k: v for k, v in a.items() if k in b}
        if a != b:
            raise Violation('record-differs', '%s: the record differs from that of the same command with nothing but its prerequisites: %s' % (what, lib.diff(b, a)))
        for k in sorted(rfiles):
            if k.endswith(('.csv', '.csv.bz2', '.pkl', '.tex')) and not (cmd[0] == 'ns' and os.sep in k):
                if files2.get(k) != rfiles[k]:
                    raise Violation('result-differs', '%s: %s differs from that of the same command with nothing but its prerequisites' % (what, k))
        for (s_, k), v in pipe.named_files(dict(x=b)).items():
            if files2.get(os.path.relpath(v, d)) is None:
                raise Violation('artefact-missing', '%s: the record names %s, which is not there' % (what, v))
        if cmd[0] in ('mcmc', 'ic'):
            self.from_fit(ctx, root, new, names, st2[sec], cmd, what)
        if cmd[0] in ('mcmc', 'ns'):
            self.summaries(ctx, spec, root, st2[cmd[0]], what)
        if cmd[0] == 'derive':
            self.derived(ctx, spec, root, st2, smp, new, names, what)
        ctx.probe('flow:' + cmd[0])

    def from_fit(self, ctx, root, new, names, r, cmd, what):
        """The analysis is that of the recorded posterior: what is fixed in it keeps its values, and no refit of it ends below it."""
        a = lib.isolated(lambda: post_facts(os.path.join(new, names[('fit', 'postfile')])))
        if a[0] != 'ok':
            raise Violation('posterior-unreadable', '%s: %s' % (what, a[1]))
        a = a[1]
        if cmd[0] == 'mcmc':
            b = lib.isolated(lambda: post_facts(os.path.join(root, r['postfile'])))[1]
            x = {k: (v, b['params'].get(k)) for k, (v, free) in a['params'].items() if not free and b['params'].get(k, (None,))[0] != v}
            if x:
                raise Violation('fit-not-used', '%s: fixed parameters of the recorded fit and of the samples: %s' % (what, x))
        else:
            best = max(float(v[0]) for k, v in ((k, v) for e in eval(r['ic'], dict(inf=np.inf, nan=np.nan, OrderedDict=dict, np=np)) for k, v in dict(e).items()) if k == LNL)
            if best < a['lp'] - 0.02:
                raise Violation('fit-not-used', '%s: the best model compared has log-probability %r, the recorded fit %r' % (what, best, a['lp']))
        ctx.probe('from fit')

    def summaries(self, ctx, spec, root, r, what):
        """Summary file and attached uncertainties are quantiles of the stored samples."""
        ch = pd.read_csv(os.path.join(root, r['chainfile']), index_col=0)
        sm = pd.read_csv(os.path.join(root, r['summaryfile']), index_col=0)
        if list(sm.columns) != list(ch.columns) or not np.allclose(sm.index, [0.159, 0.5, 0.841]):
            raise Violation('summary-columns', '%s: summary of %s, samples of %s' % (what, list(sm.columns), list(ch.columns)))
        q = lambda x: np.quantile(np.asarray(x, dtype=float), [0.159, 0.5, 0.841])
        for c in ch.columns:
            if np.all(np.isfinite(ch[c])) and not np.allclose(q(ch[c]), sm[c], rtol=1e-7, atol=1e-10):
                raise Violation('summary-wrong', '%s: quantiles of %s are %s, the summary has %s' % (what, c, q(ch[c]), list(sm[c])))
        f = lib.isolated(lambda: post_facts(os.path.join(root, r['postfile'])))
        if f[0] != 'ok':
            raise Violation('posterior-unreadable', '%s: %s' % (what, f[1]))
        f = f[1]
        if f['med'] is None or f['unc'] is None:
            raise Violation('no-uncertainties', '%s: the saved posterior has no medians or uncertainties' % what)
        cols = {c: np.asarray(ch[c], dtype=float) for c in ch.columns}
        for i, x in enumerate(synth(ch, f, spec['npl']), 1):
            cols.update({'%s%d' % (k, i): v for k, v in x.items()})
        for nm, med in f['med'].items():
            if nm not in cols or not np.all(np.isfinite(cols[nm])):
                continue
            lo, m, hi = q(cols[nm])
            err = (hi - lo) / 2
            unit = 10.0 ** np.floor(np.log10(abs(f['unc'][nm]))) if f['unc'][nm] else 0.0   # medians are rounded to the first digit of the uncertainty
            tol = 0.51 * unit + 1e-9 * (1 + abs(m)) + (1e-3 * abs(m) if err < 1e-9 * (1 + abs(m)) else 0)
            if abs(f['unc'][nm] - err) > 0.12 * abs(err) + 1e-9 * (1 + abs(m)) or abs(med - m) > tol:
                raise Violation('uncertainty-wrong', '%s: %s of the stored samples is %r +- %r, the saved posterior says %r +- %r' % (what, nm, m, err, med, f['unc'][nm]))
        ctx.probe('summaries')

    def derived(self, ctx, spec, root, st, smp, new, names, what):
        ch = pd.read_csv(os.path.join(root, st[smp]['chainfile']))
        dv = pd.read_csv(os.path.join(root, st['derive']['chainfile']), index_col=0)
        qf = pd.read_csv(os.path.join(root, st['derive']['quantfile']), index_col=0)
        if len(ch) != len(dv):
            raise Violation('derived-rows', '%s: %d samples, %d derived rows' % (what, len(ch), len(dv)))
        p = os.path.join(root, st[smp]['postfile'])
        a = lib.isolated(lambda: post_facts(p))
        if a[0] != 'ok':
            raise Violation('posterior-unreadable', '%s: %s' % (what, a[1]))
        a = a[1]
        b = lib.isolated(lambda: post_facts(os.path.join(new, names[(smp, 'postfile')])))[1]
        if not lib.same(a, b):
            raise Violation('result-differs', '%s: the posterior with the derived parameters differs from that of the same command with nothing but its prerequisites: %s' % (what, lib.diff(b, a)))
        if a['derived'] is None or a['derived'][0] != list(dv.columns) or list(qf.columns) != list(dv.columns):
            raise Violation('derived-columns', '%s: %s derived, %s in the summary, %s in the posterior' % (what, list(dv.columns), list(qf.columns), a['derived'] and a['derived'][0]))
        for j, c in enumerate(dv.columns):
            x = np.array(dv[c], dtype=float)
            x = x[~np.isnan(x)]
            if len(x) and np.all(np.isfinite(x)):
                want = np.quantile(x, [0.159, 0.5, 0.841])
                for got in (list(qf[c]), [r[j] for r in a['derived'][1]]):
                    if not np.allclose(want, got, rtol=1e-7):
                        raise Violation('quantiles-wrong', '%s: quantiles of %s are %s, recorded %s' % (what, c, want, got))
        masses = []
        with np.errstate(all='ignore'):
            for i, x in enumerate(synth(ch, a, spec['npl']), 1):
                mp, mu, ax = [np.array(dv['%s%d' % (k, i)], dtype=float) for k in ('mpsini', 'musini', 'a')]
                ms = mp * ME / (mu * MS)
                good = np.isfinite(ms) & (np.abs(mp) > 1e-6) & (x['e'] < 0.999)
                if not good.any():
                    continue
                masses.append((ms, good))
                loc, err = spec['mass']
                if np.any(np.abs(ms[good] - loc) > 8 * err + 2e-3 * loc):
                    raise Violation('stellar-mass', '%s: the derived masses of planet %d imply stellar masses from %r to %r; the setup file says %r +- %r' % (what, i, ms[good].min(), ms[good].max(), loc, err))
                # K = 28.4329 m/s (m sin i / M_J) (M / M_sun)^(-2/3) (P / yr)^(-1/3) / sqrt(1 - e^2)
                want = x['k'] / 28.4329 * np.sqrt(1 - x['e'] ** 2) * ms ** (2 / 3.) * (x['per'] / 365.25) ** (1 / 3.) * 317.83
                want = np.where(good, want, np.nan)
                if not agree(np.where(good, mp, np.nan), want, 0.01):
                    j = int(np.nanargmax(np.abs(np.where(good, mp, np.nan) / want - 1)))
                    raise Violation('derived-mass', '%s: row %d of the %s samples has period %r, e %r, K %r and stellar mass %r, so m sin i of planet %d is %r, but the derived table has %r' % (what, j, smp, x['per'][j], x['e'][j], x['k'][j], ms[j], i, want[j], mp[j]))
                wa = ((ms + mp * ME / MS) * (x['per'] / 365.25) ** 2) ** (1 / 3.)
                if not agree(np.where(good, ax, np.nan), np.where(good, wa, np.nan), 0.01):
                    j = int(np.nanargmax(np.abs(np.where(good, ax, np.nan) / wa - 1)))
                    raise Violation('derived-axis', '%s: row %d: a of planet %d is %r, the derived table has %r' % (what, j, i, wa[j], ax[j]))
                rh = 'rhop%d' % i
                if rh in dv.columns:
                    # density in g/cm3 = 5.51 m / r^3 in units of the Earth
                    rp = np.sign(mp / dv[rh]) * np.abs(5.51 * mp / np.array(dv[rh], dtype=float)) ** (1 / 3.)
                    l, e = spec['radius'] if spec.get('radius') and i == 1 else (2.0 + i, 0.1)
                    if np.any(np.abs(rp[good] - l) > 8 * e + 0.02 * l):
                        raise Violation('derived-density', '%s: the densities of planet %d imply radii from %r to %r; the setup file says %r +- %r' % (what, i, rp[good].min(), rp[good].max(), l, e))
                if bool(spec.get('rp')) != (rh in dv.columns):
                    raise Violation('derived-columns', '%s: the setup file %s a radius, the derived columns are %s' % (what, 'gives' if spec.get('rp') else 'does not give', list(dv.columns)))
        if len(masses) == 2:
            g = masses[0][1] & masses[1][1]
            if not agree(masses[0][0][g], masses[1][0][g], 1e-6):
                raise Violation('stellar-mass', '%s: the two planets of one row have different stellar masses' % what)
        if masses and spec['mass'][1] > 0 and masses[0][1].sum() > 5 and np.std(masses[0][0][masses[0][1]]) < 0.2 * spec['mass'][1]:
            raise Violation('stellar-mass', '%s: the stellar mass does not vary between the rows' % what)
        ctx.probe('derived rows', len(dv))
