"""C15: reports compiled by LaTeX compilers that fail in every way, on a disk that fails at every point."""
import hashlib, json, os, shutil, stat
import numpy as np
from sim import lib, setups, core, pipe
from sim.runner import Check, Violation

KINDS = ['crash', 'crash', 'torn', 'enospc', 'enospc', 'eio', 'emfile', 'int', 'int', 'short']
PASSES = ['ok', 'ok', 'ok', 'nopdf', 'warn', 'killpartial', 'killpartial', 'fullpartial', 'killnone', 'truncate']
STUB = r'''#!/bin/sh
# a LaTeX compiler that does what the plan says for each pass
d=$(dirname "$0")
n=$(cat "$d/n" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "$d/n"
b=$(sed -n "${n}p" "$d/plan"); [ -n "$b" ] || b=ok
dir=.; job=; tex=; prev=
for a in "$@"; do
 case $prev in -output-directory|--output-directory) dir=$a; prev=; continue;; -jobname|--jobname) job=$a; prev=; continue;; esac
 prev=$a
 case $a in -output-directory=*|--output-directory=*) dir=${a#*=};; -jobname=*|--jobname=*) job=${a#*=};; -*) ;; *) tex=$a;; esac
done
[ -f "$tex" ] || tex="$tex.tex"
[ -n "$job" ] || job=$(basename "${tex%.tex}")
set -- "$tex"
out="$dir/$job.pdf"
body() { echo "%PDF-1.5"; echo "pass $n"; cat "$1"; }
echo log > "$dir/$job.log"; echo aux > "$dir/$job.aux"; mkdir -p "$dir/sub"; echo x > "$dir/sub/y"
case $b in
 ok)   { body "$1"; echo "%%EOF"; } > "$out" ;;
 warn) { body "$1"; echo "%%EOF"; } > "$out"; exit 1 ;;
 nopdf) rm -f "$out"; exit 1 ;;
 killpartial) body "$1" > "$out"; kill -9 $$ ;;
 fullpartial) body "$1" > "$out"; exit 1 ;;
 truncate) : > "$out"; exit 1 ;;
 killnone) kill -9 $$ ;;
esac
'''
FIGS = ['rv_multipanel', 'corner', 'corner_derived_pars', 'auto', 'trends']


def h(fn):
    return hashlib.sha256(open(fn, 'rb').read()).hexdigest()


class CHECK(Check):
    id = 'C15'
    runs = {'quick': 270, 'thorough': 3000}
    rule = 'a run counts as non-trivial when in one of its reports the compiler failed, or a fault hit between the first and the last file operation'
    real = ['radvel.cli, radvel.driver.report, radvel.report', 'jinja2', 'subprocess and the processes it starts']
    stub = ['the LaTeX compiler (a script that succeeds, fails, is killed, is missing, leaves nothing or part of a PDF)', 'file system behind the shim: real tmpfs, every call of the radvel process may fail, be cut or be the last',
            'figures (small files named in the status file)', 'multiprocess.Pool (simulated pool)', 'wall clock, entropy']
    assumptions = ['a PDF is complete when the compiler wrote all of it, however it exited', 'temporary directories are not judged after the radvel process itself was killed']

    def gen(self, rng, i, tier):
        cases = []
        for _ in range(6):
            c = dict(passes=[rng.choice(PASSES) for _ in range(3)] if rng.random() < 0.6 else ['ok'] * 3, compiler=rng.choice(['stub'] * 6 + ['missing', 'noexec', 'badformat']),
                     old=rng.random() < 0.7, api=rng.random() < 0.4, lostfig=rng.random() < 0.1)
            if rng.random() < 0.6:
                c['fault'] = dict(kind=rng.choice(KINDS), at_frac=rng.random(), frac=rng.random(), len=rng.choice([1, 1, 1000]))
            cases.append(c)
        return dict(spec=setups.rand_spec(rng, npl=1), npseed=rng.randrange(2**31), npool=rng.randrange(2**31), sampler=rng.choice(['mcmc', 'mcmc', 'ns']), derive=rng.random() < 0.5, ic=rng.random() < 0.3,
                    figs=rng.sample(FIGS, rng.randrange(1, 5)), cases=cases)

    def shrink(self, plan):
        for x in lib.without_each(plan['cases']):
            if x:
                yield dict(plan, cases=x)
        if len(plan['cases']) == 1:
            yield from lib.shrink_keys(plan, {'derive': [False], 'ic': [False], 'sampler': ['mcmc'], 'cases.0.api': [False], 'cases.0.lostfig': [False], 'cases.0.compiler': ['stub'], 'spec.free': ['few'],
                                              'spec.ninst': [1], 'spec.dvdt': [False], 'cases.0.passes': [['ok'] * 3]})
            if len(plan['figs']) > 1:
                yield dict(plan, figs=plan['figs'][:1])
            c = plan['cases'][0]
            if 'fault' in c:
                yield dict(plan, cases=[{k: v for k, v in c.items() if k != 'fault'}])

    def execute(self, plan, ctx):
        spec = plan['spec']
        base = ctx.root()
        setups.write(spec, base)
        cmds = [['fit'], ['mcmc'] if plan['sampler'] == 'mcmc' else ['ns', '--sampler', 'ultranest', '--overwrite']]
        cmds += [['derive']] * plan['derive'] + [['ic', '-t', 'trend']] * plan['ic'] + [['table', '-t', 'params', 'rv']]
        for j, c in enumerate(cmds):
            s = ctx.sim(base, [pipe.node(spec, c, plan['npseed'] + j)], mask=0, pool_seed=plan['npool'])
            lib.must_ok(s.results[0], 'undisturbed %s' % ' '.join(c))
        out = os.path.join(base, pipe.OUT)
        with open(pipe.status_file(base, spec), 'a') as f:
            f.write('[plot]\n')
            for k in plan['figs']:
                fn = '%s_%s.pdf' % (spec['name'], k)
                open(os.path.join(out, fn), 'w').write('%PDF figure ' + k)
                f.write('%s_plot = %s\n' % (k, os.path.join(pipe.OUT, fn)))
        os.makedirs(base + '/bin')
        open(base + '/bin/latex', 'w').write(STUB)
        os.chmod(base + '/bin/latex', 0o755)
        open(base + '/bin/noexec', 'w').write(STUB)
        open(base + '/bin/badformat', 'wb').write(b'\x00\x01not a program')
        os.chmod(base + '/bin/badformat', 0o755)
        self.good = {}
        for c in plan['cases']:
            if (c['api'], c['old']) not in self.good:
                d, res, s = self.run(plan, ctx, base, dict(c, passes=['ok'] * 3, compiler='stub', lostfig=False), None, 0)
                what = 'undisturbed report'
                lib.must_ok(res, what)
                got = res[1]
                if got['exc']:
                    raise Violation('failed-' + got['exc'][0], '%s: %s\n%s' % (what, got['exc'][1], got['exc'][2]))
                self.after(plan, c, d, base, got, what, None)
                new = self.pdf(d, spec)
                if not (new or b'').endswith(b'%%EOF\n') or b'pass 3' not in new:
                    raise Violation('no-report', '%s: the PDF is %r' % (what, (new or b'')[:60]))
                self.good[(c['api'], c['old'])] = (new, len([e for e in s.log if e[1] not in ('START', 'EXIT', 'YIELD')]))
                ctx.mark(self.good[(c['api'], c['old'])][1], hashlib.sha256(new).hexdigest())
        for c in plan['cases']:
            self.case(plan, ctx, base, c)

    def run(self, plan, ctx, base, c, fault, mask):
        spec = plan['spec']
        d = ctx.root()
        shutil.rmtree(d)
        shutil.copytree(base, d)
        open(d + '/bin/plan', 'w').write('\n'.join(c['passes']) + '\n')
        compiler = {'stub': 'bin/latex', 'missing': 'bin/none', 'noexec': 'bin/noexec', 'badformat': 'bin/badformat'}[c['compiler']]
        out = os.path.join(d, pipe.OUT)
        if c['old']:
            open(self.pdfname(d, spec), 'wb').write(b'%PDF-1.5 earlier report\n%%EOF\n')
        if c['lostfig']:
            os.unlink(os.path.join(out, '%s_%s.pdf' % (spec['name'], plan['figs'][0])))

        def node():
            comp = os.path.abspath(compiler)
            if c['api']:
                os.chdir(pipe.OUT)
            cwd, exc = os.getcwd(), None
            try:
                if c['api']:
                    self.api(plan, comp)
                else:
                    pipe.run_cli(pipe.argv(['report', '--latex-compiler', comp], spec), plan['npseed'])
            except BaseException as e:
                import traceback
                exc = (type(e).__name__, str(e)[:300], traceback.format_exc()[-800:])
            try:
                now = os.getcwd()
            except OSError as e:
                now = repr(e)
            return dict(exc=exc, cwd=[cwd, now], tmp=sorted(os.listdir(core.tempfile.tempdir)))
        s = ctx.sim(d, [node], mask=core.MUT, pool_seed=plan['npool'], faults=[fault] if fault else [])
        return d, s.results[0], s

    def api(self, plan, comp):
        """What a user does who compiles a report from a script."""
        import pandas as pd, radvel.report, radvel.posterior
        spec = plan['spec']
        P, _ = radvel.utils.initialize_posterior('../' + spec['name'] + '.py')
        post = radvel.posterior.load(spec['name'] + '_post_obj%s.pkl' % ('' if plan['sampler'] == 'mcmc' else '_ns'))
        chains = pd.read_csv('%s_chains%s.csv.bz2' % (spec['name'], '' if plan['sampler'] == 'mcmc' else '_ns'))
        r = radvel.report.RadvelReport(P, post, chains, 40., .03, 1.003, 1000., derived=False)
        r.runname = spec['name']
        r.compile(spec['name'] + '_results.pdf', latex_compiler=comp, depfiles=['%s_%s.pdf' % (spec['name'], k) for k in plan['figs']])

    def pdfname(self, d, spec):
        return os.path.join(d, pipe.OUT, spec['name'] + '_results.pdf')

    def pdf(self, d, spec):
        fn = self.pdfname(d, spec)
        return open(fn, 'rb').read() if os.path.exists(fn) else None

    def after(self, plan, c, d, base, got, what, ev):
        """Everything but the PDF."""
        spec = plan['spec']
        if got:
            if got['cwd'][0] != got['cwd'][1]:
                raise Violation('working-directory', '%s: started in %s, left in %s' % (what, *[x.replace(d, '<root>') for x in got['cwd']]))
            if got['tmp'] and not (ev and ev[1] in ('UNLINK', 'RMDIR', 'MKDIR')):
                raise Violation('temporary-directory', '%s: leaves %s in the temporary directory' % (what, got['tmp']))
        for b, _, files in os.walk(os.path.join(base, pipe.OUT)):
            for f in files:
                fn = os.path.join(b, f)
                x = os.path.join(d, os.path.relpath(fn, base))
                if c['lostfig'] and f == '%s_%s.pdf' % (spec['name'], plan['figs'][0]):
                    continue
                if not os.path.exists(x):
                    raise Violation('file-deleted', '%s: %s is gone' % (what, f))
                if h(x) != h(fn):
                    raise Violation('file-changed', '%s: %s changed' % (what, f))

    def case(self, plan, ctx, base, c):
        spec = plan['spec']
        new3, nev = self.good[(c['api'], c['old'])]
        f = c.get('fault')
        if f and 'at' not in f:
            f['at'] = 1 + int(f.pop('at_frac') * nev)
        d, res, s = self.run(plan, ctx, base, c, f, core.MUT)
        fired = bool(s.faults_fired)
        what = '%s with compiler %s%s%s' % ('RadvelReport.compile' if c['api'] else 'radvel report', c['compiler'] if c['compiler'] != 'stub' else '/'.join(c['passes']),
                                            ', a figure missing' if c['lostfig'] else '', ', %s at operation %d of %d (%s)' % (f['kind'], f['at'], nev, s.log[-1][1:4] if res[0] == 'dead' else '') if f and fired else '')
        got = res[1] if res[0] == 'ok' else None
        if res[0] == 'exc':
            raise core.HarnessError('%s: %s' % (what, res[1]))
        if c['compiler'] != 'stub' or c['passes'] != ['ok'] * 3 or (fired and 1 < f['at'] < nev):
            ctx.nontrivial = True
        if c['compiler'] == 'stub':
            for b in c['passes']:
                ctx.faults['compiler_' + b] += b != 'ok'
        else:
            ctx.faults['compiler_' + c['compiler']] += 1
        ev = None
        if fired and res[0] != 'dead':
            # the operation that was hit
            hits = [e for e in s.log if e[1] not in ('START', 'EXIT', 'YIELD')]
            ev = hits[min(f['at'], len(hits)) - 1]
        ctx.mark(res[0], got and got['exc'] and got['exc'][0])
        ctx.probe('%s:%s' % (f['kind'] if fired else 'no fault', 'dead' if got is None else got['exc'][0] if got['exc'] else 'ok'))
        self.after(plan, c, d, base, got, what, ev)
        pdf = self.pdf(d, spec)
        old = b'%PDF-1.5 earlier report\n%%EOF\n' if c['old'] else None
        ok = [old]
        for n, b in enumerate(c['passes'], 1):
            if b in ('ok', 'warn') and c['compiler'] == 'stub':
                ok.append(new3.replace(b'pass 3', b'pass %d' % n, 1))
        if c['lostfig'] or fired:           # the document may lack a figure that was missing, never be incomplete
            good = pdf in ok or (pdf is not None and pdf.startswith(b'%PDF-1.5\npass ') and pdf.endswith(b'\\end{document}\n%%EOF\n'))
        else:
            good = pdf in ok
        if not good:
            raise Violation('report-incomplete', '%s: the report %s %s' % (what, 'replaced the earlier one and' if c['old'] else '', 'is gone' if pdf is None else 'is incomplete (%d of %d bytes)' % (len(pdf), len(new3))))
        if got and not got['exc'] and not fired and not c['lostfig'] and c['compiler'] == 'stub' and c['passes'][2] == 'ok' and pdf != new3:
            raise Violation('no-report', '%s: reported success, but the report is %s' % (what, 'the earlier one' if pdf == old else 'another'))
        if got and got['exc'] and not fired and not c['lostfig'] and c['compiler'] == 'stub' and c['passes'] == ['ok'] * 3:
            raise Violation('failed-' + got['exc'][0], '%s: %s\n%s' % (what, got['exc'][1], got['exc'][2]))
