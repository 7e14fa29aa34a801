"""Small planetary systems: generator of setup files (what a RadVel user writes) from a JSON-able spec."""
import math, random

BASES = ['per tc secosw sesinw k', 'per tc e w k', 'per tc secosw sesinw logk', 'per tp e w k']


def rand_spec(rng, name='toi', npl=None, gp=False, proper=True):
    npl = npl or rng.choice([1, 1, 1, 2])
    return dict(name=name, seed=rng.randrange(10**6), basis=rng.choice(BASES[:3]), ninst=rng.choice([1, 1, 2]),
                n=rng.randrange(14, 22) + 10 * (npl - 1), npl=npl, dvdt=rng.random() < 0.3,
                free=rng.choice(['few', 'few', 'some', 'all']), linear=rng.random() < 0.2, gp=gp,
                rp=rng.random() < 0.5, star='S%d' % rng.randrange(1000))


def velocity(p, t):
    """Radial velocity of one planet (an independent solver)."""
    e, w, f = p['e'], p['w'], math.pi / 2 - p['w']
    E = 2 * math.atan2(math.sqrt(1 - e) * math.sin(f / 2), math.sqrt(1 + e) * math.cos(f / 2))
    m = 2 * math.pi * (t - p['tc']) / p['per'] + E - e * math.sin(E)
    m -= 2 * math.pi * math.floor(m / (2 * math.pi))
    lo, hi = 0.0, 2 * math.pi
    for _ in range(60):
        E = (lo + hi) / 2
        lo, hi = (E, hi) if E - e * math.sin(E) < m else (lo, E)
    nu = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2))
    return p['k'] * (math.cos(nu + w) + e * math.cos(w))


def synth(spec):
    r = random.Random(spec['seed'])
    n = spec['n']
    t = sorted(2450000.0 + r.uniform(0, 120) for _ in range(n))
    pls = []
    for i in range(spec['npl']):
        per = r.uniform(4, 9) * (1 + 2.3 * i)
        pls.append(dict(per=round(per, 3), tc=round(2450000.0 + r.uniform(0, per), 3), e=round(r.uniform(0.02, 0.3), 3),
                        w=round(r.uniform(-3, 3), 3), k=round(r.uniform(8, 30) * spec.get('kscale', 1), 2)))
    rows = []
    for x in t:
        v = sum(velocity(p, x) for p in pls)
        tel = 'a' if spec['ninst'] == 1 or r.random() < 0.5 else 'b'
        rows.append((round(x, 5), round(v + r.gauss(0, 2.0) + (3.0 if tel == 'b' else 0), 4), round(r.uniform(1.0, 2.5), 3), tel))
    if spec['ninst'] == 2:
        rows[0] = rows[0][:3] + ('a',)
        rows[1] = rows[1][:3] + ('b',)
    return pls, rows


def basis_values(basis, p):
    names = basis.split()
    out = {}
    for nm in names:
        if nm == 'per': out[nm] = p['per']
        elif nm in ('tc', 'tp'): out[nm] = p['tc']
        elif nm == 'secosw': out[nm] = math.sqrt(p['e']) * math.cos(p['w'])
        elif nm == 'sesinw': out[nm] = math.sqrt(p['e']) * math.sin(p['w'])
        elif nm == 'e': out[nm] = p['e']
        elif nm == 'w': out[nm] = p['w']
        elif nm == 'k': out[nm] = p['k']
        elif nm == 'logk': out[nm] = math.log(p['k'])
    return out


def text(spec):
    pls, rows = synth(spec)
    npl, basis = spec['npl'], spec['basis']
    insts = ['a'] if spec['ninst'] == 1 else ['a', 'b']
    L = ['import radvel', 'import numpy as np', 'import pandas as pd', '',
         'starname = %r' % spec['star'], 'nplanets = %d' % npl, 'instnames = %r' % insts, 'ntels = %d' % len(insts),
         'fitting_basis = %r' % basis, 'bjd0 = 0.', 'planet_letters = %r' % {i + 1: 'bcd'[i] for i in range(npl)}, '',
         'data = pd.DataFrame(dict(time=%r, mnvel=%r, errvel=%r, tel=%r))' % ([r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows], [r[3] for r in rows]),
         'time_base = %r' % round(sum(r[0] for r in rows) / len(rows), 3),
         'params = radvel.Parameters(nplanets, basis=fitting_basis, planet_letters=planet_letters)']
    free = []
    for i, p in enumerate(pls, 1):
        v = basis_values(basis, p)
        for nm, x in v.items():
            L.append("params['%s%d'] = radvel.Parameter(value=%r)" % (nm, i, round(x, 6)))
        fr = {'few': ['k', 'logk'], 'some': ['k', 'logk', 'tc', 'tp'], 'all': list(v)}[spec['free']]
        for nm in v:
            if nm in fr:
                free.append('%s%d' % (nm, i))
            else:
                L.append("params['%s%d'].vary = False" % (nm, i))
    if spec.get('decorr'):
        L.insert(-1, "data['bis'] = np.sin(data.time.values)")
        L.insert(-1, "decorr_vars = ['bis']")
    if spec.get('errscale'):
        L.insert(-1, "data['errvel'] *= %r" % spec['errscale'])
    L.append("params['dvdt'] = radvel.Parameter(value=0.001)")
    L.append("params['curv'] = radvel.Parameter(value=0.0)")
    if spec.get('curv'):
        free.append('curv')
    else:
        L.append("params['curv'].vary = False")
    if spec['dvdt']:
        free.append('dvdt')
    else:
        L.append("params['dvdt'].vary = False")
    for s in insts:
        if spec.get('linear'):
            L.append("params['gamma_%s'] = radvel.Parameter(value=0.1, vary=False, linear=True)" % s)
        else:
            L.append("params['gamma_%s'] = radvel.Parameter(value=0.1)" % s)
            free.append('gamma_' + s)
        L.append("params['jit_%s'] = radvel.Parameter(value=1.5)" % s)
        free.append('jit_' + s)
    if spec.get('gp'):
        kern = spec['gp']
        per_inst = spec.get('gpsplit') and len(insts) > 1
        hn = {'QuasiPer': [('gp_amp', 4.0), ('gp_per', 7.7), ('gp_perlength', 0.5), ('gp_explength', 30.0)],
              'SqExp': [('gp_amp', 4.0), ('gp_length', 12.0)],
              'Per': [('gp_amp', 4.0), ('gp_length', 0.8), ('gp_per', 7.7)],
              'Celerite': [('gp_B', 16.0), ('gp_C', 0.3), ('gp_L', 30.0), ('gp_Prot', 7.7)]}[kern]
        amps = ('gp_amp', 'gp_B')
        if per_inst:                    # an amplitude of its own for each instrument
            hn = [(nm + '_' + s, x) for nm, x in hn if nm in amps for s in insts] + [h for h in hn if h[0] not in amps]
        for nm, x in hn:
            L.append("params['%s'] = radvel.Parameter(value=%r)" % (nm, x))
            if nm.startswith(amps) or spec.get('gpfree'):
                free.append(nm)
            else:
                L.append("params['%s'].vary = False" % nm)
        L.append('hnames = %r' % {s: [nm for nm, _ in hn if not (per_inst and nm.startswith(amps)) or nm.endswith('_' + s)] for s in insts})
        L.append('kernel_name = %r' % {s: kern for s in insts})
    if spec.get('priors'):
        L.append('def user_pdf(x):\n    return -0.5 * float(sum(abs(v) for v in x)) if x[0] > -40 else -np.inf')
        L.append('samples = np.random.RandomState(5).normal(10., 4., size=40)')
    L.append('priors = [')
    for nm in free:
        if nm.startswith('gamma'): L.append("    radvel.prior.HardBounds('%s', -60.0, 60.0)," % nm)
        elif nm.startswith('jit'): L.append("    radvel.prior.HardBounds('%s', %s, 20.0)," % (nm, spec.get('jitlo', '0.01')))
        elif nm in ('dvdt', 'curv'): L.append("    radvel.prior.Gaussian('%s', 0.0, 0.5)," % nm)
        elif nm.startswith('gp_'): L.append("    radvel.prior.HardBounds('%s', 0.01, 60.0)," % nm)
        else:
            i = int(nm[-1]); b = nm[:-1]; x = basis_values(basis, pls[i - 1])[b]
            if b == 'per': L.append("    radvel.prior.Gaussian('%s', %r, 0.05)," % (nm, round(x, 6)))
            elif b in ('tc', 'tp'): L.append("    radvel.prior.Gaussian('%s', %r, 0.3)," % (nm, round(x, 6)))
            elif b == 'k': L.append("    radvel.prior.HardBounds('%s', 0.0, 100.0)," % nm)
            elif b == 'logk': L.append("    radvel.prior.HardBounds('%s', -2.0, 5.0)," % nm)
            elif b == 'e': L.append("    radvel.prior.HardBounds('%s', 0.0, 0.9)," % nm)
            elif b == 'w': L.append("    radvel.prior.HardBounds('%s', -3.2, 3.2)," % nm)
            else: L.append("    radvel.prior.HardBounds('%s', -0.7, 0.7)," % nm)
    for x in spec.get('priors', ()):
        L.append('    %s,' % x)
    if 'secosw' in basis and spec['free'] == 'all':
        L.append('    radvel.prior.EccentricityPrior(%d),' % npl)
    L.append(']')
    L.append('stellar = dict(mstar=1.1, mstar_err=0.05)')
    if spec.get('rp'):
        L.append('planet = dict(%s)' % ', '.join('rp%d=%r, rp_err%d=0.1' % (i, 2.0 + i, i) for i in range(1, npl + 1)))
    return '\n'.join(L) + '\n'


def write(spec, dirname):
    import os
    os.makedirs(dirname, exist_ok=True)
    fn = os.path.join(dirname, spec['name'] + '.py')
    with open(fn, 'w') as f:
        f.write(text(spec))
    return fn
