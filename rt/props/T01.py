"""Thermochemical functions of compounds are mutually consistent."""
import glob
import json
import os
import warnings
import auxi.tools.chemistry.thermochemistry as th
from rt.core import log_uniform, isclose
from rt.formula import gen_formula, molar_mass, read
from rt.thermoref import RefPhase

TARGETS = ['auxi/tools/chemistry/thermochemistry.py']
RULE = ('Every phase of both shipped data sets on random and boundary '
        'temperatures, and random compounds (1-5 heat capacity ranges, '
        'exponents -3..3, optional magnetic data), below, inside, on the '
        'joints of and above the ranges; Cp, H, S, G compared with quadrature '
        'of the heat capacity. Non-trivial: a synthetic phase, or a '
        'temperature off the reference; distinct by (phase, T).')
ASSUMPTIONS = ['numerical quadrature (Gauss-Legendre 40 in ln T) as oracle',
               'tolerance 1e-9 of the sum of term magnitudes']

DATA = os.path.join(os.path.dirname(th.__file__), 'data')
FUN = ('Cp', 'H', 'S', 'G')


def probe(ctx, rng, formula, phase, ref, mm, T, where):
    """Compare the public functions with the reference at T [K]."""
    tc = T - 273.15
    T = tc + 273.15           # what the library will see
    for _, tmax, _ in ref.records:
        # do not sit one rounding error away from a joint
        if T != tmax and abs(T - tmax) < 1e-6:
            return
    if ref.mag and abs(T / ref.mag[0] - 1) < 1e-9:
        return
    mass = rng.choice([1.0, None, log_uniform(rng, 1e-3, 1e4), 0.0])
    m = 1.0 if mass is None else mass
    name = '%s[%s]' % (formula, phase)
    args = (name, tc) if mass is None else (name, tc, mass)
    k = m / (mm / 1000.0) / 3.6e6
    d = {'compound': name, 'T_K': T, 'mass': mass, 'where': where,
         'records': ref.records, 'magnetic': ref.mag}
    ctx.info(d)
    Hr, Sr, Gr, sh, ss = ref.HSG(T)
    cp = th.Cp(*args)
    ctx.check(any(isclose(cp, k * c, 1e-9,
                          1e-10 * k * ref.cp_scale(T) + 1e-300) for c in ref.Cp(T)),
              'Cp', lambda: 'Cp(%r) = %r, expected %r' % (
                  args, cp, [k * c for c in ref.Cp(T)]), d)
    H = th.H(*args)
    ctx.close(H, k * Hr, 'H', 'H%r' % (args,), rel=1e-10,
              abs_=1e-9 * k * sh, data=d)
    S = th.S(*args)
    ctx.close(S, k * Sr, 'S', 'S%r' % (args,), rel=1e-10,
              abs_=1e-9 * k * ss, data=d)
    G = th.G(*args)
    ctx.close(G, H - T * S, 'G-identity', 'G%r against H - T S' % (args,),
              rel=1e-10, abs_=1e-9 * k * (sh + T * ss), data=d)
    ctx.ev('temperatures')
    ctx.ev('at-' + where)
    ctx.eval((name, T, ref.DHref))


def temps(rng, ref, n):
    """Temperatures covering each regime."""
    lo = ref.records[0][0]
    hi = ref.records[-1][1]
    out = [('reference', 298.15)]
    for a, b, _ in ref.records:
        out.append(('joint', b))
        out.append(('inside', rng.uniform(a, b)))
        out.append(('inside', a + (b - a) * rng.choice([1e-4, 1 - 1e-4])))
    for _ in range(n):
        out.append(('inside', rng.uniform(lo, hi)))
    out.append(('below', rng.uniform(max(200.0, lo * 0.7), lo)))
    out.append(('above', hi * rng.uniform(1.0, 1.5) + rng.uniform(0.01, 5)))
    out.append(('above', hi + rng.uniform(0.01, 3000)))
    if ref.mag:
        out.append(('near-critical', ref.mag[0] * rng.uniform(0.9, 1.1)))
    return out


def shipped(ctx, rng, item):
    sub, path = item
    raw = json.load(open(path))
    formula = raw['formula']
    folder = os.path.dirname(path)
    if getattr(shipped, 'loaded', None) != folder:
        th.load_data_auxi(folder)
        shipped.loaded = folder
    ctx.info(path)
    ctx.check(formula in th.compounds, 'not-loaded',
              '%s is not loaded from %s' % (formula, path))
    comp = th.compounds[formula]
    ctx.check(list(comp.get_phase_list()) == sorted(raw['_phases']),
              'phase-list', 'phases of %s: %r' % (
                  formula, comp.get_phase_list()))
    mm = molar_mass(read(formula))
    ctx.close(th.molar_mass(formula), mm / 1000, 'molar-mass',
              'molar mass of ' + formula)
    for p, ph in raw['_phases'].items():
        recs = [(r['Tmin'], r['Tmax'],
                 list(zip(r['_coefficients'], r['_exponents'])))
                for r in ph['_Cp_records'].values()]
        mag = None
        if 'Tc_mag' in ph:
            mag = (ph['Tc_mag'], ph['beta0_mag'], ph['p_mag'])
        ref = RefPhase(ph['DHref'], ph['Sref'], recs, mag)
        for where, T in temps(rng, ref, ctx.n(40, 200)):
            probe(ctx, rng, formula, p, ref, raw['molar_mass'] * 1000, T,
                  where)
        # the reference state is what the data file says
        k = 1.0 / raw['molar_mass'] / 3.6e6
        if ref.mag is None and ref.records[0][0] == 298.15:
            ctx.close(th.H('%s[%s]' % (formula, p), 25.0), ph['DHref'] * k,
                      'H-reference', 'H(25 degC)', rel=1e-9,
                      abs_=1e-9 * k)
            ctx.close(th.S('%s[%s]' % (formula, p), 25.0), ph['Sref'] * k,
                      'S-reference', 'S(25 degC)')
        ctx.ev('shipped-phases')
        # data sets: molar mass agrees with the formula
        ctx.close(raw['molar_mass'] * 1000, mm, 'data-molar-mass',
                  'molar mass in ' + path, rel=1e-6)


def gen_phase(rng, mag_ok=True):
    n = rng.choice([1, 1, 2, 3, 5])
    joints = sorted(rng.sample(range(350, 3500, 7), n))
    short = rng.random() < 0.15
    if short:  # a short record, at either end or between
        joints = [float(t) for t in joints]
        joints = sorted(joints + [rng.choice([298.15] + joints) +
                                  round(10 ** rng.uniform(-1, 0.7), 3)])
    recs, prev = [], 298.15
    for t in joints:
        t = float(t) if short or rng.random() < 0.6 else t + round(rng.random(), 2)
        terms = []
        pool = [0.0, 1.0, -2.0, -1.0, 2.0, -0.5, 0.5, -3.0, 3.0]
        if rng.random() < 0.5:
            pool += [-1.5, -2.5, 1.5, -0.25] + [
                round(rng.uniform(-3, 3), 2) for _ in range(3)]
        for e in rng.sample(sorted(set(pool)), rng.randint(1, 5)):
            # every term about 1..50 J/mol/K at 1000 K
            c = rng.choice([-1, 1, 1]) * rng.uniform(1, 50) / 1000.0 ** e
            terms.append((c, e))
        recs.append((prev, t, terms))
        prev = t
    mag = None
    if mag_ok and rng.random() < 0.35:
        mag = (rng.uniform(200, 2500), rng.uniform(0.1, 4),
               rng.choice([0.28, 0.4]))
    return RefPhase(rng.choice([0.0, rng.uniform(-2e6, 5e5)]),
                    rng.uniform(1, 400), recs, mag)


def to_dict(rng, ref, symbol):
    d = {'DHref': ref.DHref, 'Sref': ref.Sref, 'Cp_records': {}}
    if symbol is not None:
        d['Symbol'] = symbol
    order = list(ref.records)
    rng.shuffle(order)
    for a, b, terms in order:
        key = str(b) if rng.random() < 0.5 else b
        d['Cp_records'][key] = {
            'Tmin': a if rng.random() < .7 else str(a),
            'Tmax': b if rng.random() < .7 else str(b),
            'Terms': [{'Coefficient': c if rng.random() < .7 else str(c),
                       'Exponent': (e if rng.random() < .7 else
                                    (str(e) if rng.random() < .5 else
                                     (int(e) if e == int(e) else e)))}
                      for c, e in terms]}
    if ref.mag:
        d['magnetic'] = {'Tc': ref.mag[0], 'beta0': ref.mag[1],
                         'p': ref.mag[2]}
    return d


def gen_compound(rng):
    f, c = gen_formula(rng, phase=False, zero=False)
    phases = rng.sample(['S', 'S1', 'S2', 'L', 'G', 'Salpha', 'aq'],
                        rng.randint(1, 3))
    refs = {p: gen_phase(rng) for p in phases}
    d = {'Formula': f, 'Phases': {
        p: to_dict(rng, refs[p], p if rng.random() < 0.7 else None)
        for p in phases}}
    return f, c, refs, d


def synthetic(ctx, rng, i):
    f, c, refs, d = gen_compound(rng)
    ctx.info(d)
    if i < 8:
        ctx.sample({'formula': f, 'phases': {
            p: r.records for p, r in refs.items()}})
    comp = th.Compound(d)
    saved = dict(th.compounds)
    th.compounds[f] = comp
    try:
        ctx.check(list(comp.get_phase_list()) == sorted(refs), 'phase-list',
                  'phases %r' % comp.get_phase_list())
        for p, ref in refs.items():
            for where, T in temps(rng, ref, ctx.n(8, 10)):
                probe(ctx, rng, f, p, ref, molar_mass(c), T, where)
                # per mole, straight from the compound
                H, S, G, sh, ss = ref.HSG(T)
                ctx.close(comp.H(p, T), H, 'molar-H', 'molar H',
                          abs_=1e-9 * sh)
                ctx.close(comp.S(p, T), S, 'molar-S', 'molar S',
                          abs_=1e-9 * ss)
                ctx.close(comp.G(p, T), G, 'molar-G', 'molar G',
                          abs_=1e-9 * (sh + T * ss))
                ctx.check(any(isclose(
                    comp.Cp(p, T), x, 1e-9, 1e-10 * ref.cp_scale(T))
                              for x in ref.Cp(T)), 'molar-Cp', 'molar Cp')
            # enthalpy and entropy have no jump at a joint
            for a, b, _ in ref.records:
                for q in ('H', 'S', 'G'):
                    lo = getattr(comp, q)(p, b - 1e-7)
                    hi = getattr(comp, q)(p, b + 1e-7)
                    ctx.check(abs(hi - lo) < 1e-3 + 1e-9 * abs(hi), 'jump',
                              '%s jumps by %g at %g K' % (q, hi - lo, b))
                ctx.ev('joints')
        if any(r.mag for r in refs.values()):
            ctx.ev('magnetic-phases')
        for q in FUN:
            ctx.raises(lambda: getattr(comp, q)('nope', 400.0),
                       'unknown-phase', q + ' of an unknown phase')
            ctx.raises(lambda: getattr(th, q)(f + '[nope]', 400.0),
                       'unknown-phase', q + ' of an unknown phase')
    finally:
        th.compounds.clear()
        th.compounds.update(saved)


def unknown(ctx, rng, i):
    if getattr(shipped, 'loaded', None) is None:
        th.load_data_auxi()
        shipped.loaded = 'default'
    f, _ = gen_formula(rng, phase=False)
    if f in th.compounds:
        return
    ctx.info(f)
    ctx.eval(('u', f))
    for q in FUN:
        ctx.raises(lambda: getattr(th, q)(f + '[S]', 100.0),
                   'unknown-compound', q + ' of a compound without data')
    g = rng.choice(sorted(th.compounds))
    for q in FUN:
        ctx.raises(lambda: getattr(th, q)(g, 100.0), 'no-phase',
                   q + ' without a phase')


def run(ctx):
    for k, n in (('at-above', 50), ('at-below', 50), ('at-joint', 50),
                 ('shipped-phases', 100), ('joints', 50),
                 ('magnetic-phases', 20), ('rejections', 20)):
        ctx.require(k, n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        items = [(s, p) for s in ('rao', 'nist') for p in sorted(
            glob.glob(os.path.join(DATA, s, 'Compound_*.json')))]
        ctx.each('shipped', items, shipped)
        ctx.run('synthetic', ctx.n(6000, 60000), synthetic)
        ctx.run('unknown', ctx.n(120, 600), unknown)
