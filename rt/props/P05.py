"""Viscosity of slags."""
import math

from auxi.tools.materialphysicalproperties import slags
from rt import formula
from rt.core import isclose
from rt.fluids import SLAG, fractions

TARGETS = ['auxi/tools/materialphysicalproperties/slags.py']
RULE = ('Random slags in mole and mass fractions at random temperatures; '
        'both viscosity models compared with independent evaluations of '
        'their equations, mass fractions with the mole fractions they stand '
        'for, and every model with itself after other models were asked '
        'about the same slag. Distinct by (temperature, composition).')
ASSUMPTIONS = ['the coefficients of the correlations are those in the code '
               'as it was found; oxides without a place in a model are '
               'handled as the model normalises them',
               'slags without network modifiers and amphoterics are not '
               'judged (the Urbain model is not defined there)']
# Without a place in any model, and with a place in that of Riboud only
FOREIGN = ['Cr2O3', 'V2O5', 'SO3', 'NiO', 'S']
SINGLE = ['FeO1.5', 'PO2.5', 'BO1.5']
MASS = {k: formula.molar_mass(formula.read(k))
        for k in SLAG + FOREIGN}
MODELS = {'urbain': (slags.UrbainViscosityTx(), slags.UrbainViscosityTy()),
          'riboud': (slags.RiboudViscosityTx(), slags.RiboudViscosityTy())}


def poly(c, a):
    return sum(v * a ** k for k, v in enumerate(c))


def urbain(T, x):
    t = sum(x.values())
    x = {k: v / t for k, v in x.items()}
    g = lambda k: x.get(k, 0.0)
    f = 1 + g('CaF2') + g('Fe2O3') + g('TiO2') + g('ZrO2')
    glass = (g('SiO2') + g('P2O5')) / f
    mod = (g('CaO') + g('MgO') + g('Na2O') + g('K2O') + 3 * g('CaF2') +
           g('FeO') + g('MnO') + 2 * g('TiO2') + 2 * g('ZrO2')) / f
    amph = (g('Al2O3') + g('Fe2O3') + g('B2O3')) / f
    a = mod / (mod + amph)
    B = poly([poly([13.8, 39.9355, -44.049], a),
              poly([30.481, -117.1505, 129.9978], a),
              poly([-40.9429, 234.0846, -300.04], a),
              poly([60.7619, -153.9276, 211.1616], a)], glass)
    return 0.1 * math.exp(-11.6725 - 0.2693 * B) * T * math.exp(1e3 * B / T)


def riboud(T, x):
    n = dict(x)
    for a, b in (('P2O5', 'PO2.5'), ('Fe2O3', 'FeO1.5'), ('B2O3', 'BO1.5')):
        if a in n:
            n[b] = n.get(b, 0.0) + 2 * n.pop(a)
    for k in FOREIGN:
        n.pop(k, None)
    t = sum(n.values())
    n = {k: v / t for k, v in n.items()}
    g = lambda *ks: sum(n.get(k, 0.0) for k in ks)
    cao = g('CaO', 'MgO', 'FeO1.5', 'FeO', 'MnO', 'BO1.5')
    al, caf, na = g('Al2O3'), g('CaF2'), g('Na2O', 'K2O')
    lnA = -17.51 + 1.73 * cao + 5.82 * caf + 7.02 * na - 33.76 * al
    B = 31140 - 23896 * cao - 46356 * caf - 39159 * na + 68833 * al
    return 0.1 * T * math.exp(lnA + B / T)


def case(ctx, rng, i):
    x = fractions(rng, SLAG, rng.randint(2, 10))
    if rng.random() < 0.7:
        x['SiO2'] = sum(x.values()) * rng.uniform(0.1, 2)
    if sum(v for k, v in x.items() if k not in ('SiO2', 'P2O5')) < \
            1e-6 * sum(x.values()):
        x['CaO'] = sum(x.values())
    if rng.random() < 0.25:
        for k in rng.sample(FOREIGN, rng.randint(1, 2)):
            x[k] = rng.uniform(0.001, 0.3) * sum(x.values())
        ctx.ev('foreign-oxides')
    T = rng.uniform(1100, 2700)
    ctx.info({'T': T, 'x': x})
    kept = dict(x)
    both = want = {'urbain': urbain(T, x), 'riboud': riboud(T, x)}
    w = {k: v * MASS[k] for k, v in x.items()}
    f = rng.choice([1.0, 1 / sum(w.values()), 100 / sum(w.values())])
    y = {k: v * f for k, v in w.items()}
    ykept = dict(y)
    for _ in range(6):
        k = rng.choice(sorted(MODELS))
        tx, ty = MODELS[k]
        if rng.random() < 0.5:
            got = tx(T=T, x=x)
            ctx.check(isclose(got, want[k], 1e-8, 0.0), 'mole-' + k, lambda:
                      '%s: viscosity %r, expected %r' % (k, got, want[k]))
            ctx.ev('mole-' + k)
        else:
            # the molar masses of the package are slightly different
            got = ty(T=T, y=y)
            ctx.check(isclose(got, want[k], 2e-3, 0.0), 'mass-' + k, lambda:
                      '%s from mass fractions: viscosity %r, expected %r' % (
                          k, got, want[k]))
            ctx.ev('mass-' + k)
        ctx.check(x == kept and y == ykept, 'changed', lambda: '%s changed '
                  'the composition it was given: %r' % (k, set(x) ^
                                                        set(kept)))
    for k, (tx, ty) in MODELS.items():
        s = rng.uniform(0.01, 100)
        items = [(a, b * s) for a, b in x.items()]
        rng.shuffle(items)
        got = tx(T=T, x=dict(items))
        ctx.check(isclose(got, want[k], 1e-8, 0.0), 'scale-' + k, k +
                  ' depends on the sum or order of the fractions')
        z = dict(x)
        for o in SLAG:
            if rng.random() < 0.5:
                z.setdefault(o, 0.0)
        ctx.check(isclose(tx(T=T, x=z), want[k], 1e-8, 0.0), 'absent-' + k,
                  k + ' depends on oxides that are absent')
        a, b = ty(T=T, y=y), ty(T=T, y={o: v * s for o, v in y.items()})
        ctx.check(isclose(a, b, 1e-8, 0.0), 'scale-mass-' + k, k +
                  ' depends on the sum of the mass fractions')
        ctx.ev('invariances')
    # questions which resemble the last one
    for _ in range(3):
        e = 10 ** rng.uniform(-6, -1)
        T2, x2 = T, dict(x)
        if rng.random() < 0.4:
            T2 = T * (1 + rng.choice([-1, 1]) * e)
        else:
            o = rng.choice(SLAG)
            x2[o] = x2.get(o, 0.0) + e * sum(x.values())
        y2 = {o: v * MASS[o] * f for o, v in x2.items()}
        for k, ref in (('urbain', urbain), ('riboud', riboud)):
            tx, ty = MODELS[k]
            got, w2 = tx(T=T2, x=x2), ref(T2, x2)
            ctx.check(isclose(got, w2, 1e-8, 0.0), 'mole-' + k, lambda:
                      '%s, asked again: viscosity %r, expected %r' % (
                          k, got, w2))
            r, want_r = ty(T=T2, y=y2) / ty(T=T, y=y), w2 / want[k]
            ctx.check(abs(r / want_r - 1) <= 1e-8 + 0.02 * e, 'near-mass-' +
                      k, lambda: '%s from mass fractions: %r times as much '
                      'at %r and %r, expected %r' % (k, r, T2, y2, want_r))
        ctx.ev('near-questions')
    # single cation formulas, beside or in place of those with two
    x = dict(x)
    for o in rng.sample(SINGLE, rng.randint(1, 3)):
        x[o] = rng.random() * sum(x.values())
        if rng.random() < 0.5:
            x.pop({'FeO1.5': 'Fe2O3', 'PO2.5': 'P2O5',
                   'BO1.5': 'B2O3'}[o], None)
    if sum(v for k, v in x.items() if k not in
           ['SiO2', 'P2O5'] + SINGLE + FOREIGN) > 1e-6 * sum(x.values()):
        for k, ref in (('urbain', urbain), ('riboud', riboud)):
            got, want = MODELS[k][0](T=T, x=x), ref(T, x)
            ctx.check(isclose(got, want, 1e-8, 0.0), 'single-' + k, lambda:
                      '%s of %r: viscosity %r, expected %r' % (k, x, got,
                                                               want))
        ctx.ev('single-cations')
    ctx.eval((T, tuple(x.items())))
    ctx.sample({'T': T, 'x': x, 'viscosities': both}, 3)


def run(ctx):
    for k in ('mole-urbain', 'mole-riboud', 'mass-urbain', 'mass-riboud',
              'invariances', 'near-questions', 'foreign-oxides',
              'single-cations'):
        ctx.require(k, 100)
    ctx.run('slag', ctx.n(24000, 100000), case)
