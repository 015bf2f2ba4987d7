"""The shipped fluids say what their data sets say."""
import bisect
import warnings

from auxi.tools.chemistry import thermochemistry as th
from auxi.tools.materialphysicalproperties import gases, liquids
from auxi.tools.materialphysicalproperties.core import StateOfMatter
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
from rt.atoms import MASS

TARGETS = ['auxi/tools/materialphysicalproperties/gases.py',
           'auxi/tools/materialphysicalproperties/liquids.py',
           'auxi/tools/materialphysicalproperties/core.py',
           'auxi/tools/materialphysicalproperties/idealgas.py',
           'auxi/tools/materialphysicalproperties/polynomial.py']
RULE = ('Random fluids, properties and temperatures in the range of the data '
        'set; the property must lie between the neighbouring data, apart '
        'from the scatter of the fit. Gases also against the gas law, and '
        'their heat capacities against the thermochemical data. The data '
        'sets against themselves, and models fitted to them again. Distinct '
        'by fluid, property and temperature.')
ASSUMPTIONS = ['the shipped data sets, which describe fluids at 1 atm, are '
               'right where they agree with themselves',
               'models may differ from data by 3 %, derived properties by '
               '5 %, hot gases from the gas law by 1 % and cold ones by 4 %, the expansion of water by 2 % of its largest value']

NAMES = {'Air': 'air', 'Ar': 'argon', 'NH3': 'ammonia',
         'CO2': 'carbon_dioxide', 'CO': 'carbon_monoxide', 'N2': 'nitrogen',
         'O2': 'oxygen', 'H2O': 'water_vapour'}
ATOMS = {'Ar': {'Ar': 1}, 'NH3': {'N': 1, 'H': 3}, 'CO2': {'C': 1, 'O': 2},
         'CO': {'C': 1, 'O': 1}, 'N2': {'N': 2}, 'O2': {'O': 2},
         'H2O': {'H': 2, 'O': 1}}
THERMO = {'CO2': 'CO2[G]', 'CO': 'CO[G]', 'N2': 'N2[G]', 'O2': 'O2[G]',
          'H2O': 'H2O[G]', 'water': 'H2O[L]', 'NH3': 'NH3[G]'}
GAS = ('rho', 'Cp', 'mu', 'nu', 'k', 'alpha')
TOL = {'alpha': 0.05, 'nu': 0.05}
R = 8.31446261815324


def molar_mass(g):
    if g == 'Air':
        return 28.9645
    return sum(MASS[e] * n for e, n in ATOMS[g].items())


def fluid(g):
    """(material, its data sets)"""
    if g == 'water':
        return liquids.h2o, [liquids.h2o_dataset]
    n = NAMES[g]
    return getattr(gases, n), list(getattr(gases, n + '_datasets').values())


def column(ctx, ds, name):
    ctx.check(name in ds.data, 'data-column', lambda: '%s has no %s' % (
        ds.name, name))
    out = []
    for v in ds.data[name]:
        try:
            out.append(float(v))
        except (TypeError, ValueError):
            ctx.check(False, 'data-number', '%s of %s: %r is no number' % (
                name, ds.name, v))
    ctx.check(ds.data[name].dtype.kind in 'fiu', 'data-number', lambda:
              '%s of %s is read as %s' % (name, ds.name, ds.data[name].dtype))
    return out


def shipped(ctx, rng, g):
    m, dss = fluid(g)
    ctx.info({'fluid': g})
    if g != 'water':
        ctx.check(gases.materials[g] is m, 'registry', 'materials[%r] is %r'
                  % (g, gases.materials[g].name))
    ctx.check(m.mstate == (StateOfMatter.liquid if g == 'water' else
                          StateOfMatter.gas), 'state', lambda:
              '%s is %r' % (g, m.mstate))
    for ds in dss:
        T = column(ctx, ds, 'T')
        ctx.check(all(a < b for a, b in zip(T, T[1:])) and T[0] > 0,
                  'data-order', 'temperatures of %s: %r' % (ds.name, T))
        c = {p: column(ctx, ds, p) for p in GAS + ('Pr',)}
        for i, t in enumerate(T):
            d = {p: c[p][i] for p in c}
            for p, want in (('nu', d['mu'] / d['rho']),
                            ('alpha', d['k'] / d['rho'] / d['Cp']),
                            ('Pr', d['Cp'] * d['mu'] / d['k'])):
                ctx.check(abs(d[p] / want - 1) < 0.04, 'data-relation',
                          lambda: '%s of %s at %s K is %r, but %r from the '
                          'others' % (p, ds.name, t, d[p], want))
                ctx.ev('data')
        # every column can be described by a model; the shipped ones again
        for p in c:
            mod = PolynomialModelT.create(ds, p, 2)
            mean = sum(mod(T=t) for t in T) / len(T)
            ctx.check(abs(mean / (sum(c[p]) / len(T)) - 1) < 1e-6, 'mean',
                      lambda: 'the model of %s of %s is %r on average' % (
                          p, ds.name, mean))
        for p in GAS + ('beta',):
            mod = getattr(m, p)
            if not isinstance(mod, PolynomialModelT):
                continue
            ctx.check(mod.symbol == p, 'symbol', '%s of %s is of %r' % (
                p, g, mod.symbol))
            if ds.name not in mod.datasets:
                continue
            ctx.check(mod.material.lower() == ds.material.lower(), 'material',
                      lambda: '%s of %s describes %r' % (p, g, mod.material))
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                new = PolynomialModelT.create(ds, p, len(mod._coeffs) - 1)
            top = max(abs(v) for v in column(ctx, ds, p))
            for t in T:
                ctx.check(abs(new(T=t) - mod(T=t)) <= 1e-4 * top, 'refit',
                          lambda: '%s of %s at %s K is %r, fitted again %r' %
                          (p, g, t, mod(T=t), new(T=t)))
                ctx.ev('refit')


def case(ctx, rng, i):
    g = rng.choice(sorted(NAMES) + ['water'])
    m, dss = fluid(g)
    ds = rng.choice(dss)
    T = [float(t) for t in ds.data['T']]
    asked = []
    for _ in range(rng.randint(1, 6)):
        t = rng.choice([rng.uniform(T[0], T[-1]), rng.choice(T)])
        p = rng.choice(GAS + ('beta',))
        v = getattr(m, p)(T=t)
        asked.append((p, t, v))
        ctx.info({'fluid': g, 'asked': asked})
        if p == 'beta' and g != 'water':
            ctx.close(v, 1 / t, 'expansion', 'beta of %s at %r K' % (g, t))
            continue
        col = [float(x) for x in ds.data[p]]
        j = min(max(bisect.bisect(T, t), 1), len(T) - 1)
        pts = [col[j - 1], col[j]]
        if t == T[j - 1]:
            pts.append(col[max(j - 2, 0)])
        lo, hi = min(pts), max(pts)
        tol = TOL.get(p, 0.03)
        a = b = 0.0
        if p == 'beta':
            a = b = 0.02 * max(abs(x) for x in col)
        else:
            a, b = tol * lo, tol * hi
        ctx.check(lo - a <= v <= hi + b, 'data', lambda: '%s of %s at %r K '
                  'is %r, data next to it are %r' % (p, g, t, v, pts))
        ctx.ev('compared')
        if g != 'water' and p == 'rho':
            # far from condensing one per cent, near to it four
            hot = t >= (600.0 if g == 'H2O' else 450.0)
            ctx.check(abs(v / (101325.0 * molar_mass(g) / 1000 / R / t) - 1)
                      < (0.01 if hot else 0.04), 'gas-law', lambda: 'density of %s at %r K is '
                      '%r, that of an ideal gas %r' % (
                          g, t, v, 101325.0 * molar_mass(g) / 1000 / R / t))
            ctx.ev('gas-law')
        c = THERMO.get(g)
        if p == 'Cp' and c and t >= 298.15:
            f, ph = c[:-1].split('[')
            if f in th.compounds and ph in th.compounds[f].get_phase_list():
                want = th.Cp(c, t - 273.15, 1.0) * 3.6e6
                tol = 0.12 if g in ('H2O', 'CO2', 'NH3', 'CO') else 0.04
                if g == 'water' and t > 400:
                    continue
                ctx.check(abs(v / want - 1) < tol, 'thermochemistry', lambda:
                          'Cp of %s at %r K is %r, thermochemical data %r' %
                          (g, t, v, want))
                ctx.ev('thermochemistry')
    for p, t, v in asked:
        ctx.check(getattr(m, p)(T=t) == v, 'repeat', lambda: '%s of %s at '
                  '%r K was %r, now %r' % (p, g, t, v, getattr(m, p)(T=t)))
    ctx.eval((g, asked))


def run(ctx):
    ctx.require('compared', 1000)
    ctx.require('data', 300)
    ctx.require('refit', 300)
    ctx.require('gas-law', 100)
    ctx.require('thermochemistry', 50)
    ctx.each('shipped', sorted(NAMES) + ['water'], shipped)
    ctx.run('use', ctx.n(12000, 60000), case)
