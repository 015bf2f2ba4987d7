"""Property models with valid states, and independent molar masses."""
from auxi.tools.materialphysicalproperties import (gases, idealgas, slags,
                                                   coals)
from auxi.tools.materialphysicalproperties.liquids import h2o

GAS = ['Ar', 'NH3', 'CO2', 'CO', 'N2', 'O2', 'H2O']
LIMITS = {'Air': (100, 1500), 'Ar': (150, 700), 'NH3': (240, 473),
          'CO2': (220, 600), 'CO': (250, 1000), 'N2': (100, 1600),
          'O2': (100, 1000), 'H2O': (373.15, 1073.15)}
SLAG = ['SiO2', 'CaO', 'MgO', 'Al2O3', 'FeO', 'MnO', 'Na2O', 'K2O', 'CaF2',
        'Fe2O3', 'TiO2', 'ZrO2', 'B2O3', 'P2O5']


def fractions(rng, names, n=None, zeros=True):
    names = rng.sample(names, n or rng.randint(1, len(names)))
    v = [rng.random() for _ in names]
    if zeros and len(v) > 1 and rng.random() < 0.3:
        v[rng.randrange(len(v))] = 0.0
    t = sum(v)
    scale = rng.choice([1.0, 1.0, 100.0, rng.uniform(0.01, 1000)])
    return {k: x / t * scale for k, x in zip(names, v)}


def gas_T(rng, names):
    lo = max(LIMITS[n][0] for n in names)
    hi = min(LIMITS[n][1] for n in names)
    return rng.uniform(lo, hi) if lo < hi else None


def coal(rng):
    r = rng.random()
    if r < 0.1:
        y = [1.0, 0.0, 0.0, 0.0, 0.0]
    else:
        y = [rng.uniform(0.4, 1), rng.uniform(0, 0.1), rng.uniform(0, 0.4),
             rng.uniform(0, 0.03), rng.uniform(0, 0.03)]
        if r < 0.3:
            y[rng.randrange(1, 5)] = 0.0
        t = sum(y)
        y = [v / t for v in y]
    return dict(zip(('y_C', 'y_H', 'y_O', 'y_N', 'y_S'), y))


def models(rng):
    """[(name, model, valid state)] of every kind of model."""
    x = fractions(rng, GAS, rng.randint(1, 4))
    T = None
    while T is None:
        x = fractions(rng, GAS, rng.randint(1, 4))
        T = gas_T(rng, x)
    s = fractions(rng, SLAG, rng.randint(3, 10))
    s['CaO'] = s.get('CaO') or max(s.values())
    y = dict(s)
    Ts = rng.uniform(1200, 2500)
    Tg = rng.uniform(50, 3000)
    P = rng.uniform(1e2, 1e7)
    mm = rng.uniform(2, 200)
    c = coal(rng)
    out = [('BetaT', idealgas.BetaT(), {'T': Tg}),
           ('RhoT', idealgas.RhoT(mm, P), {'T': Tg}),
           ('RhoTP', idealgas.RhoTP(mm), {'T': Tg, 'P': P}),
           ('RhoTPx', idealgas.RhoTPx(), {'T': Tg, 'P': P, 'x': x}),
           ('WilkeMuTx', gases.WilkeMuTx(), {'T': T, 'x': x}),
           ('HerningZippererMuTx', gases.HerningZippererMuTx(),
            {'T': T, 'x': x}),
           ('IdealCpTx', gases.IdealCpTx(), {'T': T, 'x': x}),
           ('UrbainViscosityTx', slags.UrbainViscosityTx(),
            {'T': Ts, 'x': s}),
           ('UrbainViscosityTy', slags.UrbainViscosityTy(),
            {'T': Ts, 'y': y}),
           ('RiboudViscosityTx', slags.RiboudViscosityTx(),
            {'T': Ts, 'x': s}),
           ('RiboudViscosityTy', slags.RiboudViscosityTy(),
            {'T': Ts, 'y': y}),
           ('DafCpTy', coals.DafCpTy(), dict(c, T=rng.uniform(200, 2500))),
           ('DafHTy', coals.DafHTy(), dict(c, T=rng.uniform(200, 2500)))]
    g = rng.choice(sorted(LIMITS))
    for p in ('Cp', 'mu', 'k'):
        out.append(('%s of %s' % (p, g), getattr(gases.materials[g], p),
                    {'T': gas_T(rng, [g])}))
    p = rng.choice(['beta', 'Cp', 'k', 'mu', 'nu', 'rho'])
    out.append((p + ' of water', getattr(h2o, p),
                {'T': rng.uniform(290, 500)}))
    return out
