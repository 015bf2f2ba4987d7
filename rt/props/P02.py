"""The ideal gas models obey the ideal gas law."""
from auxi.tools.materialphysicalproperties import idealgas
from rt import formula
from rt.core import log_uniform, isclose
from rt.fluids import GAS, fractions

TARGETS = ['auxi/tools/materialphysicalproperties/idealgas.py']
RULE = ('Random temperatures, pressures, molar masses and compositions; '
        'densities from the three models compared with the ideal gas law, '
        'with each other, and along isobars, isotherms and mixing lines; the '
        'expansion coefficient with the slope of the density. Distinct by '
        'state.')
ASSUMPTIONS = ['compositions are mole fractions that add up to one']
R = 8.314462618
MORE = ['He', 'H2', 'CH4', 'C2H6', 'SO2', 'Cl2', 'NO', 'SF6', 'Xe', 'HCl']


def mass(f):
    return formula.molar_mass(formula.read(f))


def case(ctx, rng, i):
    T, P = log_uniform(rng, 20, 5000), log_uniform(rng, 1, 1e8)
    if rng.random() < 0.05:     # no limit but zero is stated
        T, P = log_uniform(rng, 1e-4, 1e7), log_uniform(rng, 1e-9, 1e12)
        ctx.ev('extreme-states')
    x = fractions(rng, GAS + MORE, rng.randint(1, 6))
    t = sum(x.values())
    x = {k: v / t for k, v in x.items()}
    ctx.info({'T': T, 'P': P, 'x': x})
    mm = sum(v * MASS[k] for k, v in x.items())
    want = P * mm / 1000 / (R * T)
    kept = dict(x)
    tpx = idealgas.RhoTPx()
    a = tpx(T=T, P=P, x=x)
    b = idealgas.RhoTP(mm)(T=T, P=P)
    m = idealgas.RhoT(mm, P)
    c = m(T=T)
    ctx.check(tpx(T=T, P=0.0, x=x) == idealgas.RhoTP(mm)(T=T, P=0.0) == 0.0,
              'vacuum', 'a vacuum weighs something')
    for k, v in (('RhoTPx', a), ('RhoTP', b), ('RhoT', c)):
        ctx.check(isclose(v, want, 2e-5), 'law', lambda: '%s: density %r, '
                  'expected %r' % (k, v, want))
    ctx.check(isclose(a, b, 2e-5) and isclose(b, c, 1e-9), 'agree', 'the '
              'models give %r, %r and %r' % (a, b, c))
    ctx.check(x == kept, 'changed', 'the composition was changed')
    # along isobars and isotherms
    f = log_uniform(rng, 0.1, 10)
    ctx.check(isclose(tpx(T=T, P=P * f, x=x), a * f, 1e-9), 'isotherm',
              'density is not proportional to pressure')
    ctx.check(isclose(tpx(T=T * f, P=P, x=x), a / f, 1e-9) and
              isclose(m(T=T * f), c / f, 1e-9), 'isobar', 'density is not '
              'inversely proportional to temperature')
    # questions which resemble the last one
    for _ in range(2):
        e = 10 ** rng.uniform(-7, -1)
        T2, P2, x2 = T, P, dict(x)
        which = rng.randrange(3)
        if which == 0:
            T2 = T * (1 + e)
        elif which == 1:
            P2 = P * (1 - e)
        else:
            g, k = max(x, key=x.get), rng.choice(GAS + MORE)
            x2[g] -= e * x[g]
            x2[k] = x2.get(k, 0.0) + e * x[g]
        m2 = sum(v * MASS[k] for k, v in x2.items())
        r = P2 / P * T / T2
        for k, v in (('RhoTPx', tpx(T=T2, P=P2, x=x2) / a / r * mm / m2),
                     ('RhoTP', idealgas.RhoTP(m2)(T=T2, P=P2) / b / r * mm /
                      m2),
                     ('RhoT', idealgas.RhoT(m2, P2)(T=T2) / c / r * mm / m2)):
            ctx.check(abs(v - 1) <= 1e-11 + 3e-3 * e, 'near', lambda: '%s: '
                      'density off by a factor of %r at %r, asked after %r' %
                      (k, v, (T2, P2, x2), (T, P, x)))
        ctx.ev('near-questions')
    # along a mixing line
    y = fractions(rng, GAS + MORE, rng.randint(1, 6))
    t = sum(y.values())
    y = {k: v / t for k, v in y.items()}
    w = rng.random()
    z = {k: w * x.get(k, 0.0) + (1 - w) * y.get(k, 0.0)
         for k in list(x) + list(y)}
    ctx.check(isclose(tpx(T=T, P=P, x=z), w * a + (1 - w) * tpx(T=T, P=P,
                                                               x=y), 1e-9),
              'mixing', 'the density of a mixture is not that of its parts')
    # the expansion coefficient is -1/rho drho/dT
    beta = idealgas.BetaT()(T=T)
    d = T * 1e-4
    slope = -(m(T=T + d) - m(T=T - d)) / (2 * d) / c
    ctx.check(isclose(beta, slope, 1e-6), 'expansion', lambda: 'expansion '
              'coefficient %r, density says %r' % (beta, slope))
    ctx.check(m.calculate(T=T) == c and tpx.calculate(T=T, P=P, x=x) == a,
              'call', 'calling a model and calculate differ')
    ctx.ev('states')
    ctx.eval((T, P, tuple(x.items())))
    ctx.sample({'T': T, 'P': P, 'x': x, 'density': a}, 3)


MASS = {}


def run(ctx):
    for k in GAS + MORE:
        MASS[k] = mass(k)
    ctx.require('states', 100)
    ctx.require('near-questions', 100)
    ctx.run('state', ctx.n(16000, 80000), case)
