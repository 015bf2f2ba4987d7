"""Constants: values, relations, and that nothing changes them."""
import math

from auxi.tools import physicalconstants as const
from auxi.tools.chemistry import stoichiometry as st
from auxi.tools.chemistry import thermochemistry as th
from auxi.tools.materialphysicalproperties import coals, idealgas
from auxi.tools.transportphenomena import dimensionlessquantities as dq
from auxi.modelling.process.materials.core import Material
from auxi.tools.materialphysicalproperties.core import StateOfMatter
from auxi.tools.transportphenomena.heattransfer.naturalconvection import (
    IsothermalFlatSurface)
from rt import fluids
from rt.atoms import MASS
from rt.core import isclose, log_uniform

TARGETS = ['auxi/tools/physicalconstants.py',
           'auxi/tools/chemistry/stoichiometry.py',
           'auxi/tools/materialphysicalproperties/idealgas.py',
           'auxi/tools/materialphysicalproperties/coals.py',
           'auxi/tools/chemistry/thermochemistry.py',
           'auxi/tools/transportphenomena/dimensionlessquantities.py']
RULE = ('The constants are compared with the 2019 definitions of the SI and '
        'the CODATA 2018 values and with one another, before, among and '
        'after random use of property models, stoichiometry and '
        'dimensionless numbers, which must be the same computed by hand '
        'from the constants. Distinct by computation.')
ASSUMPTIONS = ['the atomic mass constant has no reference and may be any '
               'CODATA value since 2010']

E = 1.602176634e-19
DEFINED = {'c': 299792458.0, 'h': 6.62607015e-34, 'N_A': 6.02214076e23,
           'k_B': 1.380649e-23, 'g': 9.80665, 'T_STP': 273.15,
           'P_STP': 100000.0, 'T_NTP': 293.15, 'P_NTP': 101325.0}


def einstein(theta, T):
    """(u, c) of an oscillator, in units of R."""
    z = theta / T
    return theta / math.expm1(z), (z / (2 * math.sinh(z / 2))) ** 2


def values():
    return {n: v for n, v in vars(const).items() if not n.startswith('_') and
            isinstance(v, (int, float)) and not isinstance(v, bool)}


def judge(ctx, when):
    def near(name, want, rel, what):
        got = getattr(const, name, None)
        ctx.check(isinstance(got, (int, float)) and
                  abs(got / want - 1) <= rel, 'value', lambda: '%s: %s is '
                  '%r, %s is %r' % (when, name, got, what, want))
        ctx.ev('constants')
    for n, v in DEFINED.items():
        near(n, v, 1e-12, 'the definition')
    near('h_bar', const.h / (2 * math.pi), 1e-9, 'h / 2 pi')
    near('R', const.k_B * const.N_A, 1e-9, 'k N')
    near('F', const.N_A * E, 1e-9, 'e N')
    near('σ', 2 * math.pi ** 5 * const.k_B ** 4 / (15 * const.h ** 3 *
         const.c ** 2), 1e-9, '2 pi^5 k^4 / 15 h^3 c^2')
    near('m_u', 1e-3 / const.N_A, 1.2e-7, 'one gram per N')
    near('G', 6.67430e-11, 1e-5, 'the CODATA 2018 value')


def once(ctx, rng, item):
    ctx.info('the constants')
    judge(ctx, 'at first')


def surface(ctx, rng):
    """Natural convection, of a fluid that may refuse the temperature."""
    asked = [0]
    stop = rng.choice([0, 0, 1, 2, 3, 4])

    def prop(v):
        def f(**state):
            asked[0] += 1
            if asked[0] == stop:
                raise rng.choice([ValueError, KeyError, ArithmeticError])(
                    'refused')
            return v
        return f
    fluid = Material('fluid', StateOfMatter.gas, {
        k: prop(log_uniform(rng, *v)) for k, v in dict(
            beta=(1e-5, 1e-2), nu=(1e-7, 1e-3), alpha=(1e-7, 1e-3),
            k=(1e-2, 1.0)).items()})
    s = IsothermalFlatSurface(fluid, rng.random() < 0.5)
    theta = rng.choice([0.0, 30.0, -30.0, 45.0, -45.0, 90.0, -90.0,
                        rng.uniform(-90, 90)])
    try:
        rng.choice([s.Nu_x, s.Nu_L, s.h_x, s.h_L])(
            log_uniform(rng, 0.01, 5), theta, rng.uniform(250, 600),
            T=rng.uniform(250, 600))
        ctx.ev('surfaces')
    except (ValueError, KeyError, ArithmeticError):
        ctx.ev('surfaces-refused')


def case(ctx, rng, i):
    before = values()
    r = lambda a, b: log_uniform(rng, a, b)
    mm, P, T = r(1, 500), r(1e2, 1e7), rng.uniform(50, 3000)
    ctx.info({'molar mass': mm, 'P': P, 'T': T})
    # The gas constant: density of an ideal gas, molar volume
    rho = idealgas.RhoT(mm, P)(T=T)
    ctx.close(rho, mm / 1000.0 * P / (const.k_B * const.N_A * T),
              'gas-constant', 'density of an ideal gas', rel=1e-8)
    ctx.close(idealgas.RhoT(mm, const.P_STP)(T=const.T_STP),
              mm / 22.71095464, 'molar-volume', 'density at STP', rel=1e-8)
    ctx.close(idealgas.RhoTP(mm)(T=const.T_NTP, P=const.P_NTP),
              mm / (8.31446261815324 * 293.15 / 101.325), 'molar-volume',
              'density at NTP', rel=1e-8)
    w = [rng.random() + 1e-3 for _ in range(3)]
    x = {f: v / sum(w) for f, v in zip(('CO', 'N2', 'O2'), w)}
    mean = sum(v * st.molar_mass(f) for f, v in x.items())
    ctx.close(idealgas.RhoTPx()(T=T, P=P, x=x), mean / 1000.0 * P / (
        const.k_B * const.N_A * T), 'gas-constant', 'density of a gas '
              'mixture', rel=1e-8)
    # Coal: three vibrations of each atom
    y = fluids.coal(rng)
    n = 1000 * sum(v / st.molar_mass(k[2:]) for k, v in y.items())
    u, c = zip(*[einstein(380.0, T), einstein(1800.0, T)])
    ctx.close(coals.DafCpTy()(T=T, **y), n * const.R * (c[0] + 2 * c[1]),
              'gas-constant', 'heat capacity of coal', rel=1e-8)
    ctx.close(coals.DafHTy()(T=T, **y), n * const.R * (u[0] + 2 * u[1]),
              'gas-constant', 'enthalpy of coal', rel=1e-8)
    # Magnetism: nothing but the magnetic part is asked
    Tc, b0, pm = rng.uniform(100, 2000), rng.uniform(0.1, 5), rng.choice(
        [0.28, 0.4])
    T2 = Tc * rng.uniform(1.01, 1.5)
    ph = th.Phase({'Symbol': 'S', 'DHref': 0.0, 'Sref': 0.0, 'Cp_records': {
        '6000': {'Tmin': 298.15, 'Tmax': 6000.0, 'Terms': [
            {'Coefficient': 0.0, 'Exponent': 0.0}]}},
        'magnetic': {'Tc': Tc, 'beta0': b0, 'p': pm}})
    tau = T2 / Tc
    ctx.close(ph.Cp(T2), const.R * math.log(b0 + 1) * 2 * (
        tau ** -5 + tau ** -15 / 3 + tau ** -25 / 5) / (
            518 / 1125 + 11692 / 15975 * (1 / pm - 1)), 'gas-constant',
              'magnetic heat capacity', rel=1e-8)
    ctx.ev('dependents', 5)
    # Standard gravity
    L, Ts, Tf, al, be, nu = (r(1e-3, 10), rng.uniform(300, 900),
                             rng.uniform(200, 300), r(1e-7, 1e-3),
                             r(1e-5, 1e-2), r(1e-7, 1e-3))
    ctx.close(dq.Ra(L, Ts, Tf, al, be, nu),
              9.80665 * be * (Ts - Tf) * L ** 3 / nu / al, 'gravity',
              'the Rayleigh number', rel=1e-9)
    # Atoms: a mole weighs what its atoms weigh
    el = rng.choice(sorted(MASS))
    n = rng.randint(1, 40)
    m = st.molar_mass('%s%d' % (el, n) if n > 1 else el)
    ctx.close(m / const.N_A, n * MASS[el] * const.m_u, 'atom',
              'the mass of %d %s' % (n, el), rel=1e-5)
    name, model, state = rng.choice(fluids.models(rng))
    model(**state)
    ctx.ev('uses')
    surface(ctx, rng)
    if rng.random() < 0.3:                 # a question that is refused
        state = dict(state)
        k = rng.choice(sorted(state))
        state[k] = rng.choice([None, -5.0, 'x', {}])
        try:
            model(**state)
        except Exception:
            ctx.ev('refused')
    now = values()
    ctx.check(now == before, 'changed', lambda: 'constants changed: %r' % {
        k: (before.get(k), now.get(k)) for k in set(now) | set(before)
        if now.get(k) != before.get(k)})
    if i % 10 == 0:
        judge(ctx, 'after %d uses' % i)
    ctx.eval((mm, P, T, el, n, name))


def run(ctx):
    ctx.require('constants', 15)
    ctx.require('uses', 200)
    ctx.require('surfaces', 200)
    ctx.require('surfaces-refused', 200)
    ctx.require('refused', 200)
    ctx.require('dependents', 500)
    ctx.each('constants', [0], once)
    ctx.run('use', ctx.n(12000, 60000), case)
