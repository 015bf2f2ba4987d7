"""Natural convection at flat isothermal surfaces."""
import cmath
import math

from auxi.tools.transportphenomena.heattransfer import naturalconvection as nc
from auxi.tools.materialphysicalproperties.gases import materials
from auxi.tools.materialphysicalproperties.liquids import h2o
from rt.core import log_uniform, isclose

TARGETS = ['auxi/tools/transportphenomena/heattransfer/naturalconvection.py']
RULE = ('Random surfaces (length, inclination including the limits of every '
        'region, hot and cold) in stub fluids with chosen properties and in '
        'the fluids that come with the package; Nusselt numbers and heat '
        'transfer coefficients compared with the correlation that the '
        'inclination and the Rayleigh number call for. Distinct by (fluid, '
        'surface).')
ASSUMPTIONS = ['of the heat transfer at a cold surface only is judged what '
               'does not depend on which side of the surface is meant',
               'within 1e-6 of the Rayleigh number at which the correlation '
               'changes, either is accepted']


class Fluid:
    """A fluid with known properties, which records what it is asked."""

    def __init__(self, rng):
        self.c = {k: (log_uniform(rng, a, b), rng.uniform(-1e-4, 1e-4))
                  for k, a, b in (('nu', 1e-7, 1e-3), ('alpha', 1e-7, 1e-3),
                                  ('beta', 1e-5, 5e-3), ('k', 0.01, 1.0))}

    def get(self, p, T):
        a, b = self.c[p]
        return a * (1 + b * (T - 300.0))

    def nu(self, T):
        return self.get('nu', T)

    def alpha(self, T):
        return self.get('alpha', T)

    def beta(self, T):
        return self.get('beta', T)

    def k(self, T):
        return self.get('k', T)


def correlations(theta, Ra, Pr):
    """The Nusselt numbers acceptable at this inclination."""
    out = []
    for f in (1 - 1e-6, 1.0, 1 + 1e-6):
        ra = Ra * f
        if theta <= -52:
            nu = 0.59 * Ra ** 0.25 if ra <= 1e7 else 0.1 * Ra ** (1 / 3.0)
        elif theta == 0:
            nu = 0.678 * Ra ** 0.25 * (Pr / (0.952 + Pr)) ** 0.25
            if abs(Ra / 1e11 - 1) < 1e-6:
                out.append(0.68 + 0.67 * Ra ** 0.25 / (
                    1 + (0.492 / Pr) ** 0.5625) ** (4 / 9.0))
        elif theta < 88:
            nu = 0.68 + 0.67 * Ra ** 0.25 / (
                1 + (0.492 / Pr) ** 0.5625) ** (4 / 9.0)
        else:
            nu = 0.58 * Ra ** 0.2
        out.append(nu)
    return out


def inclination(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice([-90, -60, -52, -45, 0, 45, 88, 89, 90, 0.0, -90.0,
                           -60.0, -52.0, -45.0, 45.0, 88.0, 89.0, 90.0])
    if r < 0.7:
        b = rng.choice([-60, -52, -45, 0, 45, 88, 89])
        return b + rng.choice([-1, 1]) * rng.choice([1e-9, 1e-3, 0.3])
    return rng.uniform(-90, 90)


def judge(ctx, fluid, isgas, L, theta, Ts, Tf, surf, what):
    nux = surf.Nu_x(L, theta, Ts, T=Tf)
    nul = surf.Nu_L(L, theta, Ts, T=Tf)
    hx = surf.h_x(L, theta, Ts, T=Tf)
    hl = surf.h_L(L, theta, Ts, T=Tf)
    for v in (nux, nul, hx, hl):
        ctx.check(not isinstance(v, complex) and math.isfinite(v) and v >= 0,
                  'number', lambda: '%s surface: %r is not a heat transfer '
                  'coefficient' % (what, v))
    Tr = Ts - (0.38 if isgas else 0.5) * (Ts - Tf)
    beta = fluid.beta(T=Tf if isgas else Tr)
    nu, alpha, k = fluid.nu(T=Tr), fluid.alpha(T=Tr), fluid.k(T=Tr)
    ctx.check(isclose(nul, nux * 4 / 3, 1e-9), 'average', 'average Nusselt '
              'number %r, local %r' % (nul, nux))
    ctx.check(isclose(hx, nux * k / L, 1e-9) and
              isclose(hl, nul * k / L, 1e-9), 'coefficient', lambda:
              'coefficients %r and %r, expected %r and %r' % (
                  hx, hl, nux * k / L, nul * k / L))
    tilted = 9.80665 * math.cos(math.radians(theta))
    if what == 'hot':
        gs = [tilted if 0 < theta < 45 else 9.80665]
    else:
        gs = [tilted if -45 < theta < 0 else 9.80665]
    want = []
    for g in gs:
        Ra = g * beta * abs(Ts - Tf) * L ** 3 / (nu * alpha)
        want += correlations(theta, Ra, nu / alpha)
        if what == 'cold':
            want += correlations(-theta, Ra, nu / alpha)
    ctx.check(any(isclose(nux, w, 1e-7) for w in want), 'nusselt-' + what,
              lambda: '%s surface at %r degrees, Ra %.4g, Pr %.4g: Nu %r, '
              'expected %r' % (what, theta, Ra, nu / alpha, nux, want[-1]))
    ctx.ev('nusselt-' + what)
    ctx.ev('Ra-' + ('low' if Ra < 1e5 else 'high' if Ra > 1e9 else 'middle'))
    z = ('vertical' if theta == 0 else 'below-52' if theta <= -52 else
         'above-88' if theta >= 88 else 'inclined')
    ctx.ev('surface-' + z)
    return nux, Ra


def stub(ctx, rng, i):
    f = Fluid(rng)
    isgas = rng.random() < 0.5
    surf = nc.IsothermalFlatSurface(f, isgas) if rng.random() < 0.8 or \
        not isgas else nc.IsothermalFlatSurface(f)
    for _ in range(12):
        theta = inclination(rng)
        Tf = rng.uniform(200, 1200)
        Ts = Tf + log_uniform(rng, 1e-3, 500)
        what = 'hot' if rng.random() < 0.8 else 'cold'
        if what == 'cold':
            Ts, Tf = Tf, Ts
        # choose L for a Rayleigh number, often at a limit
        Ra = rng.choice([1e4, 1e5, 1e6, 1e7, 1e9, 1e11]) * rng.choice(
            [1, 1, 0.999, 1.001]) if rng.random() < 0.4 else log_uniform(
                rng, 1e0, 1e13)
        Tr = Ts - (0.38 if isgas else 0.5) * (Ts - Tf)
        g = 9.80665
        if 0 < theta < 45:
            g *= math.cos(math.radians(theta))
        L = (Ra * f.nu(Tr) * f.alpha(Tr) / (g * abs(Ts - Tf) * f.beta(
            Tf if isgas else Tr))) ** (1 / 3.0)
        ctx.info({'properties': f.c, 'gas': isgas, 'L': L, 'theta': theta,
                  'Ts': Ts, 'Tf': Tf, 'Ra': Ra})
        judge(ctx, f, isgas, L, theta, Ts, Tf, surf, what)
        if rng.random() < 0.3:
            # a second question which resembles the first
            near = lambda v, e: v * (1 + rng.choice([-1, 1]) * e)
            e = 10 ** rng.uniform(-5, -1)
            which = rng.randrange(4)
            if which == 0:
                L = near(L, e)
            elif which == 1:
                theta = max(-90, min(90, theta + 90 * rng.uniform(-e, e)))
            elif which == 2:
                Ts += (Ts - Tf) * e
            else:
                f.c[rng.choice(sorted(f.c))] = (log_uniform(
                    rng, 1e-5, 1e-3), 1e-5)
            ctx.info({'properties': f.c, 'gas': isgas, 'L': L, 'theta':
                      theta, 'Ts': Ts, 'Tf': Tf, 'second': which})
            judge(ctx, f, isgas, L, theta, Ts, Tf, surf, what)
            ctx.ev('second-questions')
        ctx.eval((i, L, theta, Ts))
    ctx.sample({'L': L, 'theta': theta, 'Ts': Ts, 'Tf': Tf, 'Ra': Ra}, 3)


RANGE = {'Air': (150, 1400), 'Ar': (150, 700), 'NH3': (240, 473),
         'CO2': (220, 600), 'CO': (200, 700), 'N2': (150, 1500),
         'O2': (150, 1500), 'H2O': (400, 1400), 'water': (280, 500)}


def shipped(ctx, rng, i):
    name = rng.choice(sorted(RANGE))
    f = h2o if name == 'water' else materials[name]
    lo, hi = RANGE[name]
    a, b = sorted([rng.uniform(lo, hi), rng.uniform(lo, hi)])
    if b - a < 1e-3:
        return
    what = rng.choice(['hot', 'hot', 'cold'])
    Tf, Ts = (a, b) if what == 'hot' else (b, a)
    theta, L = inclination(rng), log_uniform(rng, 1e-3, 10)
    ctx.info({'fluid': name, 'L': L, 'theta': theta, 'Ts': Ts, 'Tf': Tf})
    try:
        for p in ('nu', 'alpha', 'beta', 'k'):
            for T in (Ts, Tf, Ts - 0.38 * (Ts - Tf), 0.5 * (Ts + Tf)):
                getattr(f, p)(T=T)
    except Exception:
        ctx.ev('outside-the-data')
        return
    surf = nc.IsothermalFlatSurface(f, isgas=name != 'water')
    judge(ctx, f, name != 'water', L, theta, Ts, Tf, surf, what)
    # one object describes any surface, in any order
    x = surf.h_L(L, theta, Ts, T=Tf)
    surf.h_L(L * 2, inclination(rng), Ts, T=Tf)
    surf.Nu_x(L / 3, inclination(rng), 0.5 * (Ts + Tf), T=Tf)
    ctx.check(surf.h_L(L, theta, Ts, T=Tf) == x, 'history', 'the answer '
              'depends on the surfaces asked about before')
    # hotter surfaces lose more heat
    if what == 'hot':
        q = [surf.h_L(L, theta, t, T=Tf) * (t - Tf) for t in
             (Tf + 0.25 * (Ts - Tf), Tf + 0.5 * (Ts - Tf))]
        if name in ('Air', 'N2', 'Ar'):
            ctx.check(q[1] > q[0], 'hotter', 'heat loss falls from %r to %r '
                      'as the surface gets hotter' % tuple(q))
    ctx.ev('shipped-fluids')
    ctx.eval((name, L, theta, Ts))


def coverage(ctx, rng, i):
    """Every inclination and Rayleigh number has a correlation."""
    f = Fluid(rng)
    surf = nc.IsothermalFlatSurface(f)
    lo = rng.choice([-90, -60, -52, -45, 0, 45, 88, 89, 90])
    for p in range(0, 14):
        L = (10.0 ** p * f.nu(300.0) * f.alpha(300.0) / (
            9.80665 * 10 * f.beta(300.0))) ** (1 / 3.0)
        for theta in (lo, lo + rng.uniform(-3, 3)):
            if abs(theta) > 90:
                continue
            ctx.info({'theta': theta, 'L': L, 'power': p})
            for bad in (rng.choice([-1, 1]) * (90 + 10 ** rng.uniform(-6, 3)),
                        math.nan):
                ctx.raises(lambda: surf.Nu_x(L, bad, 310.0, T=300.0),
                           'inclination', 'a surface at %r degrees' % bad)
            v = surf.Nu_x(L, theta, 310.0, T=300.0)
            ctx.check(v > 0, 'number', 'Nu is %r' % v)
            v = surf.Nu_x(L, theta, 300.0, T=300.0)
            ctx.check(0 <= v < 1, 'no-difference', 'Nu of a surface as warm '
                      'as the fluid is %r' % v)
    ctx.ev('coverage-sweeps')
    ctx.eval((lo, i))


def run(ctx):
    for k in ('nusselt-hot', 'nusselt-cold', 'Ra-low', 'Ra-middle',
              'Ra-high', 'surface-vertical', 'surface-below-52',
              'surface-above-88', 'surface-inclined', 'shipped-fluids',
              'second-questions',
              'coverage-sweeps'):
        ctx.require(k, 50)
    ctx.run('stub', ctx.n(1500, 30000), stub)
    ctx.run('shipped', ctx.n(3000, 60000), shipped)
    ctx.run('coverage', ctx.n(150, 3000), coverage)
