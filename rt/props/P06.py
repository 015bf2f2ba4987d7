"""Heat capacity and enthalpy of dry ash-free coal."""
import math

from auxi.tools.materialphysicalproperties import coals
from rt import atoms
from rt.core import isclose
from rt.fluids import coal

TARGETS = ['auxi/tools/materialphysicalproperties/coals.py']
RULE = ('Random coal compositions and temperatures; the heat capacity '
        'compared with the derivative of the enthalpy, both with independent '
        'evaluations of the two Einstein terms, with their high temperature '
        'limit, and blends with their parts. Distinct by (composition, '
        'temperature).')
ASSUMPTIONS = ['mass fractions add up to one']
R = 8.314462618
CP, H = coals.DafCpTy(), coals.DafHTy()


def per_atom(y):
    """Moles of atoms per kg."""
    return 1000 * sum(y['y_' + e] / atoms.MASS[e] for e in 'CHONS')


def einstein(theta, T):
    """(u, c) of an oscillator, in units of R."""
    z = theta / T
    return theta / math.expm1(z), (z / (2 * math.sinh(z / 2))) ** 2


def edge(rng):
    """Without some of the elements, perhaps without all but one."""
    y = coal(rng)
    keep = rng.sample(sorted(y), rng.choice([1, 1, 2, 3, 4]))
    y = {k: v if k in keep else 0.0 for k, v in y.items()}
    t = sum(y.values())
    if len(keep) == 1:
        return {k: float(k in keep) for k in y}
    return {k: v / t for k, v in y.items()} if t else coal(rng)


def case(ctx, rng, i):
    y = coal(rng)
    if rng.random() < 0.15:
        y = edge(rng)
        ctx.ev('elements-missing')
    T = rng.choice([rng.uniform(200, 400), rng.uniform(300, 1300),
                    rng.uniform(50, 3000), 10 ** rng.uniform(1.7, 4.5)])
    ctx.info({'T': T, 'y': y})
    n = per_atom(y)
    u1, c1 = einstein(380.0, T)
    u2, c2 = einstein(1800.0, T)
    cp, h = CP(T=T, **y), H(T=T, **y)
    want = n * R * (c1 + 2 * c2), n * R * (u1 + 2 * u2)
    ctx.check(isclose(cp, want[0], 5e-4, 0.0), 'heat-capacity', lambda:
              'heat capacity %r, expected %r' % (cp, want[0]))
    ctx.check(isclose(h, want[1], 5e-4, 0.0), 'enthalpy', lambda: 'enthalpy '
              '%r, expected %r' % (h, want[1]))
    # the heat capacity is the slope of the enthalpy
    d = T * 2e-4
    slope = (8 * (H(T=T + d, **y) - H(T=T - d, **y)) -
             (H(T=T + 2 * d, **y) - H(T=T - 2 * d, **y))) / (12 * d)
    ctx.check(isclose(slope, cp, 1e-6, 0.0), 'slope', lambda: 'heat capacity '
              '%r, slope of the enthalpy %r' % (cp, slope))
    ctx.ev('slopes')
    # a question which resembles the last one
    e = 10 ** rng.uniform(-6, -2)
    T2, y2 = T, dict(y)
    if rng.random() < 0.4:
        T2 = T * (1 + rng.choice([-1, 1]) * e)
    else:
        k = rng.choice(sorted(y))
        y2[k] = y2[k] - e if y2[k] > 0.5 else y2[k] + e
        y2 = {k: min(v, 1.0) for k, v in y2.items()}
    n2 = per_atom(y2)
    u3, c3 = einstein(380.0, T2)
    u4, c4 = einstein(1800.0, T2)
    for name, r, w in (
            ('heat capacity', CP(T=T2, **y2) / cp,
             n2 * (c3 + 2 * c4) / (n * (c1 + 2 * c2))),
            ('enthalpy', H(T=T2, **y2) / h,
             n2 * (u3 + 2 * u4) / (n * (u1 + 2 * u2)))):
        ctx.check(abs(r / w - 1) <= 1e-9 + 3e-3 * e, 'near', lambda: '%s is '
                  '%r times as much at %r and %r, expected %r' % (
                      name, r, T2, y2, w))
    ctx.ev('near-questions')
    ctx.check(CP(T=T * 1.1, **y) > cp * (1 - 1e-12) > 0 and H(T=T * 1.1, **y) > h > 0,
              'monotonic', 'heat capacity or enthalpy falls with temperature')
    hot = CP(T=1e5, **y)
    ctx.check(isclose(hot, 3 * n * R, 1e-3), 'limit', lambda: 'heat capacity '
              'at very high temperature %r, limit %r' % (hot, 3 * n * R))
    # only composition counts, and it counts linearly
    z = coal(rng)
    w = rng.random()
    mix = {k: w * y[k] + (1 - w) * z[k] for k in y}
    mix = {k: min(v, 1.0) for k, v in mix.items()}
    for f, a in ((CP, cp), (H, h)):
        b = w * a + (1 - w) * f(T=T, **z)
        ctx.check(isclose(f(T=T, **mix), b, 1e-8), 'blend', lambda: 'a blend '
                  'has %r, its parts %r' % (f(T=T, **mix), b))
    ctx.ev('blends')
    ctx.check(CP.calculate(T=T, **y) == cp and H.calculate(T=T, **y) == h,
              'call', 'calling a model and calculate differ')
    ctx.eval((T, tuple(y.items())))
    ctx.sample({'T': T, 'y': y, 'Cp': cp, 'H': h}, 3)


def cold(ctx, rng, i):
    """Near absolute zero: no overflow, and next to no heat."""
    y = coal(rng)
    T = 10 ** rng.uniform(-3, 1.7)
    ctx.info({'T': T, 'y': y})
    n = per_atom(y)
    cp, h = CP(T=T, **y), H(T=T, **y)
    u = c = 0.0
    for theta, k in ((380.0, 1), (1800.0, 2)):
        z = theta / T
        if z < 600:
            c += k * einstein(theta, T)[1]
            u += k * einstein(theta, T)[0]
    for name, got, want in (('heat capacity', cp, n * R * c),
                            ('enthalpy', h, n * R * u)):
        ctx.check(isclose(got, want, 5e-4, 1e-200), 'cold', lambda: '%s at '
                  '%r K %r, expected %r' % (name, T, got, want))
    ctx.ev('near-zero', T < 5)
    ctx.eval((T, tuple(y.items())))


def run(ctx):
    ctx.require('slopes', 100)
    ctx.require('blends', 100)
    ctx.require('near-questions', 100)
    ctx.require('near-zero', 50)
    ctx.require('elements-missing', 50)
    ctx.run('cold', ctx.n(4000, 20000), cold)
    ctx.run('coal', ctx.n(20000, 100000), case)
