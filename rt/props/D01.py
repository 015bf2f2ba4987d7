"""Dimensionless numbers: definitions and the relations between them."""
from auxi.tools import physicalconstants as const
from auxi.tools.transportphenomena import dimensionlessquantities as dq
from rt.core import log_uniform, isclose

TARGETS = ['auxi/tools/transportphenomena/dimensionlessquantities.py']
RULE = ('Random physical states over many orders of magnitude; every number '
        'compared with its definition, with the definitions of the others '
        '(Ra = Gr Pr), and with itself after a change of units. Distinct by '
        'state.')
ASSUMPTIONS = ['Ra is for standard gravity, the function has no parameter '
               'for it']
# exponents of (length, time, temperature, mass) of the parameters
DIM = {'L': (1, 0, 0, 0), 'Ts': (0, 0, 1, 0), 'Tf': (0, 0, 1, 0),
       'beta': (0, 0, -1, 0), 'nu': (2, -1, 0, 0), 'g': (1, -2, 0, 0),
       'alpha': (2, -1, 0, 0), 'v': (1, -1, 0, 0), 'h': (0, -3, -1, 1),
       'k': (1, -3, -1, 1), 'D': (2, -1, 0, 0), 'hm': (1, -1, 0, 0)}


def case(ctx, rng, i):
    r = lambda a, b: log_uniform(rng, a, b)
    s = dict(L=r(1e-6, 1e3), Ts=rng.uniform(200, 3000),
             Tf=rng.uniform(200, 3000), beta=r(1e-6, 1e-2), nu=r(1e-9, 1e2),
             g=rng.choice([const.g, r(0.1, 100)]), alpha=r(1e-9, 1e2),
             v=rng.choice([0.0, r(1e-6, 1e3), -r(1e-6, 1e3)]),
             h=r(1e-3, 1e6), k=r(1e-4, 1e3), D=r(1e-12, 1e-2),
             hm=r(1e-9, 1e2))
    ctx.info(s)
    if rng.random() < 0.05:
        s['Tf'] = s['Ts']

    def all_of(s, Ra=True):
        out = dict(
            Gr=dq.Gr(s['L'], s['Ts'], s['Tf'], s['beta'], s['nu'], s['g']),
            Pr=dq.Pr(s['nu'], s['alpha']),
            Re=dq.Re(s['L'], s['v'], s['nu']),
            Nu=dq.Nu(s['L'], s['h'], s['k']),
            Sh=dq.Sh(s['L'], s['hm'], s['D']))
        if Ra:
            out['Ra'] = dq.Ra(s['L'], s['Ts'], s['Tf'], s['alpha'],
                              s['beta'], s['nu'])
        return out
    got = all_of(s)
    dT = s['Ts'] - s['Tf']
    want = dict(Gr=s['g'] * s['beta'] * dT * s['L'] ** 3 / s['nu'] ** 2,
                Pr=s['nu'] / s['alpha'], Re=s['v'] * s['L'] / s['nu'],
                Nu=s['h'] * s['L'] / s['k'], Sh=s['hm'] * s['L'] / s['D'],
                Ra=9.80665 * s['beta'] * dT * s['L'] ** 3 /
                (s['nu'] * s['alpha']))
    for q in want:
        ctx.check(isclose(got[q], want[q], 1e-10, 0.0), 'definition-' + q,
                  lambda: '%s is %r, expected %r' % (q, got[q], want[q]))
        ctx.ev('value-' + q)
    gr = dq.Gr(s['L'], s['Ts'], s['Tf'], s['beta'], s['nu'], 9.80665)
    ctx.check(isclose(got['Ra'], gr * got['Pr'], 1e-10, 0.0), 'Ra=GrPr',
              'Ra %r is not Gr %r times Pr %r' % (got['Ra'], gr, got['Pr']))
    # keyword arguments mean the same as positional ones
    kw = lambda *names: {n: s[n] for n in names}
    ctx.check(dq.Gr(**kw('L', 'Ts', 'Tf', 'beta', 'nu', 'g')) == got['Gr'] and
              dq.Ra(**kw('L', 'Ts', 'Tf', 'alpha', 'beta', 'nu')) ==
              got['Ra'] and dq.Pr(**kw('nu', 'alpha')) == got['Pr'] and
              dq.Re(**kw('L', 'v', 'nu')) == got['Re'] and
              dq.Nu(**kw('L', 'h', 'k')) == got['Nu'] and
              dq.Sh(h=s['hm'], **kw('L', 'D')) == got['Sh'], 'keywords',
              'named and positional parameters give other numbers')
    # other units
    u = [r(1e-3, 1e3) for _ in range(4)]
    t = {}
    for p, v in s.items():
        f = 1.0
        for base, e in zip(u, DIM[p]):
            f *= base ** e
        t[p] = v * f
    other = all_of(t, Ra=False)
    for q, v in other.items():
        # Ts - Tf is a difference; allow for its cancellation
        rel = 1e-9 if q != 'Gr' else 1e-9 + 1e-15 * (
            s['Ts'] + s['Tf']) / max(abs(dT), 1e-300)
        ctx.check(isclose(v, got[q], rel, 0.0), 'units-' + q, lambda:
                  '%s is %r, and %r in other units' % (q, got[q], v))
    ctx.ev('unit-changes')
    ctx.eval(tuple(s.values()))
    ctx.sample({'state': s, 'numbers': got}, 2)


def run(ctx):
    for q in ('Gr', 'Pr', 'Re', 'Nu', 'Sh', 'Ra'):
        ctx.require('value-' + q, 100)
    ctx.run('state', ctx.n(80000, 600000), case)
