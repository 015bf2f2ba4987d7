"""Mass/amount/fraction conversions."""
import copy
from auxi.tools.chemistry import stoichiometry as st
from rt.core import log_uniform
from rt.formula import gen_formula, molar_mass, SYMBOLS, COMMON
from rt.atoms import MASS

TARGETS = ['auxi/tools/chemistry/stoichiometry.py']
RULE = ('Random sets of generated compounds with masses over 12 decades '
        '(zero included); every conversion compared with the reference '
        'composition; non-trivial: at least two compounds or a formula with '
        'two elements; distinct by (compounds, values).')
ASSUMPTIONS = ['expected atomic masses: IUPAC 1997 table in rt/atoms.py']


def value(rng):
    r = rng.random()
    if r < 0.06:
        return 0.0
    if r < 0.12:
        return rng.randint(1, 1000)
    return log_uniform(rng, 1e-6, 1e6)


def case(ctx, rng, i):
    n = rng.randint(1, 6)
    if rng.random() < 0.005:
        n = rng.choice([40, 100, 300])
        ctx.ev('many-compounds')
    comp = {}
    syms = None
    if rng.random() < 0.5:
        syms = rng.sample(COMMON, 4)
    for _ in range(n):
        t, c = gen_formula(rng, syms=syms, zero=False)
        comp[t] = c
    mm = {t: molar_mass(c) for t, c in comp.items()}
    m = {t: value(rng) for t in comp}
    ctx.info({'masses': m})
    ctx.eval(tuple(sorted(m.items())), n > 1 or len(comp[t]) > 1)
    ctx.sample({'masses': m})
    keep = dict(m)

    a = st.amounts(m)
    ctx.check(set(a) == set(m), 'keys', 'amounts keys %r' % (a,))
    for t in m:
        ctx.close(a[t], m[t] / mm[t], 'amounts', 'amounts[%s]' % t)
        ctx.close(st.amount(t, m[t]), m[t] / mm[t], 'amount',
                  'amount(%r, %r)' % (t, m[t]))
        ctx.close(st.mass(t, m[t]), m[t] * mm[t], 'mass',
                  'mass(%r, %r)' % (t, m[t]))
        ctx.close(st.mass(t, st.amount(t, m[t])), m[t], 'roundtrip',
                  'mass(amount(%r))' % m[t])
    back = st.masses(a)
    ctx.check(set(back) == set(m), 'keys', 'masses keys %r' % (back,))
    for t in m:
        ctx.close(back[t], m[t], 'roundtrip', 'masses(amounts(.))[%s]' % t)
    ctx.check(m == keep, 'argument-changed', 'the dictionary of masses was '
              'changed from %r to %r' % (keep, m))
    ctx.ev('conversions', 4 * len(m))

    if sum(m.values()) > 0:
        tot = sum(m[t] / mm[t] for t in m)
        x = st.amount_fractions(m)
        ctx.check(set(x) == set(m), 'keys', 'amount_fractions keys %r' % (x,))
        for t in m:
            ctx.close(x[t], m[t] / mm[t] / tot, 'amount-fractions',
                      'amount_fractions[%s]' % t)
        ctx.close(sum(x.values()), 1.0, 'amount-fractions-sum', 'sum')
        # m now plays the part of amounts
        tot = sum(m[t] * mm[t] for t in m)
        y = st.mass_fractions(m)
        ctx.check(set(y) == set(m), 'keys', 'mass_fractions keys %r' % (y,))
        for t in m:
            ctx.close(y[t], m[t] * mm[t] / tot, 'mass-fractions',
                      'mass_fractions[%s]' % t)
        ctx.close(sum(y.values()), 1.0, 'mass-fractions-sum', 'sum')
        # scaling every mass by the same factor changes no fraction
        k = log_uniform(rng, 1e-3, 1e3)
        x2 = st.amount_fractions({t: k * v for t, v in m.items()})
        for t in m:
            ctx.close(x2[t], x[t], 'amount-fractions-scale', 'scaled')
        # mole fractions -> masses -> mole fractions
        x3 = st.amount_fractions(st.masses(x))
        for t in m:
            ctx.close(x3[t], x[t], 'fraction-roundtrip', 'x -> m -> x')
        ctx.ev('fractions')
    ctx.check(m == keep, 'argument-changed', 'the dictionary was changed')
    signed(ctx, rng, m, mm)


def signed(ctx, rng, m, mm):
    """Balances in which what goes out is negative."""
    d = {t: v * rng.choice([-1, 1, 1]) for t, v in m.items()}
    for f, q in ((st.amount_fractions, {t: d[t] / mm[t] for t in d}),
                 (st.mass_fractions, {t: d[t] * mm[t] for t in d})):
        tot = sum(q.values())
        if abs(tot) <= 0.01 * sum(map(abs, q.values())):
            continue
        x = f(d)
        for t in d:
            ctx.close(x[t], q[t] / tot, 'signed-fractions',
                      '%s of %s, some negative' % (f.__name__, t), rel=1e-8)
        ctx.ev('signed-fractions')


def elements(ctx, rng, i):
    t, c = gen_formula(rng, zero=False)
    ctx.info(t)
    ctx.eval(t, len(c) > 1)
    mm = molar_mass(c)
    es = list(c)
    rng.shuffle(es)
    absent = rng.choice([s for s in SYMBOLS if s not in c])
    f = st.element_mass_fractions(t, es + [absent])
    ctx.check(len(f) == len(es) + 1, 'length', 'length of %r' % (f,))
    for e, v in zip(es, f):
        ctx.close(v, c[e] * MASS[e] / mm, 'element-mass-fraction',
                  'mass fraction of %s in %s' % (e, t))
        ctx.close(st.element_mass_fraction(t, e), v, 'element-mass-fraction',
                  'single element')
        ctx.check(0 <= v <= 1 + 1e-12, 'range', 'fraction %r' % v)
    twice = [es[-1], absent, es[-1]]
    ctx.check(st.element_mass_fractions(t, twice) ==
              [f[len(es) - 1], 0, f[len(es) - 1]] and
              st.stoichiometry_coefficients(t, twice) ==
              [c[es[-1]], 0, c[es[-1]]], 'element-twice',
              lambda: '%s: answers for the elements %r' % (t, twice))
    ctx.check(f[-1] == 0, 'absent-element', 'mass fraction of absent element '
              '%s in %s is %r' % (absent, t, f[-1]))
    ctx.close(sum(f), 1.0, 'element-sum', 'sum of mass fractions of ' + t)
    ctx.ev('element-balances')


def convert(ctx, rng, i):
    syms = rng.sample(COMMON, 5)
    while True:
        s, cs = gen_formula(rng, syms=syms, zero=False)
        t, ct = gen_formula(rng, syms=syms, zero=False)
        both = [e for e in cs if e in ct]
        if both:
            break
    e = rng.choice(both)
    m = value(rng)
    ctx.info({'mass': m, 'source': s, 'target': t, 'element': e})
    ctx.eval((s, t, e), s != t)
    ctx.sample({'mass': m, 'source': s, 'target': t, 'element': e})
    r = st.convert_compound(m, s, t, e)
    fs = cs[e] * MASS[e] / molar_mass(cs)
    ft = ct[e] * MASS[e] / molar_mass(ct)
    ctx.close(r, m * fs / ft, 'convert', 'convert_compound')
    # the element is conserved
    ctx.close(r * ft, m * fs, 'convert-conserves', 'element mass')
    ctx.close(st.convert_compound(r, t, s, e), m, 'convert-inverse',
              'conversion there and back')
    ctx.close(st.convert_compound(m, s, s, e), m, 'convert-identity',
              'conversion to itself')
    lacks = rng.choice([x for x in SYMBOLS if x not in cs])
    ctx.check(st.convert_compound(m, s, s, lacks) == 0, 'convert-absent',
              'conversion to itself by %s, which it lacks: result not 0' %
              lacks)
    only_s = [x for x in cs if x not in ct]
    only_t = [x for x in ct if x not in cs]
    if only_s:
        ctx.check(st.convert_compound(m, s, t, only_s[0]) == 0,
                  'convert-absent', 'target lacks the element: result not 0')
        ctx.ev('convert-target-lacks')
    if only_t:
        ctx.check(st.convert_compound(m, s, t, only_t[0]) == 0,
                  'convert-absent', 'source lacks the element: result not 0')
        ctx.ev('convert-source-lacks')
    ctx.ev('convert')


def run(ctx):
    for k in ('conversions', 'fractions', 'element-balances', 'convert',
              'convert-target-lacks', 'convert-source-lacks'):
        ctx.require(k, 20)
    ctx.run('case', ctx.n(3200, 20000), case)
    ctx.run('elements', ctx.n(4000, 30000), elements)
    ctx.run('convert', ctx.n(6000, 40000), convert)
