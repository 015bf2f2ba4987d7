"""Element and amount balances of packages and streams."""
import os
from auxi.tools.chemistry import stoichiometry as st
from rt.atoms import MASS
from rt.core import log_uniform
from rt.formula import SYMBOLS, read, molar_mass, gen_formula, COMMON
from rt.packages import Chem, ThermoPackage, ThermoStream

TARGETS = ['auxi/modelling/process/materials/chem.py',
           'auxi/modelling/process/materials/thermo.py',
           'auxi/tools/chemistry/stoichiometry.py']
RULE = ('Random packages and streams of random compounds; element masses and '
        'amounts compared with sums over an independent reading of the '
        'formulas; before and after sums, splits and conversions. '
        'Distinct by (compounds, masses); non-trivial: two compounds.')
ASSUMPTIONS = ['expected atomic masses: IUPAC 1997 table in rt/atoms.py']
KINDS = [Chem(), ThermoPackage(), ThermoStream()]


def composition(key):
    return read(key.split('[')[0])


def expected(masses):
    out = {}
    for k, m in masses.items():
        c = composition(k)
        mm = molar_mass(c)
        for e, n in c.items():
            out[e] = out.get(e, 0.0) + m * n * MASS[e] / mm
    return out


def observe(ctx, rng, kind, p, masses, elements, what):
    want = expected(masses)
    tot = sum(masses.values())
    stream = kind.name == 'thermo stream'
    tol = 1e-10 * tot + 1e-30
    get = p.get_element_mfrs if stream else p.get_element_masses
    getd = (p.get_element_mfr_dictionary if stream
            else p.get_element_mass_dictionary)
    one = p.get_element_mfr if stream else p.get_element_mass
    v = [float(x) for x in get()]
    ctx.check(len(v) == len(elements), 'element-count', '%d element masses '
              'for %d elements' % (len(v), len(elements)))
    for e, x in zip(elements, v):
        ctx.check(abs(x - want.get(e, 0.0)) <= tol, 'element-mass',
                  lambda: '%s: mass of %s is %r, expected %r' % (
                      what, e, x, want.get(e, 0.0)))
    d = getd()
    ctx.check(set(d) == set(elements), 'element-dictionary-keys',
              'elements %r' % sorted(d))
    for e in elements:
        ctx.check(abs(float(d[e]) - want.get(e, 0.0)) <= tol,
                  'element-dictionary', lambda: '%s: %s is %r, expected %r' %
                  (what, e, d[e], want.get(e, 0.0)))
    e = rng.choice(elements)
    ctx.check(abs(float(one(e)) - want.get(e, 0.0)) <= tol, 'one-element',
              lambda: '%s: mass of %s is %r, expected %r' % (
                  what, e, one(e), want.get(e, 0.0)))
    for absent in rng.sample(SYMBOLS, 3):
        if absent not in elements:
            ctx.check(float(one(absent)) == 0.0, 'absent-element',
                      'mass of absent %s is %r' % (absent, one(absent)))
            ctx.ev('absent-elements')
    ctx.check(abs(sum(v) - tot) <= len(v) * tol, 'elements-total',
              lambda: '%s: element masses add up to %r, not to the mass %r' %
              (what, sum(v), tot))
    ctx.ev('element-balances')
    if kind.energy:
        sub = rng.sample(elements, rng.randint(1, len(elements)))
        if rng.random() < 0.3:          # some asked for twice, or absent
            sub += [rng.choice(elements), rng.choice(SYMBOLS),
                    rng.choice(sub)]
            rng.shuffle(sub)
            ctx.ev('elements-repeated')
        got = get(sub)
        ctx.check(len(got) == len(sub), 'element-selection',
                  lambda: '%d values for elements %r' % (len(got), sub))
        for x, e in zip(got, sub):
            ctx.check(abs(float(x) - want.get(e, 0.0)) <= tol,
                      'element-selection', 'selected element %s' % e)
        amounts = p.get_compound_afrs() if stream else \
            p.get_compound_amounts()
        one = p.get_compound_afr if stream else p.get_compound_amount
        total = p.afr if stream else p.amount
        want = {k: m / molar_mass(composition(k)) for k, m in masses.items()}
        for k, a in zip(masses, amounts):
            ctx.close(a, want[k], 'amount', what + ': amount of ' + k)
            ctx.close(one(k), want[k], 'one-amount', what + ': amount')
        ctx.close(total, sum(want.values()), 'total-amount',
                  what + ': total amount')
        ctx.ev('amount-balances')
    return v


def case(ctx, rng, i):
    kind = KINDS[i // ctx.nshards % len(KINDS)]
    keys = kind.keys(rng, rng.randint(1, 9))
    if rng.random() < 0.01:
        keys = kind.many(rng, rng.choice([40, 90, 150]))
        ctx.ev('large-materials')
    elif kind.name == 'chem' and rng.random() < 0.6:
        keys = []
        while len(keys) < 5:
            t, c = gen_formula(rng, zero=False, syms=rng.sample(COMMON, 8))
            if t not in keys and not any(x.isspace() for x in t):
                keys.append(t)
    elif kind.name == 'chem' and rng.random() < 0.5:
        keys = rng.sample(kind.MINERALS, rng.randint(1, 12))
        ctx.ev('minerals')
    kind.define(rng, keys, 'def.txt')
    m = kind.Material('m', 'def.txt')
    os.remove('def.txt')
    elements = sorted(set(e for k in keys for e in composition(k)))
    ctx.check(list(m.elements) == elements, 'element-list',
              lambda: 'elements of %r: %r, expected %r' % (
                  keys, m.elements, elements))
    ctx.info({'kind': kind.name, 'compounds': keys})

    def make():
        vals = {k: rng.choice([0.0, log_uniform(rng, 1e-5, 1e5),
                               log_uniform(rng, 1.0, 1e3)]) for k in keys}
        kw = dict(T=rng.uniform(25, 1000)) if kind.energy else {}
        return kind.make(m, list(vals.values()), **kw), vals
    p, a = make()
    q, b = make()
    ctx.eval((kind.name, tuple(a.items())), len(keys) > 1)
    ctx.sample({'kind': kind.name, 'masses': a}, 2)
    va = observe(ctx, rng, kind, p, a, elements, 'new')
    vb = observe(ctx, rng, kind, q, b, elements, 'new')
    s = p + q
    observe(ctx, rng, kind, s, {k: a[k] + b[k] for k in keys}, elements,
            'sum')
    tot = float(kind.total(s))
    if tot > 0:
        f = rng.random()
        x = s.extract(tot * f)
        vx = observe(ctx, rng, kind, x, {k: f * (a[k] + b[k]) for k in keys},
                     elements, 'extract')
        vs = observe(ctx, rng, kind, s, {k: (1 - f) * (a[k] + b[k])
                                         for k in keys}, elements, 'rest')
        for e, u, v, w, z in zip(elements, va, vb, vx, vs):
            ctx.close(w + z, u + v, 'element-conservation', e + ' in = out',
                      rel=1e-9, abs_=1e-10 * tot)
        ctx.ev('element-conservation')
    # a chemical conversion through a package conserves its element
    src, tgt = rng.choice(keys), rng.choice(keys)
    both = [e for e in composition(src) if e in composition(tgt)]
    if both and src != tgt and a[src] > 0:
        e = rng.choice(both)
        part = p.extract((src, a[src] * 0.5))
        made = st.convert_compound(a[src] * 0.5, src.split('[')[0],
                                   tgt.split('[')[0], e)
        r = p + (tgt, float(made))
        want = dict(a)
        want[src] *= 0.5
        want[tgt] += made
        observe(ctx, rng, kind, r, want, elements, 'converted')
        one = (r.get_element_mfr if kind.name == 'thermo stream'
               else r.get_element_mass)
        before = va[elements.index(e)]
        ctx.close(float(one(e)), before, 'conversion-balance',
                  '%s after converting %s to %s' % (e, src, tgt),
                  abs_=1e-10 * sum(want.values()))
        ctx.ev('conversions')


def run(ctx):
    for k in ('element-balances', 'amount-balances', 'element-conservation',
              'conversions'):
        ctx.require(k, 20)
    ctx.run('case', ctx.n(5000, 80000), case)
