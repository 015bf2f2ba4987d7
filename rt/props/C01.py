"""Formula interpretation."""
from auxi.tools.chemistry import stoichiometry as st
from rt.formula import (add, gen_formula, read, Bad, molar_mass, SYMBOLS, COMMON,
                        add)
from rt.atoms import MASS

TARGETS = ['auxi/tools/chemistry/stoichiometry.py']
RULE = ('Random formulas built from an abstract composition (so the expected '
        'composition is known without parsing), queried in random interleaved '
        'histories; mutated texts judged by an independent reader; every '
        'element of the table once. Non-trivial: a formula with more than '
        'one element symbol; distinct by text.')
ASSUMPTIONS = ['expected atomic masses: IUPAC 1997 table in rt/atoms.py']


def ask(ctx, rng, text, comp, others):
    """One randomly chosen question about one formula."""
    q = rng.randrange(5)
    d = {'formula': text, 'composition': comp}
    pad = rng.choice(['', '', '', ' ', '  '])
    t = pad + text + pad
    if q == 0:
        ctx.close(st.molar_mass(t), molar_mass(comp), 'molar-mass',
                  'molar mass of %r' % t, data=d)
    elif q == 1:
        e = rng.choice(list(comp) + others)
        ctx.close(st.stoichiometry_coefficient(t, e), comp.get(e, 0),
                  'coefficient', 'coefficient of %s in %r' % (e, t), data=d)
    elif q == 2:
        es = [rng.choice(list(comp) + others)
              for _ in range(rng.randint(0, 6))]
        got = list(st.stoichiometry_coefficients(t, es))
        ctx.check(len(got) == len(es) and all(
            abs(g - comp.get(e, 0)) < 1e-9 * max(1, abs(g))
            for g, e in zip(got, es)), 'coefficients',
            'coefficients of %r in %r: %r, composition %r' % (
                es, t, got, comp), d)
    elif q == 3:
        ctx.check(set(st.elements([text])) == set(comp), 'elements',
                  'elements of %r: %r' % (text, st.elements([text])), d)
    else:
        # the phase is not part of the composition
        base = text.split('[')[0]
        ctx.close(st.molar_mass(base + '[S]'), molar_mass(comp),
                  'phase-molar-mass', 'molar mass of %r' % (base + '[S]'),
                  data=d)
    ctx.ev('questions')


def history(ctx, rng, i):
    pool = []
    for _ in range(rng.randint(1, 4)):
        pool.append(gen_formula(rng))
    if rng.random() < 0.1:
        t, c = rng.choice(pool)
        base, comp = '', {}
        while len(base) < rng.choice([20, 100, 250]):
            t, c = gen_formula(rng, phase=False)
            if '.' not in t:
                base += t
                comp = add(comp, c)
        # long ones that differ at their very end, or beginning, only
        for _ in range(3):
            e, n = rng.choice(COMMON), rng.randint(2, 99)
            pool.append((base + '%s%d' % (e, n), add(dict(comp), {e: n})))
            pool.append(('%s%d' % (e, n) + base, add(dict(comp), {e: n})))
        ctx.ev('long-formulas')
    ctx.info({'pool': pool})
    for _ in range(rng.randint(6, 24)):
        t, c = rng.choice(pool)
        ask(ctx, rng, t, c, [rng.choice(SYMBOLS), rng.choice(COMMON)])
    texts = [t for t, _ in pool]
    ctx.check(set(st.elements(texts)) == set().union(
        *[set(c) for _, c in pool]), 'elements-union',
        lambda: 'elements of %r: %r' % (texts, st.elements(texts)))
    for t, c in pool:
        ctx.eval(t, len(c) > 1)
    ctx.sample(pool[0])


def mutate(rng, t):
    ops = rng.randint(1, 2)
    for _ in range(ops):
        i = rng.randint(0, len(t))
        k = rng.randrange(4)
        if k == 0:
            t = t[:i] + rng.choice('()[].0123abHOx*-_ {}+é') + t[i:]
        elif k == 1 and t:
            t = t[:i] + t[i + 1:]
        elif k == 2 and len(t) > 1:
            j = rng.randint(0, len(t) - 1)
            t = t[:j] + t[j].swapcase() + t[j + 1:]
        else:
            j = rng.randint(0, len(t))
            i, j = min(i, j), max(i, j)
            t = t[:i] + t[j:] if rng.random() < .5 else t[:j] + t[i:]
    return t


def malformed(ctx, rng, i):
    t, _ = gen_formula(rng)
    t = mutate(rng, t)
    if t.strip() == '' or len(t) > 200:
        return
    ctx.info(t)
    u = t.strip()
    try:
        c = read(u)
    except Bad:
        c = None
    ctx.eval(('m', t))
    if c is None:
        ctx.ev('malformed')
        ctx.raises(lambda: st.molar_mass(t), 'malformed-accepted',
                   'molar_mass(%r)' % t)
        ctx.raises(lambda: st.stoichiometry_coefficient(t, 'O'),
                   'malformed-accepted', 'stoichiometry_coefficient(%r)' % t)
        if u == t:
            ctx.raises(lambda: st.elements([t]), 'malformed-accepted',
                       'elements([%r])' % t)
    else:
        ctx.ev('mutant-still-valid')
        ctx.close(st.molar_mass(t), molar_mass(c), 'molar-mass',
                  'molar mass of %r' % t)
        for e in c:
            ctx.close(st.stoichiometry_coefficient(t, e), c[e],
                      'coefficient', 'coefficient of %s in %r' % (e, t))


NOBLE = [0, 2, 10, 18, 36, 54, 86, 118]


def place(n):
    """Period of atomic number n, and the groups it may be listed in."""
    period = next(k for k in range(1, 8) if n <= NOBLE[k])
    k, left = n - NOBLE[period - 1], NOBLE[period] - n
    if n == 2:
        return period, (18,)
    if k <= 2:
        return period, (k,)
    if left < (6 if period < 4 else 15):
        return period, (18 - left,)
    return period, (0, 3)       # lanthanides and actinides


def table(ctx, rng, e):
    """What the periodic table says about an element, where it says it."""
    for d in vars(st).values():
        x = d.get(e) if isinstance(d, dict) else None
        if not isinstance(x, getattr(st, 'Element', ())):
            continue
        n = list(MASS).index(e) + 1
        period, groups = place(n)
        got = [getattr(x, k, None) for k in ('symbol', 'atomic_number',
                                             'period', 'group')]
        for k, g, w in zip(('symbol', 'atomic number', 'period', 'group'),
                           got, ((e,), (n,), (period,), groups)):
            ctx.check(g is None or g in w, 'periodic-table', '%s of %s is '
                      '%r, expected %r' % (k, e, g, w[0]))
        ctx.ev('places-in-table')


def element(ctx, rng, e):
    table(ctx, rng, e)
    ctx.info(e)
    ctx.eval(('e', e), False)
    ctx.close(st.molar_mass(e), MASS[e], 'atomic-mass',
              'atomic mass of ' + e, rel=1e-6)
    ctx.close(st.molar_mass('(%s2)3' % e), 6 * MASS[e], 'atomic-mass',
              'mass of (%s2)3' % e, rel=1e-6)
    ctx.check(st.elements([e]) == {e}, 'elements', 'elements([%s])' % e)
    ctx.ev('elements-of-table')


def special(ctx, rng, item):
    t, c = item
    ctx.info(t)
    ctx.eval(t)
    ctx.close(st.molar_mass(t), molar_mass(c), 'molar-mass',
              'molar mass of %r' % t)
    for e in c:
        ctx.close(st.stoichiometry_coefficient(t, e), c[e], 'coefficient',
                  'coefficient of %s in %r' % (e, t))


SPECIAL = [
    ('(OH)0Fe', {'O': 0, 'H': 0, 'Fe': 1}),
    ('FeO.0H2O', {'Fe': 1, 'O': 1, 'H': 0}),
    ('H0O', {'H': 0, 'O': 1}),
    ('CaSO4.2H2O', {'Ca': 1, 'S': 1, 'O': 6, 'H': 4}),
    ('CaSO4.H2O[S]', {'Ca': 1, 'S': 1, 'O': 5, 'H': 2}),
    ('Ca(Al2(SiO4)2)3.10(H2O)2', {'Ca': 1, 'Al': 6, 'Si': 6, 'O': 44,
                                  'H': 40}),
    ('CO', {'C': 1, 'O': 1}), ('Co', {'Co': 1}), ('CoO', {'Co': 1, 'O': 1}),
    ('COO', {'C': 1, 'O': 2}), ('((H))', {'H': 1}),
    ('CH3CH2OH', {'C': 2, 'H': 6, 'O': 1}),
    ('Fe2O3[Fe2]', {'Fe': 2, 'O': 3}),
]


def run(ctx):
    ctx.require('questions', 200)
    ctx.require('malformed', 100)
    ctx.require('elements-of-table', 100)
    ctx.each('element', SYMBOLS, element)
    ctx.each('special', SPECIAL, special)
    ctx.run('history', ctx.n(6000, 40000), history)
    ctx.run('malformed', ctx.n(12000, 80000), malformed)
