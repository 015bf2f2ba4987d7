"""Coal streams: mass, energy and heating value."""
import math
import os
import numpy
from auxi.tools.chemistry import thermochemistry as th
from auxi.modelling.process.materials.thermo import (
    Material, MaterialStream)
from auxi.tools.materialphysicalproperties.coals import DafHTy
from rt.core import log_uniform
from rt.atoms import MASS
from rt.packages import write_table

TARGETS = ['auxi/modelling/process/materials/thermo.py',
           'auxi/tools/materialphysicalproperties/coals.py']
RULE = ('Random coals (C, H, O, N, S and ash), with and without a measured '
        'heating value, scaled, split, joined, heated and having compounds '
        'added or removed; masses, enthalpy and total heating value '
        'compared. Distinct by (composition, heating value, operations).')
ASSUMPTIONS = ['heats of combustion from the thermochemistry functions '
               '(checked by T01), sensible heat of the dry-ash-free coal from '
               'the model of Merrick (checked by P06)',
               'compounds are added and removed at 25 degC, where the '
               'enthalpy of the dry-ash-free coal is its formation enthalpy']

DAF_H = DafHTy()
DAF = ['C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Smono]']
ASH = ['SiO2[S]', 'Al2O3[S]', 'CaO[S]', 'MgO[S]', 'Fe2O3[Salpha]',
       'TiO2[Srutile]', 'H2O[L]']
PRODUCT = {'C[Sgr]': ('CO2[G]', (MASS['C'] + 2 * MASS['O']) / MASS['C']),
           'H2[G]': ('H2O[L]', (2 * MASS['H'] + MASS['O']) /
                     (2 * MASS['H'])),
           'S[Smono]': ('SO2[G]', (MASS['S'] + 2 * MASS['O']) / MASS['S']),
           'O2[G]': ('O2[G]', 1.0), 'N2[G]': ('N2[G]', 1.0)}
# A second form of an element
OTHER = 'S[Sortho]'
PRODUCT[OTHER] = PRODUCT['S[Smono]']
ELEMENTAL = DAF + [OTHER]


def combustion(k, m):
    """Heat set free by burning m of an element at 25 degC [MJ]."""
    prod, f = PRODUCT[k]
    return 3.6 * (th.H(k, 25, m) - th.H(prod, 25, m * f))


class Coal:
    """Model of a stream: masses, total heating value, P."""

    def __init__(self, s, m, hv, P):
        self.s, self.m, self.hv, self.P = s, m, hv, P

    @property
    def mass(self):
        return sum(self.m.values())

    def heat(self):
        """Heat set free by burning it [MJ/h], by its elements if unknown."""
        if self.hv is not None:
            return self.hv
        return sum(combustion(k, v) for k, v in self.m.items() if k in ELEMENTAL)

    def at25(self):
        """Enthalpy flow at 25 degC [kWh/h]."""
        h = sum(th.H(k, 25, v) for k, v in self.m.items() if k in ASH)
        if self.hv is None:
            return h + sum(th.H(k, 25, v) for k, v in self.m.items()
                           if k in ELEMENTAL)
        out = sum(th.H(PRODUCT[k][0], 25, self.m[k] * PRODUCT[k][1])
                  for k in self.m if k in ELEMENTAL)
        return h + self.hv / 3.6 + out


def observe(ctx, c, what, T=None):
    s = c.s
    tol = 1e-9 * c.mass
    for k, v in c.m.items():
        ctx.check(abs(s.get_compound_mfr(k) - v) <= tol, 'mass',
                  lambda: '%s: %s is %r, expected %r' % (
                      what, k, s.get_compound_mfr(k), v))
    ctx.check(bool(s.isCoal), 'coal-lost', '%s: no longer coal' % what)
    ctx.check(s.P == c.P, 'pressure', '%s: P is %r, expected %r' % (
        what, s.P, c.P))
    ctx.check(math.isfinite(s.Hfr) and math.isfinite(s.T), 'finite',
              '%s: Hfr %r, T %r' % (what, s.Hfr, s.T))
    if c.hv is None:
        ctx.check(s.HHV is None, 'HHV', '%s: HHV is %r' % (what, s.HHV))
    else:
        ctx.close(s.HHV, c.hv / c.mass, 'HHV', what + ': heating value',
                  rel=1e-7)
    if T is not None:
        ctx.check(abs(s.T - T) < 2e-3, 'temperature', '%s: T is %r, expected '
                  '%r' % (what, s.T, T))
    q = s.clone()
    q.T = s.T
    ctx.check(abs(q.Hfr - s.Hfr) <= 5e-6 * c.mass + 1e-9 * abs(s.Hfr),
              'H-of-T', lambda: '%s: enthalpy %r but %r at its temperature' %
              (what, s.Hfr, q.Hfr))
    # Ash as tabulated, the rest by the daf coal model (see P06).
    hot = sum(th.H(k, s.T, v) - th.H(k, 25, v) for k, v in c.m.items()
              if k in ASH)
    daf = sum(v for k, v in c.m.items() if k in ELEMENTAL)
    y = dict.fromkeys(('y_C', 'y_H', 'y_O', 'y_N', 'y_S'), 0.0)
    for k, v in c.m.items():
        if k in ELEMENTAL:
            y['y_' + k[0]] += max(v, 0.0) / daf if daf else 0.0
    hot += daf * (DAF_H(T=s.T + 273.15, **y) - DAF_H(T=298.15, **y)) / 3.6e6
    ctx.check(abs(q.Hfr - c.at25() - hot) <= 1e-5 * c.mass, 'H-hot',
              lambda: '%s: enthalpy at %r degC is %r, expected %r' % (
                  what, s.T, q.Hfr, c.at25() + hot))
    q.T = 25.0
    ctx.check(abs(q.Hfr - c.at25()) <= 1e-6 * c.mass * 10, 'H-25',
              lambda: '%s: enthalpy at 25 degC is %r, expected %r' % (
                  what, q.Hfr, c.at25()))
    ctx.ev('states-compared')


def energy(ctx, what, a, b, mass):
    ctx.check(abs(a - b) <= 1e-5 * mass, 'energy', lambda: '%s: enthalpy is '
              '%r, expected %r' % (what, a, b))
    ctx.ev('energy-balances')


def case(ctx, rng, i):
    n = rng.randint(2, 3)
    names = ['Coal%d' % k for k in range(n)]
    ash = rng.sample(ASH, rng.randint(1, 4))
    keys = DAF + ash
    if rng.random() < 0.3:
        keys = keys + [OTHER]
        ctx.ev('two-sulphurs')
    if rng.random() < 0.5:
        rng.shuffle(keys)
    comp = {}
    for a in names:
        v = {'C[Sgr]': rng.uniform(0.4, 0.9), 'H2[G]': rng.uniform(.01, .06),
             'O2[G]': rng.uniform(0, 0.15), 'N2[G]': rng.uniform(0, 0.02),
             'S[Smono]': rng.uniform(0, 0.03)}
        v.update({k: rng.uniform(0, 0.1) for k in ash})
        if OTHER in keys:
            v[OTHER] = rng.uniform(0, 0.03)
        comp[a] = {k: round(x, 5) for k, x in v.items()}
    with_hhv = rng.random() < 0.7
    hhv = {a: round(rng.uniform(15, 35), 2) for a in names}
    # Assays that are no coal.
    plain = {'Ash': {k: round(rng.uniform(0.05, 1), 5) if k in ash else 0.0
                     for k in keys},
             'Char': {k: {'C[Sgr]': 1.0}.get(k, 0.0) for k in keys},
             'Mixed': {k: round(rng.uniform(0.05, 1), 5) for k in keys}}
    comp.update(plain)
    both = names + sorted(plain)
    rng.shuffle(both)
    tail = ['#\n', ['IsCoal'] + ['01'[a in names] for a in both]]
    if with_hhv:
        tail.append(['HHV[MJ/kg]'] + ['%r' % hhv.get(a, 0.0) for a in both])

    def material(name, keys):
        write_table('coal.txt', 'Compound', both,
                    [[k] + ['%r' % comp[a][k] for a in both] for k in keys],
                    rng, tail)
        m = Material(name, 'coal.txt')
        os.remove('coal.txt')
        return m
    m = material('coal', keys)
    foreign = material('other', rng.sample(keys, len(keys)))
    some = rng.sample(keys[:], rng.randint(1, 3))
    some = [k for k in some if k != 'C[Sgr]'] or ['N2[G]']
    part = material('part', some)
    log = []
    ctx.info({'assays': comp, 'HHV': hhv if with_hhv else None, 'log': log})

    def whole(v):
        """v, now and then as a whole number of type int."""
        if v is not None and rng.random() < 0.15:
            ctx.ev('whole-number-arguments')
            return max(1, int(round(v)))
        return v

    def new(T, m=m):
        a = rng.choice(names)
        mfr = whole(log_uniform(rng, 0.5, 1e4) if rng.random() < 0.8
                    else log_uniform(rng, 1e-9, 1e9))
        P = whole(round(rng.uniform(0.5, 3), 2))
        T = whole(T)
        log.append('create %s %r T=%r' % (a, mfr, T))
        s = m.create_stream(a, mfr, P, T)
        tot = sum(comp[a].values())
        c = Coal(s, {k: mfr * v / tot for k, v in comp[a].items()},
                 hhv[a] * mfr if with_hhv else None, P)
        observe(ctx, c, 'created', T)
        return c
    c = new(rng.choice([25.0, round(rng.uniform(25, 900), 1)]))
    for _ in range(rng.randint(3, 10)):
        op = rng.choice(['mul', 'split', 'add', 'set_T', 'set_H', 'move',
                         'move', 'heat', 'clone', 'join', 'join', 'set_HHV',
                         'take-material', 'empty', 'bare'])
        ctx.ev('op-' + op)
        s = c.s
        H, T = s.Hfr, s.T
        if op == 'mul':
            k = rng.uniform(0.1, 3)
            log.append('mul %r' % k)
            r = s * k
            d = Coal(r, {x: v * k for x, v in c.m.items()},
                     None if c.hv is None else c.hv * k, c.P)
            observe(ctx, d, 'scaled', T)
            energy(ctx, 'scaled', r.Hfr, H * k, d.mass)
            observe(ctx, c, 'scaled original', T)
            c = d
        elif op == 'split':
            f = rng.uniform(0.05, 0.95)
            log.append('split %r' % f)
            trace(ctx, c, rng, T)
            r = s.extract(float(s.mfr) * f)
            d = Coal(r, {x: v * f for x, v in c.m.items()},
                     None if c.hv is None else c.hv * f, c.P)
            c.m = {x: v * (1 - f) for x, v in c.m.items()}
            c.hv = None if c.hv is None else c.hv * (1 - f)
            observe(ctx, d, 'part', T)
            observe(ctx, c, 'rest', T)
            energy(ctx, 'split', r.Hfr + s.Hfr, H, c.mass + d.mass)
            energy(ctx, 'part', r.Hfr, H * f, c.mass + d.mass)
            if rng.random() < 0.5:
                c = d
        elif op == 'add':
            b = new(round(rng.uniform(25, 900), 1))
            log.append('add')
            r = s + b.s
            d = Coal(r, {x: c.m[x] + b.m[x] for x in c.m},
                     None if c.hv is b.hv is None else
                     c.heat() + b.heat(), c.P)
            energy(ctx, 'sum', r.Hfr, H + b.s.Hfr, d.mass)
            observe(ctx, d, 'sum')
            lo, hi = min(T, b.s.T), max(T, b.s.T)
            ctx.check(lo - 25 <= r.T <= hi + 25, 'mix-temperature',
                      'T %r after mixing %r and %r' % (r.T, T, b.s.T))
            observe(ctx, c, 'operand', T)
            c = d
        elif op == 'set_T':
            T = whole(round(rng.uniform(25, 900), 1))
            log.append('T=%r' % T)
            s.T = T
            observe(ctx, c, 'set T', T)
        elif op == 'set_H':
            q = s.clone()
            T = round(rng.uniform(25, 900), 1)
            q.T = T
            log.append('H of T=%r' % T)
            s.Hfr = q.Hfr
            observe(ctx, c, 'set H', T)
        elif op == 'heat':
            q = s.clone()
            q.T = T + 10
            ctx.check(q.Hfr > s.Hfr, 'heat', 'heating lowers the enthalpy')
            observe(ctx, c, 'original of a clone', T)
        elif op == 'join':
            join(ctx, rng, c, m, foreign, comp, names, plain, hhv, with_hhv,
                 log)
        elif op == 'set_HHV':
            v = None if rng.random() < 0.1 else whole(
                round(rng.uniform(15, 35), 2))
            log.append('HHV=%r' % v)
            s.HHV = v
            c.hv = None if v is None else v * c.mass
            observe(ctx, c, 'set HHV', T)
        elif op == 'take-material':
            s.T = 25.0
            H = s.Hfr
            log.append('extract %s' % some)
            r = s.extract(part)
            for k in some:
                ctx.close(r.get_compound_mfr(k), c.m[k], 'extracted-mass',
                          'extracted ' + k, rel=1e-9, abs_=1e-9 * c.mass)
                if c.hv is not None and k in ELEMENTAL:
                    c.hv -= combustion(k, c.m[k])
                c.m[k] = 0.0
            observe(ctx, c, 'material taken', 25.0)
            energy(ctx, 'material taken', r.Hfr + s.Hfr, H, c.mass + r.mfr)
            ctx.check(r.P == c.P and abs(r.T - 25) < 1e-6, 'extracted-PT',
                      'P, T of the extract: %r, %r' % (r.P, r.T))
        elif op == 'empty':
            e = s.clone()
            how = rng.choice(['clear', 'create', 'all', 'one-by-one',
                              'nought', 'material'])
            with numpy.errstate(all='raise'):
                if how == 'clear':
                    e.clear()
                elif how == 'create':
                    e = m.create_stream(rng.choice(both), 0.0)
                elif how == 'all':
                    e.extract(e.mfr)
                elif how == 'nought':
                    e = e * 0.0
                elif how == 'material':
                    e.extract(m)
                else:
                    for k in rng.sample(keys, len(keys)):
                        e.extract(k)
                log.append('empty ' + how)
                ctx.ev('emptied-' + how)
                nothing(ctx, e, rng, c)
                if c.hv is not None and how not in ('create', 'clear'):
                    known(ctx, rng, e, c, how)
            first = rng.random() < 0.5
            if c.hv is not None:
                r = e + s if first else s + e
                d = Coal(r, dict(c.m), c.hv, e.P if first else c.P)
                observe(ctx, d, 'with nothing', T)
                energy(ctx, 'with nothing', r.Hfr, H, c.mass)
        elif op == 'bare':
            bare(ctx, rng, c, T)
        elif op == 'clone':
            d = Coal(s.clone(), dict(c.m), c.hv, c.P)
            observe(ctx, d, 'clone', T)
            energy(ctx, 'clone', d.s.Hfr, H, c.mass)
        else:
            s.T = 25.0
            H = s.Hfr
            k = rng.choice(keys)
            how = rng.choice(['add', 'take', 'take-all', 'add-T'])
            if how == 'take-all' and k in ('C[Sgr]',):
                how = 'take'
            if how.startswith('add'):
                v = rng.uniform(0.01, 0.3) * c.mass
            elif how == 'take':
                v = float(s.get_compound_mfr(k)) * rng.uniform(0.05, 0.9)
            else:
                v = float(s.get_compound_mfr(k))
            log.append('%s %s %r' % (how, k, v))
            heat = combustion(k, v) if k in ELEMENTAL else 0.0
            d = Coal(s, dict(c.m), c.hv, c.P)
            if how.startswith('add'):
                T = 25.0 if how == 'add' else round(rng.uniform(25, 600), 1)
                r = s + ((k, v) if how == 'add' else (k, v, T))
                d.s = r
                d.m[k] += v
                if d.hv is not None:
                    d.hv += heat
                observe(ctx, d, how, 25.0 if how == 'add' else None)
                energy(ctx, how, r.Hfr, H + th.H(k, T, v), d.mass)
                observe(ctx, c, how + ' operand', 25.0)
                c = d
            else:
                r = s.extract((k, v) if how == 'take' else k)
                c.m[k] -= v
                if c.hv is not None:
                    c.hv -= heat
                observe(ctx, c, how, 25.0)
                ctx.close(r.mfr, v, 'extracted-mass', 'extracted', rel=1e-12)
                energy(ctx, how, r.Hfr + s.Hfr, H, c.mass + v)
                ctx.check(r.P == c.P and abs(r.T - 25) < 1e-6,
                          'extracted-PT', 'P, T of the extract: %r, %r' % (
                              r.P, r.T))
            ctx.ev('moved-daf' if k in ELEMENTAL else 'moved-ash')
    ctx.eval(tuple(log))
    ctx.sample({'assays': comp, 'log': log[:6]}, 2)


def nothing(ctx, e, rng, c):
    """A stream with nothing in it, and the first that goes into it."""
    T = round(rng.uniform(25, 900), 1)
    if rng.random() < 0.5:
        e.T = T
        ctx.check(e.T == T, 'nothing-T', 'T of nothing: %r' % e.T)
    for w, x in (('nothing', e), ('twice nothing', e * 2.0),
                 ('a copy of nothing', e.clone()),
                 ('a part of nothing', e.clone().extract(0.0)),
                 ('nothing and nothing', e + e)):
        ctx.check(x.mfr == 0.0 and x.Hfr == 0.0 and math.isfinite(x.T),
                  'nothing', lambda: '%s has %r kg/h, %r kWh/h, T %r' % (
                      w, x.mfr, x.Hfr, x.T))
    if not e.isCoal:
        return
    k, v = rng.choice(list(c.m)), rng.uniform(0.1, 50)
    # The heat capacity of elements in coal is that of daf coal.
    if k in ELEMENTAL:
        T = 25.0
    r = e + (k, v, T)
    ctx.close(r.mfr, v, 'mass', '%s into an empty coal' % k, rel=1e-12)
    energy(ctx, '%s into an empty coal' % k, r.Hfr, th.H(k, T, v), v)
    ctx.check(abs(r.T - T) < 2e-3, 'temperature', 'T of %s at %r put in '
              'an empty coal: %r' % (k, T, r.T))
    if r.HHV is not None:
        heat = combustion(k, v) if k in ELEMENTAL else 0.0
        ctx.check(abs(r.HHV * v - heat) <= 1e-9 * abs(heat), 'HHV',
                  'heating value of %s in an empty coal: %r' % (k, r.HHV))


def known(ctx, rng, e, c, how):
    """The heating value of a coal stays known when all of it is taken."""
    if how in ('all', 'nought'):
        ctx.check(e.HHV is not None and
                  abs(e.HHV * c.mass / c.hv - 1) < 1e-7, 'emptied-HHV',
                  lambda: 'heating value %r after all was taken (%s), it '
                  'was %r' % (e.HHV, how, c.hv / c.mass))
    k, v = rng.choice(list(c.m)), rng.uniform(0.1, 50)
    r = e + (k, v)
    heat = combustion(k, v) if k in ELEMENTAL else 0.0
    ctx.check(r.HHV is not None and abs(r.HHV * v - heat) <=
              1e-9 * abs(heat), 'emptied-HHV', lambda: 'heating value of '
              '%r of %s in a coal emptied (%s): %r' % (v, k, how, r.HHV))
    ctx.ev('emptied-known')


def bare(ctx, rng, c, T):
    """All the coal taken out of the ash."""
    s = c.s.clone()
    with numpy.errstate(all='raise'):
        for k in rng.sample([k for k in c.m if k in ELEMENTAL],
                            sum(k in ELEMENTAL for k in c.m)):
            s.extract(k)
        for t in (T, 25.0, round(rng.uniform(25, 900), 1)):
            s.T = t
            h = sum(th.H(k, t, v) for k, v in c.m.items() if k in ASH)
            ctx.check(abs(s.Hfr - h) <= 1e-9 * c.mass, 'bare-H', lambda:
                      'ash without coal has %r kWh/h at %r degC, expected %r'
                      % (s.Hfr, t, h))
            ctx.check(abs(s.T - t) < 2e-3, 'temperature',
                      'T of ash without coal: %r, set to %r' % (s.T, t))
        r = s * 2.0
        energy(ctx, 'twice the ash', r.Hfr, s.Hfr * 2, c.mass)
        r = s.extract(s.mfr / 4)
        energy(ctx, 'a part of the ash', r.Hfr * 3, s.Hfr, c.mass)
        # Coal again.
        if c.hv is None:
            t = s.Hfr + c.s.Hfr
            r = s + c.s
            energy(ctx, 'ash and coal', r.Hfr, t, c.mass)
            d = Coal(r, {k: v * (1.75 if k in ASH else 1.0)
                         for k, v in c.m.items()}, None, s.P)
            observe(ctx, d, 'ash and coal')
    ctx.ev('bare')


def trace(ctx, c, rng, T):
    """A very small part, and a very small multiple, are still coal."""
    s = c.s.clone()
    H, m = s.Hfr, float(s.mfr)
    f = 10 ** rng.uniform(-9, -3)
    for what in ('trace', 'small multiple'):
        if what == 'trace':
            r = s.extract(m * f)
        else:
            r = c.s * f
        d = Coal(r, {k: v * f for k, v in c.m.items()},
                 None if c.hv is None else c.hv * f, c.P)
        observe(ctx, d, what, T)
        ctx.check(abs(r.Hfr - H * f) <= 1e-5 * m * f, 'energy', lambda: '%s '
                  'of %r of a coal: enthalpy is %r, expected %r' % (
                      what, f, r.Hfr, H * f))
        ctx.ev('traces')
    ctx.check(abs(s.Hfr - H * (1 - f)) <= 1e-5 * m, 'energy',
              'enthalpy after giving off a trace')


def join(ctx, rng, c, m, foreign, comp, names, plain, hhv, with_hhv, log):
    """Join a coal with something that differs in kind."""
    s = c.s
    H, T = s.Hfr, s.T
    m2 = rng.choice([m, foreign])
    mfr = c.mass * rng.uniform(0.01, 2)
    P = round(rng.uniform(0.5, 3), 2)
    T2 = rng.choice([T, T, 25.0, round(rng.uniform(25, 900), 1)])
    how = rng.choice(['plain', 'plain', 'coal', 'unmeasured'])
    a = rng.choice(sorted(plain) if how == 'plain' else names)
    o = m2.create_stream(a, mfr, P, T2)
    tot = sum(comp[a].values())
    om = {k: mfr * v / tot for k, v in comp[a].items()}
    ohv = sum(combustion(k, v) for k, v in om.items() if k in ELEMENTAL)
    measured = c.hv is not None
    if how == 'unmeasured':
        o = MaterialStream(m2, o._compound_mfrs * 1.0, P, T2, True, None)
    elif how == 'coal' and with_hhv:
        ohv = hhv[a] * mfr
        measured = True
    first = rng.random() < 0.5
    log.append('join %s %s %r T=%r of %s, %s' % (
        how, a, mfr, T2, m2.name, 'first' if first else 'last'))
    before = (o.Hfr, o.T, o.P, o.isCoal, o.HHV, str(o))
    r = o + s if first else s + o
    what = 'joined ' + how
    ctx.check((o.Hfr, o.T, o.P, o.isCoal, o.HHV, str(o)) == before,
              'operand', what + ': the other stream changed')
    ctx.check(r.material is (m2 if first else s.material), 'material', what)
    d = Coal(r, {k: c.m[k] + om[k] for k in c.m},
             c.heat() + ohv if measured else None, P if first else c.P)
    energy(ctx, what, r.Hfr, H + o.Hfr, d.mass)
    observe(ctx, d, what)
    if T == T2 == 25.0:
        ctx.check(abs(r.T - 25.0) < 1e-3, 'mix-temperature', lambda: '%s at '
                  '25 degC: T is %r' % (what, r.T))
        ctx.ev('joined-at-25')
    observe(ctx, c, 'operand', T)
    ctx.ev('joined-' + how)


def package(ctx, rng, item):
    """A package of coal: known not to work (see known_findings.txt)."""
    write_table('coal.txt', 'Compound', ['A'],
                [[k, '0.%d' % (9 - j)] for j, k in enumerate(DAF)] +
                [['SiO2[S]', '0.1']], rng,
                ['#\n', ['IsCoal', '1'], ['HHV[MJ/kg]', '27.5']])
    m = Material('coal', 'coal.txt')
    os.remove('coal.txt')
    ctx.info('create a package of 100 kg of coal at 25 degC')
    try:
        p = m.create_package('A', 100.0, 1.0, 25.0)
    except AttributeError as e:
        ctx.violation('coal-package-create', 'a package of coal cannot be '
                      'created: AttributeError %s' % e)
    s = m.create_stream('A', 100.0, 1.0, 25.0)
    for T in (25.0, 400.0):
        p.T = T
        s.T = T
        ctx.check(abs(p.H - s.Hfr) < 1e-3, 'coal-package-enthalpy',
                  'a package of coal has %r kWh, a stream of it %r' % (
                      p.H, s.Hfr))


def run(ctx):
    ctx.each('package', [0], package)
    for k in ('traces', 'joined-plain', 'joined-coal', 'joined-unmeasured',
              'joined-at-25', 'op-set_HHV', 'op-take-material', 'op-empty', 'bare',
              'emptied-all', 'emptied-one-by-one', 'emptied-clear',
              'op-mul', 'op-split', 'op-add', 'op-set_H', 'moved-daf',
              'moved-ash', 'energy-balances'):
        ctx.require(k, 20)
    ctx.run('coal', ctx.n(4000, 100000), case)
