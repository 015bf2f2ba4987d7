"""Random operation histories on packages, checked against the model."""
import math
import os

import numpy

from rt.core import log_uniform, isclose, short


class Item:
    __slots__ = ('p', 'mat', 'm', 'x', 'seen', 'scale')

    def __init__(self, p, mat, m, x=None, scale=0.0):
        self.p, self.mat, self.m = p, mat, m
        self.x = dict(x or {})
        self.scale = max(scale, sum(abs(v) for v in m.values()))

    def total(self):
        return sum(self.m.values())

    def copy(self, p):
        return Item(p, self.mat, dict(self.m), dict(self.x), self.scale)


class History:
    def __init__(self, ctx, rng, kind, span=(1e-2, 1e5), big=False):
        self.ctx, self.rng, self.kind = ctx, rng, kind
        self.span, self.big = span, big
        self.limit = max(1e8, 1e3 * span[1])
        self.mats = []        # (material, keys, names, assays, extra)
        self.items = []
        self.log = []
        self.nops = 0

    # -- set-up -------------------------------------------------------------
    def set_up(self):
        rng, kind = self.rng, self.kind
        top = 7 if kind.energy else 12
        if self.big:
            pool = kind.many(rng, rng.randint(20, 150))
        else:
            pool = kind.keys(rng, rng.randint(3, top))
        n = len(pool)
        sets = [pool]
        for _ in range(2):
            sub = rng.sample(pool, rng.randint(1, n))
            sets.append(self.sorted_keys(sub))
        other = kind.keys(rng, rng.randint(2, 5))
        sets.append(other)
        # A material is itself, whatever it is called.
        name = 'mat' if rng.random() < 0.15 else 'mat%d'
        if name == 'mat':
            self.ctx.ev('namesake-materials')
        for i, keys in enumerate(sets):
            path = 'm%d.txt' % i
            names, assays, extra = kind.define(rng, keys, path)
            m = kind.Material(name.replace('%d', str(i)), path)
            self.mats.append((m, keys, names, assays, extra))
            os.remove(path)
        for i in (0, 1, 2, 0):
            self.create(i)
        if rng.random() < 0.5:
            self.create(3)

    def sorted_keys(self, keys):
        if isinstance(keys[0], float):
            return sorted(keys, reverse=True)
        return keys

    def mass(self):
        r = self.rng.random()
        if r < 0.04:
            return 0.0
        if r < 0.1:
            return float(self.rng.randint(1, 500))
        return log_uniform(self.rng, *self.span)

    def temperature(self):
        """A temperature [degC], now and then one of a cold day."""
        if self.rng.random() < 0.08:
            return round(self.rng.uniform(-40, 25), 2)
        return round(self.rng.uniform(25, 1400), 2)

    def whole(self, v):
        """v, now and then as a whole number of type int."""
        if self.rng.random() < 0.15:
            self.ctx.ev('whole-number-arguments')
            return int(max(1, min(round(v), 10 ** 9)))
        return v

    def num(self, v):
        """v as one of the accepted types, and its value."""
        if self.kind.name != 'chem':
            r = self.rng.random()
            if r < 0.3:
                return numpy.float64(v), v
            if r < 0.4:
                n = numpy.float32(v)
                if float(n) > v:
                    n = numpy.nextafter(n, numpy.float32(-1e30))
                self.ctx.ev('single-precision-arguments')
                return n, float(n)
        return float(v), v

    def create(self, i):
        rng, kind = self.rng, self.kind
        m, keys, names, assays, extra = self.mats[i]
        kw = {}
        if kind.energy:
            kw = dict(P=self.whole(round(rng.uniform(0.1, 10), 3)),
                      T=self.whole(rng.choice([25.0, 25.0,
                                               self.temperature()])))
            x = dict(kw)
            # what is not stated is at 1 atm and 25 degC
            for name, default in (('P', 1.0), ('T', 25.0)):
                if rng.random() < 0.1:
                    del kw[name]
                    x[name] = default
                    self.ctx.ev('defaults-used')
        else:
            x = {}
        r = rng.random()
        if r < 0.12:
            p = kind.create(m, None, 0.0, **kw)
            model = {k: 0.0 for k in keys}
            if kind.name == 'slurry':
                x = dict(water=0.0, density=1.0)
            self.say('create empty mat%d' % i)
        elif r < 0.14:
            # nothing of an assay, unless told how much
            a = rng.choice(names)
            p = kind.create_none(m, a, **kw)
            model = {k: 0.0 for k in keys}
            if kind.name == 'slurry':
                x = dict(water=0.0, density=extra['density'][a])
            self.say('create without a mass mat%d' % i)
            self.ctx.check(kind.total(p) == 0.0, 'unstated-mass',
                           lambda: 'a package made without stating its mass '
                           'has a mass of %r' % kind.total(p))
        elif r < 0.75:
            a = rng.choice(names)
            mass = self.mass()
            if rng.random() < 0.1:      # as much as the assay adds up to
                mass = rng.choice([1.0, sum(assays[a].values())])
            norm = rng.random() < 0.7
            given, mass = self.num(mass)
            w = self.whole(mass)
            if w is not mass:
                given = mass = w
            elif kind.name == 'chem' and rng.random() < 0.15:
                given = numpy.float64(mass)
            p = kind.create(m, a, given, normalise=norm, **kw)
            tot = sum(assays[a].values())
            solid = mass
            if kind.name == 'slurry':
                w = mass * extra['water'][a]
                x = dict(water=w, density=extra['density'][a])
                solid = mass - w
            d = tot if norm and tot else 1.0
            if not tot:
                self.ctx.ev('assays-of-water-only')
            model = {k: solid * v / d for k, v in assays[a].items()}
            self.say('create mat%d %s %r normalise=%s' % (i, a, mass, norm))
            if norm:
                it = Item(p, i, model, x)
                self.ctx.close(kind.total(p), mass, 'requested-mass',
                               'mass of a normalised package',
                               rel=1e-12, abs_=1e-15)
        else:
            vals = [rng.choice([0.0, log_uniform(rng, *self.span),
                                log_uniform(rng, *self.span)]) for _ in keys]
            if kind.name == 'slurry':
                kw = dict(water=rng.choice([0.0, log_uniform(
                    rng, *self.span)]), density=rng.uniform(1.1, 8))
                x = dict(kw)
            if rng.random() < 0.3:
                vals = [int(min(round(v), 10 ** 12)) for v in vals]
                kw['whole'] = True
                if 'water' in kw:
                    kw['water'] = x['water'] = self.whole(kw['water'])
                self.ctx.ev('packages-of-whole-numbers')
            p = kind.make(m, vals, **kw)
            model = {k: float(v) for k, v in zip(keys, vals)}
            self.say('construct mat%d' % i)
        if kind.energy:
            x['H'] = kind.H_at(model, x['T'])[0] if any(
                model.values()) else 0.0
        self.add(Item(p, i, model, x))
        self.ctx.ev('packages-created')

    def materials(self):
        """The assays the materials hold."""
        return [{a: [float(x) for x in v] for a, v in getattr(
            m[0], 'raw_assays', getattr(m[0], 'assays', {})).items()}
            for m in self.mats]

    def say(self, s):
        self.log.append(s)
        self.ctx.info({'kind': self.kind.name, 'log': self.log[-40:],
                       'materials': [(m[1], m[2]) for m in self.mats]})

    def add(self, item):
        self.observe(item)
        item.seen = self.kind.state(item.p, self.mats[item.mat][1])
        self.items.append(item)
        if len(self.items) > 7:
            del self.items[self.rng.randrange(5)]
        return item

    # -- oracle -------------------------------------------------------------
    def observe(self, it):
        """The package agrees with its model."""
        ctx, kind = self.ctx, self.kind
        keys = self.mats[it.mat][1]
        tol = 1e-12 * max(it.scale, it.x.get('wscale', 0.0)) + 1e-30
        got = kind.masses(it.p, keys)
        for k, v in zip(keys, got):
            ctx.check(abs(v - it.m[k]) <= tol, 'mass:' + self.op,
                      lambda: 'after %s: mass of %s is %r, expected %r' % (
                          self.log[-1], k, v, it.m[k]))
        want = it.total() + it.x.get('water', 0.0)
        ctx.check(abs(kind.total(it.p) - want) <= len(keys) * tol,
                  'total:' + self.op, lambda: 'after %s: mass is %r, '
                  'expected %r' % (self.log[-1], kind.total(it.p), want))
        ctx.ev('states-compared')
        if kind.name == 'slurry':
            self.observe_slurry(it, tol)
        if kind.energy:
            self.observe_energy(it)
        self.observe_fractions(it, tol)
        # The next step is judged from what was observed after this one, so
        # that rounding does not pile up and small remainders are judged as
        # strictly as large packages.
        for k, v in zip(keys, got):
            it.m[k] = float(v)
        it.scale = sum(abs(v) for v in it.m.values())
        if kind.name == 'slurry':
            it.x['water'] = float(it.p.H2O_mass)
            it.x['density'] = float(it.p.solid_density)
            it.x['wscale'] = it.x['water']

    def observe_fractions(self, it, tol):
        ctx, kind, p = self.ctx, self.kind, it.p
        t = it.total()
        if t <= 1e-6 * it.scale or t < 1e-12:
            return
        keys = self.mats[it.mat][1]
        a = list(p.get_assay())
        ctx.check(len(a) == len(keys), 'assay-length', 'assay of %d entries '
                  'for %d compounds' % (len(a), len(keys)))
        for k, f in zip(keys, a):
            ctx.check(abs(f - it.m[k] / t) <= 4e-12 * it.scale / t,
                      'assay:' + self.op, lambda: 'after %s: fraction of %s '
                      'is %r, expected %r' % (self.log[-1], k, f,
                                              it.m[k] / t))
        f = getattr(p, 'get_compound_mass_fraction',
                    getattr(p, 'get_size_class_mass_fraction', None))
        if f is not None:
            k = self.rng.choice(keys)
            ctx.check(abs(f(k) - it.m[k] / t) <= 4e-12 * it.scale / t,
                      'fraction:' + self.op, lambda: 'fraction of %s is %r, '
                      'expected %r' % (k, f(k), it.m[k] / t))
        ctx.check(abs(sum(a) - 1.0) < 1e-9, 'assay-sum', 'assay adds up to '
                  '%r' % sum(a))

    def observe_slurry(self, it, tol):
        ctx, p = self.ctx, it.p
        ctx.check(abs(p.H2O_mass - it.x['water']) <= tol, 'water:' + self.op,
                  lambda: 'after %s: water is %r, expected %r' % (
                      self.log[-1], p.H2O_mass, it.x['water']))
        if it.total() > 1e-6 * it.scale or self.op in (
                'clear', 'clone', 'create', 'mul'):
            ctx.close(p.solid_density, it.x['density'], 'density:' + self.op,
                      'solid density after ' + self.log[-1], rel=1e-9)
        else:        # no solids but rounding residue: any density will do
            ctx.check(p.solid_density > 0, 'density:' + self.op,
                      'solid density after %s is %r' % (self.log[-1],
                                                        p.solid_density))
            it.x['density'] = float(p.solid_density)
        ms, w, d = it.total(), it.x['water'], it.x['density']
        ctx.close(p.get_solid_mass(), ms, 'solid-mass', 'solid mass',
                  abs_=2 * tol)
        if ms + w > 1e-6 * it.scale and ms + w > 1e-9:
            v = w + ms / d
            rel = 1e-9 + 4 * tol / (ms + w)
            ctx.close(p.get_volume(), v, 'volume:' + self.op, 'volume',
                      rel=rel)
            ctx.close(p.get_density(), (ms + w) / v, 'slurry-density:' +
                      self.op, 'slurry density', rel=rel)
            ctx.close(p.get_mass_fraction_solids(), ms / (ms + w),
                      'mass-fraction-solids', 'mass fraction solids',
                      rel=rel, abs_=1e-9)
            ctx.close(p.get_volume_fraction_solids(), ms / d / v,
                      'volume-fraction-solids', 'volume fraction solids',
                      rel=rel, abs_=1e-9)
            ctx.ev('slurry-volumes')

    def observe_energy(self, it):
        """T and H are finite, agree with the contents, and with the model."""
        ctx, kind, p = self.ctx, self.kind, it.p
        H, T = kind.enthalpy(p), p.T
        ctx.check(math.isfinite(H) and math.isfinite(T), 'finite:' + self.op,
                  lambda: 'after %s: H=%r T=%r' % (self.log[-1], H, T))
        ctx.check(p.P == it.x['P'], 'pressure:' + self.op,
                  lambda: 'after %s: P is %r, expected %r' % (
                      self.log[-1], p.P, it.x['P']))
        keys = self.mats[it.mat][1]
        mass = kind.total(p)
        got = dict(zip(keys, kind.masses(p, keys)))
        h, s = kind.H_at(got, T)
        # what 2 mK of temperature is worth, plus rounding
        slack = 3e-6 * abs(mass) + 1e-9 * s + 2e-9 * it.scale + 1e-300
        ctx.check(abs(H - h) <= slack, 'H-of-T:' + self.op,
                  lambda: 'after %s: enthalpy %r but its contents at its '
                  'temperature (%r) have %r' % (self.log[-1], H, T, h))
        ctx.check(abs(H - it.x['H']) <= slack + it.x.get(
            'eslack', 0.0) + 1e-9 * it.x.get('hscale', s), 'energy:' + self.op,
            lambda: 'after %s: enthalpy is %r, expected %r' % (
                self.log[-1], H, it.x['H']))
        if it.x.get('T') is not None:
            ctx.check(abs(T - it.x['T']) <= 1e-9 * max(1, abs(T)),
                      'temperature:' + self.op,
                      lambda: 'after %s: T is %r, expected %r' % (
                          self.log[-1], T, it.x['T']))
        if it.x.get('Tlo') is not None and mass > 1e-9:
            ctx.check(it.x['Tlo'] - 0.02 <= T <= it.x['Thi'] + 0.02,
                      'mix-temperature:' + self.op,
                      lambda: 'after %s: T is %r, outside [%r, %r]' % (
                          self.log[-1], T, it.x['Tlo'], it.x['Thi']))
        it.x['T'] = T
        it.x['H'] = H
        it.x.pop('Tlo', None)
        it.x.pop('Thi', None)
        it.x.pop('hscale', None)
        it.x.pop('eslack', None)
        ctx.ev('energy-balances')

    def others_unchanged(self, *changed):
        for it in self.items:
            if any(it is c for c in changed):
                continue
            now = self.kind.state(it.p, self.mats[it.mat][1])
            self.ctx.check(now == it.seen, 'bystander-changed:' + self.op,
                           lambda: '%s changed a package it must leave alone '
                           'from %r to %r' % (self.log[-1], it.seen, now))
            self.ctx.ev('bystanders-compared')

    def changed(self, it):
        self.observe(it)
        it.seen = self.kind.state(it.p, self.mats[it.mat][1])

    # -- operations -----------------------------------------------------------
    def pick(self):
        return self.rng.choice(self.items)

    def step(self):
        ops = ['add_pkg', 'add_pkg', 'add_tuple', 'mul', 'clone',
               'extract_mass', 'extract_mass', 'extract_tuple',
               'extract_key', 'refused', 'refused', 'clear', 'create']
        if self.kind.has_add_to:
            ops += ['add_to', 'add_to', 'add_to_tuple']
        if self.kind.energy:
            ops += ['add_tuple_T', 'set_T', 'set_H', 'set_P',
                    'extract_material', 'extract_absent']
        if self.kind.name == 'slurry':
            ops += ['add_water', 'extract_water']
        op = self.rng.choice(ops)
        if op == 'clear' and self.rng.random() < 0.5:
            op = 'add_pkg'
        self.op = op
        self.nops += 1
        self.ctx.ev('op-' + op)
        getattr(self, 'op_' + op)()

    def op_create(self):
        self.create(self.rng.choice([0, 1, 2]))
        self.others_unchanged()

    def sum_of(self, a, b, p):
        m = dict(a.m)
        for k, v in b.m.items():
            if v or k in m:
                m[k] = m[k] + v
        it = Item(p, a.mat, m, a.x, max(a.scale, b.scale))
        if self.kind.name == 'slurry':
            self.mix_density(it, a, b)
        if self.kind.energy:
            it.x['H'] = a.x['H'] + b.x['H']
            it.x['hscale'] = abs(a.x['H']) + abs(b.x['H'])
            ts = [i.x['T'] for i in (a, b) if i.total() > 0]
            it.x['T'] = None
            if ts:
                it.x['Tlo'], it.x['Thi'] = min(ts), max(ts)
        return it

    def mix_density(self, it, a, b):
        ms, mo = a.total(), b.total()
        it.x['water'] = a.x['water'] + b.x['water']
        it.x['wscale'] = max(a.x.get('wscale', 0.0), b.x.get('wscale', 0.0),
                             it.x['water'], a.scale, b.scale)
        if ms + mo > 0:
            it.x['density'] = (ms + mo) / (ms / a.x['density'] +
                                           mo / b.x['density'])
        # without solids the density has no effect; take what is there
        elif isclose(it.p.solid_density, a.x['density'], 1e-9) or isclose(
                it.p.solid_density, b.x['density'], 1e-9):
            it.x['density'] = float(it.p.solid_density)

    def fits(self, a, b):
        ka, kb = self.mats[a.mat][1], self.mats[b.mat][1]
        return all(k in ka for k in kb)

    def op_add_pkg(self):
        a, b = self.pick(), self.pick()
        if not self.fits(a, b):
            self.say('refused %d+%d' % (a.mat, b.mat))
            if a.mat != b.mat:
                e = self.ctx.raises(lambda: a.p + b.p, 'add-foreign',
                                    'adding a package with compounds the '
                                    'material lacks')
                if not self.kind.has_add_to:
                    self.ctx.check(not isinstance(
                        e, (TypeError, NameError)),
                        'add-foreign-reason', lambda: 'adding a package with '
                        'size classes the material lacks: %r' % e)
                self.ctx.ev('foreign-refused')
            self.others_unchanged()
            return
        if a.total() + b.total() > self.limit:
            return
        self.say('mat%d + mat%d' % (a.mat, b.mat))
        r = a.p + b.p
        self.ctx.check(r is not a.p and r is not b.p, 'add-new-object',
                       'the sum is one of its operands')
        self.others_unchanged()
        self.ctx.check(type(r) is type(a.p) and
                       r.material is a.p.material, 'add-type',
                       'the sum is a %s of material %r' % (
                           type(r), getattr(r, 'material', None)))
        self.add(self.sum_of(a, b, r))
        self.ctx.ev('sums-cross' if a.mat != b.mat else 'sums-same')
        self.others_unchanged(self.items[-1])

    def op_add_to(self):
        a, b = self.pick(), self.pick()
        if not self.fits(a, b):
            self.say('refused add_to %d %d' % (a.mat, b.mat))
            self.ctx.raises(lambda: a.p.add_to(b.p), 'add-foreign',
                            'adding a package with compounds the material '
                            'lacks')
            self.ctx.ev('foreign-refused')
            self.others_unchanged()
            return
        if self.rng.random() < 0.05:
            b = a
        if a.total() + b.total() > self.limit:
            return
        self.say('mat%d add_to %s' % (
            a.mat, 'itself' if a is b else 'mat%d' % b.mat))
        self.ctx.ev('added-to-itself', a is b)
        a.p.add_to(b.p)
        n = self.sum_of(a, b, a.p)
        a.m, a.x, a.scale = n.m, n.x, n.scale
        self.changed(a)
        self.others_unchanged(a)

    def tuple_mass(self, it, k):
        r = self.rng.random()
        if r < 0.5:
            return max(0.0, it.m[k]) * self.rng.choice(
                [0.0, 1.0, self.rng.random()])
        return self.mass()

    def op_add_tuple(self):
        a = self.pick()
        k = self.rng.choice(self.mats[a.mat][1])
        v = self.tuple_mass(a, k)
        self.say('mat%d + (%s, %r)' % (a.mat, k, v))
        given, v = self.num(v)
        r = a.p + (k, given)
        self.others_unchanged()
        it = a.copy(r)
        it.m[k] += v
        it.scale = max(it.scale, it.total())
        if self.kind.energy:
            it.x['H'] = a.x['H'] + self.kind.th.H(k, a.x['T'], v)
            it.x['hscale'] = abs(a.x['H']) + abs(it.x['H'])
        self.add(it)
        self.others_unchanged(it)

    def op_add_to_tuple(self):
        a = self.pick()
        k = self.rng.choice(self.mats[a.mat][1])
        v = self.tuple_mass(a, k)
        self.say('mat%d add_to (%s, %r)' % (a.mat, k, v))
        given, v = self.num(v)
        a.p.add_to((k, given))
        a.m[k] += v
        a.scale = max(a.scale, a.total())
        self.changed(a)
        self.others_unchanged(a)

    def op_add_tuple_T(self):
        a = self.pick()
        k = self.rng.choice(self.mats[a.mat][1])
        v = self.tuple_mass(a, k)
        T = self.temperature()
        self.say('mat%d + (%s, %r, %r)' % (a.mat, k, v, T))
        given, v = self.num(v)
        at, T = self.num(T)
        r = a.p + (k, given, at)
        self.others_unchanged()
        it = a.copy(r)
        it.m[k] += v
        it.scale = max(it.scale, it.total())
        h = self.kind.th.H(k, T, v)
        it.x['H'] = a.x['H'] + h
        it.x['hscale'] = abs(a.x['H']) + abs(h)
        it.x['T'] = None
        ts = ([a.x['T']] if a.total() > 0 else []) + ([T] if v > 0 else [])
        if ts:
            it.x['Tlo'], it.x['Thi'] = min(ts), max(ts)
        self.add(it)
        self.others_unchanged(it)

    def op_add_water(self):
        a = self.pick()
        v = self.mass()
        self.say('mat%d + (H2O, %r)' % (a.mat, v))
        given, v = self.num(v)
        r = a.p + ('H2O', given)
        self.others_unchanged()
        it = a.copy(r)
        it.x['water'] += v
        it.x['wscale'] = max(it.x.get('wscale', 0.0), it.x['water'],
                             it.scale)
        self.add(it)
        self.others_unchanged(it)

    def op_extract_water(self):
        a = self.pick()
        v = a.x['water'] * self.rng.choice([0.0, 1.0, self.rng.random()])
        v = max(0.0, min(v, float(a.p.H2O_mass)))
        self.say('mat%d.extract((H2O, %r))' % (a.mat, v))
        given, v = self.num(v)
        r = a.p.extract(('H2O', given))
        it = a.copy(r)
        it.m = {k: 0.0 for k in a.m}
        it.x['water'] = v
        a.x['water'] -= v
        for i in (a, it):
            i.x['wscale'] = max(i.x.get('wscale', 0), i.x['water'] + v,
                                i.scale)
        self.changed(a)
        self.others_unchanged(a)
        self.add(it)

    def op_mul(self):
        a = self.pick()
        k = self.rng.choice([0.0, 1.0, self.rng.random(), 1.0 / 3,
                             self.rng.uniform(1, 4)])
        if a.scale * k > self.limit:
            k = 0.5
        self.say('mat%d * %r' % (a.mat, k))
        given, k = self.num(k)
        r = a.p * given
        self.others_unchanged()
        it = Item(r, a.mat, {c: v * k for c, v in a.m.items()}, a.x,
                  a.scale * k)
        if 'water' in it.x:
            it.x['water'] *= k
            it.x['wscale'] = a.x.get('wscale', a.scale) * k
        if self.kind.energy:
            it.x['H'] = a.x['H'] * k
            it.x['hscale'] = abs(it.x['H'])
            # T=None: a recalculated H agrees with the old T within slack
        self.add(it)
        self.others_unchanged(it)

    def op_clone(self):
        a = self.pick()
        self.say('mat%d clone' % a.mat)
        r = a.p.clone()
        self.ctx.check(r is not a.p, 'clone-identity', 'clone is the '
                       'original')
        self.others_unchanged()
        now = self.kind.state(r, self.mats[a.mat][1])
        self.ctx.check(now == a.seen, 'clone-differs', lambda: 'clone is %r, '
                       'original %r' % (now, a.seen))
        self.add(a.copy(r))
        self.others_unchanged(self.items[-1])

    def part_fraction(self):
        """None, all, some, a trace, or all but a trace."""
        rng = self.rng
        r = rng.random()
        if r < 0.12:
            return 0.0
        if r < 0.3:
            return 1.0
        if r < 0.6:
            return rng.random()
        if r < 0.8:
            return 10 ** rng.uniform(-9, -0.3)
        return 1.0 - 10 ** rng.uniform(-9, -0.3)

    def op_extract_mass(self):
        a = self.pick()
        total = float(self.kind.total(a.p))
        f = self.part_fraction()
        v = total if f == 1.0 else total * f
        self.say('mat%d.extract(%r) of %r' % (a.mat, v, total))
        given, v = self.num(v)
        r = a.p.extract(given)
        self.ctx.check(r is not a.p, 'extract-identity', 'extract returned '
                       'the package itself')
        w = a.x.get('water', 0.0)
        base = a.total() + w
        f = v / base if base else 0.0
        it = Item(r, a.mat, {k: x * f for k, x in a.m.items()}, a.x, a.scale)
        for k in a.m:
            a.m[k] -= it.m[k]
        if 'water' in a.x:
            it.x['water'] = w * f
            a.x['water'] = w - w * f
            for i in (a, it):
                i.x['wscale'] = max(i.x.get('wscale', 0), w, i.scale)
        if self.kind.energy:
            H = a.x['H']
            it.x['H'] = H * f
            a.x['H'] = H - it.x['H']
            a.x['hscale'] = it.x['hscale'] = abs(H)
            a.x['eslack'] = it.x['eslack'] = 3e-6 * total
        self.changed(a)
        self.others_unchanged(a)
        self.add(it)
        self.others_unchanged(it)

    def part(self, a, k, v, r):
        """Take v of k out of a's model into a new item for r."""
        it = a.copy(r)
        it.m = {c: 0.0 for c in a.m}
        it.m[k] = v
        a.m[k] -= v
        if 'water' in it.x:
            it.x['water'] = 0.0
        if self.kind.energy:
            h = self.kind.th.H(k, a.x['T'], v)
            H = a.x['H']
            it.x['H'] = h
            a.x['H'] = H - h
            a.x['hscale'] = it.x['hscale'] = abs(H) + abs(h)
            a.x['eslack'] = it.x['eslack'] = 3e-6 * (a.total() + v)
        self.changed(a)
        self.others_unchanged(a)
        self.add(it)
        self.others_unchanged(it)

    def op_extract_tuple(self):
        a = self.pick()
        keys = self.mats[a.mat][1]
        k = self.rng.choice(keys)
        have = float(self.kind.masses(a.p, [k])[0])
        f = self.part_fraction()
        v = have if f == 1.0 else have * f
        self.say('mat%d.extract((%s, %r)) of %r' % (a.mat, k, v, have))
        given, v = self.num(v)
        r = a.p.extract((k, given))
        self.part(a, k, v, r)

    def op_extract_key(self):
        a = self.pick()
        keys = self.mats[a.mat][1]
        k = self.rng.choice(keys)
        have = float(self.kind.masses(a.p, [k])[0])
        self.say('mat%d.extract(%s) of %r' % (a.mat, k, have))
        r = a.p.extract(self.kind.by_str(k))
        self.part(a, k, have, r)

    def op_extract_absent(self):
        """There is none of it: refused, or an extract of nothing."""
        a = self.pick()
        kind, ctx = self.kind, self.ctx
        keys = self.mats[a.mat][1]
        k = self.rng.choice([x for x in kind.keys(self.rng, 12)
                             if x not in keys] or ['Xx[S]'])
        arg = self.rng.choice([k, (k, 0.0), (k, 1.0)])
        self.say('mat%d.extract(%r), which it has not' % (a.mat, arg))
        try:
            r = a.p.extract(arg)
        except Exception:
            r = None
            ctx.ev('absent-refused')
        else:
            ctx.check(type(r) is type(a.p), 'extract-absent-type', lambda:
                      'an extract of what a package has not is a %s' %
                      type(r).__name__)
            ctx.check(r.material is a.p.material and
                      float(kind.total(r)) == 0.0, 'extract-absent', lambda:
                      'an extract of what a package has not is %r' %
                      (kind.state(r, keys),))
            ctx.ev('absent-empty')
        self.others_unchanged()

    def op_extract_material(self):
        a = self.pick()
        j = self.rng.choice([0, 1, 2, 3])
        m, keys = self.mats[j][:2]
        self.say('mat%d.extract(mat%d)' % (a.mat, j))
        T = a.x['T']
        total = a.total()
        r = a.p.extract(m)
        mine = self.mats[a.mat][1]
        it = Item(r, j, {k: a.m.get(k, 0.0) for k in keys}, a.x, a.scale)
        for k in keys:
            if k in a.m:
                a.m[k] = 0.0
        H = a.x['H']
        h = self.kind.H_at(it.m, T)[0]
        it.x['H'] = h
        a.x['H'] = H - h
        a.x['hscale'] = it.x['hscale'] = abs(H) + abs(h)
        a.x['eslack'] = it.x['eslack'] = 3e-6 * total
        self.ctx.check(r.material is m, 'extract-material-type',
                       'material of the extract')
        self.changed(a)
        self.others_unchanged(a)
        self.add(it)
        self.others_unchanged(it)

    def op_clear(self):
        a = self.pick()
        self.say('mat%d.clear()' % a.mat)
        a.p.clear()
        a.m = {k: 0.0 for k in a.m}
        a.scale = 0.0
        if 'water' in a.x:
            a.x = dict(water=0.0, density=1.0)
        if self.kind.energy:
            a.x = dict(P=1.0, T=25.0, H=0.0)
        self.changed(a)
        self.others_unchanged(a)

    def op_set_T(self):
        a = self.pick()
        T = self.whole(self.temperature())
        self.say('mat%d.T = %r' % (a.mat, T))
        a.p.T = T
        self.ctx.check(a.p.T == T, 'set-T', 'T reads back %r' % a.p.T)
        a.x['T'] = T
        a.x['H'] = self.kind.H_at(a.m, T)[0]
        self.changed(a)
        self.others_unchanged(a)

    def op_set_H(self):
        a = self.pick()
        if a.total() < 1e-9:
            return
        T = self.temperature()
        got = dict(zip(self.mats[a.mat][1],
                       self.kind.masses(a.p, self.mats[a.mat][1])))
        H = self.kind.H_at(got, T)[0]
        self.say('mat%d.H = %r (T=%r)' % (a.mat, H, T))
        self.kind.set_enthalpy(a.p, H)
        self.ctx.check(self.kind.enthalpy(a.p) == H, 'set-H',
                       'H reads back %r' % self.kind.enthalpy(a.p))
        a.x['H'] = H
        a.x['T'] = None
        a.x['Tlo'] = a.x['Thi'] = T
        self.changed(a)
        self.others_unchanged(a)

    def op_set_P(self):
        a = self.pick()
        P = self.whole(round(self.rng.uniform(0.1, 10), 3))
        self.say('mat%d.P = %r' % (a.mat, P))
        a.p.P = P
        a.x['P'] = P
        self.changed(a)
        self.others_unchanged(a)

    def op_refused(self):
        """Operations that must raise and must change nothing."""
        rng, kind, ctx = self.rng, self.kind, self.ctx
        a = self.pick()
        keys = self.mats[a.mat][1]
        k = rng.choice(keys)
        have = float(kind.masses(a.p, [k])[0])
        total = float(kind.total(a.p))
        absent = rng.choice([x for x in kind.keys(rng, 12) if x not in keys]
                            or [None])
        choices = [
            ('extract-too-much', lambda: a.p.extract(
                total * (1 + 1e-9) + rng.choice([1e-6, 1.0, total + 1]))),
            ('extract-too-much-of-one', lambda: a.p.extract(
                (k, have * (1 + 1e-9) + rng.choice([1e-6, 1.0, total + 1])))),
            ('multiply-negative', lambda: a.p * -rng.choice([1e-9, 1.0])),
            ('multiply-wrong-type', lambda: a.p * rng.choice(
                ['2', None, [2.0]])),
            ('add-wrong-type', lambda: a.p + rng.choice(
                [None, [k, 1.0], (k,), ('x', 'y', 'z', 'w'), (1, 2), object(),
                 (k, 1.0, 200.0, 5.0), (k, '1.0'), (1.0, 2.0, 300.0),
                 (k, 1.0, '200') if kind.energy else (k, 1.0, 200.0),
                 ('H2O', 1.0, 2.0, 3.0)])),
            ('extract-wrong-type', lambda: a.p.extract(rng.choice(
                [None, [k, 1.0], (k,), (1, 2), object(), (k, 0.0, 0.0),
                 (k, '0.0'), ('H2O', 0.0, 0.0)]))),
            ('create-without-material', lambda: kind.make(rng.choice(
                [None, a.p, 'mat0', object(), keys]), [1.0] * len(keys))),
            ('create-from-no-masses', lambda: kind.make_of(
                a.p.material, rng.choice([None, 'x' * len(keys), 1.0,
                                          dict.fromkeys(keys, 1.0)]))),
        ]
        if absent is not None:
            choices.append(('add-absent', lambda: a.p + (absent, 1.0)))
            if not kind.energy:
                choices.append(('extract-absent', lambda: a.p.extract(
                    (absent, 1.0))))
                choices.append(('extract-absent', lambda: a.p.extract(
                    kind.by_str(absent))))
            if kind.has_add_to:
                choices.append(('add-to-absent', lambda: a.p.add_to(
                    (absent, 1.0))))
        if kind.name == 'slurry':
            choices.append(('extract-too-much-water', lambda: a.p.extract(
                ('H2O', float(a.p.H2O_mass) * (1 + 1e-9) + 1e-6))))
            choices.append(('add-unknown-substance', lambda: a.p + (
                rng.choice(['h2o', 'CO2', '', '75.0E-6']), 1.0)))
            choices.append(('extract-unknown-substance', lambda: a.p.extract(
                (rng.choice(['h2o', 'CO2', '']), 0.0))))
        if kind.has_add_to:
            choices.append(('add-to-wrong-type', lambda: a.p.add_to(
                rng.choice([None, [k, 1.0], (k,), object(), 1.0,
                            (k, 1.0, 200.0), (k, '1.0')]))))
        if kind.energy and absent is not None:
            choices.append(('add-absent', lambda: a.p + (absent, 1.0,
                                                         200.0)))
        name, f = rng.choice(choices)
        self.say('mat%d refused: %s' % (a.mat, name))
        ctx.raises(f, 'not-refused:' + name, name)
        ctx.ev('refused-' + name)
        self.others_unchanged()


def run_history(ctx, rng, kind, steps, span=(1e-2, 1e5)):
    size = rng.random()
    h = History(ctx, rng, kind, span, size < 0.003)
    if size > 0.997:
        steps *= 10
        ctx.ev('long-histories')
    if h.big:
        ctx.ev('large-materials')
    h.op = 'create'
    h.set_up()
    before = h.materials()
    for _ in range(steps):
        h.step()
    ctx.check(h.materials() == before, 'materials-changed', lambda: 'the '
              'materials changed from %r to %r' % (before, h.materials()))
    ctx.ev('operations', h.nops)
    ctx.eval((kind.name, tuple(h.log)), h.nops >= 5)
    ctx.sample({'kind': kind.name, 'log': h.log[:12]})
    return h
