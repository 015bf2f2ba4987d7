"""What an object prints about itself is what it answers when asked."""
import math
import os
import warnings


from auxi.modelling.process.materials import thermo
from auxi.tools.chemistry import thermochemistry as th
from auxi.tools.materialphysicalproperties.core import DataSet
from rt import packages
from rt.core import log_uniform

TARGETS = ['auxi/modelling/process/materials/chem.py',
           'auxi/modelling/process/materials/psd.py',
           'auxi/modelling/process/materials/slurry.py',
           'auxi/modelling/process/materials/thermo.py',
           'auxi/tools/chemistry/thermochemistry.py',
           'auxi/tools/materialphysicalproperties/core.py']
RULE = ('Materials and packages of every kind (coal among them) printed when '
        'new, when empty, and after every step of a random history; '
        'compound phases and data sets printed. The text is read back: each '
        'labelled number must be what the object answers for that quantity, '
        'every compound or size class must be there once, every assay under '
        'its own name, and printing must change nothing. Distinct by (kind, '
        'case).')
ASSUMPTIONS = ['assays of thermochemical materials may be headed by the '
               'first fifteen characters of their names']
KINDS = {}


def kind_of(name):
    if name not in KINDS:
        KINDS[name] = dict(chem=packages.Chem, psd=packages.Psd,
                           slurry=packages.Slurry,
                           package=packages.ThermoPackage,
                           stream=packages.ThermoStream)[name]()
    return KINDS[name]


def numbers(s):
    """The numbers of a line, without the units among them."""
    res = []
    for w in s.split():
        try:
            res.append(float(w))
        except ValueError:
            continue
    return res


def near(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-300


class Text:
    """The labelled lines of a text, each to be asked for once."""

    def __init__(self, ctx, text, what):
        self.ctx, self.what, self.text = ctx, what, text
        self.lines = [ln.strip() for ln in text.split('\n')]

    def find(self, label):
        gap = ' ' if label.endswith(':') or len(label) > 14 else '  '
        found = [ln for ln in self.lines
                 if ln == label or ln.startswith(label + gap)
                 or ln.startswith(label + '\t')]
        return [ln[len(label):].strip() for ln in found]

    def one(self, label):
        f = self.find(label)
        self.ctx.check(len(f) == 1, 'lines', lambda: '%s: %d lines for %r in'
                       ' %s' % (self.what, len(f), label, self.text))
        return f[0]

    def number(self, label, want, sig=None):
        line = self.one(label)
        got = numbers(line)
        self.ctx.check(len(got) == 1 and near(got[0], want), sig or 'number',
                       lambda: '%s: %s is printed as %r, it is %r' % (
                           self.what, label, line, want))
        self.ctx.ev('numbers-compared')

    def row(self, label, want, sig='row'):
        line = self.one(label)
        got = numbers(line)
        self.ctx.check(len(got) == len(want) and all(
            near(a, b) for a, b in zip(got, want)), sig, lambda:
            '%s: the line of %s reads %r, expected %r' % (
                self.what, label, line, want))
        self.ctx.ev('numbers-compared', len(want))

    def has(self, label, text):
        self.ctx.check(self.one(label) == text, 'name', lambda: '%s: %s is '
                       'printed as %r, not %r' % (self.what, label,
                                                  self.one(label), text))


def printed(ctx, o, state, what):
    """The text of o; printing must leave it as it was."""
    before = state()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = str(o)
        again = str(o)
    ctx.check(s == again, 'twice', '%s: printed differently the second time'
              % what)
    ctx.check(repr(before) == repr(state()), 'changed', '%s: printing '
              'changed it' % what)
    return Text(ctx, s, what)


def material(ctx, kind, m, keys, names, name, extra, what):
    raw = m.raw_assays if kind.energy else m.assays

    def state():
        return [(a, [float(x) for x in raw[a]]) for a in raw]
    t = printed(ctx, m, state, what)
    if kind.energy:
        t.has('Name', name)
    else:
        ctx.check(name in t.text, 'name', '%s: its name is not printed' %
                  what)
    heads = [ln.split() for ln in t.lines if ln.split()[:1] == ['Compound']]
    ctx.check(len(heads) == 1 and sorted(heads[0][1:]) == sorted(names),
              'assays', lambda: '%s: columns %r, the assays are %r' % (
                  what, heads, names))
    order = heads[0][1:]
    for k in keys:
        vals = [float(raw[a][keys.index(k)]) for a in order]
        t.row(kind.by_str(k), vals, 'assay')
    if kind.energy:
        t.row('Total', [float(sum(raw[a])) for a in order], 'total')
        props = set()
        for a in names:
            props |= set(m.assay_custom_properties[a])
        for p in props:
            t.row(p, [float(m.assay_custom_properties[a].get(p, math.nan))
                      for a in order], 'custom')
            ctx.ev('custom-printed')
    if kind.name == 'slurry':
        t.row('Solid density', [m.solid_densities[a] for a in order],
              'density')
        t.row('H2O fraction', [m.H2O_fractions[a] for a in order], 'water')
    ctx.ev('materials-' + kind.name.replace(' ', '-'))


def package(ctx, kind, p, keys, what, name='m'):
    t = printed(ctx, p, lambda: (kind.state(p, keys), dict(
        getattr(p, 'custom_properties', {}))), what)
    masses = [float(x) for x in kind.masses(p, keys)]
    total = float(kind.total(p))
    if kind.energy:
        t.has('Material', name)
        if kind.name == 'thermo stream':
            t.number('Mass Flow Rate', p.mfr)
            t.number('Amount Flow Rate', p.afr)
            t.number('Enthalpy Flow Rate', p.Hfr)
            moles = [float(x) for x in p.get_compound_afrs()]
        else:
            lines = [x for x in t.find('Mass') if 'Fraction' not in x]
            ctx.check(len(lines) == 1 and near(numbers(lines[0])[0], p.mass),
                      'number', lambda: '%s: the mass is printed as %r, it '
                      'is %r' % (what, lines, p.mass))
            t.number('Amount', p.amount)
            t.number('Enthalpy', p.H)
            moles = [float(x) for x in p.get_compound_amounts()]
        t.number('Pressure', p.P)
        t.number('Temperature', p.T)
        n = sum(moles)
        for k, m, x in zip(keys, masses, moles):
            t.row(k, [m, m / total, x / n] if total > 0 else [0.0] * 3,
                  'composition')
        for k, v in p.custom_properties.items():
            t.number(k, v, 'custom')
            ctx.ev('custom-printed')
        if p.isCoal and p.HHV is not None:
            t.number('HHV', p.HHV)
            ctx.ev('heating-values')
    else:
        t.has('material', name)
        t.number('mass', total)
        for k, m in zip(keys, masses):
            t.row(kind.by_str(k), [m], 'composition')
        if kind.name == 'slurry':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                t.number('solid density', p.solid_density)
                t.number('H2O mass', p.H2O_mass)
                t.number('volume', p.get_volume())
                if total > 0:
                    t.number('mass fraction solids',
                             p.get_mass_fraction_solids())
                    t.number('volume fraction solids',
                             p.get_volume_fraction_solids())
                    t.number('slurry density', p.get_density())
    ctx.check(isinstance(hash(p), int), 'hash', what + ' has no hash')
    ctx.ev('packages-' + kind.name.replace(' ', '-'))
    if total == 0:
        ctx.ev('empty-printed')


def process(ctx, rng, i):
    names = sorted(['chem', 'psd', 'slurry', 'package', 'stream'])
    kind = kind_of(names[i // ctx.nshards % 5])
    keys = kind.keys(rng, rng.randint(1, 8))
    if kind.name == 'chem' and rng.random() < 0.4:
        long = ['(NH4)2Fe(SO4)2.6H2O[S]', 'KAl(SO4)2.12H2O[Salpha]',
                'KAl2(AlSi3O10)(OH)2', 'KAl2(AlSi3O10)(OH)2[S]',
                'Ca2Mg5Si8O22(OH)2[S1]', 'Ca2Mg5Si8O22(OH)2']
        more = rng.sample(long, min(len(long), 2))
        keys += [k for k in more if k not in keys]
    if any(len(kind.by_str(k)) > 18 for k in keys):
        ctx.ev('long-names')
    assays, _, extra = kind.define(rng, keys, 'm.txt')
    name = rng.choice(['m', 'Ilmenite A', 'x-1', 'Ünit'])
    m = kind.Material(name, 'm.txt')
    os.remove('m.txt')
    ctx.info({'kind': kind.name, 'keys': keys, 'assays': assays})
    material(ctx, kind, m, keys, assays, name, extra, 'a new material')
    if rng.random() < 0.5:
        # as calculated: with as many digits as there are
        new = [rng.random() * rng.choice([1.0, 0.01, 1e-9]) for _ in keys]
        title = 'Added' if kind.energy else rng.choice(
            ['Added', 'Ilmenite_fines_2016-03', 'Concentrate_batch_12'])
        args = (2.5, 0.5, kind.array(new))
        if kind.name == 'slurry':
            args = (rng.uniform(2, 5), rng.random() * 0.1, args[2])
        m.add_assay(title, *args[0 if kind.name == 'slurry' else 2:])
        # between others, in alphabetic order
        if not kind.energy:
            m.add_assay('Zz', *args[0 if kind.name == 'slurry' else 2:])
        material(ctx, kind, m, keys, assays + [title] + (
            [] if kind.energy else ['Zz']), name, extra,
            'a material with an assay added')
        ctx.ev('all-digits')
    kw = {}
    if kind.energy:
        kw = dict(P=round(log_uniform(rng, 0.01, 100), 4),
                  T=rng.uniform(20, 1200))
    live = [kind.create(m, a, log_uniform(rng, 1e-6, 1e6), **kw)
            for a in assays]
    live.append(m.create_stream() if kind.name == 'thermo stream' else
                m.create_package())
    for p in live:
        package(ctx, kind, p, keys, 'a new package', name)
    done = []
    for _ in range(6):
        p = rng.choice(live)
        q = rng.choice(live)
        op = rng.choice(['add', 'scale', 'clone', 'extract', 'clear', 'tuple',
                         'warm', 'custom'])
        if op == 'add' and p is not q:
            p = p + q
        elif op == 'scale':
            p = p * rng.choice([0.5, 3.0, 0.5, 3.0, 0.0])
        elif op == 'clone':
            p = p.clone()
        elif op == 'extract':
            if kind.total(p) == 0 or not hasattr(p, 'extract'):
                continue
            live.append(p.extract(float(kind.total(p)) *
                                  rng.choice([0.25, 0.5])))
        elif op == 'clear' and hasattr(p, 'clear'):
            p = p.clone()
            p.clear()
        elif op == 'tuple' and not kind.energy:
            p += (rng.choice(keys), 1.5)
        elif op == 'warm' and kind.energy and kind.total(p) > 0:
            p.T = rng.uniform(20, 1500)
            p.P = rng.choice([1.0, 0.5, 12.0])
        elif op == 'custom' and kind.energy:
            p.custom_properties[rng.choice(['Price', 'Grade[%]', 'k', 'Moisture_as_received'])] = \
                rng.choice([0.0, rng.uniform(-1e3, 1e3), 1])
        else:
            continue
        live.append(p)
        done.append(op)
        for p in live[-3:]:
            package(ctx, kind, p, keys, 'after ' + ', '.join(done), name)
            ctx.ev('after-steps')
    ctx.eval((kind.name, i))
    ctx.sample({'kind': kind.name, 'steps': done, 'text': str(live[-1])}, 2)


DAF = ['C[Sgr]', 'H2[G]', 'O2[G]', 'N2[G]', 'S[Smono]']


def coal(ctx, rng, i):
    kind = kind_of('stream')
    keys = DAF + ['SiO2[S]', 'H2O[L]']
    with_hhv = rng.random() < 0.6
    comp = [rng.uniform(.5, .9), .05, .08, .01, .01, .05, .02]
    hhv = round(rng.uniform(15, 35), 2)
    tail = ['#\n', ['IsCoal', '1', '0']]
    if with_hhv:
        tail.append(['HHV[MJ/kg]', repr(hhv), '0'])
    packages.write_table('c.txt', 'Compound', ['Coal', 'Ash'],
                         [[k, '%.5f' % c, '%.5f' % (k == 'SiO2[S]')]
                          for k, c in zip(keys, comp)], rng, tail)
    m = thermo.Material('coals', 'c.txt')
    os.remove('c.txt')
    ctx.info({'heating value': with_hhv and hhv})
    material(ctx, kind, m, keys, ['Coal', 'Ash'], 'coals', {}, 'a coal')
    s = m.create_stream('Coal', log_uniform(rng, 1e-3, 1e3), 1.0,
                        rng.uniform(20, 300))
    if with_hhv:
        ctx.check(near(s.HHV, hhv), 'heating-value', 'the heating value is '
                  '%r' % s.HHV)
    for step in range(4):
        package(ctx, kind, s, keys, 'coal, step %d' % step, 'coals')
        ctx.ev('coal-with' if with_hhv else 'coal-without')
        op = rng.choice([lambda s: s * 2.0, lambda s: s.clone(),
                         lambda s: s + s.clone(), lambda s: s + m.
                         create_stream('Ash', 0.5 * s.mfr, 1.0, 25.0)])
        s = op(s)
        if rng.random() < 0.5:
            s.T = rng.uniform(20, 300)
    ctx.eval(('coal', i))


def phase(ctx, rng, i):
    terms = lambda: [dict(Coefficient=rng.choice(
        [rng.uniform(-50, 50), 0.0, 12, '3.5', rng.uniform(-1, 1) * 1e-6]),
        Exponent=rng.choice([0, 1.0, -2, '2', 0.5, -0.5]))
        for _ in range(rng.randint(1, 4))]
    bounds = sorted(rng.sample(range(300, 4000), rng.randint(1, 4)))
    recs = {}
    low = 298.15
    for b in bounds:
        key = rng.choice([str(b), '%.1f' % b])
        recs[key] = dict(Tmin=low, Tmax=float(b), Terms=terms())
        low = float(b)
    d = dict(Symbol=rng.choice(['S', 'L', 'S1']),
             Name=rng.choice(['solid', 'liquid', 'beta form']),
             Tref=298.15, DHref=rng.uniform(-1e6, 1e5),
             Sref=rng.uniform(0, 300), Cp_records=recs)
    ctx.info({'phase': d})
    ph = th.Phase(d)
    t = Text(ctx, str(ph), 'a phase')
    for label, v in (('Tref:', d['Tref']), ('DHref:', d['DHref']),
                     ('Sref:', d['Sref'])):
        t.number(label, v)
    ctx.check(t.one('Name:') == ph.name and t.one('Symbol:') ==
              d['Symbol'] == ph.symbol, 'name', 'name or symbol printed: %s' % t.text)
    f = [numbers(ln.split(':')[1]) for ln in t.lines
         if ln.startswith('Cp record count')]
    ctx.check(f == [[float(len(recs))]], 'number', lambda: 'the number of '
              'records is printed as %r' % f)
    # the records: ranges and terms in the printed text
    got = []
    for ln in t.lines:
        if ln.startswith('Tmin:'):
            got.append([numbers(ln)[0], None, []])
        elif ln.startswith('Tmax:'):
            got[-1][1] = numbers(ln)[0]
        elif got and len(numbers(ln)) == 2 and len(ln.split()) == 2:
            got[-1][2].append(tuple(numbers(ln)))
    want = [[r['Tmin'], r['Tmax'], [(float(x['Coefficient']),
                                     float(x['Exponent']))
                                    for x in r['Terms']]]
            for r in recs.values()]
    got.sort(key=lambda r: r[0])
    ctx.check(len(got) == len(want) and all(
        g[:2] == w[:2] and len(g[2]) == len(w[2]) and
        all(near(a, c) and b == e for (a, b), (c, e) in zip(
            sorted(g[2], key=lambda x: x[::-1]),
            sorted(w[2], key=lambda x: x[::-1])))
        for g, w in zip(got, want)), 'records', lambda: 'the records are '
        'printed as %r, they are %r' % (got, want))
    # what is printed is what is calculated
    for lo, hi, ts in got:
        T = rng.uniform(lo + 0.01, hi - 0.01)
        below = [r for r in got if r[1] <= lo]
        ctx.check(len(below) == got.index([lo, hi, ts]), 'records',
                  'the records are not in separate ranges')
        v = sum(c * T ** e for c, e in ts)
        s = sum(abs(c * T ** e) for c, e in ts)
        ctx.check(abs(ph.Cp(T) - v) <= 1e-7 * s + 1e-12, 'records', lambda:
                  'the heat capacity at %r is %r, by what is printed %r' % (
                      T, ph.Cp(T), v))
        ctx.ev('records-compared')
    ctx.eval(('phase', i))


def table(ctx, rng, i):
    n = rng.randint(1, 5)
    rows = rng.randint(1, 20)
    sy = ['T'] + ['p%d' % k for k in range(n)]
    head = [['Name', 'Stuff %d' % i], ['Description', 'words, "and" more'],
            ['Reference', 'someone2016'],
            ['Temperature'] + ['Prop %d' % k for k in range(n)],
            ['T'] + ['\\pi_%d' % k for k in range(n)],
            ['K'] + ['u%d' % k for k in range(n)], sy]
    data = [[300.0 + 10 * r] + [round(rng.uniform(-10, 10), 4)
                                for _ in range(n)] for r in range(rows)]
    with open('d.csv', 'w') as f:
        for r in head + data:
            f.write(','.join('"%s"' % str(c).replace('"', '""')
                             if ',' in str(c) or '"' in str(c) else str(c)
                             for c in r) + '\n')
    ds = DataSet('d.csv')
    os.remove('d.csv')
    s = str(ds)
    ctx.info({'rows': rows, 'columns': n})
    for r, label in zip(head, ['Material', 'Description', 'Reference']):
        ln = [x for x in s.split('\n') if x.startswith(label)]
        ctx.check(len(ln) == 1 and r[1] in ln[0], 'data-set', lambda:
                  '%s printed as %r, it is %r' % (label, ln, r[1]))
    for r, label in zip(head[3:], ['Properties', 'Display symbols', 'Units',
                                   'Symbols']):
        ln = [x for x in s.split('\n') if x.startswith(label)]
        ctx.check(len(ln) == 1 and all(
            repr(w) in ln[0] for w in r), 'data-set', lambda: '%s printed as '
            '%r, they are %r' % (label, ln, r))
    body = s.split('Data:')[1].strip('\n').split('\n')[1:]
    ctx.check(len(body) == rows, 'data-set', '%d rows printed' % len(body))
    for ln, r in zip(body, data):
        got = numbers(ln)[1:]
        if '...' in ln:
            continue
        ctx.check(len(got) == len(r) and all(
            abs(a - b) <= 1e-3 for a, b in zip(got, r)), 'data-set', lambda:
            'a row printed as %r, it is %r' % (ln, r))
        ctx.ev('rows-compared')
    ctx.eval(('table', i))


def run(ctx):
    for k in ('materials-', 'packages-'):
        for n in ('chem', 'psd', 'slurry', 'thermo-package',
                  'thermo-stream'):
            ctx.require(k + n if (k, n) != ('materials-', 'x') else k, 20)
    for k in ('empty-printed', 'custom-printed', 'coal-with', 'coal-without',
              'after-steps', 'records-compared', 'rows-compared',
              'heating-values', 'long-names', 'all-digits'):
        ctx.require(k, 20)
    ctx.run('process', ctx.n(3200, 20000), process)
    ctx.run('coal', ctx.n(640, 4000), coal)
    ctx.run('phase', ctx.n(2400, 12000), phase)
    ctx.run('table', ctx.n(960, 4000), table)
