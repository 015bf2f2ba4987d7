"""Material definition files, assays and created packages."""
import os
import numpy
from rt.core import log_uniform, isclose
from rt.packages import (Chem, Psd, Slurry, ThermoPackage, ThermoStream)

TARGETS = ['auxi/modelling/process/materials/chem.py',
           'auxi/modelling/process/materials/psd.py',
           'auxi/modelling/process/materials/slurry.py',
           'auxi/modelling/process/materials/thermo.py']
RULE = ('Random definition files (1-15 rows, 1-4 assays, any white space, '
        'blank lines) of the five kinds; what the material reports is '
        'compared with the file, packages with the requested mass and '
        'assay, refused assays with the unchanged material. Distinct by '
        'file contents; non-trivial: at least two rows.')
ASSUMPTIONS = ['the generator of definition files follows the documented '
               'format']
KINDS = [Chem(), Psd(), Slurry(), ThermoPackage(), ThermoStream()]


def assays_of(kind, m):
    return m.raw_assays if kind.energy else m.assays


def keys_of(kind, m):
    return m.compounds if hasattr(m, 'compounds') else m.size_classes


def snapshot(kind, m):
    s = {a: [float(x) for x in v] for a, v in assays_of(kind, m).items()}
    extra = ()
    if kind.name == 'slurry':
        extra = (dict(m.solid_densities), dict(m.H2O_fractions))
    if kind.energy:
        extra = ({a: [float(x) for x in v]
                  for a, v in m.converted_assays.items()},)
    return s, extra, list(keys_of(kind, m))


def case(ctx, rng, i):
    kind = KINDS[i // ctx.nshards % len(KINDS)]
    if rng.random() < 0.01:
        keys = kind.many(rng, rng.choice([40, 90, 150, 300]))
        ctx.ev('large-materials')
    else:
        keys = kind.keys(rng, rng.randint(1, 15))
    path = 'def.txt'
    names, assays, extra = kind.define(rng, keys, path)
    text = open(path).read()
    ctx.info({'kind': kind.name, 'file': text})
    ctx.eval((kind.name, text), len(keys) > 1)
    ctx.sample({'kind': kind.name, 'file': text}, 2)
    desc = rng.choice([None, 'some text'])
    m = kind.Material('the name', path, desc)
    os.remove(path)
    ctx.ev('files-' + kind.name.replace(' ', '-'))
    ctx.check(m.name == 'the name', 'name', 'name is %r' % m.name)
    ctx.check(m.description == desc, 'description', 'description is %r' %
              m.description)
    ctx.check(list(keys_of(kind, m)) == list(keys), 'rows',
              'rows read: %r' % (keys_of(kind, m),))
    n = m.compound_count if hasattr(m, 'compound_count') \
        else m.size_class_count
    ctx.check(n == len(keys), 'row-count', 'count is %r' % n)
    ctx.check(set(assays_of(kind, m)) == set(names), 'assay-names',
              'assays read: %r' % list(assays_of(kind, m)))
    index = getattr(m, 'get_compound_index',
                    getattr(m, 'get_size_class_index', None))
    for j, k in enumerate(keys):
        ctx.check(index(k) == j, 'index', 'index of %r is %r' % (k, index(k)))
    for a in names:
        v = [float(x) for x in assays_of(kind, m)[a]]
        ctx.check(v == [assays[a][k] for k in keys], 'assay-values',
                  lambda: 'assay %s read as %r' % (a, v))
        ctx.close(m.get_assay_total(a), sum(assays[a].values()),
                  'assay-total', 'total of ' + a, rel=1e-12)
        if kind.name == 'slurry':
            ctx.check(m.solid_densities[a] == extra['density'][a],
                      'density', 'density of %s: %r' % (
                          a, m.solid_densities[a]))
            ctx.check(m.H2O_fractions[a] == extra['water'][a], 'water',
                      'water of %s: %r' % (a, m.H2O_fractions[a]))
        if 'custom' in extra:
            want = {p: extra['custom'][p][a] for p in extra['custom']}
            ctx.check(m.assay_custom_properties[a] == want, 'custom',
                      'custom properties of %s: %r, expected %r' % (
                          a, m.assay_custom_properties[a], want))
            ctx.ev('custom-properties')
    e = [float(x) for x in m.create_empty_assay()]
    ctx.check(e == [0.0] * len(keys), 'empty-assay', 'empty assay %r' % e)

    packages(ctx, rng, kind, m, keys, names, assays, extra)
    before = snapshot(kind, m)
    refused(ctx, rng, kind, m, keys, names)
    ctx.check(snapshot(kind, m) == before, 'refused-changed',
              lambda: 'a refused assay changed the material from %r to %r' %
              (before, snapshot(kind, m)))
    added(ctx, rng, kind, m, keys, names)
    if rng.random() < 0.4:
        malformed(ctx, rng, kind, text, keys, names)


def packages(ctx, rng, kind, m, keys, names, assays, extra):
    before = snapshot(kind, m)
    for a in names:
        mass = rng.choice([0.0, 1.0, log_uniform(rng, 1e-5, 1e7),
                           sum(assays[a].values())])
        norm = rng.random() < 0.6
        kw = {}
        if kind.energy:
            kw = dict(P=rng.uniform(0.1, 5), T=rng.uniform(25, 1200))
        p = kind.create(m, a, mass, normalise=norm, **kw)
        tot = norm and sum(assays[a].values()) or 1.0
        solid = mass
        if kind.name == 'slurry':
            solid = mass * (1 - extra['water'][a])
            ctx.close(p.H2O_mass, mass * extra['water'][a], 'package-water',
                      'water of a package of ' + a)
            ctx.check(p.solid_density == extra['density'][a],
                      'package-density', 'density of a package')
        for k, v in zip(keys, kind.masses(p, keys)):
            ctx.close(v, solid * assays[a][k] / tot, 'package-mass',
                      '%s in %r of %s (normalise=%s)' % (k, mass, a, norm),
                      abs_=1e-11 * mass)
        if norm:
            ctx.close(kind.total(p), mass, 'package-total',
                      'mass of a normalised package', rel=1e-12)
        if kind.energy:
            ctx.check((p.P, p.T) == (kw['P'], kw['T']), 'package-PT',
                      'P, T of a package: %r' % ((p.P, p.T),))
        ctx.ev('normalised' if norm else 'not-normalised')
        if kind.energy:
            p.custom_properties['Price[USD/kg]'] = 2.5
            q = p.clone()
            ctx.check(q.custom_properties == {'Price[USD/kg]': 2.5},
                      'clone-custom', 'custom properties of a clone: %r' %
                      q.custom_properties)
            q.custom_properties['Price[USD/kg]'] = 17.0
            ctx.check(p.custom_properties == {'Price[USD/kg]': 2.5},
                      'clone-custom', 'a clone shares its custom properties')
            ctx.check(kind.create(m, a, mass).custom_properties == {},
                      'package-custom', 'packages share custom properties')
            ctx.ev('clones')
        use(ctx, rng, kind, p, keys)
    p = kind.create(m, None, 0.0)
    ctx.check(kind.total(p) == 0.0, 'empty-package', 'mass %r' %
              kind.total(p))
    ctx.raises(lambda: kind.create(m, 'no such assay', 1.0),
               'unknown-assay', 'a package of an unknown assay')
    ctx.check(snapshot(kind, m) == before, 'create-changed',
              'creating a package changed the material')


def use(ctx, rng, kind, p, keys):
    """Change a package in place."""
    for _ in range(2):
        r = rng.random()
        if r < 0.3:
            p.clear()
        elif r < 0.6 or not kind.has_add_to:
            p.extract(float(kind.total(p)) * rng.random())
        elif r < 0.8:
            p.extract(kind.by_str(rng.choice(keys)))
        else:
            p.add_to((rng.choice(keys), 2.5))
    ctx.ev('packages-used')


def refused(ctx, rng, kind, m, keys, names):
    n = len(keys)
    good = kind.array([rng.random() for _ in keys])
    wrong = kind.array([rng.random() for _ in range(n + rng.choice([-1, 1])
                                                    )])
    other = tuple(good) if kind.name == 'chem' else list(good)
    slurry = kind.name == 'slurry'
    args = [(rng.choice(names), good), ('new1', wrong), ('new2', other)]
    for name, assay in args:
        if slurry:
            f = lambda: m.add_assay(name, 9.9, 0.77, assay)
        else:
            f = lambda: m.add_assay(name, assay)
        ctx.raises(f, 'bad-assay-accepted', 'adding assay %r of %d values to '
                   'a material of %d' % (name, len(assay), n))
        ctx.ev('assays-refused')
    if slurry:
        ctx.raises(lambda: m.add_assay('new3', '2.0', 0.1, good),
                   'bad-assay-accepted', 'a density that is no number')
        ctx.raises(lambda: m.add_assay('new4', 2.0, None, good),
                   'bad-assay-accepted', 'a water fraction that is no '
                   'number')
        for x in ('new3', 'new4'):
            ctx.check(x not in m.solid_densities and
                      x not in m.H2O_fractions, 'refused-changed',
                      'a refused assay left something behind')


def malformed(ctx, rng, kind, text, keys, names):
    """A file that does not say what its material is."""
    lines = text.splitlines()
    r = rng.random()
    first = 3 if kind.name == 'slurry' else 1
    if kind.name == 'slurry' and r < 0.5:
        what = rng.choice(['no density', 'no water', 'swapped'])
        full = [i for i, l in enumerate(lines) if l.strip()]
        if what == 'swapped':
            a, b = full[1], full[2]
            lines[a], lines[b] = lines[b], lines[a]
        else:
            del lines[full[1 if what == 'no density' else 2]]
    else:
        rows = [i for i, l in enumerate(lines) if l.strip() and i >= first]
        rows = [i for i in rows if lines[i].split()[0] in
                [kind.key_text(k) for k in keys]]
        j = rng.choice(rows)
        cells = lines[j].split()
        cells[rng.randrange(1, len(names) + 1)] = rng.choice(
            ['abc', '0.2.1', '--', '1.0kg'])
        lines[j] = ' '.join(cells)
        what = 'no number: ' + lines[j]
    with open('bad.txt', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    ctx.raises(lambda: kind.Material('m', 'bad.txt'), 'malformed-file',
               '%s file, %s' % (kind.name, what))
    os.remove('bad.txt')
    ctx.ev('files-refused')


def added(ctx, rng, kind, m, keys, names):
    vals = [rng.random() for _ in keys]
    if kind.name == 'slurry':
        m.add_assay('added', 3.5, 0.25, kind.array(vals))
    else:
        m.add_assay('added', kind.array(vals))
    mass = log_uniform(rng, 1e-2, 1e4)
    p = kind.create(m, 'added', mass)
    solid = mass * (0.75 if kind.name == 'slurry' else 1.0)
    for k, v, f in zip(keys, kind.masses(p, keys), vals):
        ctx.close(v, solid * f / sum(vals), 'added-assay',
                  'package of an added assay')
    ctx.ev('assays-added')
    if kind.energy:
        return
    # the values of an assay are corrected, and packages made once more
    a = rng.choice(names + ['added'])
    row = assays_of(kind, m)[a]
    kind.create(m, a, mass)
    row[rng.randrange(len(keys))] = rng.random() + 0.1
    now = [float(x) for x in row]
    for _ in range(2):
        p = kind.create(m, a, mass)
        ctx.close(m.get_assay_total(a), sum(now), 'corrected-assay',
                  'total of an assay after it was corrected')
        solid = mass
        if kind.name == 'slurry':
            solid = mass * (1 - m.H2O_fractions[a])
        for k, v, f in zip(keys, kind.masses(p, keys), now):
            ctx.close(v, solid * f / sum(now), 'corrected-assay',
                      'package of a corrected assay')
    ctx.ev('assays-corrected')


def run(ctx):
    for k in KINDS:
        ctx.require('files-' + k.name.replace(' ', '-'), 20)
    for k in ('custom-properties', 'normalised', 'not-normalised',
              'assays-refused', 'assays-added', 'assays-corrected', 'packages-used',
              'files-refused'):
        ctx.require(k, 20)
    ctx.run('case', ctx.n(12000, 100000), case)
