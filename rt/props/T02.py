"""Thermochemical data survive being written and loaded."""
import contextlib
import io
import json
import os
import shutil
import warnings
import auxi.tools.chemistry.thermochemistry as th
from auxi.core.objects import Object
from rt.props import T01
from rt.formula import molar_mass
from rt.core import isclose

TARGETS = ['auxi/tools/chemistry/thermochemistry.py', 'auxi/core/objects.py']
RULE = ('Random sets of compounds (as in T01, including magnetic data and '
        'several ranges) written to a scratch directory and loaded back '
        'after another data set was active; FactSage text files generated '
        'from random phases and loaded; results compared with the data that '
        'was written. Non-trivial: at least one phase with two ranges; '
        'distinct by compound data.')
ASSUMPTIONS = ['FactSage files number the ranges of one compound without '
               'repeating the number of the last range of the previous phase']


def compare(ctx, rng, f, refs, mm, what, mag=True):
    ctx.check(f in th.compounds, what + '-missing',
              '%s was not loaded; have %r' % (f, sorted(th.compounds)))
    c = th.compounds[f]
    ctx.check(c.formula == f, what + '-formula', 'formula %r' % c.formula)
    ctx.close(c.molar_mass, mm / 1000, what + '-molar-mass', 'molar mass')
    ctx.check(list(c.get_phase_list()) == sorted(refs), what + '-phases',
              'phases %r, expected %r' % (c.get_phase_list(), sorted(refs)))
    for p, ref in refs.items():
        for where, T in T01.temps(rng, ref, 1):
            if ref.mag and abs(T / ref.mag[0] - 1) < 1e-9:
                continue
            H, S, G, sh, ss = ref.HSG(T)
            ctx.check(any(isclose(c.Cp(p, T), x, 1e-9,
                                  1e-10 * ref.cp_scale(T))
                          for x in ref.Cp(T)), what + '-Cp',
                      'Cp(%s, %s, %r) = %r, expected %r' % (
                          f, p, T, c.Cp(p, T), ref.Cp(T)))
            ctx.close(c.H(p, T), H, what + '-H', 'H(%s, %s, %r)' % (f, p, T),
                      abs_=1e-9 * sh)
            ctx.close(c.S(p, T), S, what + '-S', 'S(%s, %s, %r)' % (f, p, T),
                      abs_=1e-9 * ss)
            ctx.close(c.G(p, T), G, what + '-G', 'G(%s, %s, %r)' % (f, p, T),
                      abs_=1e-9 * (sh + T * ss))
            ctx.ev('values-compared')


def fresh(name):
    path = os.path.join(os.getcwd(), name)
    shutil.rmtree(path, ignore_errors=True)
    os.mkdir(path)
    return path


def auxi(ctx, rng, i):
    n = rng.randint(1, 4)
    comps = {}
    while len(comps) < n:
        f, c, refs, d = T01.gen_compound(rng)
        comps[f] = (c, refs, d)
    ctx.info({f: v[2] for f, v in comps.items()})
    folder = fresh(rng.choice(['auxi-data', 'data [1]', '[a-z]*']))
    objs = {}
    for f, (c, refs, d) in comps.items():
        if rng.random() < 0.5:
            d['Reference'] = 'rao1985'
        objs[f] = th.Compound(d)
    # histories: write in any order, some twice
    order = list(objs)
    rng.shuffle(order)
    for f in order + order[:rng.randint(0, 1)]:
        th.write_compound_to_auxi_file(folder, objs[f])
    ctx.check(sorted(os.listdir(folder)) == sorted(
        'Compound_%s.json' % f for f in comps), 'files',
        'files written: %r' % os.listdir(folder))
    th.load_data_auxi(folder)
    ctx.check(set(th.compounds) == set(comps), 'loaded-set',
              'loaded %r, expected exactly %r' % (sorted(th.compounds),
                                                  sorted(comps)))
    for f, (c, refs, d) in comps.items():
        compare(ctx, rng, f, refs, molar_mass(c), 'auxi')
        ctx.check(th.compounds[f].reference == d.get('Reference', ''),
                  'reference', 'reference %r' % th.compounds[f].reference)
        if d.get('Reference'):
            refd = json.load(open(os.path.join(
                T01.DATA, 'references.json')))
            ctx.check(th.compounds[f].get_reference() == refd['rao1985'],
                      'reference', 'get_reference')
        else:
            ctx.check(th.compounds[f].get_reference() == '', 'reference',
                      'get_reference of a compound without one')
        # a second generation is identical text
        ctx.check(str(th.compounds[f]) == str(objs[f]), 'second-generation',
                  'the text form of %s changed by writing and reading' % f)
        ctx.eval(repr(d), any(len(r.records) > 1 for r in refs.values()))
    # Object.write / read of a compound
    f = rng.choice(list(comps))
    p = os.path.join(folder, 'one.json')
    objs[f].write(p)
    back = th.Compound.read(p)
    saved = dict(th.compounds)
    th.compounds.clear()
    th.compounds[f] = back
    compare(ctx, rng, f, comps[f][1], molar_mass(comps[f][0]), 'object')
    th.compounds.update(saved)
    # the listing names every loaded compound and phase
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        th.list_compounds()
    lines = [x.strip() for x in out.getvalue().splitlines()]
    for f, (c, refs, d) in comps.items():
        ctx.check('%s: %s' % (f, ', '.join(sorted(refs))) in lines,
                  'listing', 'list_compounds printed %r' % lines)
    if rng.random() < 0.3:
        spoiled(ctx, rng, folder)
    # loading another data set replaces this one
    if rng.random() < 0.3:
        th.load_data_auxi()
        ctx.check(not [f for f in comps if f in th.compounds
                       and str(th.compounds[f]) == str(objs[f])],
                  'stale', 'compounds of the previous data set remain')
        ctx.check(len(th.compounds) == len([
            x for x in os.listdir(os.path.join(T01.DATA, 'rao'))
            if x.startswith('Compound_') and x.endswith('.json')]),
            'default-set', 'default data set: %d' % len(th.compounds))
        ctx.ev('replaced')
    # a folder without data leaves nothing loaded
    if rng.random() < 0.3:
        load = rng.choice([th.load_data_auxi, th.load_data_factsage])
        empty = fresh('no-data')
        if rng.random() < 0.4:
            empty = os.path.join(empty, 'missing')
        elif rng.random() < 0.5:
            with open(os.path.join(empty, 'Compounds.json'), 'w') as g:
                g.write('[]')
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter('always')
            load(empty)
        if not os.path.exists(empty):
            ctx.check(said, 'missing-folder', 'no warning for a folder which '
                      'is not there')
            ctx.ev('missing-folders')
        ctx.check(not th.compounds, 'stale', '%r remain loaded' % sorted(
            th.compounds)[:3])
        ctx.ev('emptied')
    ctx.ev('auxi-loads')


def spoiled(ctx, rng, good):
    """Loading a folder with an unreadable file among good ones."""
    before = dict(th.compounds)
    texts = {f: str(c) for f, c in before.items()}
    folder = fresh('spoiled')
    ext, load = rng.choice([('json', th.load_data_auxi),
                            ('txt', th.load_data_factsage)])
    others = ['Compound_%s.%s' % (f, ext) for f in ('Aa', 'Mn2O', 'Zz9')]
    if ext == 'json':
        for n in sorted(os.listdir(good)):
            shutil.copy(os.path.join(good, n), folder)
    how = rng.choice(['cut', 'folder', 'other', 'bytes'])
    for n in rng.sample(others, rng.randint(1, 3)):
        n = os.path.join(folder, n)
        if how == 'folder':
            os.mkdir(n)
        else:
            with open(n, 'wb') as g:
                g.write({'cut': b' Zz9 x\n' + b'_' * 40 +
                         b'\n S1 1 -5.0 what' if ext == 'txt' else
                         b'{"py/object": "auxi.tools.chem',
                         'other': b'', 'bytes': b'\xff\xfe\x00'}[how])
    done = False
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            load(folder)
            done = True
        except Exception:
            pass
    if done:                              # without the file it cannot read
        ctx.ev('spoiled-skipped')
        th.compounds.clear()
        th.compounds.update(before)
        return
    ctx.check({f: str(c) for f, c in th.compounds.items()} == texts,
              'lost', lambda: 'after a load that failed (%s) there are %r, '
              'before it %r' % (how, sorted(th.compounds), sorted(texts)))
    ctx.ev('spoiled-loads')


def fmt(x):
    return repr(float(x))


def factsage_text(rng, f, refs, late=lambda low: None):
    """The FactSage range listing: one or two terms per line."""
    out = [' %s  listing\n' % f, 'header\n', '_' * 40 + '\n']
    rec = 0
    for p, ref in refs.items():
        firstphase = True
        for a, b, terms in ref.records:
            rec += 1
            low = '298' if a == 298.15 else fmt(a)
            if a == 298.15 and rng.random() < 0.2:
                # The first range begins elsewhere, and is used from there.
                low = fmt(rng.choice([200.0, 250.5, 300.0, (a + b) / 2]))
                late(low)
            tail = '%s - %s' % (low, fmt(b))
            rest = list(terms)
            first = True
            while rest:
                k = 2 if len(rest) > 1 and rng.random() < 0.7 else 1
                ts, rest = rest[:k], rest[k:]
                cells = [p, str(rec)]
                if first and firstphase:
                    cells += [fmt(ref.DHref), fmt(ref.Sref)]
                for c, e in ts:
                    cells += [fmt(c), fmt(e)]
                sep = ' ' * rng.randint(1, 4)
                out.append(sep.join(cells) + '  ' + tail
                           + rng.choice(['\n', ' \n']))
                first = False
                firstphase = False
            if rng.random() < 0.2:
                out.append('\n')
    out += ['_' * 40 + '\n', 'trailer 1 2 3\n']
    return ''.join(out)


def factsage(ctx, rng, i):
    n = rng.randint(1, 3)
    comps = {}
    while len(comps) < n:
        f, c, refs, d = T01.gen_compound(rng)
        refs = {p: T01.gen_phase(rng, mag_ok=False) for p in refs}
        comps[f] = (c, refs)
    ctx.info({f: {p: (r.DHref, r.Sref, r.records)
                  for p, r in v[1].items()} for f, v in comps.items()})
    folder = fresh(rng.choice(['factsage-data', 'fs [x]']))
    for f, (c, refs) in comps.items():
        # keep range joints away from the "298" the reader rewrites
        with open(os.path.join(folder, 'Compound_%s.txt' % f), 'w') as h:
            h.write(factsage_text(rng, f, refs,
                                  lambda low: ctx.ev('first-from-elsewhere')))
    with contextlib.redirect_stdout(io.StringIO()):
        th.load_data_factsage(folder)
    ctx.check(set(th.compounds) == set(comps), 'factsage-set',
              'loaded %r, expected exactly %r' % (sorted(th.compounds),
                                                  sorted(comps)))
    for f, (c, refs) in comps.items():
        compare(ctx, rng, f, refs, molar_mass(c), 'factsage')
        ctx.eval(repr([(r.DHref, r.records) for r in refs.values()]),
                 any(len(r.records) > 1 for r in refs.values()))
    # and through the auxi format
    out = fresh(rng.choice(['factsage-out', 'out [!a]?']))
    for f in comps:
        th.write_compound_to_auxi_file(out, th.compounds[f])
    th.load_data_auxi(out)
    for f, (c, refs) in comps.items():
        compare(ctx, rng, f, refs, molar_mass(c), 'factsage-auxi')
    ctx.ev('factsage-loads')


def run(ctx):
    ctx.require('auxi-loads', 20)
    ctx.require('factsage-loads', 20)
    ctx.require('replaced', 3)
    ctx.require('spoiled-loads', 5)
    ctx.require('emptied', 3)
    ctx.require('missing-folders', 3)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.run('auxi', ctx.n(800, 10000), auxi)
        ctx.run('factsage', ctx.n(800, 10000), factsage)
