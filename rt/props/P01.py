"""Fitted property models and the data sets behind them."""
import csv
import math
import os

import numpy

from auxi.tools.materialphysicalproperties.core import DataSet
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
from auxi.tools.materialphysicalproperties import gases, liquids
from rt.core import log_uniform, isclose

TARGETS = ['auxi/tools/materialphysicalproperties/polynomial.py',
           'auxi/tools/materialphysicalproperties/core.py']
RULE = ('Random data sets written to csv files (several properties, rows in '
        'any order) and models fitted to each property: exact data must come '
        'back exactly over the whole range, scattered data with residuals '
        'orthogonal to every fitted power (least squares), temperatures '
        'outside the data refused, the same values after a round trip '
        'through a file; the shipped models must follow their data sets. '
        'Distinct by (data set, property).')
ASSUMPTIONS = ['the shipped models follow their data within 5 %']
PROPS = [('Density', 'rho', '\\rho', 'kg/m3'),
         ('Heat Capacity', 'Cp', 'C_p', 'J/kg/K'),
         ('Dynamic Viscosity', 'mu', '\\mu', 'Pa.s'),
         ('Thermal Conductivity', 'k', 'k', 'W/m/K'),
         ('Expansion, thermal', 'beta', '\\beta', '1/K'),
         ('Number', 'T2', 'N', '"-"')]


def fitted(ctx, rng, i):
    props = rng.sample(PROPS, rng.randint(1, 4))
    n = rng.randint(6, 25)
    if rng.random() < 0.03:
        n = int(log_uniform(rng, 30, 20000))
        ctx.ev('long-data-sets')
    lo = rng.uniform(50, 1500)
    hi = lo + rng.uniform(100, 1500)
    Ts = [lo, hi] + [rng.uniform(lo, hi) for _ in range(n - 2)]
    rng.shuffle(Ts)
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    cols = {}
    for name, sym, disp, unit in props:
        size = log_uniform(rng, 1e-6, 1e4)
        deg = rng.randint(0, 3)
        c = [size * rng.uniform(-1, 1) for _ in range(deg + 1)]
        if rng.random() < 0.5:
            c[0] += 2 * size
        noise = rng.choice([0.0, 0.0, 0.05 * size])
        f = lambda T, c=c: sum(a * ((T - mid) / half) ** k
                               for k, a in enumerate(c))
        ys = [f(T) + noise * rng.uniform(-1, 1) for T in Ts]
        cols[sym] = (size, deg, f, noise, ys)
    material = rng.choice(['Stuff', 'Air', 'A, b', 'H2O(g)'])
    path = 'dataset-%d.csv' % i
    order = list(range(len(props)))
    # Programs write the same table in different ways.
    way = rng.choice(['plain', 'plain', 'unix', 'quoted', 'mark', 'commas',
                      'all-commas', 'empty-lines', 'two-lines'])
    ctx.ev('files-' + way)
    text = 'made up, %d rows' % n + ('\nin two lines' if way == 'two-lines'
                                     else '')
    with open(path, 'w', newline='', encoding='utf-8-sig' if way == 'mark'
              else 'utf-8') as f:
        w = csv.writer(f, lineterminator='\n' if way == 'unix' else '\r\n',
                       quoting=csv.QUOTE_ALL if way == 'quoted'
                       else csv.QUOTE_MINIMAL)
        w.writerow(['Name', material])
        w.writerow(['Description', text])
        w.writerow(['Reference', 'nobody2020'])
        w.writerow(['Temperature'] + [p[0] for p in props])
        w.writerow(['T'] + [p[2] for p in props])
        w.writerow(['K'] + [p[3] for p in props])
        w.writerow(['T'] + [p[1] for p in props])
        for k, T in enumerate(Ts):
            w.writerow([repr(T)] + [repr(cols[p[1]][4][k]) for p in props] +
                       [''] * (way in ('commas', 'all-commas')))
            if way == 'empty-lines' and rng.random() < 0.2:
                w.writerow([])
    if way == 'all-commas':
        with open(path, newline='') as f:
            rows = list(csv.reader(f))
        with open(path, 'w', newline='') as f:
            csv.writer(f).writerows(r + [''] * (len(rows[-1]) - len(r))
                                    for r in rows)
    ds = DataSet(path)
    os.remove(path)
    ctx.info({'range': [lo, hi], 'rows': n, 'columns': {
        s: [c[0], c[1], c[3]] for s, c in cols.items()}})
    ctx.check(ds.material == material and ds.reference == 'nobody2020' and
              ds.description == text and ds.name == path,
              'header', 'header of the data set: %r' % [
                  ds.material, ds.reference, ds.description, ds.name])
    ctx.check(list(ds.data['T']) == Ts, 'data', 'temperatures of the data '
              'set')
    for name, sym, disp, unit in props:
        size, deg, f, noise, ys = cols[sym]
        ctx.check(list(ds.data[sym]) == ys, 'data', '%s of the data set' %
                  sym)
        ctx.check(ds.names_dict[sym] == name and ds.units_dict[sym] == unit
                  and ds.display_symbols_dict[sym] == disp, 'header',
                  'name, symbol or units of ' + sym)
        degree = rng.randint(deg, 4) if noise == 0 else rng.randint(0, 4)
        m = PolynomialModelT.create(ds, sym, degree)
        ctx.check(m.material == material and m.property == name and
                  m.symbol == sym and m.display_symbol == disp and
                  m.units == unit, 'model-header', 'description of the '
                  'model of ' + sym)
        tol = 1e-7 * size
        if noise == 0:
            more = [rng.uniform(lo, hi) for _ in range(8)]
            more += [min(hi, T * (1 + 10 ** rng.uniform(-6, -1)))
                     for T in more]
            for T in Ts + [lo, hi] + [x for k in range(8)
                                      for x in more[k::8]]:
                v = m(T=T)
                ctx.check(abs(v - f(T)) <= tol, 'exact', lambda: '%s at %r: '
                          'model %r, data %r' % (sym, T, v, f(T)))
                ctx.ev('exact-values')
        else:
            res = [m(T=T) - y for T, y in zip(Ts, ys)]
            for k in range(degree + 1):
                s = sum(r * ((T - mid) / half) ** k
                        for r, T in zip(res, Ts))
                ctx.check(abs(s) <= tol * n, 'least-squares', lambda: 'the '
                          'fit of degree %d to %s is not the best: its '
                          'residuals correlate with T^%d' % (degree, sym, k))
            ctx.ev('scattered-fits')
        gap = rng.choice([1e-6, 1.0, 1000.0])
        for T in (lo - gap, hi + gap, -1.0):
            ctx.raises(lambda: m(T=T), 'outside', '%s at %r, of a model for '
                       '%r to %r' % (sym, T, lo, hi))
        ctx.check(m.calculate(T=lo) == m(T=lo), 'call', 'calling the model '
                  'and calculate differ')
        m.write('m.json')
        r = PolynomialModelT.read('m.json')
        os.remove('m.json')
        for T in Ts:
            ctx.check(r(T=T) == m(T=T), 'file', lambda: 'the model read from '
                      'a file gives %r, not %r' % (r(T=T), m(T=T)))
        for T in (lo - gap, hi + gap):
            ctx.raises(lambda: r(T=T), 'outside-file', '%s at %r, of a model '
                       'for %r to %r, read from a file' % (sym, T, lo, hi))
        ctx.check((r.material, r.property, r.symbol, r.display_symbol,
                   r.units) == (material, name, sym, disp, unit), 'file', 'description of the model read '
                  'from a file')
        ctx.ev('files')
        ctx.eval((i, sym, degree))
    ctx.sample({'range': [lo, hi], 'rows': n, 'properties': [
        p[1] for p in props]}, 2)


def shipped(ctx, rng, item):
    mat, ds = item
    for sym in ('rho', 'Cp', 'mu', 'k', 'beta', 'alpha', 'nu'):
        if sym not in ds.data:
            continue
        for T, v in zip(ds.data['T'], ds.data[sym]):
            try:
                v = float(v)
            except ValueError:
                continue
            got = getattr(mat, sym)(T=float(T))
            ctx.check(abs(got / v - 1) <= 0.05, 'shipped', lambda: '%s of %s '
                      'at %r K: %r, data %r' % (sym, mat.name, T, got, v))
            ctx.ev('shipped-values')
            ctx.eval((mat.name, ds.name, sym, T))
    lo, hi = min(ds.data['T']), max(ds.data['T'])
    for sym in ('Cp', 'mu', 'k'):
        for T in (lo - 1e-6, lo - 50.0, hi + 1e-6, hi + 500.0):
            ctx.raises(lambda: getattr(mat, sym)(T=float(T)), 'outside-'
                       'shipped', '%s of %s at %r K, data from %r to %r' % (
                           sym, mat.name, T, lo, hi))


def template(ctx, rng, i):
    name = rng.choice(['Air', 'Some Oil', 'x'])
    old = set(os.listdir('.'))
    DataSet.create_template(name, '.', False)
    new = sorted(set(os.listdir('.')) - old)
    ctx.check(len(new) == 1, 'template', 'files: %r' % new)
    ds = DataSet(new[0])
    os.remove(new[0])
    ctx.check(ds.material == name and len(ds.data) > 0 and 'T' in ds.data and
              ds.names_dict['T'] == 'Temperature', 'template', 'the template '
              'is not a data set')
    ctx.ev('templates')
    ctx.eval(name)


def run(ctx):
    for k in ('exact-values', 'scattered-fits', 'files', 'shipped-values',
              'templates'):
        ctx.require(k, 5)
    ctx.run('fitted', ctx.n(4000, 25000), fitted)
    g = gases
    pairs = [(g.materials[k], d) for k, ds in (
        ('Air', g.air_datasets), ('Ar', g.argon_datasets),
        ('NH3', g.ammonia_datasets), ('CO2', g.carbon_dioxide_datasets),
        ('CO', g.carbon_monoxide_datasets), ('N2', g.nitrogen_datasets),
        ('O2', g.oxygen_datasets), ('H2O', g.water_vapour_datasets))
        for d in ds.values()] + [(liquids.h2o, liquids.h2o_dataset)]
    ctx.each('shipped', pairs, shipped)
    ctx.run('template', 40, template)
