"""Plots show the data they are given and the model, and nothing else."""
import csv
import os

import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
from matplotlib.patches import Rectangle
import webbrowser

from auxi.tools.materialphysicalproperties import gases, idealgas
from auxi.tools.materialphysicalproperties.core import DataSet
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
from auxi.tools.transportphenomena.heattransfer.naturalconvection import (
    IsothermalFlatSurface)
from rt.core import log_uniform

TARGETS = ['auxi/tools/materialphysicalproperties/polynomial.py',
           'auxi/tools/materialphysicalproperties/idealgas.py',
           'auxi/tools/materialphysicalproperties/gases.py',
           'auxi/tools/transportphenomena/heattransfer/naturalconvection.py']
RULE = ('Models plotted against random data sets, alone or one plot after '
        'another, with other figures open, after a plot that was refused, '
        'and with a constant or a fitted model. A monitor on the figure '
        'being saved reads the drawn points and curves: the points must be '
        'those of the data sets, each curve the model at its temperatures '
        'over the range of the data where the model holds, nothing else may '
        'be drawn, and no other figure may be touched. Regions of surface '
        'configurations must be drawn where they apply. Distinct by (model, '
        'case).')
ASSUMPTIONS = ['the curve of a gas mixture goes up to 1000 K']


class Saved:
    """Everything drawn on the figures being saved, while in force."""

    def __enter__(self):
        self.figures, self.shown, self.opened = [], [], []
        self.real = matplotlib.figure.Figure.savefig
        self.show, self.open = plt.show, webbrowser.open_new
        me = self

        def savefig(fig, *args, **kw):
            me.figures.append([dict(
                lines=[(list(map(float, ln.get_xdata())),
                        list(map(float, ln.get_ydata())), ln.get_label(),
                        ln.get_linestyle(), ln.get_marker())
                       for ln in ax.get_lines()],
                xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(),
                title=ax.get_title(), legend=[
                    t.get_text() for t in ax.get_legend().get_texts()]
                if ax.get_legend() else []) for ax in fig.axes])
            return me.real(fig, *args, **kw)

        matplotlib.figure.Figure.savefig = savefig
        plt.show = lambda *a, **k: me.shown.append(
            [ax for n in plt.get_fignums() for ax in plt.figure(n).axes])
        webbrowser.open_new = lambda p, *a: self.opened.append(p)
        return self

    def __exit__(self, *args):
        matplotlib.figure.Figure.savefig = self.real
        plt.show, webbrowser.open_new = self.show, self.open
        return False


def data_set(rng, k, sym, disp, unit, lo, hi):
    n = rng.randint(4, 15) if rng.random() < 0.9 else \
        rng.choice([60, 230, 600, 1300])
    Ts = sorted([lo, hi] + [round(rng.uniform(lo, hi), 3)
                            for _ in range(n - 2)])
    if rng.random() < 0.5:
        rng.shuffle(Ts)
    size = log_uniform(rng, 1e-6, 1e4)
    ys = [size * (1 + rng.random()) for _ in Ts]
    path = 'set-%d.csv' % k
    with open(path, 'w', newline='') as f:
        w = csv.writer(f)
        for r in (['Name', 'Stuff'], ['Description', 'made up'],
                  ['Reference', 'nobody2020'], ['Temperature', 'Value'],
                  ['T', disp], ['K', unit], ['T', sym]):
            w.writerow(r)
        for T, y in zip(Ts, ys):
            w.writerow([repr(T), repr(y)])
    ds = DataSet(path)
    os.remove(path)
    return ds, Ts, ys


def compare(ctx, fig, sets, curves, model, what):
    """One figure: its points are the sets, its curves the models."""
    ctx.check(len(fig) == 1, 'axes', '%s: %d axes' % (what, len(fig)))
    ax = fig[0]
    pts = [ln for ln in ax['lines'] if ln[3] in ('None', '', ' ')]
    lns = [ln for ln in ax['lines'] if ln[3] not in ('None', '', ' ')]
    got = sorted(sorted(zip(p[0], p[1])) for p in pts)
    want = sorted(sorted(zip(T, y)) for _, T, y in sets)
    ctx.check(got == want, 'points', lambda: '%s: the points drawn are %r, '
              'the data are %r' % (what, [len(g) for g in got],
                                   [len(w) for w in want]))
    ctx.ev('points-compared', sum(map(len, got)))
    ctx.check(len(lns) == len(curves), 'curves', '%s: %d curves instead of '
              '%d' % (what, len(lns), len(curves)))
    left = list(lns)
    others = [min(s[1]) for s in sets]     # or that of another data set
    for lo, hi, f in curves:
        los = [lo] + (others if len(curves) > 1 else [])
        fit = []
        for ln in left:
            x, y = ln[0], ln[1]
            if len(x) >= 20 and any(abs(min(x) - v) <= 1e-9 * hi
                                    for v in los) and \
                    abs(max(x) - hi) <= 1e-9 * hi and x == sorted(x):
                ys = [f(v) for v in x]
                if all(abs(a - b) <= 1e-9 * max(abs(b), 1e-300) + 1e-15 *
                       max(map(abs, ys)) for a, b in zip(y, ys)):
                    gaps = [b - a for a, b in zip(x, x[1:])]
                    if max(gaps) <= 3 * (hi - x[0]) / 20:
                        fit.append(ln)
        ctx.check(fit, 'curve', lambda: '%s: no curve is the model from %r '
                  'to %r: the curves go %r' % (what, lo, hi, [
                      (ln[0][0], ln[0][-1], ln[1][0], ln[1][-1])
                      for ln in left]))
        left.remove(fit[0])
        ctx.ev('curves-compared')
    for ds, _, _ in sets:
        ctx.check(ds.name in ax['legend'], 'legend', lambda: '%s: the legend '
                  'does not name %s: %r' % (what, ds.name, ax['legend']))
    ctx.check(model.display_symbol in ax['ylabel'] and model.units in
              ax['ylabel'] and 'T' in ax['xlabel'] and 'K' in ax['xlabel'],
              'labels', lambda: '%s: axes are labelled %r and %r' % (
                  what, ax['xlabel'], ax['ylabel']))


def limits(rng, least):
    """Temperatures between which data are, some narrow, cold or hot."""
    r = rng.random()
    if r < 0.6:
        lo, d = rng.uniform(least, 600), rng.uniform(50, 900)
    elif r < 0.75:
        lo, d = rng.uniform(1, least), rng.uniform(5, 300)
    elif r < 0.9:
        lo, d = rng.uniform(least, 3000), rng.uniform(500, 6000)
    else:
        lo, d = rng.uniform(least, 3000), rng.uniform(0.5, 5)
    lo = round(lo, 2)
    return lo, round(lo + d, 2)


def fitted(rng, k):
    sym, disp, unit = rng.choice([('rho', '\\rho', 'kg/m3'),
                                  ('Cp', 'C_p', 'J/kg/K'),
                                  ('mu', '\\mu', 'Pa.s')])
    lo, hi = limits(rng, 200)
    made = data_set(rng, k, sym, disp, unit, lo, hi)
    m = PolynomialModelT.create(made[0], sym, rng.randint(1, 3))
    sets = [made]
    for j in range(rng.choice([0, 0, 1, 2])):
        a = round(lo + rng.uniform(-100, 40), 2)
        sets.append(data_set(rng, 100 * (k + 1) + j, sym, disp, unit, a,
                             round(a + rng.uniform(60, 1000), 2)))
    rest = sets[1:]
    if rng.random() < 0.3 and rest and \
            max(lo, min(min(s[1]) for s in rest)) < \
            min(hi, max(max(s[1]) for s in rest)):
        sets = rest        # some of the data are in the model's range
    T0 = min(min(s[1]) for s in sets)
    T1 = max(max(s[1]) for s in sets)
    return m, sets, [(max(lo, T0), min(hi, T1), lambda T: float(m(T=T)))], {}


def constructed(rng, k):
    """A polynomial model which was not fitted: it has no upper limit."""
    c = [rng.uniform(-1, 1) * 10 ** (-3 * p) for p in (2, 1, 0)]
    m = PolynomialModelT('Stuff', 'Value', 'v', 'v', 'm', None, None, c)
    lo, hi = limits(rng, 200)
    sets = [data_set(rng, k, 'v', 'v', 'm', lo, hi)]
    return m, sets, [(lo, hi, lambda T: (c[0] * T + c[1]) * T +
                      c[2])], {}


def ideal(rng, k):
    mm, P = rng.uniform(2, 200), log_uniform(rng, 1e3, 1e6)
    m = idealgas.RhoT(mm, P)
    sets = []
    for j in range(rng.randint(1, 2)):
        sets.append(data_set(rng, 100 * k + j, 'rho', '\\rho', 'kg/m3',
                             *limits(rng, 100)))
    return m, sets, [(min(min(s[1]) for s in sets),
                      max(max(s[1]) for s in sets),
                      lambda T: float(m(T=T)))], {}


def mixture(rng, k):
    m = rng.choice([gases.WilkeMuTx, gases.HerningZippererMuTx,
                    gases.IdealCpTx])()
    sets, xs, curves = [], {}, []
    for j in range(rng.randint(1, 3)):
        lo = round(rng.uniform(260, 600), 2)
        ds = data_set(rng, 100 * k + j, m.symbol, m.display_symbol, m.units,
                      lo, round(lo + rng.uniform(50, 700), 2))
        sets.append(ds)
        x = {g: rng.random() for g in rng.sample(['CO', 'N2', 'O2'],
                                                 rng.randint(1, 3))}
        name = 'mixture %d' % j
        xs[name] = x
        curves.append((lo, 1000.0, lambda T, x=x: float(m(T=T, x=x))))
    return m, sets, curves, xs


def series(ctx, rng, i):
    plt.close('all')
    mine = None
    if rng.random() < 0.4:
        mine = plt.figure()
        mine.gca().plot([1, 2, 3], [4.0, 5.0, 6.0])
        ctx.ev('other-figure-open')
    made = [rng.choice([fitted, fitted, ideal, mixture, constructed])(rng, k)
            for k in range(rng.randint(1, 3))]
    ctx.info({'models': [type(m).__name__ for m, _, _, _ in made]})
    for k, (m, sets, curves, xs) in enumerate(made):
        args = ([xs] if xs else [])
        ds = dict(zip(xs, [s[0] for s in sets])) if xs else {
            s[0].name: s[0] for s in sets}
        what = 'plot %d of a %s' % (k, type(m).__name__)
        if rng.random() < 0.25:
            bad = dict(ds)
            broken = data_set(rng, 900 + k, 'other', 'o', 'u', 300.0, 400.0)
            bad['mixture z' if xs else 'z'] = broken[0]
            ctx.raises(lambda: m.plot(*args, bad, 'bad.pdf'), 'refused',
                       what + ' with a data set without the property')
            if os.path.exists('bad.pdf'):
                os.remove('bad.pdf')
            ctx.check(plt.get_fignums() == ([mine.number] if mine else []),
                      'left-open', lambda: '%s that failed left its figure '
                      'open: %r' % (what, plt.get_fignums()))
            ctx.ev('refused-before')
        show = rng.random() < 0.3
        figs = sorted(plt.get_fignums())
        rc = dict(plt.rcParams)
        with Saved() as s:
            m.plot(*args, ds, 'p.pdf', *([True] if show else []))
        ctx.check(s.opened == (['p.pdf'] if show else []), 'shown', lambda:
                  '%s: opened %r' % (what, s.opened))
        ctx.check(len(s.figures) == 1, 'pages', '%s: %d figures were saved' %
                  (what, len(s.figures)))
        with open('p.pdf', 'rb') as f:
            b = f.read()
        os.remove('p.pdf')
        ctx.check(b[:4] == b'%PDF' and b'%%EOF' in b[-32:], 'file', what +
                  ': the file is not a PDF document')
        compare(ctx, s.figures[0], sets, curves, m, what)
        ctx.check(dict(plt.rcParams) == rc, 'settings', lambda: '%s: the '
                  'settings of plots changed: %r' % (what, {
                      k: v for k, v in plt.rcParams.items() if rc[k] != v}))
        ctx.check(sorted(plt.get_fignums()) == figs, 'left-open', '%s: left '
                  'its figure open' % what)
        if mine is not None:
            ctx.check(plt.fignum_exists(mine.number) and len(mine.axes) == 1
                      and [list(ln.get_xdata()) for ln in
                           mine.axes[0].get_lines()] == [[1, 2, 3]],
                      'other-figure', '%s: the figure that was open was '
                      'closed or drawn on' % what)
        ctx.ev('plots-' + type(m).__name__)
    plt.close('all')
    ctx.eval(('series', i))


def regions(ctx, rng, i):
    plt.close('all')
    eq = IsothermalFlatSurface(None)
    R = IsothermalFlatSurface.Region
    rs = eq.regions
    whole = rng.random() < 0.3
    if not whole:
        rs = rng.sample(rs, rng.randint(1, 6))
        if rng.random() < 0.7:
            a = rng.uniform(-80, 0)
            rs.append(R('mine', a, True, a + rng.uniform(1, 80), False,
                        *rng.choice([(None, True, None, True),
                                     (4.5, True, None, True),
                                     (None, True, 8.0, True),
                                     (5.0, True, 7.0, True),
                                     (0, True, 8.0, True),
                                     (0.0, True, None, True)]),
                        rng.choice([None, 'In_Eq_Region'])))
            ctx.ev('own-regions')
    ctx.info({'regions': [r.name for r in rs]})
    with Saved() as s:
        if whole:
            eq.plot_regions()
            ctx.check(len(s.shown) == 1 and len(s.shown[0]) == 1, 'shown',
                      'shown %d times' % len(s.shown))
            ctx.ev('shown')
        else:
            for r in rs:
                r.plot_region()
    ax = plt.gca()
    boxes = [p for p in ax.patches if isinstance(p, Rectangle)]
    ctx.check(len(boxes) == len(rs), 'boxes', '%d boxes for %d regions' % (
        len(boxes), len(rs)))
    lo, hi = ax.get_xlim()
    b, t = ax.get_ylim()
    ctx.check((lo, hi, b, t) == (-90, 90, 3, 12), 'limits', 'the axes show '
              '%r' % ((lo, hi, b, t),))
    names = [x.get_text() for x in ax.texts]
    ctx.check(sorted(names) == sorted(r.name for r in rs), 'names',
              'names drawn: %r' % names)
    where = {x.get_text(): x.get_position() for x in ax.texts}
    used = list(boxes)
    for r in rs:
        want = (r.theta_min, r.theta_max,
                3 if r.Ra_min is None else r.Ra_min,
                12 if r.Ra_max is None else r.Ra_max)
        f = [p for p in used if all(abs(u - v) < 1e-9 for u, v in zip(
            (p.get_x(), p.get_x() + p.get_width(), p.get_y(),
             p.get_y() + p.get_height()), want))]
        ctx.check(f, 'box', lambda: 'region %s, which is %r, is not drawn '
                  'there' % (r.name, want))
        used.remove(f[0])
        # a point inside of the box is a point of the region
        for _ in range(5):
            u = rng.uniform(want[0], want[1])
            v = rng.uniform(want[2], want[3])
            if want[0] < u < want[1] and want[2] < v < want[3]:
                ctx.check(r.contains_point(u, v), 'inside', 'region %s does '
                          'not contain %r, which is drawn in it' % (
                              r.name, (u, v)))
                ctx.ev('points-inside')
        ctx.check(not r.contains_point(want[0] - 0.5, 5.5) and
                  not r.contains_point(want[1] + 0.5, 5.5), 'inside',
                  'region %s contains points outside of its box' % r.name)
        x, y = where[r.name]
        ctx.check(want[0] - 6 <= x <= want[1] and want[2] - 1 <= y <= want[3],
                  'names', 'the name of region %s is at %r' % (r.name,
                                                               (x, y)))
    plt.close('all')
    ctx.ev('regions', len(rs))
    ctx.eval(('regions', i))


def run(ctx):
    for k in ('PolynomialModelT', 'RhoT'):
        ctx.require('plots-' + k, 10)
    for k in ('points-compared', 'curves-compared', 'other-figure-open',
              'refused-before', 'regions', 'shown', 'own-regions'):
        ctx.require(k, 10)
    ctx.run('series', ctx.n(96, 1600), series)
    ctx.run('regions', ctx.n(96, 1600), regions)
