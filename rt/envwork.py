"""The same work in different surroundings: python -m rt.envwork SEED ORDER OUT

work(seed) uses every part of auxi and returns [[label, value]]; the values
must not depend on where, when and after what the work is done.
"""
import decimal
import importlib
import json
import locale
import os
import random
import signal
import sys

MODULES = [
    'auxi', 'auxi.core.bibliography', 'auxi.core.helpers', 'auxi.core.objects',
    'auxi.core.reporting', 'auxi.core.time', 'auxi.modelling.core',
    'auxi.modelling.business.basic', 'auxi.modelling.business.models',
    'auxi.modelling.business.structure', 'auxi.modelling.financial.des',
    'auxi.modelling.financial.reporting', 'auxi.modelling.process.core',
    'auxi.modelling.process.materials.chem',
    'auxi.modelling.process.materials.core',
    'auxi.modelling.process.materials.psd',
    'auxi.modelling.process.materials.slurry',
    'auxi.modelling.process.materials.thermo', 'auxi.tools.physicalconstants',
    'auxi.tools.chemistry.stoichiometry',
    'auxi.tools.chemistry.thermochemistry',
    'auxi.tools.materialphysicalproperties.coals',
    'auxi.tools.materialphysicalproperties.core',
    'auxi.tools.materialphysicalproperties.gases',
    'auxi.tools.materialphysicalproperties.idealgas',
    'auxi.tools.materialphysicalproperties.liquids',
    'auxi.tools.materialphysicalproperties.polynomial',
    'auxi.tools.materialphysicalproperties.slags',
    'auxi.tools.transportphenomena.dimensionlessquantities',
    'auxi.tools.transportphenomena.fluidflow.pressuredrop',
    'auxi.tools.transportphenomena.heattransfer.naturalconvection']


class Log(list):
    def do(self, label, fn, *a, **k):
        try:
            v = fn(*a, **k)
        except Exception as e:
            v = 'raised ' + type(e).__name__
        self.append([label, plain(v)])
        return v


def plain(v):
    import numpy
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, numpy.generic):
        v = v.item()
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, dict):
        return sorted([plain(k), plain(x)] for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return sorted(plain(x) for x in v)
    if isinstance(v, (list, tuple, numpy.ndarray)):
        return [plain(x) for x in v]
    return type(v).__name__


def host():
    """What a library has no business changing."""
    import numpy
    return {'directory': os.getcwd(), 'files': sorted(os.listdir('.')),
            'locale': [locale.setlocale(c) for c in (
                locale.LC_NUMERIC, locale.LC_TIME)],
            'numpy errors': sorted(numpy.geterr().items()),
            'random': str(hash(random.getstate())),
            'numpy random': str(numpy.random.get_state()[1].tolist()[:5]),
            'decimal': str(decimal.getcontext()),
            'recursion': sys.getrecursionlimit(),
            'interrupt': str(signal.getsignal(signal.SIGINT)),
            'float text': '%s %r' % (0.1, 1e300), **settings()}


def settings():
    """Settings of the process and its libraries."""
    import csv
    import gc
    import logging
    import socket
    import threading
    import warnings
    import matplotlib
    import matplotlib.pyplot
    import numpy
    import pandas
    # Their first use adds filters of warnings.
    import scipy.optimize
    import scipy.sparse
    import scipy.special
    mask = os.umask(0o22)
    os.umask(mask)
    return {'mask': mask, 'environment': sorted(os.environ.items()),
            'number format': repr(sorted(numpy.get_printoptions().items(),
                                         key=lambda kv: kv[0])),
            'plot settings': repr(sorted(
                (k, v) for k, v in dict.items(matplotlib.rcParams)
                if k != 'backend')),
            'figures': matplotlib.pyplot.get_fignums(),
            'warnings': [repr(f) for f in warnings.filters] + [
                repr(warnings.showwarning), repr(warnings.formatwarning)],
            'search path': list(sys.path),
            'hooks': [repr(sys.excepthook), repr(sys.displayhook),
                      repr(sys.gettrace())],
            'switch interval': sys.getswitchinterval(),
            'tables': [csv.field_size_limit(), sorted(csv.list_dialects())],
            'tables of pandas': [repr(pandas.get_option(o)) for o in (
                'display.precision', 'display.max_rows', 'mode.chained_assignment',
                'display.float_format')],
            'garbage': gc.isenabled(), 'threads': threading.active_count(),
            'timeout': socket.getdefaulttimeout(),
            'log': [logging.root.level, len(logging.root.handlers)],
            'signals': [str(signal.getsignal(x)) for x in (
                signal.SIGALRM, signal.SIGTERM, signal.SIGPIPE)]}


def chemistry(log, rng):
    from auxi.tools.chemistry import stoichiometry as st
    from auxi.tools.chemistry import thermochemistry as th
    from rt.formula import gen_formula
    fs = [gen_formula(rng)[0] for _ in range(4)]
    for f in fs:
        log.do('molar mass ' + f, st.molar_mass, f)
        log.do('coefficients', st.stoichiometry_coefficients, f,
               ['H', 'O', 'Fe', 'C'])
        log.do('fractions', st.element_mass_fractions, f, ['O', 'Si', 'Fe'])
    log.do('elements', st.elements, fs)
    log.do('masses', st.masses, {f: rng.random() for f in fs})
    log.do('amount fractions', st.amount_fractions,
           {f: rng.random() for f in fs})
    log.do('refused', st.molar_mass, rng.choice(['Xx', 'fe', 'Fe(', '2H']))
    names = ['%s[%s]' % (f, p) for f in sorted(th.compounds)
             for p in th.compounds[f].get_phase_list()]
    log.do('names', lambda: names)
    for n in rng.sample(names, 6):
        T = rng.uniform(25, 1500)
        for fn in (th.Cp, th.H, th.S, th.G):
            log.do('%s %s %r' % (fn.__name__, n, T), fn, n, T, 2.5)
        c = th.compounds[n.split('[')[0]]
        log.do('text of ' + n, str, c)
        log.do('reference of ' + n, c.get_reference)
    log.do('refused', th.H, rng.choice(['H2O[Q]', 'Zz[S]']), 100.0)
    folder = 'data [%d]' % rng.randint(1, 9)
    os.mkdir(folder)
    with open(folder + '/Compound_SiO2.txt', 'w') as f:
        f.write(' SiO2 listing\n' + '_' * 20 + '\n'
                'S1 1 -910700.0 %r 46.9 0.0 298 - 847.0\n' % rng.uniform(
                    30, 60) + '_' * 20 + '\n')
    def load():
        try:
            th.load_data_factsage(folder)
            th.write_compound_to_auxi_file(folder, th.compounds['SiO2'])
            th.load_data_auxi(folder)
            return [sorted(th.compounds), th.H('SiO2[S1]', 100.0)]
        finally:
            th.load_data_auxi()
            for f in os.listdir(folder):
                os.remove(os.path.join(folder, f))
            os.rmdir(folder)
    log.do('own data', load)
    log.do('names', lambda: sorted(th.compounds))


def everything(log, o):
    """All an object answers without being told more."""
    for n in sorted(dir(o)):
        if n.startswith('_') or n in ('clear', 'clone', 'write', 'read'):
            continue
        def ask():
            v = getattr(o, n)
            return v() if callable(v) else v
        log.do(n, ask)


def materials(log, rng):
    from rt import packages
    for kind in rng.sample([packages.Chem(), packages.Psd(), packages.Slurry(),
                            packages.ThermoPackage()], 2):
        keys = kind.keys(rng, rng.randint(2, 6))
        names, assays, extra = kind.define(rng, keys, 'material.txt')
        if rng.random() < 0.5:
            with open('material.txt') as f:
                text = f.read()
            with open('material.txt', 'w', encoding='utf-8') as f:
                f.write(text.replace('Assay', 'Prüfung'))
            names = [n.replace('Assay', 'Prüfung') for n in names]
        m = log.do('material', kind.Material, 'm', 'material.txt')
        os.remove('material.txt')
        log.do('text', str, m)
        a = log.do('create', kind.create, m, names[0], rng.uniform(1, 100))
        b = log.do('create', kind.create, m, names[-1], rng.uniform(1, 100))
        c = log.do('add', lambda: a + b)
        for p in (a, b, c):
            log.do('text', str, p)
            log.do('state', kind.state, p, keys)
        log.do('extract', lambda: str(c.extract(float(rng.random()))))
        log.do('left', str, c)
        for o in (m, a, c):
            everything(log, o)
        good = kind.array([rng.random() for _ in keys])
        more = kind.array([rng.random() for _ in range(len(keys) + 1)])
        pre = (2.5, 0.1) if kind.name == 'slurry' else ()
        log.do('added', lambda: m.add_assay('new', *pre, good))
        log.do('of the added one', lambda: kind.state(
            kind.create(m, 'new', 3.0), keys))
        for n, v in ((names[0], good), ('b1', more), ('b2', more[:-2]),
                     ('b3', tuple(good)), ('b4', None)):
            log.do('refused', lambda: m.add_assay(n, *pre, v))
        if kind.name == 'slurry':
            log.do('refused', lambda: m.add_assay('b5', '2.5', 0.1, good))
            log.do('refused', lambda: m.add_assay('b6', 2.5, None, good))
        log.do('assays', lambda: sorted(getattr(
            m, 'raw_assays', None) or m.assays))
        for bad in ('x', 1, None, (keys[0],), (keys[0], 'x'), (keys[0], 1),
                    ('Zz', 1.0), (3.25, 1.0), (keys[0], 1e9), 1e9, [1.0]):
            log.do('refused', lambda: a + bad)
            log.do('refused', lambda: a.clone().extract(bad))
            log.do('refused', lambda: a * bad)
        for s in (-1.0, -1e-9, 0.0, float(10 ** 6)):
            log.do('times', lambda: kind.state(a * s, keys))
        log.do('refused', kind.create, m, 'no such', 1.0)
        log.do('refused', kind.Material, 'm', 'no such file')
        log.do('refused', kind.Package, None, good)
        log.do('refused', kind.Package, m, tuple(good))


def physics(log, rng):
    from rt import fluids
    from auxi.tools.materialphysicalproperties import gases
    from auxi.tools.transportphenomena import dimensionlessquantities as dq
    from auxi.tools.transportphenomena.fluidflow import pressuredrop as pd
    from auxi.tools.transportphenomena.heattransfer import (
        naturalconvection as nc)
    for name, model, state in fluids.models(rng):
        log.do(name, model, **state)
        if rng.random() < 0.2:
            for bad in ({'T': 'hot'}, {'T': -1.0}, {'T': 1}, {}, {'q': 1.0},
                        dict(state, q=1.0)):
                log.do('refused', lambda: model(**bad))
    log.do('Gr', dq.Gr, 0.5, 400.0, 300.0, 1e-3, rng.uniform(1e-6, 1e-5),
           9.81)
    log.do('friction', pd.f_tr_Colebrook, rng.uniform(1e4, 1e7), 1e-4, 0.3)
    s = nc.IsothermalFlatSurface(gases.air)
    for a in ((0.5, 95.0, 400.0), (0.5, -91.0, 400.0), (50.0, 0.0, 900.0),
              (-1.0, 0.0, 400.0), ('x', 0.0, 400.0)):
        for fn in (s.Nu_x, s.Nu_L, s.h_x, s.h_L):
            log.do('out of range', fn, *a, T=300.0)
    log.do('Nusselt', s.Nu_L, 0.5, rng.choice([0.0, 30.0, -90.0]), 400.0,
           T=300.0)


def plots(log, rng):
    from auxi.tools.materialphysicalproperties import gases
    from auxi.tools.materialphysicalproperties.idealgas import RhoT
    from auxi.tools.materialphysicalproperties.polynomial import (
        PolynomialModelT)
    sets = gases.argon_datasets
    ds = list(sets.values())[0]

    def plot(m, *a):
        m.plot(*a, sets, 'plot.pdf')
        with open('plot.pdf', 'rb') as f:
            head = f.read(4)
        os.remove('plot.pdf')
        return head
    m = rng.choice([PolynomialModelT.create(ds, 'Cp', 3),
                    RhoT(39.948, 101325.0)])
    log.do('plot', plot, m)
    log.do('refused', plot, PolynomialModelT.create(ds, 'k', 2), 'x')
    if os.path.exists('plot.pdf'):
        os.remove('plot.pdf')


def business(log, rng):
    from datetime import datetime
    from auxi.core.reporting import ReportFormat
    from auxi.core.time import TimePeriod
    from auxi.modelling.business.models import TimeBasedModel
    from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
    from auxi.modelling.financial.des import GeneralLedgerStructure
    gls = GeneralLedgerStructure('gls')
    gls['Sales'].create_account('Übersee', '1')
    gls['Expense'].create_account('Câblage & Größe µ', '1', '≤ 20 °C')
    start = datetime(rng.randint(1975, 2035), rng.randint(1, 12), 1)
    n = rng.randint(2, 30)
    model = TimeBasedModel('M', start_datetime=start,
                           period_duration=TimePeriod.month, period_count=n)
    e = model.create_entity('E', gl_structure=gls)
    c = e.create_component('Ops')
    c.add_activity(BasicActivity(
        'sell', dt_account='Bank/Default', cr_account='Sales',
        amount=rng.randint(1, 10000), start=start, interval=1))
    c.add_activity(BasicActivity(
        'vente à Zürich', dt_account='Expense/Câblage & Größe µ',
        cr_account='Sales/Übersee', amount=rng.randint(1, 10000)))
    if rng.random() < 0.7:
        c.add_activity(BasicLoanActivity(
            'loan', bank_account='Bank/Default',
            loan_account='Long Term Borrowing', interest_account='Expense',
            amount=rng.randint(1000, 100000),
            interest_rate=rng.uniform(0.01, 0.2), start=start,
            duration=rng.randint(3, 24), interval=1))
    for dt, cr in (('Bank/No', 'Sales'), ('Sales', 'No'), ('', 'Sales')):
        log.do('refused', c.add_activity, BasicActivity('b', dt, cr, 1.0))
    for k in range(3):
        acc = ['Bank/Default', 'Long Term Borrowing', 'Expense']
        acc[k] = 'No'
        log.do('refused', c.add_activity, BasicLoanActivity(
            'b', *acc, 100.0, 0.1, start, 3))
    log.do('activities', lambda: [a.path for a in c.activities])
    log.do('accounts', gls.report, ReportFormat.string)
    for n in ('Bank', 'Bank/No', 'No', '', '/'):
        log.do('account', lambda: gls.get_account(n).path)
    log.do('refused', gls.validate_account_names, ['Bank', 'No'])
    log.do('run', model.run)
    log.do('transactions', lambda: [
        [t.name, str(t.tx_date), t.dt_account, t.cr_account, t.amount]
        for t in e.gl.transactions])
    for fmt in (ReportFormat.string, ReportFormat.csv, ReportFormat.txt,
                ReportFormat.latex):
        for name in ('balance_sheet', 'income_statement', 'transaction_list',
                     'report'):
            def report():
                o = gls if name == 'report' else e.gl
                r = getattr(o, name)(format=fmt, output_path='report')
                text = ''
                for f in sorted(os.listdir('.')):
                    if f.startswith('report'):
                        with open(f, newline='', encoding='utf-8') as h:
                            text += f + h.read()
                        os.remove(f)
                return [r, text]
            log.do(name, report)


def objects(log, rng):
    from auxi.core import bibliography, helpers
    from auxi.core.objects import NamedObject
    from auxi.tools.materialphysicalproperties.core import DataSet
    from auxi.tools.materialphysicalproperties.polynomial import (
        PolynomialModelT)
    o = log.do('object', NamedObject, 'a°b', 'Münze')
    log.do('text', str, o)
    def back():
        o.write('object.json')
        p = NamedObject.read('object.json')
        os.remove('object.json')
        return [p.name, p.description, str(p) == str(o)]
    log.do('read', back)
    with open('dataset-x.csv', 'w', encoding='utf-8') as f:
        f.write('Material Name,Müsli\nDescription,at 20 °C\nReference,me\n'
                'Temperature,Density\nT,\\rho\nK,kg/m³\nT,rho\n'
                '300,%r\n400,%r\n500,2\n' % (rng.random(), rng.random()))
    ds = log.do('data set', DataSet, 'dataset-x.csv')
    os.remove('dataset-x.csv')
    log.do('data set', lambda: [ds.material, ds.description, ds.col_units])
    log.do('model', lambda: str(PolynomialModelT.create(ds, 'rho', 1)))
    log.do('date', lambda: str(helpers.get_date('2016-02-29')))
    log.do('papers', lambda: str(bibliography.db))
    log.do('paper', lambda: bibliography.db['lienhard2018'])
    with open('own.bib', 'w', encoding='utf-8') as f:
        f.write('@article{own%d,\n author = {Müller, Ève},\n title = {Über '
                'µ},\n year = {2001}\n}\n' % rng.randint(1, 99))
    log.do('own papers', lambda: str(bibliography.Database('own.bib')))
    os.remove('own.bib')
    log.do('template', lambda: DataSet.create_template('Brass', '.'))
    def template():
        with open('dataset-brass.csv', encoding='utf-8') as f:
            return f.read()
    log.do('template', template)
    os.remove('dataset-brass.csv')
    log.do('refused', lambda: bibliography.db['nobody'])
    log.do('refused', helpers.get_date, rng.choice(['2016-13-01', 'x', '']))
    log.do('refused', DataSet, 'no such file')
    log.do('refused', PolynomialModelT.create, ds, 'no', 1)
    log.do('refused', NamedObject.read, 'no such file')


def work(seed):
    rng = random.Random('work %s' % seed)
    log = Log()
    parts = [chemistry, materials, physics, business, objects,
             plots]
    for part in parts:
        part(log, random.Random('%s %s' % (part.__name__, seed)))
    return log


def main(seed, order, out):
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    import pandas
    import matplotlib
    import matplotlib.pyplot
    import matplotlib.backends.backend_pdf
    for m in ('cerberus', 'jsonpickle', 'parsimonious', 'tabulate',
              'bibtexparser', 'dateutil.relativedelta', 'enum', 'csv'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    random.seed(seed)
    numpy.random.seed(int(seed) % 2 ** 31)
    res = {}
    before = host()
    mods = list(MODULES)
    random.Random(order).shuffle(mods)
    try:
        for m in mods:
            importlib.import_module(m)
        res['host after import'] = {k: [v, host()[k]] for k, v in
                                    before.items() if host()[k] != v}
        res['work'] = work(seed)
        res['host'] = {k: [v, host()[k]] for k, v in before.items()
                       if host()[k] != v and k not in ('random',)}
    except Exception as e:
        import traceback
        res['error'] = traceback.format_exc()[-1500:]
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main(*sys.argv[1:4])
