"""Threads that share nothing they change do not disturb each other."""
import os
import pickle
import random
import shutil
import warnings
from datetime import datetime, timedelta

from rt import threads

threads.install()   # before anything of auxi is imported

from auxi.core import bibliography, helpers
from auxi.core.objects import NamedObject
from auxi.core.reporting import ReportFormat
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.financial.des import GeneralLedgerStructure
from auxi.tools.chemistry import stoichiometry as st
from auxi.tools.chemistry import thermochemistry as th
from auxi.tools.materialphysicalproperties import gases
from auxi.tools.materialphysicalproperties.core import DataSet
from auxi.tools.materialphysicalproperties.polynomial import PolynomialModelT
from auxi.tools.transportphenomena import dimensionlessquantities as dq
from auxi.tools.transportphenomena.fluidflow import pressuredrop as pd
from auxi.tools.transportphenomena.heattransfer import naturalconvection as nc
from rt import fluids, packages
from rt.envwork import Log, plain
from rt.formula import gen_formula

warnings.simplefilter('ignore')
TARGETS = ['auxi/tools/chemistry/stoichiometry.py',
           'auxi/tools/chemistry/thermochemistry.py',
           'auxi/modelling/process/materials/thermo.py',
           'auxi/modelling/process/materials/chem.py',
           'auxi/tools/materialphysicalproperties/core.py',
           'auxi/tools/materialphysicalproperties/gases.py',
           'auxi/modelling/business/models.py',
           'auxi/modelling/financial/des.py', 'auxi/core/objects.py']
RULE = ('Two to four pieces of random work, each with its own objects and '
        'some sharing materials, property models and data that nobody '
        'changes, run in threads under a scheduler that may hand over at '
        'every statement of auxi; the answers of each must be '
        'those it has alone. Distinct by (work, schedule).')
ASSUMPTIONS = ['one object is changed by one thread only; a surface '
               'configuration keeps the film temperature of its last '
               'question and counts as changed by being asked',
               'the loaded data set, standard output and the figures of '
               'matplotlib belong to one thread']
KINDS = [packages.Chem(), packages.Psd(), packages.Slurry(),
         packages.ThermoPackage(), packages.ThermoStream()]
NAMES = ['%s[%s]' % (f, p) for f in sorted(th.compounds)
         for p in th.compounds[f].get_phase_list()]


class Answers(Log):
    """Also what is said when something is refused."""

    def do(self, label, fn, *a, **k):
        said = []

        def asked():
            try:
                return fn(*a, **k)
            except Exception as e:
                said.append(str(e))
                raise
        v = Log.do(self, label, asked)
        for x in said:
            self.append([label + ' said', x])
        return v

    def pure(self, fn):
        """Something that must leave all it is given alone."""
        return fn()


def apart(fn):
    """fn() in a process of its own: what it leaves behind is not met here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                got = pickle.dumps((True, fn()))
            except BaseException as e:
                got = pickle.dumps((False, repr(e)))
            with os.fdopen(w, 'wb') as f:
                f.write(got)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        got = f.read()
    os.waitpid(pid, 0)
    done, v = pickle.loads(got)
    if not done:
        raise RuntimeError('in a process of its own: ' + v)
    return v


def formulas(log, rng, shared, folder):
    for _ in range(rng.randint(1, 4)):
        f = gen_formula(rng)[0] if rng.random() < 0.7 else rng.choice(
            shared['formulas'])
        q = rng.randrange(6)
        if q == 0:
            log.do(f, st.molar_mass, f)
        elif q == 1:
            log.do(f, st.stoichiometry_coefficients, f, ['H', 'O', 'Fe', 'C'])
        elif q == 2:
            log.do(f, st.element_mass_fractions, f, ['O', 'Si', 'Fe'])
        elif q == 3:
            log.do(f, st.elements, [f, 'CaO'])
        elif q == 4:
            log.do(f, st.mass_fractions, {f: rng.random(), 'CaO': 1.0})
        else:
            log.do(f, st.molar_mass, f + '(')


def compounds(log, rng, shared, folder):
    for _ in range(rng.randint(2, 6)):
        n = rng.choice(NAMES if rng.random() < 0.4 else shared['names'])
        fn = rng.choice([th.Cp, th.H, th.S, th.G])
        log.do(n, fn, n, rng.uniform(0, 2500), rng.choice([1.0, 2.5]))
    if rng.random() < 0.3:
        log.do('text', str, th.compounds[n.split('[')[0]])
        log.do('reference', th.compounds[n.split('[')[0]].get_reference)
    if rng.random() < 0.3:
        c = th.compounds[rng.choice(sorted(th.compounds))]
        log.pure(lambda: th.write_compound_to_auxi_file(folder, c))
        for f in os.listdir(folder):
            log.do('read', lambda: str(th.Compound.read(
                os.path.join(folder, f))))
            os.remove(os.path.join(folder, f))


def package_work(log, rng, shared, folder):
    kind, m, keys, names = rng.choice(shared['materials'])
    if rng.random() < 0.3:
        path = os.path.join(folder, 'm.txt')
        keys = kind.keys(rng, rng.randint(2, 5))
        names = kind.define(rng, keys, path)[0]
        m = log.pure(lambda: kind.Material('own', path))
        os.remove(path)
    live = []
    kw = {}
    for _ in range(rng.randint(3, 9)):
        op = rng.choice(['new', 'add', 'mul', 'take', 'one', 'clear', 'clone',
                         'T', 'text', 'part', 'refused'])
        if op == 'new' or len(live) < 2:
            if kind.energy:
                kw = dict(P=rng.uniform(0.5, 3), T=rng.uniform(25, 1200))
            n, v = rng.choice(names), rng.uniform(1, 100)
            live.append(log.pure(lambda: kind.create(m, n, v, **kw)))
            continue
        a, b = rng.sample(live, 2)
        k = rng.choice(keys)
        if op == 'add':
            live.append(log.pure(lambda: a + b))
        elif op == 'mul':
            f = rng.uniform(0, 3)
            live.append(log.pure(lambda: a * f))
        elif op == 'take':
            live.append(a.extract(float(kind.total(a)) * rng.random()))
        elif op == 'one':
            live.append(a.extract(kind.by_str(k)))
        elif op == 'part':
            v = float(kind.masses(a, [k])[0])
            live.append(a.extract((k, v * rng.random())))
        elif op == 'clear':
            a.clear()
        elif op == 'clone':
            live.append(log.pure(a.clone))
        elif op == 'T' and kind.energy:
            a.T = rng.uniform(25, 1200)
        elif op == 'text':
            log.do('text', str, a)
        elif op == 'refused':
            log.do('refused', lambda: a.extract(1e12))
    for p in live:
        log.do('state', kind.state, p, keys)
    if kind.energy or kind.name == 'chem':
        get = getattr(p, 'get_element_masses', None) or p.get_element_mfrs
        log.do('elements', get)
    log.do('material', str, m)


def models(log, rng, shared, folder):
    own = fluids.models(rng)
    pool = own if rng.random() < 0.4 else shared['models']
    for _ in range(rng.randint(2, 5)):
        name, model, state = rng.choice(pool)
        for k in 'xy':
            if k in state and rng.random() < 0.7:
                q = list(state[k].values())
                rng.shuffle(q)
                state = dict(state, **{k: dict(zip(state[k], q))})
        log.do(name, model, **state)
        if rng.random() < 0.3:
            s = dict(state, T=state['T'] * 1.01)
            log.do(name, model, **s)
        if rng.random() < 0.4:
            bad = rng.choice(['hot', None])
            log.do('refused', lambda: model(T=bad))
    for _ in range(2):
        g = rng.choice(shared['gases'])
        m = gases.materials[g]
        T = fluids.gas_T(rng, [g])
        for p in rng.sample(['rho', 'Cp', 'mu', 'k', 'nu', 'alpha', 'beta'],
                            3):
            log.do('%s of %s' % (p, g), lambda: getattr(m, p)(T=T))


def flows(log, rng, shared, folder):
    s = nc.IsothermalFlatSurface(gases.air)
    for _ in range(2):
        log.do('Nu', s.Nu_L, rng.uniform(0.1, 1), rng.uniform(-90, 90),
               rng.uniform(350, 600), T=300.0)
        log.do('h', s.h_x, rng.uniform(0.1, 1), rng.uniform(-90, 90),
               rng.uniform(350, 600), T=300.0)
    log.do('Gr', dq.Gr, rng.random(), 400.0, 300.0, 1e-3, 1e-5, 9.81)
    log.do('f', pd.f_tr_Colebrook, rng.uniform(1e4, 1e7), 1e-4, 0.3)
    log.do('f', pd.f_tr_Haaland, rng.uniform(1e4, 1e7), 1e-4, 0.3, False)
    log.do('f', pd.f_ts, rng.uniform(1e4, 1e7))


def data(log, rng, shared, folder):
    path = os.path.join(folder, 'dataset-x.csv')
    n = rng.randint(3, 6)
    with open(path, 'w', encoding='utf-8') as f:
        f.write('Material Name,M%d\nDescription,d\nReference,me\n'
                'Temperature,Density\nT,\\rho\nK,kg/m3\nT,rho\n'
                % rng.randint(1, 9) + ''.join('%d,%r\n' % (
                    300 + 10 * k, rng.uniform(1, 9)) for k in range(n)))
    ds = log.do('data set', DataSet, path)
    os.remove(path)
    log.do('text', str, ds)
    m = log.do('fit', PolynomialModelT.create, ds, 'rho', rng.randint(1, 2))
    for _ in range(3):
        T = rng.uniform(300, 320)
        log.do('value', lambda: m(T=T))
    n = rng.choice(['lienhard2018', 'rao1985', 'nobody'])
    log.do('paper', lambda: bibliography.db[n])
    o = NamedObject('n%d' % rng.randint(1, 99), 'd')
    path = os.path.join(folder, 'o.json')
    log.pure(lambda: o.write(path))
    log.do('object', lambda: str(NamedObject.read(path)))
    os.remove(path)


def clocks(log, rng, shared, folder):
    c = Clock('c', start_datetime=datetime(rng.randint(1990, 2030),
                                           rng.randint(1, 12),
                                           rng.randint(1, 28)),
              timestep_period_duration=rng.choice(list(TimePeriod)))
    for _ in range(rng.randint(3, 12)):
        if rng.random() < 0.8:
            c.tick()
        elif rng.random() < 0.3:
            c.reset()
        log.do('now', lambda: [str(c.get_datetime()), c.timestep_ix])
    n = rng.randint(0, 40)
    log.do('at', lambda: str(c.get_datetime_at_period_ix(n)))
    log.do('now', lambda: [str(c.get_datetime()), c.timestep_ix])
    d = '2016-02-%d' % rng.randint(1, 29)
    log.do('date', lambda: str(helpers.get_date(d)))


def books(log, rng, shared, folder):
    gls = GeneralLedgerStructure('gls')
    for k in range(rng.randint(0, 3)):
        gls[rng.choice(['Sales', 'Expense', 'Bank'])].create_account(
            'A%d' % k, str(k))
    start = datetime(rng.randint(1990, 2030), rng.randint(1, 12), 1)
    model = TimeBasedModel('M', start_datetime=start,
                           period_duration=TimePeriod.month,
                           period_count=rng.randint(2, 14))
    for n in range(rng.randint(1, 2)):
        e = model.create_entity('E%d' % n, gl_structure=gls)
        c = e.create_component('Ops')
        for k in range(rng.randint(1, 2)):
            c.add_activity(BasicActivity(
                'sell%d' % k, dt_account='Bank/Default', cr_account='Sales',
                amount=rng.randint(1, 10000), start=start,
                interval=rng.randint(1, 3)))
        if rng.random() < 0.4:
            c.add_activity(BasicLoanActivity(
                'loan', bank_account='Bank/Default',
                loan_account='Long Term Borrowing',
                interest_account='Expense', amount=rng.randint(1000, 100000),
                interest_rate=rng.uniform(0.01, 0.2), start=start,
                duration=rng.randint(3, 9), interval=1))
    log.do('run', model.run)
    for e in model.entities:
        log.do('transactions', lambda: [
            [t.name, str(t.tx_date), t.dt_account, t.cr_account, t.amount]
            for t in e.gl.transactions])
    limits = {}
    for name in ('start', 'end'):
        if rng.random() < 0.5:
            limits[name] = start + timedelta(days=rng.randint(0, 400))
    for name in rng.sample(['balance_sheet', 'income_statement',
                            'transaction_list'], 1):
        q = {k: v for k, v in limits.items()
             if k == 'end' or name != 'balance_sheet'}
        log.do(name, getattr(e.gl, name), format=ReportFormat.string, **q)
        log.do('transactions', lambda: [
            [t.name, str(t.tx_date), t.dt_account, t.cr_account, t.amount]
            for t in e.gl.transactions])
    path = os.path.join(folder, 'r')
    for fmt, ext in rng.sample([(ReportFormat.csv, '.csv'),
                                (ReportFormat.txt, '.txt'),
                                (ReportFormat.latex, '.tex')], 2):
        log.do('file', rng.choice([e.gl.transaction_list, e.gl.balance_sheet,
                                   e.gl.income_statement, gls.report]),
               format=fmt, output_path=path)
        with open(path + ext, encoding='utf-8') as f:
            text = f.read()
        log.do('written', str, text)
        os.remove(path + ext)
    log.do('accounts', gls.report, ReportFormat.string)


PARTS = [formulas, compounds, package_work, models, flows, data, clocks,
         books]


def shared_things(rng):
    out = {'formulas': [gen_formula(rng)[0] for _ in range(4)],
           'models': rng.sample(fluids.models(rng), 3), 'materials': [],
           'gases': rng.sample(sorted(fluids.LIMITS), 2),
           'names': rng.sample(NAMES, 3)}
    for kind in KINDS:
        keys = kind.keys(rng, rng.randint(2, 5))
        names = kind.define(rng, keys, 'shared.txt')[0]
        out['materials'].append((kind, kind.Material('m', 'shared.txt'), keys,
                                 names))
        os.remove('shared.txt')
    return out


def task(parts, seed, shared, folder):
    def work():
        log = Answers()
        rng = random.Random(seed)
        for p in parts:
            p(log, rng, shared, folder)
        return list(log)
    return work


def case(ctx, rng, i):
    n = rng.choice([2, 2, 2, 3, 4])
    shared = shared_things(rng)
    same = rng.random() < 0.6
    first = rng.choice(PARTS)
    tasks, names = [], []
    for k in range(n):
        parts = [first if same else rng.choice(PARTS)]
        if rng.random() < 0.3:
            parts.append(rng.choice(PARTS))
        folder = os.path.abspath('t%d' % k)
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
        names.append([p.__name__ for p in parts])
        tasks.append(task(parts, '%d %d' % (rng.randrange(10 ** 9), k),
                          shared, folder))
    p = rng.choice([0.003, 0.02, 0.1, 0.3, 1.0])
    ctx.info({'work': names, 'handing over': p})
    s = threads.Schedule(random.Random(rng.random()), p, rng.random() < 0.4)
    when = rng.choice(['apart', 'apart', 'before', 'after'])
    if when == 'apart':
        alone = apart(lambda: [t() for t in tasks])
    if when == 'before':
        alone = [t() for t in tasks]
    got = s.run(tasks)
    if when == 'after':
        alone = [t() for t in tasks]
    ctx.ev('alone-' + when)
    for k in range(n):
        if isinstance(got[k], BaseException):
            raise got[k]
        ctx.check([x[0] for x in got[k]] == [x[0] for x in alone[k]],
                  'course', lambda: 'in a thread %r took another course' %
                  names[k])
        for (l, v), (_, w) in zip(got[k], alone[k]):
            ctx.check(v == w, 'thread', lambda: '%r, beside %r: %s is %s, '
                      'alone %s' % (names[k], names[:k] + names[k + 1:], l,
                                    repr(v)[:200], repr(w)[:200]))
            ctx.ev('answers')
        for q in names[k]:
            ctx.ev('work-' + q)
    ctx.ev('points-at-which-to-hand-over', s.points)
    ctx.ev('handed-over', s.switches)
    ctx.ev('stuck-threads', s.steals)
    ctx.eval((tuple(map(tuple, names)), s.sign.hexdigest()), s.switches > 3)
    ctx.sample({'work': names, 'handed over': s.switches,
                'schedule': s.sign.hexdigest()[:8]}, 3)


def run(ctx):
    for k in PARTS:
        ctx.require('work-' + k.__name__, 20)
    ctx.require('handed-over', 1000)
    ctx.require('answers', 1000)
    ctx.run('case', ctx.n(3000, 30000), case)
