"""Objects written to a file and read back are the same objects."""
import os
import shutil
from datetime import datetime, timedelta

from auxi.core.objects import Object, NamedObject
from auxi.core.reporting import ReportFormat as RF
from auxi.core.time import Clock, TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.financial.des import (GeneralLedgerAccount,
                                          GeneralLedgerStructure)
from auxi.tools.chemistry import thermochemistry as th
from rt import ledger, packages

TARGETS = ['auxi/core/objects.py']
RULE = ('Clocks, account structures, ledgers, business models (before and '
        'after running), materials, packages, streams, and thermochemical '
        'compounds written to a file and read back; the copy must be '
        'described by the same text, have the same hash, and behave the same '
        'in the operations that follow, without any effect on the original. '
        'Distinct by (kind of object, case).')
ASSUMPTIONS = ['sharing between an object and objects outside of it is not '
               'preserved by a file']
KINDS = [packages.Chem, packages.Psd, packages.Slurry, packages.ThermoPackage,
         packages.ThermoStream]
_kinds = {}


_twins = []


def with_twins(fn):
    """What was read is its own, whatever becomes of its twin."""
    def case(ctx, rng, i):
        _twins.clear()
        fn(ctx, rng, i)
        for twin, text in _twins:
            ctx.check(str(twin) == text, 'twin', lambda: 'a %s read from the '
                      'same file as another changed with it: %s' % (
                          type(twin).__name__, diff(text, str(twin))))
            ctx.ev('twins')
    return case


def through_file(ctx, rng, o, cls):
    """The object read back from a file; checks what can be seen of it."""
    if rng.random() < 0.2:
        with open('o.json', 'w') as f:
            f.write('x' * 100000)              # a longer file is replaced
    before = str(o)
    o.write('o.json')
    ctx.check(str(o) == before, 'write-changed', 'writing changed the object')
    r = rng.choice([Object, cls]).read('o.json')
    if rng.random() < 0.3:
        _twins.append((rng.choice([Object, cls]).read('o.json'), before))
    os.remove('o.json')
    ctx.check(type(r) is type(o), 'type', 'read back a %s, not a %s' % (
        type(r).__name__, type(o).__name__))
    ctx.check(str(r) == before, 'text', lambda: 'the %s read back is '
              'described differently: %s' % (type(o).__name__, diff(
                  before, str(r))))
    ctx.check(hash(r) == hash(o), 'hash', 'the %s read back has another hash'
              % type(o).__name__)
    for at in ('name', 'description'):
        ctx.check(getattr(o, at, None) == getattr(r, at, None), 'name',
                  at + ' of the object read back')
    ctx.ev('round-trips')
    return r


def diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
             min(len(a), len(b)))
    return '%r / %r' % (a[max(0, k - 60):k + 60], b[max(0, k - 60):k + 60])


def name(rng):
    return rng.choice(['a', 'N M', 'Ünit', 'x/y', '"q"', "it's", 'py/id',
                       '\\', 'a\nb', '123', ''])


def clock(ctx, rng, i):
    kind = rng.choice(['hour', 'day', 'week', 'month', 'year'])
    c = Clock(name(rng), rng.choice([None, '', 'text']),
              start_datetime=datetime(rng.randint(1990, 2030),
                                      rng.randint(1, 12), rng.randint(1, 28),
                                      rng.randint(0, 23), 0, 0,
                                      rng.choice([0, 999999])),
              timestep_period_duration=TimePeriod[kind])
    for _ in range(rng.randint(0, 30)):
        c.tick()
    ctx.info({'clock': str(c)})
    r = through_file(ctx, rng, c, Clock)
    ctx.check(r.get_datetime() == c.get_datetime(), 'clock-date', 'shows %s, '
              'not %s' % (r.get_datetime(), c.get_datetime()))
    d = c.get_datetime()
    for _ in range(3):
        r.tick()
    ctx.check(c.get_datetime() == d, 'shared', 'ticking the copy moved the '
              'clock')
    for _ in range(3):
        c.tick()
    ctx.check(r.get_datetime() == c.get_datetime() and
              r.timestep_ix == c.timestep_ix, 'clock-date', 'the two clocks '
              'show different dates after three ticks')
    ctx.ev('clocks')
    ctx.eval(('clock', i))


def posted(gl):
    return [(t.name, t.description, t.tx_date, t.dt_account, t.cr_account,
             t.source, t.is_closing_cr_account, t.is_closing_dt_account,
             t.amount) for t in gl.transactions]


def same_ledger(ctx, a, b, what):
    ctx.check(posted(a) == posted(b), 'transactions', lambda: what +
              ': transactions differ: %r' % [
                  (x, y) for x, y in zip(posted(a), posted(b)) if x != y][:2])
    for rep in ('balance_sheet', 'income_statement', 'transaction_list'):
        x = getattr(a, rep)(format=RF.string)
        y = getattr(b, rep)(format=RF.string)
        ctx.check(x == y, 'report', lambda: '%s: %s differs: %s' % (
            what, rep, diff(x, y)))
    ctx.check(a.structure.report(format=RF.string) ==
              b.structure.report(format=RF.string), 'report', what +
              ': account reports differ')
    ctx.ev('ledgers-compared')


def books(ctx, rng, i):
    s, types = ledger.structure(rng)
    gl, txs = ledger.ledger(rng, s, types, rng.choice([0, 1, 5, 25]))
    ctx.info({'transactions': len(txs), 'accounts': sorted(types)})
    r = through_file(ctx, rng, s, GeneralLedgerStructure)
    ctx.ev('deep-accounts', max(p.count('/') for p in types) > 8)
    for p in types:
        x, y = s.get_account(p), r.get_account(p)
        ctx.check(y is not None and (x.path, x.number, x.account_type,
                                     x.name) ==
                  (y.path, y.number, y.account_type, y.name), 'account',
                  'account %s of the structure read back' % p)
    ctx.ev('structures')
    q = through_file(ctx, rng, gl, type(gl))
    same_ledger(ctx, gl, q, 'a ledger read back')
    was = posted(gl)
    for n in range(3):
        dt, cr = rng.sample(sorted(types), 2)
        kw = dict(description='d', tx_date=datetime(2016, 6, 1 + n),
                  dt_account=dt, cr_account=cr, source='s', amount=12.25)
        q.create_transaction('later', **kw)
        ctx.check(posted(gl) == was, 'shared', 'posting to the copy posted '
                  'to the ledger')
        gl.create_transaction('later', **kw)
        was = posted(gl)
    sub = types.now(rng.choice(sorted(ledger.BASE)))
    q.structure[sub].create_account('Later', '77')
    ctx.check(s.get_account(sub + '/Later') is None, 'shared', 'an account '
              'of the copy appeared in the structure')
    gl.structure[sub].create_account('Later', '77')
    same_ledger(ctx, gl, q, 'a ledger read back and added to')
    ctx.eval(('ledger', i))


def business(ctx, rng, i):
    n = rng.choice([1, 5, 13, 26] if rng.random() < 0.99 else [150])
    start = datetime(rng.randint(2000, 2020), rng.randint(1, 12),
                     rng.randint(1, 28))
    m = TimeBasedModel(name(rng), start_datetime=start,
                       period_duration=TimePeriod.month, period_count=n)
    acts = []
    for k in range(rng.randint(1, 3)):
        e = m.create_entity('E%d' % k, GeneralLedgerStructure('gls'))
        if rng.random() < 0.4:
            e.gl.structure['Sales'].create_account('A', '1')
        c = e.create_component('C')
        d = c.create_component('D')
        if rng.random() < 0.2:
            for _ in range(rng.choice([3, 12])):
                d = d.create_component('Sub')
                ctx.ev('deep-components')
        for j in range(rng.randint(0, 3)):
            if rng.random() < 0.6:
                a = BasicActivity('a%d' % j, 'Bank/Default', rng.choice(
                    ['Sales', 'Long Term Borrowing', 'Expense']),
                    rng.choice([5, 12.5, 100]),
                    start=start - timedelta(days=1),
                    interval=rng.choice([1, 1, 2, 3]))
            else:
                a = BasicLoanActivity('a%d' % j, 'Bank/Default',
                                      'Long Term Borrowing', 'Expense',
                                      rng.choice([100.0, 1e5]),
                                      rng.choice([0.0, 0.1, 0.12]),
                                      start, rng.choice([3, 6, 24]))
            rng.choice([c, d]).add_activity(a)
            acts.append(a)
    runs = rng.randint(0, 2)
    for _ in range(runs):
        m.run()
    ctx.info({'start': str(start), 'periods': n, 'activities': [
        str(a.path) for a in acts], 'runs before': runs})
    r = through_file(ctx, rng, m, TimeBasedModel)
    ctx.check([e.path for e in m.entities] == [e.path for e in r.entities],
              'paths', 'entities read back')

    def compare(what):
        for e, f in zip(m.entities, r.entities):
            same_ledger(ctx, e.gl, f.gl, what)
            ctx.check(e['C']['D'].path == f['C']['D'].path, 'paths',
                      'component read back')
            ctx.check([a.path for a in e['C'].activities] ==
                      [a.path for a in f['C'].activities], 'paths',
                      'activities read back')
    compare('a model read back')
    was = [posted(e.gl) for e in m.entities]
    r.run()
    ctx.check(was == [posted(e.gl) for e in m.entities], 'shared',
              'running the copy changed the ledger of the model')
    m.run()
    compare('a model read back and run')
    ctx.check(str(m) == str(r), 'text', lambda: 'after both ran the models '
              'are described differently: ' + diff(str(m), str(r)))
    # the same change to both
    for x in (m, r):
        x.period_count = n + 7
        for e in x.entities:
            for c in (e['C'], e['C']['D']):
                for a in c.activities:
                    if hasattr(a, 'amount') and type(a) is BasicActivity:
                        a.amount = a.amount * 2
        x.run()
    compare('a model read back, changed and run')
    r = through_file(ctx, rng, r, TimeBasedModel)
    compare('a model read back twice')
    ctx.ev('models')
    ctx.eval(('model', i))


def kind_of(rng):
    k = rng.choice(KINDS)
    if k not in _kinds:
        _kinds[k] = k()
    return _kinds[k]


def flat(state):
    return list(state[0]) + list(state[1:])


def process(ctx, rng, i):
    kind = kind_of(rng)
    keys = kind.keys(rng, rng.randint(2, 8))
    names, assays, extra = kind.define(rng, keys, 'm.txt')
    m = kind.Material(name(rng), 'm.txt')
    os.remove('m.txt')
    ctx.info({'kind': kind.name, 'keys': keys, 'assays': assays})
    r = through_file(ctx, rng, m, kind.Material)
    ctx.ev('materials-' + kind.name.split()[0])
    kw = dict(P=2.0, T=300.0) if kind.energy else {}
    made = []
    for a in names:
        p = kind.create(m, a, 12.5, **kw)
        q = kind.create(r, a, 12.5, **kw)
        ctx.check(kind.state(p, keys) == kind.state(q, keys), 'created',
                  lambda: 'a package created from the material read back '
                  'differs: %r / %r' % (kind.state(p, keys),
                                        kind.state(q, keys)))
        made.append(p)
    p = rng.choice(made)
    cls = type(p)
    q = through_file(ctx, rng, p, cls)
    ctx.check(kind.state(p, keys) == kind.state(q, keys), 'package', lambda:
              'the package read back differs: %r / %r' % (
                  kind.state(p, keys), kind.state(q, keys)))
    steps = [lambda x: x * 2.5, lambda x: x.clone(), lambda x: x + made[0]]
    for _ in range(4):
        f = rng.choice(steps)
        was = kind.state(p, keys)
        x = f(q)
        ctx.check(kind.state(p, keys) == was, 'shared', 'using the copy '
                  'changed the package')
        p, q = f(p), x
        a, b = flat(kind.state(p, keys)), flat(kind.state(q, keys))
        slack = [1e-9 * max(1.0, abs(u)) for u in a]
        if kind.energy:                # H, T and P come last
            slack[-3] += 3e-6 * kind.total(p)
            slack[-2] = 5e-3
        ctx.check(all(abs(u - v) <= w for u, v, w in zip(a, b, slack)), 'package-behaviour', lambda: 'the package '
                  'read back behaves differently: %r / %r' % (a, b))
    if kind.energy:
        p.T = q.T = 500.0
        ctx.check(abs(kind.enthalpy(p) - kind.enthalpy(q)) <= 1e-9 * max(
            1.0, abs(kind.enthalpy(p))), 'package-behaviour', 'enthalpies '
            'at 500 degC: %r / %r' % (kind.enthalpy(p), kind.enthalpy(q)))
    ctx.ev('packages-' + kind.name.replace(' ', '-'))
    ctx.eval(('process', i))


def compound(ctx, rng, f):
    c = th.compounds[f]
    c.write('c.json')
    r = type(c).read('c.json')
    os.remove('c.json')
    ctx.info({'compound': f})
    ctx.check(r.formula == c.formula and r.get_phase_list() ==
              c.get_phase_list() and r.molar_mass == c.molar_mass,
              'compound', 'formula or phases of %s read back' % f)
    for ph in c.get_phase_list():
        for _ in range(4):
            T = rng.uniform(250.0, 2500.0)
            for fn in ('Cp', 'H', 'S', 'G'):
                a = getattr(c, fn)(ph, T)
                b = getattr(r, fn)(ph, T)
                ctx.check(abs(a - b) <= 1e-9 * max(1.0, abs(a)),
                          'compound-behaviour', '%s of %s[%s] at %r K: %r, '
                          'read back %r' % (fn, f, ph, T, a, b))
                ctx.ev('compound-values')
    ctx.eval(('compound', f))


class Unspeakable(Object):
    def __init__(self, x):
        self.x = x

    def __getstate__(self):
        raise self.x


def refused(ctx, rng, i):
    """A write that fails leaves the file as it was."""
    good = Clock(name(rng), start_datetime=datetime(2016, 1, 2))
    shutil.rmtree('w', ignore_errors=True)
    os.mkdir('w')
    path = os.path.join('w', 'o.json')
    there = rng.random() < 0.8
    if there:
        good.write(path)
        with open(path) as f:
            text = f.read()
    how = rng.choice(['deep', 'part', 'part', 'interrupt', 'itself'])
    o = rng.choice([good, NamedObject('n'), Object()])
    o.part = None
    if how == 'deep':
        o = top = GeneralLedgerAccount('a')
        for _ in range(rng.choice([150, 250])):
            o = o.create_account('b')
        o = top
    elif how == 'itself':
        o = Unspeakable(ValueError('no words'))
    else:
        o.part = rng.choice([lambda x: x, lambda x: [1, x],
                             lambda x: {'k': [x]}])(Unspeakable(
                                 ValueError('no words') if how == 'part'
                                 else KeyboardInterrupt()))
    ctx.info({'how': how})
    try:
        o.write(path)
    except (Exception, KeyboardInterrupt):
        ctx.check(os.listdir('w') == ['o.json'] if there else
                  not os.listdir('w') or os.path.getsize(path) == 0,
                  'left', 'a write that failed left %r' % os.listdir('w'))
        if there:
            with open(path) as f:
                now = f.read()
            ctx.check(now == text, 'lost', lambda: 'a write that failed (%s) '
                      'left %d characters of the %d that were in the file' % (
                          how, len(now), len(text)))
            r = Object.read(path)
            ctx.check(r.get_datetime() == datetime(2016, 1, 2), 'lost',
                      'the file reads as %s' % r)
            ctx.ev('refused-writes')
    else:
        ctx.ev('written-after-all')
    ctx.eval(('refused', how, i))


def run(ctx):
    ctx.require('deep-accounts', 4)
    for k in ('clocks', 'models', 'structures', 'ledgers-compared',
              'deep-components',
              'compound-values', 'packages-chem', 'packages-psd',
              'packages-slurry', 'packages-thermo-package',
              'packages-thermo-stream'):
        ctx.require(k, 20)
    ctx.require('refused-writes', 20)
    ctx.require('twins', 20)
    ctx.run('refused', ctx.n(60, 2000), refused)
    ctx.run('clock', ctx.n(400, 10000), with_twins(clock))
    ctx.run('books', ctx.n(160, 4000), with_twins(books))
    ctx.run('business', ctx.n(160, 4000), with_twins(business))
    ctx.run('process', ctx.n(400, 10000), with_twins(process))
    ctx.each('compound', sorted(th.compounds), compound)
