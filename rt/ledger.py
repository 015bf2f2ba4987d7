"""Random general ledgers and an independent double entry reference."""
from datetime import datetime, date, timedelta, time
from fractions import Fraction

from auxi.modelling.financial.des import (
    GeneralLedgerStructure, GeneralLedger, Transaction)

BASE = {'Bank': 'asset', 'Inventory': 'asset', 'Fixed Assets': 'asset',
        'Long Term Borrowing': 'liability', 'Account Payable': 'liability',
        'Retained Income': 'equity', 'Sales': 'revenue',
        'Other Income': 'revenue', 'Cost of Sales': 'expense',
        'Expense': 'expense', 'Tax': 'expense', 'Share Capital': 'asset',
        'Dividends': 'expense'}
SUBS = ['A', 'B', 'AB', 'Default 2', 'Cost of Sales', 'Fuel', 'Fuels', 'Sales',
        'Tax']


class Types(dict):
    """{path: type}; names are those of accounts given other names."""

    def __init__(self, base):
        super().__init__(base)
        self.names = {}

    def now(self, path):
        top, *rest = path.split('/')
        return '/'.join([self.names.get(top, top)] + rest)


OTHER_NAMES = ['COGS', 'Verkoopskoste', 'Cost of Sales 2', 'Cost', 'Koste: 1']


def structure(rng):
    """(structure, {path: type}) with some extra accounts."""
    s = GeneralLedgerStructure('gls')
    types = Types(BASE)
    late = rng.random() < 0.5
    new = {}
    if rng.random() < 0.2:      # accounts under other names
        for name, other in zip(
                rng.sample(sorted(BASE), 2) + ['Cost of Sales'],
                rng.sample(OTHER_NAMES, 3)):
            if rng.random() < 0.8:
                new[name] = other
        if 'Cost of Sales' in new and rng.random() < 0.3:
            new['Expense'] = 'Cost of Sales'
    if not late:
        for name, other in new.items():
            s[name].name = other + '.'
            types[other + '.'] = types.pop(name)
        for name, other in new.items():
            s[other + '.'].name = other
            types[other] = types.pop(other + '.')
        types.names = new
        new = {}
    base = dict(types)
    types[types.now('Bank/Default')] = 'asset'
    for name in base:
        for sub in rng.sample(SUBS, rng.randint(0, 2)):
            a = s[name].create_account(sub, '%04d' % rng.randint(1, 99))
            types[name + '/' + sub] = base[name]
            if rng.random() < 0.3:
                a.create_account('Deep', '1')
                types[name + '/' + sub + '/Deep'] = base[name]
    if rng.random() < 0.15:
        name = rng.choice(sorted(base))
        a, path = s[name], name
        for k in range(rng.choice([4, 9, 20])):
            a = a.create_account('Level', '1')
            path += '/Level'
        types[path] = base[name]
    for mark in ('.', ''):
        for name, other in new.items():
            old = other + '.' if mark == '' else name
            s[old].name = other + mark
            for path in [x for x in types if x.split('/')[0] == old]:
                types[other + mark + path[len(old):]] = types.pop(path)
    types.names = types.names or new
    return s, types


SOURCES = ['/M/E/Ops', '/M/E/Ops/Loan', '/M/E/Ops/Loan 2', '/M/E/Ops2',
           '/M/E/Ops2/Ops', '/M/E', '/M/E/HR/Pay Wages', '/M', '/M2/E/Ops',
           'free text', '', None]
NAMES = ['Loan', 'Wages', 'text', '2', 'Pay Wages', 'Ops', 'tx1', 'Sell, "much"', '2016', '1e5',
         'Ünits']


def when(rng, base):
    d = base + timedelta(days=rng.randint(-400, 400))
    if rng.random() < 0.5:
        d += timedelta(seconds=rng.randint(0, 86399))
    r = rng.random()
    if r < 0.2:
        d = datetime(d.year, d.month, 1)
    return d


class Tx:
    __slots__ = ('name', 'desc', 'date', 'dt', 'cr', 'source', 'amount',
                 'obj')


def amount(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice([0, 0.0, 1, 0.01, 0.005, 123456789.12, -250.5])
    if r < 0.3:
        return rng.randint(1, 1000000)
    return round(rng.uniform(0.01, 10 ** rng.randint(1, 8)), 2)


def ledger(rng, s, types, n, dates='mixed', base=datetime(2016, 6, 15)):
    """A general ledger with n transactions; returns it with its model."""
    gl = GeneralLedger('gl', s)
    txs = []
    paths = sorted(types)
    hot = rng.sample(paths, rng.randint(2, 6))
    for _ in range(n):
        t = Tx()
        t.name = rng.choice(NAMES)
        t.desc = rng.choice([None, '', 'because', 'a,b\'"c'])
        t.date = when(rng, base)
        if dates == 'date' or dates == 'mixed' and rng.random() < 0.4:
            t.date = t.date.date()
        pick = hot if rng.random() < 0.7 else paths
        t.dt, t.cr = rng.choice(pick), rng.choice(pick)
        t.source = rng.choice(SOURCES)
        t.amount = amount(rng)
        if txs and rng.random() < 0.08:     # the same once more
            for k in Tx.__slots__:
                setattr(t, k, getattr(txs[-1], k))
        kw = dict(description=t.desc, tx_date=t.date, dt_account=t.dt,
                  cr_account=t.cr, source=t.source, amount=t.amount)
        if rng.random() < 0.9:
            t.obj = gl.create_transaction(t.name, **kw)
        else:                       # a user's own transaction
            t.obj = Transaction(t.name, **kw)
            gl.transactions.append(t.obj)
        txs.append(t)
    return gl, txs


def not_after(a, b):
    """a is not after b; by day if one of them has no time."""
    da, db = isinstance(a, datetime), isinstance(b, datetime)
    if da and db:
        return a <= b
    return (a.date() if da else a) <= (b.date() if db else b)


def stamp(d):
    return d if isinstance(d, datetime) else datetime.combine(d, time.min)


def limit(rng, base):
    """A start or end for a report: (as given, as meant)."""
    d = when(rng, base)
    r = rng.random()
    if r < 0.35:
        return d.strftime('%Y-%m-%d'), d.date()
    if r < 0.6:
        return d.date(), d.date()
    return d, d


def from_component(source, path):
    source = source or ''
    if path == '':
        return True
    a, b = source.split('/'), path.split('/')
    return a[:len(b)] == b


def balances(txs, types):
    """{account: debit balance} as exact fractions of the floats given."""
    out = {}
    for t in txs:
        a = Fraction(t.amount)
        out[t.dt] = out.get(t.dt, 0) + a
        out[t.cr] = out.get(t.cr, 0) - a
    return out
