"""Financial year ends: what is closed, when, and for how much."""
from datetime import datetime, timedelta
from fractions import Fraction
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.structure import Activity
from auxi.modelling.business.basic import BasicActivity
from auxi.modelling.financial.des import GeneralLedgerStructure
from rt import calendar_ref, ledger
from rt.reports import as_csv

TARGETS = ['auxi/modelling/business/structure.py',
           'auxi/modelling/financial/des.py',
           'auxi/modelling/financial/reporting.py']
RULE = ('Random models over several financial years whose activities post '
        'random transactions between accounts of every type; the closing '
        'transactions of each year compared with the movement of each '
        'account, the net income and the income statement of that year. '
        'Distinct by (model, transactions).')
ASSUMPTIONS = ['a year is closed when the model runs on beyond its end; the '
               'last, unfinished year stays open',
               'a year that begins on 29 February ends on the 27th',
               'the direction of closing postings into Gross Profit and the '
               'sign of a posted loss are known findings: there only '
               'accounts and absolute amounts are judged']
GP = 'Unallocated Income Statement/Gross Profit'
SUM = 'Unallocated Income Statement/Income Summary'
SOURCES = ['', 'Head office', 'C', 'E2', 'M', 'M/E2', 'M/E2/C', 'M/Ex/C']
RETAINED = 'Retained Income/Retained Earnings'


class Poster(Activity):
    """A user's own activity: posts what the case planned."""

    def __init__(self, name, plan, source=None, make=None):
        super().__init__(name)
        self.plan = plan
        self.source = source
        self.make = make or {}

    def run(self, clock, generalLedger):
        for parent, name in self.make.pop(clock.timestep_ix, []):
            account(generalLedger.structure, parent).create_account(name)
        for dt, cr, amount, *date in self.plan.get(clock.timestep_ix, []):
            generalLedger.create_transaction(
                'posting', tx_date=date[0] if date else clock.get_datetime(),
                dt_account=dt, cr_account=cr,
                source=self.path if self.source is None else self.source,
                amount=amount)


def account(structure, path):
    """The account of that path."""
    first, *more = path.split('/')
    a = structure[first]
    for name in more:
        a = a[name]
    return a


def in_year(date, a, b):
    """A date without a time belongs to the year its day belongs to."""
    if isinstance(date, datetime):
        return a <= date < b
    return a.date() <= date < b.date()


def moment(rng, d, following):
    """A date in the period from d up to the following one."""
    r = rng.random()
    if r < 0.6:
        return d, None
    if r < 0.7:
        return d.date(), 'by-day'
    if r < 0.8:
        return (following - timedelta(days=1)).date() if \
            following - timedelta(days=1) >= d else d.date(), 'by-day'
    if r < 0.9:
        return following - timedelta(microseconds=rng.choice(
            [1, 1000, 500000, 999999, 1000000, 1000001])), 'last-second'
    return d + rng.random() * (following - d), 'within-period'


def year_ends(start, dates, end):
    """(begin, end, index of the period that closes it) of each year."""
    out = []
    a = start
    while True:
        b = calendar_ref.add_months(a, 12)
        k = [i for i, d in enumerate(dates) if d >= b]
        if not k:
            return out
        out.append((a, b, k[0]))
        a = b


def judge(ctx, e, txs, types, a, b):
    """The closing of the year from a up to b."""
    at = b - timedelta(seconds=1)
    RET = types.now(RETAINED)
    year = [t for t in txs if in_year(t[0], a, b)]
    move = {}                       # credit movement of each account
    for d, dt, cr, amount in year:
        move[cr] = move.get(cr, 0) + Fraction(amount)
        move[dt] = move.get(dt, 0) - Fraction(amount)
    trading = {k: v for k, v in move.items() if v and
               k.split('/')[0] in (
                   types.now('Sales'), types.now('Cost of Sales')) and '/' in k}
    other = {k: v for k, v in move.items() if v and k not in trading and
             types[k] in ('revenue', 'expense')}
    gross = sum(trading.values())
    net = gross + sum(other.values())
    got = [t for t in e.gl.transactions if t.source == e.path and
           a <= t.tx_date < b]
    for t in got:
        ctx.check(t.tx_date == at, 'date', lambda: 'closing dated %s, year '
                  'ends %s' % (t.tx_date, b))
        ctx.check(t.is_closing_cr_account or t.is_closing_dt_account,
                  'not-marked', 'closing posting not marked as one')
    left = list(got)

    def take(x, y, amount, sig, directed):
        """One posting debiting x and crediting y."""
        for t in left:
            if (t.dt_account, t.cr_account) == (x, y) or not directed and \
                    (t.cr_account, t.dt_account) == (x, y):
                break
        else:
            ctx.violation(sig + '-missing', 'year to %s: no posting between '
                          '%s and %s (%.2f); postings: %r' % (
                              b, x, y, float(amount), [
                                  (t.dt_account, t.cr_account, t.amount)
                                  for t in got]))
        left.remove(t)
        ctx.check(Fraction(t.amount) == amount or
                  abs(Fraction(t.amount) - amount) < Fraction(1, 10**6),
                  sig + '-amount', lambda: 'year to %s: %s to %s: %r, '
                  'expected %.4f' % (b, t.dt_account, t.cr_account, t.amount,
                                     float(amount)))
        ctx.ev('closings-compared')
        return t
    ways = set()
    for k, v in trading.items():
        t = take(k, GP, abs(v), 'trading', False)
        ways.add((t.dt_account == k) == (v > 0))
    ctx.check(len(ways) < 2, 'trading-direction', 'sales and cost accounts '
              'closed in opposite directions')
    for k, v in other.items():
        if v > 0:
            take(k, SUM, v, 'other', True)
        else:
            take(SUM, k, -v, 'other', True)
    if gross > 0:
        take(GP, SUM, gross, 'gross', True)
    elif gross < 0:
        take(SUM, GP, -gross, 'gross', True)
    if net > 0:
        take(SUM, RET, net, 'profit', True)
    elif net < 0:
        for t in left:
            if (t.dt_account, t.cr_account) == (RET, SUM):
                break
        else:
            ctx.violation('loss-missing', 'loss of %.2f not taken from '
                          'retained earnings' % float(-net))
        left.remove(t)
        ctx.check(abs(abs(Fraction(t.amount)) + net) < Fraction(1, 10**6),
                  'loss-amount', 'loss posted as %r, expected %.2f' % (
                      t.amount, float(-net)))
    ctx.check(not left, 'extra', lambda: 'year to %s: unexpected closing '
              '%r' % (b, [(t.dt_account, t.cr_account, t.amount)
                          for t in left]))
    # The income statement of the year shows the income that was closed.
    # A day that is part of two years is in the statements of both.
    if a.hour == 0 or all(isinstance(t[0], datetime) for t in txs):
        rows = as_csv(lambda f, p: e.gl.income_statement(
            start=a, end=b - timedelta(microseconds=1), format=f,
            output_path=p))
        shown = [r[2] for r in rows if r[0] == 'Net Income'][0]
        shown = -float(shown[1:-1]) if shown.startswith('(') else float(shown)
        ctx.check(abs(shown - float(net)) < 0.0051, 'statement',
                  'income statement of the year to %s shows %r, closed %.2f'
                  % (b, shown, float(net)))
        ctx.ev('statements-compared')
    ctx.ev('years-closed')
    ctx.ev('profits' if net > 0 else 'losses' if net < 0 else 'even-years')
    return len(got)


def case(ctx, rng, i):
    kind = rng.choice(['week', 'month', 'month', 'month', 'year', 'day'])
    start = datetime(rng.randint(1990, 2030), rng.randint(1, 12),
                     rng.randint(1, 28), rng.choice([0, 0, 0, 13]))
    n = {'week': rng.randint(40, 170), 'month': rng.randint(6, 50),
         'year': rng.randint(1, 8), 'day': rng.choice([300, 366, 367, 740])}[
             kind]
    if kind == 'month' and rng.random() < 0.3:
        n = rng.choice([12, 13, 24, 25, 36, 37])
    if rng.random() < 0.02:
        n = {'week': 600, 'month': rng.choice([121, 250, 480]), 'year': 40,
             'day': 3700}[kind]
        ctx.ev('long-runs')
    if rng.random() < 0.03:
        start = datetime(rng.choice([1996, 2000, 2012, 2016, 2024]), 2, 29)
        ctx.ev('leap-day-starts')
    s, types = ledger.structure(rng)
    if types.names:
        ctx.ev('renamed-accounts')
    m = TimeBasedModel('M', start_datetime=start,
                       period_duration=TimePeriod[kind], period_count=n)
    e = m.create_entity('E', s)
    e2 = m.create_entity('E2', s)
    c = e.create_component('C')
    d = c.create_component('D')
    dates = [calendar_ref.at(start, kind, k) for k in range(n)]
    paths = sorted(types)
    hot = rng.sample(paths, rng.randint(2, 7)) + [
        types.now('Bank/Default')]
    income = [p for p in paths if types[p] in ('revenue', 'expense')]
    txs = []
    plans = {}
    late, make = [], {}              # accounts made while the model runs
    if rng.random() < 0.3:
        for j in range(rng.randint(1, 3)):
            parent = rng.choice(income + [types.now('Sales'),
                                          types.now('Cost of Sales')] * 3)
            k = rng.randrange(n)
            make.setdefault(k, []).append((parent, 'Late %d' % j))
            late.append((k, '%s/Late %d' % (parent, j)))
            types[late[-1][1]] = types[parent]
        ctx.ev('late-accounts')
    total = rng.choice([0, 2, 10, 40, 120])
    odd = rng.random() < 0.4         # postings not at the clock's own time
    marks = [k for _, _, k in year_ends(start, dates, None)]
    for _ in range(total):
        k = rng.randrange(n)
        if marks and rng.random() < 0.3:
            k = max(0, min(n - 1, rng.choice(marks) + rng.choice([-1, 0, 1])))
        pick = hot if rng.random() < 0.6 else paths
        dt, cr = rng.choice(pick), rng.choice(pick)
        if rng.random() < 0.15:
            dt, cr = rng.choice(income), rng.choice(income)
        if late and rng.random() < 0.4:
            first, path = rng.choice(late)
            k = rng.randrange(first, n)
            dt, cr = (path, cr) if rng.random() < 0.5 else (dt, path)
        amount = rng.choice([rng.randint(1, 4000) / 4, rng.randint(1, 9),
                             50.0, 50.0, 10 ** 7, 2.0 ** 30 + 0.25,
                             rng.randint(1, 9) / 2.0 ** rng.randint(6, 12)])
        who = rng.randrange(3)
        date = dates[k]
        if odd:
            date, how = moment(rng, date, calendar_ref.at(start, kind, k + 1))
            if how:
                ctx.ev('dated-' + how)
        plans.setdefault(who, {}).setdefault(k, []).append(
            (dt, cr, amount, date))
        txs.append((date, dt, cr, amount))
        if rng.random() < 0.1:       # and the opposite, so that it is even
            plans[who][k].append((cr, dt, amount, date))
            txs.append((date, cr, dt, amount))
    objs = [Poster('P%d' % k, p, rng.choice([None] * 6 + SOURCES), make)
            for k, p in sorted(plans.items())]
    if any(o.source is not None for o in objs):
        ctx.ev('other-sources')
    for o in objs:
        rng.choice([c, d]).add_activity(o)
    if rng.random() < 0.3:
        k = rng.choice(income)
        bank = types.now('Bank/Default')
        b = BasicActivity('B', bank, k, 100)
        c.add_activity(b)
        txs += [(x, bank, k, 100) for x in dates]
    ctx.info({'start': str(start), 'period': kind, 'count': n,
              'transactions': [[str(t[0])] + list(t[1:]) for t in txs]})
    years = year_ends(start, dates, None)
    for again in range(rng.choice([1, 1, 2])):
        m.run()
        ctx.check(not e2.gl.transactions, 'other-entity', 'an entity without '
                  'activities has transactions')
        own = [t for t in e.gl.transactions if t.source != e.path]
        ctx.check(sorted((str(t.tx_date), t.dt_account, t.cr_account,
                          float(t.amount)) for t in own) ==
                  sorted((str(t[0]), t[1], t[2], float(t[3])) for t in txs),
                  'own-transactions', "the activities' transactions changed")
        count = sum(judge(ctx, e, txs, types, a, b) for a, b, k in years)
        closing = [t for t in e.gl.transactions if t.source == e.path]
        ctx.check(len(closing) == count, 'other-closings', lambda: '%d '
                  'closing postings outside the closed years' % (
                      len(closing) - count))
    ctx.eval(repr((str(start), kind, n, txs)), bool(txs and years))
    ctx.sample({'start': str(start), 'period': kind, 'count': n,
                'years closed': len(years), 'transactions': len(txs)}, 3)


def probe(ctx, rng, what):
    """Findings the existing tests hold in place."""
    s = GeneralLedgerStructure('gls')
    s['Sales'].create_account('A', '1')
    m = TimeBasedModel('M', start_datetime=datetime(2016, 1, 1),
                       period_duration=TimePeriod.month, period_count=13)
    e = m.create_entity('E', s)
    c = e.create_component('C')
    if what == 'sales':
        ctx.info('a year with a sale of 100')
        c.add_activity(Poster('P', {3: [('Bank/Default', 'Sales/A', 100.)]}))
    else:
        ctx.info('a year with an expense of 100 and nothing else')
        c.add_activity(Poster('P', {3: [('Expense', 'Bank/Default', 100.)]}))
    m.run()
    if what == 'sales':
        left = sum(t.amount * ((t.cr_account == 'Sales/A') -
                               (t.dt_account == 'Sales/A'))
                   for t in e.gl.transactions)
        if left == 200:
            ctx.violation('sales-closed-the-wrong-way', 'closing doubles the '
                          'balance of a sales account')
        ctx.check(left == 0, 'sales-balance', 'sales account has %r after '
                  'the year end' % left)
    else:
        t = [t for t in e.gl.transactions if t.dt_account == RETAINED]
        if len(t) == 1 and t[0].amount == -100:
            ctx.violation('loss-posted-as-negative-debit', 'a loss of 100 is '
                          'debited to retained earnings as -100')
        left = sum(t.amount * ((t.cr_account == RETAINED) -
                               (t.dt_account == RETAINED))
                   for t in e.gl.transactions)
        ctx.check(left == -100, 'retained-balance', 'retained earnings have '
                  '%r after a loss of 100' % left)


def run(ctx):
    for k in ('years-closed', 'profits', 'losses', 'even-years',
              'closings-compared', 'statements-compared', 'dated-by-day',
              'dated-last-second', 'dated-within-period', 'late-accounts',
              'other-sources', 'leap-day-starts'):
        ctx.require(k, 30)
    ctx.each('probe', ['sales', 'loss'], probe)
    ctx.run('years', ctx.n(3000, 80000), case)
