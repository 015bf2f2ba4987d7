"""When activities run, and what they post."""
from datetime import datetime, timedelta
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity
from auxi.modelling.financial.des import GeneralLedgerStructure
from rt import calendar_ref

TARGETS = ['auxi/modelling/business/structure.py',
           'auxi/modelling/business/basic.py',
           'auxi/modelling/business/models.py']
RULE = ('Random models (period length, horizon, several activities with '
        'starts and ends before, at, between and after the period dates, '
        'intervals 1 to 6) run, changed and run again; every transaction '
        'compared with the schedule. Distinct by (model, activities).')
ASSUMPTIONS = ['an interval longer than one that would pass the last period '
               'of the model, without an end inside the model, is not '
               'judged', 'a model of one period whose activity starts at the '
               'beginning of it is not judged']
ACC = ['Bank/Default', 'Sales', 'Expense', 'Fixed Assets', 'Inventory',
       'Account Payable', 'Long Term Borrowing', 'Cost of Sales']
KINDS = ['hour', 'day', 'week', 'month', 'month', 'month', 'year']


def moment(rng, start, kind, n):
    """A date around the horizon of the model."""
    i = rng.randint(-3, n + 3) if rng.random() < 0.8 else rng.choice(
        [0, n - 1, n, 1])
    d = calendar_ref.at(start, kind, i)
    r = rng.random()
    if r < 0.5:
        return d
    if r < 0.6:
        return d + timedelta(seconds=1)
    if r < 0.7:
        return d - timedelta(seconds=1)
    e = calendar_ref.at(start, kind, i + 1)
    return d + (e - d) * rng.random()


def verdicts(start, kind, n, lo, hi, interval):
    """For every period: True, False or None (not judged)."""
    dates = [calendar_ref.at(start, kind, i) for i in range(n)]
    out = []
    over = [i for i, d in enumerate(dates) if hi is not None and d > hi]
    for i, d in enumerate(dates):
        if (i + 1) % interval or (lo is not None and d <= lo):
            v = False
        elif over:
            v = i + interval <= over[0]
        else:
            v = True if i + interval <= n or interval == 1 else None
        out.append(v)
    if n == 1 and lo == dates[0]:
        out = [None]
    return dates, out


def judge(ctx, gl, acts, start, kind, n):
    for a in acts:
        dates, want = verdicts(start, kind, n, a['lo'], a['hi'],
                               a['interval'])
        if a['amount'] <= 0:
            want = [False] * n
        txs = [t for t in gl.transactions if t.source == a['obj'].path]
        got = {}
        for t in txs:
            ctx.check(t.tx_date not in got, 'twice', lambda: '%s ran twice '
                      'at %s' % (a['name'], t.tx_date))
            got[t.tx_date] = t
            ctx.check(t.dt_account == a['dt'] and t.cr_account == a['cr'] and
                      t.amount == a['amount'] and t.name == (
                          a['desc'] if a['desc'] is not None else a['name'])
                      and not t.is_closing_cr_account and
                      not t.is_closing_dt_account, 'transaction',
                      lambda: 'transaction of %r: %r' % (a['name'], [
                          t.name, t.dt_account, t.cr_account, t.amount]))
            ctx.check(t.tx_date in dates, 'date', lambda: '%s ran at %s, '
                      'which begins no period' % (a['name'], t.tx_date))
        order = [t.tx_date for t in txs]
        ctx.check(order == sorted(order), 'order', 'transactions of %s out '
                  'of order' % a['name'])
        for i, (d, w) in enumerate(zip(dates, want)):
            if w is None:
                ctx.ev('not-judged')
                continue
            ctx.check((d in got) == w, 'missed' if w else 'unexpected',
                      lambda: '%s (start %s, end %s, every %d) %s in period '
                      '%d (%s)' % (a['name'], a['lo'], a['hi'], a['interval'],
                                   'did not run' if w else 'ran', i, d))
            ctx.ev('ran' if w else 'did-not-run')
        ctx.eval((str(start), kind, n, str(a['lo']), str(a['hi']),
                  a['interval']), any(want))


def text(rng, d):
    if d is not None and d == datetime(d.year, d.month, d.day) and \
            d.year >= 1000 and rng.random() < 0.5:
        return d.strftime('%Y-%m-%d')
    return d


def choose(rng, start, kind, n):
    lo = moment(rng, start, kind, n) if rng.random() < 0.7 else None
    hi = moment(rng, start, kind, n) if rng.random() < 0.6 else None
    return lo, hi


def case(ctx, rng, i):
    kind = rng.choice(KINDS)
    start = datetime(rng.randint(1990, 2030), rng.randint(1, 12),
                     rng.randint(1, 28))
    if rng.random() < 0.2:
        start += timedelta(0, rng.randint(0, 86399))
    n = rng.choice([0, 1, 2, 3, 12, 13, 24, 40, rng.randint(1, 70)])
    if rng.random() < 0.01:
        n = rng.choice([121, 200, 400, 1000])
        ctx.ev('long-runs')
    if kind == 'year':
        n = min(n, 20)
    m = TimeBasedModel('M', start_datetime=text(rng, start),
                       period_duration=TimePeriod[kind], period_count=n)
    e = m.create_entity('E', GeneralLedgerStructure('gls'))
    comps = [e.create_component('C')]
    comps.append(comps[0].create_component('D'))
    comps.append(e.create_component('F'))
    acts = []
    for k in range(rng.randint(1, 5)):
        lo, hi = choose(rng, start, kind, n)
        dt, cr = rng.sample(ACC, 2)
        a = dict(name='act%d' % k, lo=lo, hi=hi, dt=dt, cr=cr,
                 interval=rng.choice([1, 1, 1, 2, 3, 4, 6]),
                 amount=rng.choice([0, -5, 100, 99.5, 1, 1e-6, 1e9]),
                 desc=rng.choice([None, '', 'described']))
        if a['amount'] <= 0 and rng.random() < 0.7:
            a['amount'] = 12.5
        kw = {}
        if lo is not None:
            kw['start'] = text(rng, lo)
        if hi is not None:
            kw['end'] = text(rng, hi)
        if a['interval'] != 1 or rng.random() < 0.5:
            kw['interval'] = a['interval']
        if a['desc'] is not None:
            kw['description'] = a['desc']
        a['obj'] = BasicActivity(a['name'], a['dt'], a['cr'], a['amount'],
                                 **kw)
        rng.choice(comps).add_activity(a['obj'])
        acts.append(a)

    def info():
        ctx.info({'model': [str(start), kind, n], 'activities': [
            {k: str(v) for k, v in a.items() if k != 'obj'} for a in acts]})
    info()
    m.run()
    judge(ctx, e.gl, acts, start, kind, n)
    snap = [(t.name, t.tx_date, t.amount, t.source) for t in
            e.gl.transactions]
    m.run()
    ctx.check(snap == [(t.name, t.tx_date, t.amount, t.source) for t in
                       e.gl.transactions], 'rerun', 'running the model again '
              'gave other transactions')
    ctx.ev('reruns')
    for _ in range(2):
        # Change the model, and run it again.
        for what in rng.sample(['n', 'start', 'activity', 'amount'], 2):
            if what == 'n':
                n = max(1, n + rng.choice([-5, -1, 1, 7, 20]))
                if kind == 'year':
                    n = min(n, 20)
                m.period_count = n
            elif what == 'start':
                start = calendar_ref.at(start, kind, rng.randint(-9, 9))
                m.clock.start_datetime = start
            elif what == 'activity':
                a = rng.choice(acts)
                a['lo'], a['hi'] = choose(rng, start, kind, n)
                a['obj'].start_datetime = a['lo'] or datetime.min
                a['obj'].end_datetime = a['hi'] or datetime.max
            else:
                a = rng.choice(acts)
                a['obj'].amount = a['amount'] = rng.choice([0, 7, 8.25])
        info()
        m.run()
        judge(ctx, e.gl, acts, start, kind, n)
        ctx.ev('changed-reruns')
    # the model is over; nothing more happens in it
    snap = list(e.gl.transactions)
    for _ in range(rng.randint(1, 3)):
        e.run(m.clock)
        m.clock.tick()
    ctx.check(snap == e.gl.transactions, 'after-the-end', lambda: '%d '
              'transactions after the last period' % (
                  len(e.gl.transactions) - len(snap)))
    ctx.sample({'model': [str(start), kind, n], 'activities': len(acts),
                'transactions': len(e.gl.transactions)}, 3)


def run(ctx):
    for k in ('ran', 'did-not-run', 'reruns', 'changed-reruns'):
        ctx.require(k, 100)
    ctx.run('schedule', ctx.n(8000, 50000), case)
