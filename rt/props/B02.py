"""Loans: amortisation against an exact schedule."""
from datetime import datetime, timedelta
from decimal import Decimal, getcontext
from fractions import Fraction
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicLoanActivity
from auxi.modelling.financial.des import GeneralLedgerStructure
from rt import calendar_ref
from rt.core import log_uniform

TARGETS = ['auxi/modelling/business/basic.py',
           'auxi/modelling/business/structure.py']
RULE = ('Random loans (amount, rate including none, duration, start before, '
        'in and after the model or not given) run monthly, changed and run '
        'again; every posting compared with an exact amortisation schedule. '
        'Distinct by (amount, rate, duration, start, horizon).')
ASSUMPTIONS = ['monthly periods beginning on days 1 to 28, interval of one',
               'the default start of a loan is the first period']
LOAN, BANK, INT = ('Long Term Borrowing/Loan', 'Bank/Default',
                   'Expense/Interest')


def schedule(amount, rate, duration):
    """(payment, [interest of each month]): exact rationals, 90 digits for
    long loans."""
    if duration > 150:
        getcontext().prec = 90
        number = Decimal
    else:
        number = Fraction
    r = number(rate) / 12
    a = number(amount)
    if r == 0:
        pay = a / duration
    else:
        pay = a * r / (1 - 1 / (1 + r) ** duration)
    left, out = a, []
    for _ in range(duration):
        x = left * r
        out.append(x)
        left += x - pay
    return pay, out


def judge(ctx, gl, L, start, n):
    dates = [calendar_ref.add_months(start, i) for i in range(n)]
    lo = L['start']
    if L['amount'] <= 0 or L['duration'] <= 0:
        run = []
    elif lo is None:
        run = list(range(0, L['duration'] + 1))
    else:
        first = [i for i, d in enumerate(dates) if d > lo]
        run = list(range(first[0], first[0] + L['duration'] + 1)) \
            if first else []
    due = run
    run = [i for i in run if i < n]
    if n == 1 and lo == start:
        return
    txs = [t for t in gl.transactions if t.source == L['obj'].path]
    by = {}
    for t in txs:
        by.setdefault(t.tx_date, []).append(t)
    ctx.check(set(by) == {dates[i] for i in run}, 'months', lambda:
              'postings in %r, expected %r' % (
                  sorted(map(str, by)), [str(dates[i]) for i in run]))
    if not run:
        ctx.ev('loans-not-made')
        return
    pay, interest = schedule(L['amount'], L['rate'], L['duration'])
    amount = L['amount']
    tol = 1e-8 * amount
    name = L['desc'] if L['desc'] is not None else 'Loan'
    owed = 0.0
    for k, i in enumerate(run):
        got = by[dates[i]]
        if k == 0:
            exp = [(BANK, LOAN, amount)]
        else:
            exp = [(INT, LOAN, interest[k - 1]), (LOAN, BANK, pay)]
        ctx.check(len(got) == len(exp), 'postings', lambda: 'month %d: %d '
                  'postings' % (k, len(got)))
        for t, (dt, cr, a) in zip(got, exp):
            ctx.check(t.dt_account == dt and t.cr_account == cr, 'accounts',
                      lambda: 'month %d: debit %s, credit %s' % (
                          k, t.dt_account, t.cr_account))
            ctx.check(t.name == name, 'name', 'named %r' % t.name)
            ctx.check(abs(t.amount - float(a)) <= tol, 'amount',
                      lambda: 'month %d: %s %r, expected %r' % (
                          k, t.description, t.amount, float(a)))
            owed += t.amount * ((t.cr_account == LOAN) -
                                (t.dt_account == LOAN))
            ctx.ev('postings-compared')
        if k < L['duration'] and k < len(due) - 1:
            ctx.check(owed > -tol, 'overpaid', 'month %d: owed %r' % (
                k, owed))
    if len(run) == len(due):
        ctx.check(abs(owed) <= 1e-7 * amount, 'not-repaid',
                  'owed %r after the last payment' % owed)
        ctx.ev('loans-repaid')
    else:
        ctx.ev('loans-running')


def case(ctx, rng, i):
    start = datetime(rng.randint(1990, 2030), rng.randint(1, 12),
                     rng.randint(1, 28))
    L = {}

    def draw():
        L['amount'] = rng.choice([0, -10, 1, 200000, 180000.5,
                                  log_uniform(rng, 0.01, 1e9)])
        if L['amount'] <= 0 and rng.random() < 0.8:
            L['amount'] = 1234.5
        L['rate'] = rng.choice([0.0, 0, 0.15, 0.01, 1.0, 0.12,
                                rng.uniform(0.001, 0.5)])
        if long:  # Rounding errors must not outgrow the loan.
            L['rate'] = log_uniform(rng, 1e-4, 60.0 / L['duration'])

    long = rng.random() < 0.01
    n = rng.choice([1, 2, 12, 37, 60, rng.randint(1, 100)])
    L['duration'] = rng.choice([0, 1, 2, 12, 36, rng.randint(1, 80)])
    if long:
        L['duration'] = int(log_uniform(rng, 200, 3000))
        n = L['duration'] + rng.randint(2, 5)
    draw()
    r = rng.random()
    if r < 0.2:
        L['start'] = None
    elif r < 0.6:
        L['start'] = start
    else:
        L['start'] = calendar_ref.add_months(start, rng.randint(-2, n + 2))
        if rng.random() < 0.4:
            L['start'] += timedelta(seconds=rng.choice([-1, 1, 86400, 5000]))
            L['start'] = L['start'].replace(day=min(28, L['start'].day))
    # Before the model the loan would already be running: not judged.
    if L['start'] is not None and L['start'] < start:
        k = calendar_ref.add_months(L['start'], 1)
        if k <= start:
            L['start'] = start
    L['desc'] = rng.choice([None, 'Loan for Capital'])
    m = TimeBasedModel('M', start_datetime=start,
                       period_duration=TimePeriod.month, period_count=n)
    s = GeneralLedgerStructure('gls')
    s['Long Term Borrowing'].create_account('Loan', '1')
    s['Expense'].create_account('Interest', '1')
    e = m.create_entity('E', s)
    kw = {}
    if L['start'] is not None:
        kw['start'] = L['start']
        if L['start'].time() == datetime.min.time() and rng.random() < 0.3:
            kw['start'] = L['start'].strftime('%Y-%m-%d')
    if L['desc'] is not None:
        kw['description'] = L['desc']
    if L['rate'] != 0 or rng.random() < 0.5:
        kw['interest_rate'] = L['rate']
    L['obj'] = BasicLoanActivity('Loan', BANK, LOAN, INT, L['amount'],
                                 duration=L['duration'], **kw)
    e.create_component('C').add_activity(L['obj'])

    def info():
        ctx.info({'model start': str(start), 'months': n, 'loan': {
            k: str(v) for k, v in L.items() if k != 'obj'}})
    info()
    key = (L['amount'], L['rate'], L['duration'], str(L['start']), str(start),
           n)
    m.run()
    judge(ctx, e.gl, L, start, n)
    ctx.eval(key, L['duration'] > 0)
    for _ in range(2):
        if rng.random() < 0.5:
            m.run()
            ctx.ev('reruns')
        else:
            draw()
            if rng.random() < 0.5:
                L['obj'].amount = L['amount']
                L['obj'].interest_rate = L['rate']
            else:
                L['obj'].interest_rate = L['rate']
                L['obj'].amount = L['amount']
            if not long and rng.random() < 0.5:
                L['duration'] = L['obj'].duration = rng.choice(
                    [0, 1, 2, 12, rng.randint(1, 80)])
                ctx.ev('durations-changed')
            if L['start'] is not None and rng.random() < 0.3:
                L['start'] = calendar_ref.add_months(
                    start, rng.randint(0, n + 2))
                L['obj'].start_datetime = L['start']
                ctx.ev('starts-changed')
            if not long and rng.random() < 0.2:
                m.period_count = n = rng.randint(1, 100)
                ctx.ev('horizons-changed')
            info()
            m.run()
            ctx.ev('changed-reruns')
        judge(ctx, e.gl, L, start, n)
    if long:
        ctx.ev('long-loans')
    ctx.sample({'loan': {k: str(v) for k, v in L.items() if k != 'obj'},
                'months': n}, 3)


def run(ctx):
    for k in ('loans-repaid', 'loans-running', 'loans-not-made',
              'postings-compared', 'changed-reruns', 'durations-changed',
              'starts-changed', 'horizons-changed'):
        ctx.require(k, 30)
    ctx.require('long-loans', 3)
    ctx.run('loan', ctx.n(3000, 60000), case)
