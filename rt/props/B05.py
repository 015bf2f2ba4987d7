"""Whole business models: from the plan to the books and the reports."""
from datetime import datetime, timedelta
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from rt import calendar_ref, ledger
from rt.props import B01, B02, B03, F02, F03
from rt.reports import as_csv

TARGETS = ['auxi/modelling/business/structure.py',
           'auxi/modelling/business/basic.py',
           'auxi/modelling/business/models.py',
           'auxi/modelling/financial/des.py',
           'auxi/modelling/financial/reporting.py']
RULE = ('Random business models of up to two entities with nested '
        'components, scheduled activities and loans on shared accounts over '
        'several financial years, run, changed and run again; the ledger '
        'compared with the plan of all activities, the closing postings '
        'with the movements, the statements and lists of random periods and '
        'components with double entry sums. Distinct by (plan, report).')
ASSUMPTIONS = ['monthly periods on days 1 to 28',
               'what B01, B02, B03 and F03 leave open stays open here']
COMPONENTS = ['Ops', 'HR', 'Ops 2', 'Loan', 'Wages']
TASKS = ['Loan', 'Wages', 'Sell', 'Ops', 'Pay: tax', 'Sell 2']


class Plan:
    """What one activity is to do."""

    def __init__(self, obj, loan, **kw):
        self.obj = obj
        self.loan = loan
        self.__dict__.update(kw)


def planned(p, start, n):
    """[(date, debit, credit, amount)] of an activity."""
    dates = [calendar_ref.add_months(start, i) for i in range(n)]
    if not p.loan:
        _, want = B01.verdicts(start, 'month', n, p.lo, p.hi, p.interval)
        if p.amount <= 0:
            return []
        return [(d, p.dt, p.cr, p.amount) for d, w in zip(dates, want) if w]
    pay, interest = B02.schedule(p.amount, p.rate, p.duration)
    first = [i for i, d in enumerate(dates) if p.lo is None or d > p.lo]
    if not first:
        return []
    out = [(dates[first[0]], p.bank, p.account, p.amount)]
    for k, x in enumerate(interest):
        i = first[0] + k + 1
        if i < n:
            out.append((dates[i], p.interest, p.account, float(x)))
            out.append((dates[i], p.account, p.bank, float(pay)))
    return out


def match(ctx, e, plans, start, n):
    """The recorded transactions of an entity, each found in the plan."""
    want = {}
    for p in plans:
        for t in planned(p, start, n):
            want.setdefault((p.obj.path, t[0], t[1], t[2]), []).append(t[3])
    for v in want.values():
        v.sort()
    got = {}
    out = []
    for o in e.gl.transactions:
        if o.source == e.path:
            continue
        t = ledger.Tx()
        t.name, t.desc, t.date, t.dt, t.cr, t.source, t.amount, t.obj = (
            o.name, o.description, o.tx_date, o.dt_account, o.cr_account,
            o.source, o.amount, o)
        out.append(t)
        got.setdefault((t.source, t.date, t.dt, t.cr), []).append(t.amount)
    ctx.check(set(got) == set(want), 'postings', lambda: '%s: posted and not '
              'planned %r, planned and not posted %r' % (
                  e.path, sorted(map(repr, set(got) - set(want)))[:3],
                  sorted(map(repr, set(want) - set(got)))[:3]))
    for k, v in got.items():
        v.sort()
        ctx.check(len(v) == len(want[k]) and all(
            abs(a - b) <= 1e-8 * abs(b) + 1e-6 for a, b in zip(v, want[k])),
            'amounts', lambda: '%r: amounts %r, expected %r' % (
                k, v, want[k]))
        ctx.ev('postings-compared', len(v))
    return out


def closings(ctx, e, txs, types, start, n):
    dates = [calendar_ref.add_months(start, i) for i in range(n)]
    plain = [(t.date, t.dt, t.cr, t.amount) for t in txs]
    count = sum(B03.judge(ctx, e, plain, types, a, b)
                for a, b, k in B03.year_ends(start, dates, None))
    out = []
    for o in e.gl.transactions:
        if o.source == e.path:
            t = ledger.Tx()
            t.name, t.desc, t.date, t.dt, t.cr, t.source, t.amount, t.obj = (
                o.name, o.description, o.tx_date, o.dt_account, o.cr_account,
                o.source, o.amount, o)
            out.append(t)
    ctx.check(len(out) == count, 'other-closings', '%d closing postings '
              'outside the closed years' % (len(out) - count))
    return out


def reports(ctx, rng, e, txs, types, places, start, n):
    """Statements and lists of random periods and components."""
    gl = e.gl
    names, types = types.names, ledger.Types(dict(types, **{
        B03.GP: 'revenue', B03.SUM: 'revenue',
        types.now(B03.RETAINED): 'equity'}))
    types.names = names
    base = calendar_ref.add_months(start, n // 2)
    for _ in range(3):
        kw, lo, hi = {}, None, None
        if rng.random() < 0.6:
            kw['end'], hi = limit(rng, start, n, base)
        F03.balance_sheet(ctx, gl, txs, types, kw, hi)
        if rng.random() < 0.6:
            kw['start'], lo = limit(rng, start, n, base)
        if rng.random() < 0.7:
            kw['component_path'] = rng.choice(places)
        F03.income_statement(ctx, gl, txs, types, kw, lo, hi)
        pick = [t for t in txs
                if (lo is None or ledger.not_after(lo, t.date)) and
                (hi is None or ledger.not_after(t.date, hi)) and
                ledger.from_component(t.source,
                                      kw.get('component_path', ''))]
        got = as_csv(lambda f, p: gl.transaction_list(
            format=f, output_path=p, **kw))
        last = got.pop()
        exp, total = F02.expected(pick)
        ctx.check(got == exp, 'list', lambda: 'transaction list: got %r, '
                  'expected %r' % ([r for r in got if r not in exp][:3],
                                   [r for r in exp if r not in got][:3]))
        ctx.check(abs(float(last[5]) - total) < 0.0051 + 1e-12 * sum(
            abs(t.amount) for t in pick), 'list-total', lambda:
            'total %s, expected %.2f' % (last[5], total))
        ctx.ev('reports', 3)
        ctx.eval((str(start), n, e.path, len(txs), repr(sorted(
            (k, str(v)) for k, v in kw.items()))), bool(pick))


def limit(rng, start, n, base):
    """Year ends, period dates or any date: (as given, as meant)."""
    r = rng.random()
    if r < 0.3:
        d = calendar_ref.add_months(start, 12 * rng.randint(0, 3))
        d += timedelta(seconds=rng.choice([0, -1, 1]))
        return d, d
    if r < 0.6:
        d = calendar_ref.add_months(start, rng.randint(-1, n))
        if rng.random() < 0.5:
            return d.date(), d.date()
        return d, d
    return ledger.limit(rng, base)


def case(ctx, rng, i):
    start = datetime(rng.randint(1990, 2030), rng.randint(1, 12),
                     rng.randint(1, 28), rng.choice([0, 0, 0, 13]))
    n = rng.choice([2, 12, 13, 14, 25, 37, rng.randint(2, 50)])
    m = TimeBasedModel('M', start_datetime=start,
                       period_duration=TimePeriod.month, period_count=n)
    entities = []
    s = None
    for name in ['E', 'E 2'][:rng.choice([1, 1, 2])]:
        if s is None or rng.random() < 0.6:
            s, types = ledger.structure(rng)
        else:
            ctx.ev('shared-structures')
        entities.append((m.create_entity(name, s), types, []))

    def components(x):
        out = []
        for c in x.components:
            out += [c] + components(c)
        return out

    def moment():
        return B01.moment(rng, start, 'month', n)

    def add(e, types, plans):
        paths = sorted(types)
        name = rng.choice(TASKS)
        here = components(e)
        while True:
            c = rng.choice(here)
            if name not in [a.name for a in c.activities] + [
                    x.name for x in c.components]:
                break
            name = rng.choice(TASKS) + ' %d' % len(plans)
        if rng.random() < 0.3:
            lo = None
            if rng.random() < 0.8:
                lo = calendar_ref.add_months(start, rng.randint(0, n))
                if rng.random() < 0.3:
                    lo = lo + timedelta(seconds=5000)
            bank = types.now('Bank/Default')
            account = rng.choice([x for x in paths
                                  if types[x] == 'liability'])
            interest = rng.choice([x for x in paths if types[x] == 'expense'])
            p = Plan(None, True, lo=lo, bank=bank, account=account,
                     interest=interest, rate=rng.choice(
                         [0.0, 0.15, 0.1, rng.uniform(0.001, 0.5)]),
                     amount=rng.choice([1000, 20000.5, 77777.25]),
                     duration=rng.choice([1, 2, 12, 36, rng.randint(1, 40)]))
            kw = {} if lo is None else dict(start=lo)
            p.obj = BasicLoanActivity(name, bank, account, interest, p.amount,
                                      interest_rate=p.rate,
                                      duration=p.duration, **kw)
            ctx.ev('loans')
        else:
            lo = moment() if rng.random() < 0.5 else None
            hi = moment() if rng.random() < 0.4 else None
            p = Plan(None, False, lo=lo, hi=hi, dt=rng.choice(paths),
                     cr=rng.choice(paths), interval=rng.choice(
                         [1, 1, 1, 2, 3, 6, 12]),
                     amount=rng.choice([0, 100, 99.5, 1, 12500.25, 10000]))
            if rng.random() < 0.6:
                p.dt, p.cr = types.now('Bank/Default'), rng.choice(
                    [x for x in paths if types[x] in ('revenue', 'expense')])
                if types[p.cr] == 'expense':
                    p.dt, p.cr = p.cr, p.dt
            if None in B01.verdicts(start, 'month', n, lo, hi,
                                    p.interval)[1]:
                p.interval = 1
            kw = {}
            if lo is not None:
                kw['start'] = lo
            if hi is not None:
                kw['end'] = hi
            p.obj = BasicActivity(name, p.dt, p.cr, p.amount,
                                  interval=p.interval, **kw)
        c.add_activity(p.obj)
        p.at = c
        plans.append(p)

    def elsewhere(what, plans):
        """Move an activity to another component, or share it."""
        others = [(x, tx, px, c) for x, tx, px in entities
                  for c in components(x)]
        if not plans:
            return
        p = rng.choice(plans)
        if p.loan:
            return
        rng.shuffle(others)
        for x, tx, px, c in others:
            if px is plans and what == 'share' or c is p.at or \
                    any(q.obj is p.obj and q.at is c for q in px) or \
                    {p.dt, p.cr} - set(tx) or p.obj.name in [
                        a.name for a in c.activities + c.components]:
                continue
            q = Plan(None, False, **{k: v for k, v in p.__dict__.items()
                                     if k not in ('obj', 'at', 'loan')})
            q.obj, q.at = p.obj, c
            if what == 'move':
                plans.remove(p)
                p.at.activities.remove(p.obj)
            c.add_activity(p.obj)
            px.append(q)
            ctx.ev('activities-' + what)
            if px is not plans:
                ctx.ev('activities-of-another-entity')
            return

    for e, types, plans in entities:
        tops = [e.create_component(x) for x in rng.sample(
            COMPONENTS, rng.randint(1, 3))]
        for t in tops:
            if rng.random() < 0.4:
                t.create_component(rng.choice(COMPONENTS)).create_component(
                    'Deep')
        for _ in range(rng.randint(0, 6)):
            add(e, types, plans)

    for what in ('move', 'share'):
        if rng.random() < 0.15:
            elsewhere(what, rng.choice(entities)[2])

    def check():
        ctx.info({'start': str(start), 'months': n, 'plan': [
            [e.path] + [[p.obj.path] + sorted(
                (k, str(v)) for k, v in p.__dict__.items()
                if k not in ('obj', 'at')) for p in plans]
            for e, types, plans in entities]})
        m.run()
        for e, types, plans in entities:
            txs = match(ctx, e, plans, start, n)
            txs += closings(ctx, e, txs, types, start, n)
            order = {id(o): k for k, o in enumerate(e.gl.transactions)}
            txs.sort(key=lambda t: order[id(t.obj)])
            places = [c.path for c in components(e)] + [
                p.obj.path for p in plans] + [e.path, m.name]
            reports(ctx, rng, e, txs, types, places, start, n)
        ctx.ev('runs')

    check()
    for _ in range(rng.choice([0, 1, 1])):
        e, types, plans = rng.choice(entities)
        for what in rng.sample(['rename', 'add', 'remove', 'amount', 'move',
                                'share', 'component', 'entity'], 2):
            if what == 'rename':
                rng.choice(components(e)).name = 'Renamed %d' % len(plans)
            elif what in ('move', 'share'):
                elsewhere(what, plans)
            elif what == 'entity':
                e.name = e.name + ' renamed'
            elif what == 'add':
                add(e, types, plans)
            elif what == 'component':
                e.create_component('Later %d' % len(e.components))
            elif what == 'remove' and plans:
                p = plans.pop(rng.randrange(len(plans)))
                p.at.activities.remove(p.obj)
            elif what == 'amount' and plans:
                p = rng.choice(plans)
                p.obj.amount = rng.choice([250, 8.25])
                for _, _, x in entities:
                    for q in x:
                        if q.obj is p.obj:
                            q.amount = p.obj.amount
        check()
        ctx.ev('changed-reruns')
    ctx.sample({'start': str(start), 'months': n, 'activities': [
        len(plans) for _, _, plans in entities]}, 3)


def run(ctx):
    for k in ('runs', 'changed-reruns', 'postings-compared', 'reports',
              'loans', 'shared-structures', 'years-closed'):
        ctx.require(k, 30)
    for k in ('activities-move', 'activities-share'):
        ctx.require(k, 8)
    ctx.run('model', ctx.n(1600, 40000), case)
