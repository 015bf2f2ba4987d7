"""Transaction lists against the recorded transactions."""
from datetime import datetime, timedelta
from rt import ledger
from rt.reports import as_csv

TARGETS = ['auxi/modelling/financial/des.py',
           'auxi/modelling/financial/reporting.py',
           'auxi/core/reporting.py']
RULE = ('Random ledgers (dates with and without a time, sources of nested '
        'and similarly named components, awkward names) listed for random '
        'periods and components; every row compared with the recorded '
        'transactions. Distinct by (ledger, period, component).')
ASSUMPTIONS = ['a period limit without a time of day includes that whole day']

HEAD = ['Date', 'Source', 'Tx Name', 'Debit Account', 'Credit Account',
        'Amount', 'Description']


def expected(txs):
    out = [HEAD]
    total = 0
    for t in sorted(txs, key=lambda t: ledger.stamp(t.date)):
        src = t.source or ''
        out.append([str(t.date), src, '' if src == t.name or src.endswith(
            '/' + t.name) else t.name,
                    t.dt, t.cr, '%.2f' % t.amount, t.desc or ''])
        total += t.amount
    return out, total


def near(rng, d):
    """A date at or just beside another one."""
    if rng.random() < 0.5 or not isinstance(d, datetime):
        return d
    return d + rng.choice([-1, 1]) * timedelta(
        0, 0, rng.choice([1, 1000, 400000, 1000000, 60000000]))


def case(ctx, rng, i):
    s, types = ledger.structure(rng)
    base = datetime(2016, 6, 15)
    n = rng.choice([0, 1, 2, 5, 12, 30])
    if rng.random() < 0.01:
        n = rng.choice([150, 300, 1100])
        ctx.ev('long-ledgers')
    gl, txs = ledger.ledger(rng, s, types, n,
                            rng.choice(['mixed', 'date', 'datetime']), base)
    ctx.check(len(gl.transactions) == len(txs) and
              all(x is t.obj for x, t in zip(gl.transactions, txs)),
              'recorded', 'the ledger does not hold what was put in it')
    for t in txs:
        o = t.obj
        ctx.check((o.name, o.description, o.tx_date, o.dt_account,
                   o.cr_account, o.source, o.amount,
                   o.is_closing_cr_account, o.is_closing_dt_account) ==
                  (t.name, t.desc, t.date, t.dt, t.cr, t.source, t.amount,
                   False, False), 'recorded', 'a transaction was changed')
    for _ in range(6):
        kw = {}
        pick = list(txs)
        if txs and rng.random() < 0.2:     # exactly on a transaction
            lo = lo_given = near(rng, rng.choice(txs).date)
            kw['start'] = lo
        elif rng.random() < 0.6:
            lo_given, lo = ledger.limit(rng, base)
            kw['start'] = lo_given
        else:
            lo = None
        if lo is not None:
            pick = [t for t in pick if ledger.not_after(lo, t.date)]
        if txs and rng.random() < 0.2:
            kw['end'] = hi = near(rng, rng.choice(txs).date)
        elif rng.random() < 0.6:
            kw['end'], hi = ledger.limit(rng, base)
        else:
            hi = None
        if hi is not None:
            pick = [t for t in pick if ledger.not_after(t.date, hi)]
        if rng.random() < 0.6:
            comp = rng.choice([x for x in ledger.SOURCES if x])
            kw['component_path'] = comp
            pick = [t for t in pick if ledger.from_component(t.source, comp)]
        ctx.info({'transactions': [[t.name, str(t.date), t.source, t.dt, t.cr,
                                    t.amount] for t in txs],
                  'list': {k: str(v) for k, v in kw.items()}})
        got = as_csv(lambda f, p: gl.transaction_list(
            format=f, output_path=p, **kw))
        exp, total = expected(pick)
        last = got.pop()
        ctx.check(got == exp, 'rows', lambda: 'rows: got %r, expected %r' % (
            [r for r in got if r not in exp][:3],
            [r for r in exp if r not in got][:3]))
        ctx.check(last[2] == 'Total' and
                  last[:2] + last[3:5] + last[6:] == [''] * 5, 'total-row',
                  'total row %r' % last)
        ctx.check(abs(float(last[5]) - total) < 0.0051 + 1e-12 * sum(
            abs(t.amount) for t in pick), 'total', lambda:
            'total %s, expected %.2f' % (last[5], total))
        ctx.ev('lists-compared')
        ctx.ev('rows-compared', len(exp) - 1)
        if 0 < len(pick) < len(txs):
            ctx.ev('lists-filtered')
        ctx.eval(repr((i, sorted((k, str(v)) for k, v in kw.items()))),
                 len(pick) > 0)
    ctx.check([t.obj for t in txs] == gl.transactions, 'recorded',
              'a report changed the ledger')
    ctx.sample({'transactions': len(txs), 'list': {
        k: str(v) for k, v in kw.items()}, 'rows': len(pick)}, 3)


def run(ctx):
    ctx.require('lists-filtered', 50)
    ctx.require('rows-compared', 100)
    ctx.run('list', ctx.n(24000, 300000), case)
