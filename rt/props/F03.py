"""Balance sheets and income statements against a double entry reference."""
from datetime import datetime
from rt import ledger
from rt.reports import as_csv

TARGETS = ['auxi/modelling/financial/des.py',
           'auxi/modelling/financial/reporting.py']
RULE = ('Random ledgers over all account types, random periods and '
        'components; every line and total of both statements compared with '
        'exact sums of the recorded transactions, and assets minus '
        'liabilities and equity with the net income. Distinct by (ledger, '
        'period).')
ASSUMPTIONS = ['a period limit without a time of day includes that whole '
               'day', 'amounts are shown with two decimals']


def money(ctx, text, value, scale, sig, what):
    try:
        x = float(text)
    except ValueError:
        ctx.violation(sig, '%s shows %r' % (what, text))
    ctx.check(abs(x - float(value)) <= 0.0051 + 1e-12 * scale, sig,
              lambda: '%s: shows %s, expected %.3f' % (what, text,
                                                       float(value)))
    ctx.ev('amounts-compared')


def sections(rows, col, heads):
    """Lines of a statement by section."""
    out, cur = {}, None
    for r in rows:
        if r[col] in heads:
            cur = r[col]
            out[cur] = []
        elif cur and r[col] and not set(r[col]) <= {'-'}:
            out[cur].append(r)
    return out


def compare(ctx, lines, exp, name, amt, sign, scale, sig):
    got = {}
    for r in lines:
        ctx.check(r[name] not in got, sig, 'account %s twice' % r[name])
        got[r[name]] = r[amt]
    ctx.check(set(got) == set(exp), sig + '-accounts',
              lambda: 'accounts %r, expected %r' % (sorted(got),
                                                    sorted(exp)))
    for k, v in exp.items():
        money(ctx, got[k], sign * v, scale, sig, k)


def balance_sheet(ctx, gl, txs, types, kw, hi):
    pick = [t for t in txs if hi is None or ledger.not_after(t.date, hi)]
    bal = ledger.balances(pick, types)
    scale = sum(abs(t.amount) for t in pick)
    rows = as_csv(lambda f, p: gl.balance_sheet(format=f, output_path=p,
                                                **kw))
    ctx.check(rows[0][0] == 'Assets' and
              rows[0][2] == 'Liabilities and Equity', 'layout',
              'header %r' % rows[0])
    exp = {k: {a: b for a, b in bal.items() if types[a] == k}
           for k in ('asset', 'liability', 'equity', 'revenue', 'expense')}
    body = rows[1:]
    total = body.pop()
    assets = [r for r in body if r[0] and not set(r[0]) <= {'-'}]
    compare(ctx, assets, exp['asset'], 0, 1, 1, scale, 'asset')
    sec = sections(body, 2, ('Liabilities', "Owners' Equity"))
    lia = [r for r in sec['Liabilities'] if r[2] != 'Total liabilities']
    equ = [r for r in sec["Owners' Equity"]
           if r[2] != "Total owners' equities"]
    compare(ctx, lia, exp['liability'], 2, 3, -1, scale, 'liability')
    compare(ctx, equ, exp['equity'], 2, 3, -1, scale, 'equity')
    sums = {k: sum(v.values()) for k, v in exp.items()}
    for r in body:
        if r[2] == 'Total liabilities':
            money(ctx, r[4], -sums['liability'], scale, 'liability-total',
                  r[2])
        if r[2] == "Total owners' equities":
            money(ctx, r[4], -sums['equity'], scale, 'equity-total', r[2])
    ctx.check(sum(r[2] in ('Total liabilities', "Total owners' equities")
                  for r in body) == 2 and total[0] == 'Total' and
              total[2] == 'Total', 'layout', 'totals missing')
    money(ctx, total[1], sums['asset'], scale, 'asset-total', 'Total assets')
    money(ctx, total[4], -sums['liability'] - sums['equity'], scale, 'total',
          'Total liabilities and equity')
    # The sheet is out of balance by exactly the income not yet closed.
    net = -sums['revenue'] - sums['expense']
    ctx.check(abs(float(total[1]) - float(total[4]) - float(net)) <
              0.0102 + 1e-11 * scale, 'balance',
              lambda: 'assets %s, liabilities and equity %s, income %.2f' % (
                  total[1], total[4], float(net)))
    ctx.ev('balance-sheets')
    if 0 < len(pick) < len(txs):
        ctx.ev('part-of-the-ledger')
    return len(pick)


def income_statement(ctx, gl, txs, types, kw, lo, hi):
    pick = [t for t in txs
            if (lo is None or ledger.not_after(lo, t.date)) and
            (hi is None or ledger.not_after(t.date, hi)) and
            ledger.from_component(t.source, kw.get('component_path', '')) and
            not t.obj.is_closing_cr_account and
            not t.obj.is_closing_dt_account]
    bal = ledger.balances(pick, types)
    scale = sum(abs(t.amount) for t in pick)
    rows = as_csv(lambda f, p: gl.income_statement(format=f, output_path=p,
                                                   **kw))
    ctx.check(rows[0] == ['', 'Debit', 'Credit'], 'layout',
              'header %r' % rows[0])
    cos = {a: b for a, b in bal.items() if types[a] == 'expense' and
           a.split('/')[0] == types.now('Cost of Sales')}
    oth = {a: b for a, b in bal.items() if types[a] == 'expense' and
           a not in cos}
    inc = {a: b for a, b in bal.items() if types[a] == 'revenue'}
    gross = 'Gross Revenues (including interest income)'
    sec = {}
    cur = None
    prev = None
    for r in rows[1:]:
        if set(r[0]) <= {'-'} and r[0]:
            cur = prev[0]
            sec[cur] = []
        elif cur is not None:
            sec[cur].append(r)
        prev = r
    def lines(name):
        return [r for r in sec[name] if r[0] and r[0] not in (
            'Cost of Sales', 'Expenses', gross, 'Total Expenses',
            'Net Income') or r[0] == 'Cost of Sales' and (r[1] or r[2])]
    ctx.check(set(sec) == {'Revenues', 'Cost of Sales', 'Expenses'},
              'layout', 'sections %r' % sorted(sec))
    compare(ctx, lines('Revenues'), inc, 0, 2, -1, scale, 'revenue')
    compare(ctx, lines('Cost of Sales'), cos, 0, 1, 1, scale, 'cost-of-sales')
    compare(ctx, lines('Expenses'), oth, 0, 1, 1, scale, 'expense')
    named = {r[0]: r for r in rows if r[0] in (gross, 'Total Expenses',
                                               'Net Income')}
    ctx.check(len(named) == 3, 'layout', 'totals missing')
    income, costs, other = (-sum(inc.values()), sum(cos.values()),
                            sum(oth.values()))
    money(ctx, named[gross][2], income - costs, scale, 'gross', gross)
    money(ctx, named['Total Expenses'][1], other, scale, 'total-expenses',
          'Total Expenses')
    net = named['Net Income'][2]
    if net.startswith('('):
        ctx.check(net.endswith(')'), 'net', 'net income %r' % net)
        net = '-' + net[1:-1]
    money(ctx, net, income - costs - other, scale, 'net', 'Net Income')
    ctx.ev('income-statements')
    ctx.ev('losses' if income - costs - other < 0 else 'profits')
    return len(pick)


def case(ctx, rng, i):
    s, types = ledger.structure(rng)
    if types.now('Cost of Sales') != 'Cost of Sales':
        ctx.ev('renamed-cost-of-sales')
    base = datetime(2016, 6, 15)
    gl, txs = ledger.ledger(rng, s, types, rng.choice([0, 1, 2, 4, 8, 25, 60]
                           if rng.random() < 0.99 else [200, 600]),
                            rng.choice(['mixed', 'date', 'datetime']), base)
    for t in txs:
        if rng.random() < 0.08:
            t.obj.is_closing_cr_account = True
        if rng.random() < 0.08:
            t.obj.is_closing_dt_account = True
            ctx.ev('closing-debit')
    for _ in range(4):
        kw = {}
        lo = hi = None
        if rng.random() < 0.6:
            kw['end'], hi = ledger.limit(rng, base)
        ctx.info({'transactions': [
            [str(t.date), t.source, t.dt, t.cr, t.amount,
             t.obj.is_closing_cr_account] for t in txs],
            'period': {k: str(v) for k, v in kw.items()}})
        n = balance_sheet(ctx, gl, txs, types, kw, hi)
        ctx.eval(('b', i, str(hi)), n > 0)
        if rng.random() < 0.6:
            kw['start'], lo = ledger.limit(rng, base)
        if rng.random() < 0.5:
            kw['component_path'] = rng.choice(
                [x for x in ledger.SOURCES if x])
        ctx.info({'transactions': [
            [str(t.date), t.source, t.dt, t.cr, t.amount,
             t.obj.is_closing_cr_account] for t in txs],
            'period': {k: str(v) for k, v in kw.items()}})
        n = income_statement(ctx, gl, txs, types, kw, lo, hi)
        ctx.eval(('i', i, repr(sorted((k, str(v)) for k, v in kw.items()))),
                 n > 0)
    ctx.sample({'transactions': len(txs), 'period': {
        k: str(v) for k, v in kw.items()}}, 3)


def run(ctx):
    for k in ('balance-sheets', 'income-statements', 'losses', 'profits',
              'part-of-the-ledger', 'closing-debit',
              'renamed-cost-of-sales'):
        ctx.require(k, 50)
    ctx.run('statements', ctx.n(16000, 250000), case)
