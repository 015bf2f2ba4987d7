"""General ledger account structure: histories against a tree model."""
from auxi.modelling.financial.des import (GeneralLedgerStructure,
                                          GeneralLedgerAccount, AccountType)
from rt import names
from rt.reports import as_csv

TARGETS = ['auxi/modelling/financial/des.py',
           'auxi/modelling/financial/reporting.py']
RULE = ('Random histories of creating, renaming, moving below a new root and '
        'removing accounts at random depth, with similar names; after every '
        'step paths, look-ups, descendants, types and the account report are '
        'compared with a tree model. Distinct by history.')
ASSUMPTIONS = ['sibling accounts have different names, names are not empty '
               'and hold no slash']

NAMES = ['Default', 'Loan', 'Loan 1', 'Loan 10', 'Fuel', 'fuel', 'A', 'AA',
         'Ab', 'A.b', 'Wages', 'Bank', 'Sales', 'Äkkoord', 'Cost of Sales',
         '2016', '-', 'Default ', 'x' * 60]
TOP = {'Unallocated Income Statement': ('I05', 'revenue'),
       'Sales': ('I10', 'revenue'), 'Cost of Sales': ('I15', 'expense'),
       'Other Income': ('I20', 'revenue'), 'Expense': ('I25', 'expense'),
       'Tax': ('I30', 'expense'), 'Dividends': ('I35', 'expense'),
       'Share Capital': ('B10', 'asset'),
       'Retained Income': ('B15', 'equity'),
       'Shareholders Loan': ('B20', 'liability'),
       'Long Term Borrowing': ('B25', 'liability'),
       'Other Long Term Liabilities': ('B30', 'liability'),
       'Fixed Assets': ('B35', 'asset'), 'Investments': ('B40', 'asset'),
       'Other Fixed Assets': ('B45', 'asset'), 'Inventory': ('B50', 'asset'),
       'Accounts Receivable': ('B55', 'asset'), 'Bank': ('B60', 'asset'),
       'Other Current Assets': ('B65', 'asset'),
       'Account Payable': ('B70', 'liability'),
       'Taxation': ('B75', 'liability'),
       'Other Current Liabilities': ('B80', 'liability')}
SUB = {'Bank': [('Default', '0000')],
       'Unallocated Income Statement': [('Gross Profit', '0000'),
                                        ('Income Summary', '0010')],
       'Retained Income': [('Retained Earnings', '0000')],
       'Tax': [('Income Tax Expense', '0000')]}


class Node:
    def __init__(self, acc, name, number, kind, parent, description=None):
        self.acc, self.name, self.number = acc, name, number
        self.kind, self.parent, self.description = kind, parent, description
        self.kids = []

    @property
    def path(self):
        return (self.parent.path + '/' if self.parent else '') + self.name

    def below(self):
        out = []
        for k in self.kids:
            out.append(k)
            out += k.below()
        return out


def rows(nodes):
    out = []
    for n in nodes:
        def add(n, prefix):
            out.append([n.kind, prefix + (n.number or ''), n.name,
                        n.description or ''])
            for k in sorted(n.kids, key=lambda k: k.number or ''):
                add(k, prefix + (n.number or '') + '/')
        add(n, '')
    return out


def observe(ctx, s, tops, gone):
    live = []
    for t in tops:
        live.append(t)
        live += t.below()
    for n in live:
        a = n.acc
        ctx.check(a.path == n.path, 'path', lambda: 'path of %r is %r' % (
            n.path, a.path))
        ctx.check(a.name == n.name and a.number == n.number and
                  a.account_type.name == n.kind, 'attributes',
                  lambda: '%s: %r %r %r' % (n.path, a.name, a.number,
                                            a.account_type))
        ctx.check(s.get_account(n.path) is a, 'lookup', lambda: 'looking up '
                  '%r gives %r' % (n.path, s.get_account(n.path)))
        if n.parent:
            rel = n.path[len(n.parent.path) + 1:]
            ctx.check(n.parent.acc.get_child_account(rel) is a,
                      'child-lookup', lambda: 'child %r of %r' % (
                          rel, n.parent.path))
            ctx.check(n.parent.acc[n.name] is a, 'child-lookup',
                      lambda: 'child %r of %r' % (rel, n.parent.path))
        ctx.ev('accounts-compared')
    paths = {n.path for n in live}
    for p in gone:
        if p not in paths:
            ctx.check(s.get_account(p) is None, 'absent-lookup',
                      lambda: 'looking up %r, which is not there, gives %r' %
                      (p, s.get_account(p)))
            ctx.ev('absent-looked-up')
            ctx.raises(lambda: s.validate_account_names([p]),
                       'absent-accepted', 'validating %r' % p, ValueError)
    s.validate_account_names(sorted(paths))
    for t in tops:
        d = s.get_account_descendants(t.acc)
        ctx.check(len(d) == len(t.below()) and
                  all(x is y.acc for x, y in zip(d, t.below())),
                  'descendants', lambda: 'descendants of %s: %r' % (
                      t.path, [x.path for x in d]))


def case(ctx, rng, i):
    s = GeneralLedgerStructure('gls')
    tops = []
    for name in TOP:
        a = s[name]
        ctx.check(a is not None, 'top-level', 'no account %r' % name)
        n = Node(a, name, TOP[name][0], TOP[name][1], None)
        tops.append(n)
        for sub, num in SUB.get(name, []):
            n.kids.append(Node(a[sub], sub, num, n.kind, n))
    gone = {'Nope', 'Bank/Nope', 'Nope/Default', 'Bank/Default/Nope',
            'Bank/Default/Nope/x', 'Sales/Default/x/y', 'bank', 'Bank '}
    log = []
    ctx.info(log)
    if rng.random() < 0.01:
        p = rng.choice(tops)
        for k in range(rng.choice([40, 70, 150])):
            name = rng.choice('aBcDe') + str(k)
            p.kids.append(Node(p.acc.create_account(name, number=str(k)),
                               name, str(k), p.kind, p))
        ctx.ev('wide-trees')
    order = list(tops)
    roots = []
    for _ in range(rng.randint(3, 25)):
        live = list(tops)
        for t in tops:
            live += t.below()
        op = rng.choice(['create'] * 5 + ['rename', 'rename', 'remove',
                                          'rename-top', 'root'])
        ctx.ev('op-' + op)
        if op == 'create':
            p = rng.choice(live[-6:] if rng.random() < 0.5 else live)
            name = names.pick(rng, NAMES, [k.name for k in p.kids],
                              [k.name for k in live[-3:]])
            if name is None:
                continue
            num = rng.choice([None, '%04d' % rng.randint(0, 50), '10', '2'])
            if num is None and rng.random() < 0.7:
                num = '7'
            desc = rng.choice([None, 'about ' + name])
            log.append(['create', p.path, name, num, desc])
            a = p.acc.create_account(name, number=num, description=desc)
            p.kids.append(Node(a, name, num, p.kind, p, desc))
            ctx.check(a.description == desc, 'description',
                      'description %r' % a.description)
        elif op in ('rename', 'rename-top'):
            pick = [n for n in live if (n.parent is None) ==
                    (op == 'rename-top')]
            if not pick:
                continue
            n = rng.choice(pick)
            sib = n.parent.kids if n.parent else tops
            name = names.pick(rng, NAMES, [k.name for k in sib])
            if name is None:
                continue
            gone.update([n.path] + [k.path for k in n.below()])
            log.append(['rename', n.path, name])
            n.acc.name = name
            n.name = name
        elif op == 'remove':
            pick = [n for n in live if n.parent]
            if not pick:
                continue
            n = rng.choice(pick)
            gone.update([n.path] + [k.path for k in n.below()])
            log.append(['remove', n.path])
            n.parent.acc.remove_account(n.name)
            n.parent.kids.remove(n)
            before = [x.path for x in live]
            if rng.random() < 0.5:
                other = names.similar(rng, n.name)
                if other not in {k.name for k in n.parent.kids}:
                    n.parent.acc.remove_account(other)
        else:
            # An account on its own, put under a path of the user's choice.
            a = GeneralLedgerAccount('Own', number='9',
                                     account_type=AccountType.asset)
            b = a.create_account('Sub', '1').create_account('Leaf', '2')
            p = rng.choice(['x', 'x/y', '/z'])
            a.set_parent_path(p)
            if rng.random() < 0.5:
                a.name = 'Mine'
            ctx.check(b.path == p + '/' + a.name + '/Sub/Leaf' and
                      b.account_type == AccountType.asset, 'moved-path',
                      'after moving under %r: %r' % (p, b.path))
            log.append(['root', p])
        for n in rng.sample(live, min(3, len(live))):
            near = names.similar(rng, n.name)
            gone.add(n.path[:len(n.path) - len(n.name)] + near)
        observe(ctx, s, tops, rng.sample(sorted(gone), 20) if len(gone) > 40
                else sorted(gone))
    got = as_csv(lambda f, p: s.report(f, p))
    key = lambda n: n.number
    exp = [['Type', 'Number', 'Name', 'Description']] + rows(
        sorted([t for t in order if t.number[0] == 'I'], key=key) +
        sorted([t for t in order if t.number[0] == 'B'], key=key))
    ctx.check(got == exp, 'report', lambda: 'account report: got %r, '
              'expected %r' % ([r for r in got if r not in exp],
                               [r for r in exp if r not in got]))
    ctx.ev('reports-compared')
    ctx.eval(repr(log))
    ctx.sample(log[:8], 2)


def run(ctx):
    for k in ('op-create', 'op-rename', 'op-rename-top', 'op-remove',
              'absent-looked-up', 'reports-compared'):
        ctx.require(k, 20)
    ctx.run('tree', ctx.n(6000, 60000), case)
