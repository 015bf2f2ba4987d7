"""Business structure: paths, look-ups, and who runs."""
from datetime import datetime
from auxi.core.time import TimePeriod
from auxi.modelling.business.models import TimeBasedModel
from auxi.modelling.business.basic import BasicActivity, BasicLoanActivity
from auxi.modelling.business.structure import Activity
from auxi.modelling.financial.des import GeneralLedgerStructure
from rt import calendar_ref, names

TARGETS = ['auxi/modelling/business/structure.py',
           'auxi/modelling/business/models.py']
RULE = ('Random histories on a model: entities, nested components and '
        'activities created, renamed and removed, refused activities added, '
        'the model run in between; every path and look-up, and which '
        'activity ran when, compared with a tree model. Distinct by history.')
ASSUMPTIONS = ['siblings have different names', 'runs stay within one '
               'financial year, so that no year end posts transactions']
NAMES = ['Ops', 'Ops2', 'HR', 'A', 'AB', 'Plant 1', 'Plant 10', 'Öl', 'x']


class Recorder(Activity):
    """A user's own activity that records when it is run."""

    def __init__(self, name):
        super().__init__(name)
        self.ran = []
        self.prepared = 0

    def prepare_to_run(self, clock, period_count):
        super().prepare_to_run(clock, period_count)
        self.prepared += 1
        self.ran = []

    def run(self, clock, generalLedger):
        self.ran.append((clock.timestep_ix, clock.get_datetime(),
                         id(generalLedger)))


class Node:
    def __init__(self, obj, name, kind, parent):
        self.obj, self.name, self.kind, self.parent = obj, name, kind, parent
        self.kids = []

    @property
    def path(self):
        return (self.parent.path + '/' if self.parent else '') + self.name

    def below(self):
        out = []
        for k in self.kids:
            out.append(k)
            out += k.below()
        return out

    def entity(self):
        n = self
        while n.kind != 'entity':
            n = n.parent
        return n


def observe(ctx, root, s):
    for n in root.below():
        ctx.check(n.obj.path == n.path, 'path', lambda: 'path of %s is %r' % (
            n.path, n.obj.path))
        ctx.check(n.obj.name == n.name, 'name', 'name %r, expected %r' % (
            n.obj.name, n.name))
        p = n.parent.obj
        if n.kind == 'entity':
            got = p[n.name]
            ctx.check(n.obj in p.entities, 'member', 'entity not in model')
            ctx.check(n.obj.gl.structure is s, 'structure',
                      'ledger has another structure')
        elif n.kind == 'component':
            got = p[n.name]
            ctx.check(n.obj.gl is n.entity().obj.gl, 'ledger', 'component '
                      '%s has another ledger than its entity' % n.path)
            if n.parent.kind == 'component':
                ctx.check(p.get_component(n.name) is n.obj, 'lookup',
                          'component %s' % n.path)
        else:
            got = p(n.name)
            ctx.check(p.get_activity(n.name) is n.obj, 'lookup',
                      'activity %s' % n.path)
        ctx.check(got is n.obj, 'lookup', 'looking up %s' % n.path)
        ctx.ev('nodes-compared')
    for n in [root] + root.below():
        have = {'model': lambda: n.obj.entities,
                'entity': lambda: n.obj.components,
                'component': lambda: n.obj.components + n.obj.activities,
                'activity': lambda: []}[n.kind]()
        ctx.check(len(have) == len(n.kids) and
                  all(any(h is k.obj for k in n.kids) for h in have),
                  'children', lambda: '%s has %r' % (
                      n.path, [h.name for h in have]))
    ledgers = [k.obj.gl for k in root.kids]
    ctx.check(len({id(g) for g in ledgers}) == len(ledgers), 'ledger',
              'entities share a ledger')


def execute(ctx, rng, root, start, n):
    m = root.obj
    prepared = {id(a): a.obj.prepared for a in root.below()
                if isinstance(a.obj, Recorder)}
    if rng.random() < 0.8:
        m.run()
    else:                               # the user steps the model
        m.prepare_to_run()
        for _ in range(n):
            for e in m.entities:
                e.run(m.clock)
            m.clock.tick()
        ctx.ev('runs-by-hand')
    ctx.check(m.clock.timestep_ix == n, 'clock', 'clock at %r after %d '
              'periods' % (m.clock.timestep_ix, n))
    for a in root.below():
        if a.kind != 'activity':
            continue
        gl = a.entity().obj.gl
        if isinstance(a.obj, Recorder):
            exp = [(i, calendar_ref.at(start, 'day', i), id(gl))
                   for i in range(n)]
            ctx.check(a.obj.ran == exp, 'ran', lambda: '%s ran in periods %r '
                      'of %d' % (a.path, [r[0] for r in a.obj.ran], n))
            ctx.check(a.obj.prepared == prepared[id(a)] + 1, 'prepared',
                      '%s prepared %d times for one run' % (
                          a.path, a.obj.prepared - prepared[id(a)]))
        else:
            t = [x for x in gl.transactions if x.source == a.path]
            ctx.check([x.tx_date for x in t] == [
                calendar_ref.at(start, 'day', i) for i in range(n)] and all(
                    x.amount == a.obj.amount for x in t), 'posted',
                lambda: '%s posted %d times in %d periods' % (
                    a.path, len(t), n))
        ctx.ev('activities-run')
    for e in root.kids:
        k = sum(isinstance(a.obj, BasicActivity) for a in e.below())
        ctx.check(len(e.obj.gl.transactions) == k * n, 'stray',
                  lambda: '%s has %d transactions, expected %d' % (
                      e.path, len(e.obj.gl.transactions), k * n))
        dates = [t.tx_date for t in e.obj.gl.transactions]
        ctx.check(dates == sorted(dates), 'order', 'transactions of %s are '
                  'out of order' % e.path)
    ctx.ev('runs')


def case(ctx, rng, i):
    s = GeneralLedgerStructure('gls')
    start = datetime(2016, 1, rng.randint(1, 28))
    n = rng.choice([0, 1, 2, 5, 30])
    m = TimeBasedModel('Model', start_datetime=start,
                       period_duration=TimePeriod.day, period_count=n)
    root = Node(m, 'Model', 'model', None)
    log = []
    ctx.info(log)
    gone = []
    for _ in range(rng.randint(5, 30)):
        nodes = [root] + root.below()
        op = rng.choice(['create'] * 4 + ['activity'] * 3 +
                        ['rename', 'rename', 'remove', 'run', 'refused'])
        comps = [x for x in nodes if x.kind == 'component']
        if op in ('activity', 'refused') and not comps:
            op = 'create'
        ctx.ev('op-' + op)
        def free(p, kind):
            return names.pick(rng, NAMES, [
                k.name for k in p.kids if (k.kind == 'activity') ==
                (kind == 'activity')], [p.name])
        if op == 'create':
            p = rng.choice([x for x in nodes if x.kind != 'activity'])
            name = free(p, 'c')
            if name is None:
                continue
            desc = rng.choice([None, 'about'])
            log.append(['create', p.path, name])
            if p.kind == 'model':
                o = p.obj.create_entity(name, s, description=desc)
                kind = 'entity'
            else:
                o = p.obj.create_component(name, description=desc)
                kind = 'component'
            ctx.check(o.description == desc, 'description', 'lost')
            p.kids.append(Node(o, name, kind, p))
        elif op == 'activity':
            p = rng.choice(comps)
            name = free(p, 'activity')
            if name is None:
                continue
            if rng.random() < 0.5:
                o = Recorder(name)
            else:
                o = BasicActivity(name, 'Bank/Default', 'Sales',
                                  rng.randint(1, 99))
            log.append(['activity', p.path, name])
            p.obj.add_activity(o)
            p.kids.append(Node(o, name, 'activity', p))
        elif op == 'refused':
            p = rng.choice(comps)
            bad = rng.choice(['Nope', 'Bank/Nope', 'Bank/Default/Nope',
                              'Nope/x'])
            if rng.random() < 0.5:
                a = BasicActivity('refused', *rng.sample([bad, 'Sales'], 2),
                                  amount=rng.choice([0, 5]))
            else:
                a = BasicLoanActivity('refused', *rng.sample(
                    [bad, 'Expense', 'Bank/Default'], 3),
                    amount=rng.choice([0, 5.0]),
                    interest_rate=rng.choice([0.0, 0.1]),
                    duration=rng.choice([0, 1, 12]))
                ctx.ev('loans-refused')
            log.append(['refused', p.path, bad])
            ctx.raises(lambda: p.obj.add_activity(a), 'accepted', 'adding an '
                       'activity on the missing account %s' % bad,
                       ValueError)
        elif op == 'rename':
            x = rng.choice(nodes)
            name = free(x.parent, x.kind) if x.parent else \
                rng.choice(['M', 'Model 2'])
            if name is None:
                continue
            log.append(['rename', x.path, name])
            x.obj.name = name
            x.name = name
        elif op == 'remove':
            pick = [x for x in nodes if x.kind in ('entity', 'component')]
            if not pick:
                continue
            x = rng.choice(pick)
            log.append(['remove', x.path])
            if x.kind == 'entity':
                x.parent.obj.remove_entity(x.name)
            else:
                x.parent.obj.remove_component(x.name)
            x.parent.kids.remove(x)
            other = names.similar(rng, x.name)
            if rng.random() < 0.5 and other not in {
                    k.name for k in x.parent.kids if k.kind != 'activity'}:
                if x.kind == 'entity':
                    x.parent.obj.remove_entity(other)
                else:
                    x.parent.obj.remove_component(other)
            acts = [a.obj for a in x.below() if isinstance(a.obj, Recorder)]
            gone += [(a, list(a.ran), a.prepared) for a in acts]
        else:
            log.append(['run'])
            execute(ctx, rng, root, start, n)
        observe(ctx, root, s)
    execute(ctx, rng, root, start, n)
    for a, ran, prepared in gone:
        ctx.check(a.ran == ran and a.prepared == prepared, 'removed-ran',
                  'an activity of a removed component was run')
        ctx.ev('removed-activities')
    ctx.eval(repr(log))
    ctx.sample(log[:8], 2)


def run(ctx):
    for k in ('loans-refused', 'op-rename', 'op-remove', 'op-refused', 'runs',
              'activities-run', 'removed-activities'):
        ctx.require(k, 30)
    ctx.run('tree', ctx.n(24000, 60000), case)
