"""Clock arithmetic against independent calendar arithmetic."""
from datetime import datetime, timedelta
from auxi.core.time import Clock, TimePeriod
from rt import calendar_ref

TARGETS = ['auxi/core/time.py']
RULE = ('Random clocks (all period lengths; starts at month ends, leap days '
        'and odd times) ticked, reset and asked for the date of random '
        'periods; compared with calendar arithmetic by division. Distinct by '
        '(start, period length, index).')
ASSUMPTIONS = ['one period per time step (see known findings)']
KINDS = ['millisecond', 'second', 'minute', 'hour', 'day', 'week', 'month',
         'year']


def start(rng):
    y = rng.choice([1, 1600, 1899, 1900, 1999, 2000, 2015, 2016, 2019, 2020,
                    2099, 2100, 5000])
    m = rng.randint(1, 12)
    d = rng.choice([1, 2, 15, 28, 29, 30, 31, rng.randint(1, 31)])
    while True:
        try:
            s = datetime(y, m, d)
            break
        except ValueError:
            d -= 1
    if rng.random() < 0.5:
        s += timedelta(0, rng.randint(0, 86399), rng.choice(
            [0, 0, 1000, 999999]))
    return s


def case(ctx, rng, i):
    kind = rng.choice(KINDS)
    s = start(rng)
    c = Clock('c', start_datetime=s, timestep_period_duration=TimePeriod[kind])
    ctx.info({'start': str(s), 'period': kind})
    ix = 0
    prev = None
    for _ in range(rng.randint(5, 40)):
        op = rng.choice(['tick'] * 5 + ['reset', 'ask', 'ask', 'set'])
        if op == 'tick':
            for _ in range(rng.choice([1, 1, 1, 2, 12, 13])):
                c.tick()
                ix += 1
        elif op == 'reset' and rng.random() < 0.3:
            c.reset()
            ix = 0
        elif op == 'set' and rng.random() < 0.4:
            if rng.random() < 0.5:
                c.start_datetime = s = start(rng)
            else:
                kind = rng.choice(KINDS)
                c.timestep_period_duration = TimePeriod[kind]
            ctx.ev('clocks-set')
        ctx.check(c.timestep_ix == ix, 'index', 'index %r after %d ticks' % (
            c.timestep_ix, ix))
        exp = calendar_ref.at(s, kind, ix)
        ctx.check(c.get_datetime() == exp, 'now', lambda: '%s + %d %ss is '
                  '%s' % (s, ix, kind, c.get_datetime()))
        j = rng.choice([0, 1, 11, 12, 13, 48, rng.randint(0, 2000),
                        rng.randint(0, 40000)])
        if kind == 'year':
            j = j % 2000
        exp = calendar_ref.at(s, kind, j)
        got = c.get_datetime_at_period_ix(j)
        ctx.check(got == exp, 'at', lambda: '%s + %d %ss is %s, expected %s' %
                  (s, j, kind, got, exp))
        ctx.check(c.get_datetime_at_period_ix(j + 1) > got, 'order',
                  'period %d does not begin after period %d' % (j + 1, j))
        ctx.check(c.timestep_ix == ix and c.start_datetime == s, 'index',
                  'asking for a date moved the clock')
        ctx.ev('dates-' + kind)
        ctx.eval((str(s), kind, j))
    far(ctx, rng, c, kind, ix)
    ctx.check(c.get_datetime_at_period_ix(0) == s, 'origin',
              'period 0 begins at %s' % c.get_datetime_at_period_ix(0))
    ctx.sample({'start': str(s), 'period': kind, 'index': j,
                'date': str(got)}, 4)


def far(ctx, rng, c, kind, ix):
    """Dates beyond the calendar: refused, and the clock stays as it is."""
    j = int(10 ** rng.uniform(7, 18)) * rng.choice([1, 1, -1])
    now = c.get_datetime()
    try:
        got = c.get_datetime_at_period_ix(j)
    except (OverflowError, ValueError, ArithmeticError):
        ctx.ev('beyond-the-calendar')
    else:
        try:
            exp = calendar_ref.at(c.start_datetime, kind, j)
        except (OverflowError, ValueError):
            ctx.violation('beyond', 'period %d begins at %s' % (j, got))
        ctx.check(got == exp or j < 0, 'at', lambda: '%s + %d %ss is %s' % (
            c.start_datetime, j, kind, got))
    ctx.check(c.timestep_ix == ix and c.get_datetime() == now, 'index',
              lambda: 'asking for period %d moved the clock from %d to %s' % (
                  j, ix, c.timestep_ix))


def several(ctx, rng, item):
    c = Clock('c', start_datetime=datetime(2016, 2, 1),
              timestep_period_duration=TimePeriod.month,
              timestep_period_count=3)
    c.tick()
    ctx.info('a clock with three months per time step, ticked once')
    if c.get_datetime() == datetime(2016, 3, 1):
        ctx.violation('period-count-ignored', 'a clock with three months per '
                      'time step moves one month per tick')
    ctx.check(c.get_datetime() == datetime(2016, 5, 1), 'period-count',
              'shows %s after one tick of three months' % c.get_datetime())


def run(ctx):
    ctx.require('clocks-set', 50)
    ctx.require('beyond-the-calendar', 50)
    for k in KINDS:
        ctx.require('dates-' + k, 50)
    ctx.each('several', [0], several)
    ctx.run('clock', ctx.n(32000, 200000), case)
