"""Property models: what state they accept, and that they have no memory."""
import copy
import math

from rt import fluids
from rt.core import short

TARGETS = ['auxi/tools/materialphysicalproperties/core.py',
           'auxi/tools/materialphysicalproperties/gases.py',
           'auxi/tools/materialphysicalproperties/slags.py',
           'auxi/tools/materialphysicalproperties/coals.py',
           'auxi/tools/materialphysicalproperties/idealgas.py']
RULE = ('Every kind of model with random valid states, and with each of them '
        'spoilt in one way (a parameter missing, unknown, of the wrong type, '
        'out of its range); the spoilt ones must be refused, the valid ones '
        'must give the same finite number every time, whatever was asked '
        'before, and must not be modified. Distinct by (model, way, state).')
ASSUMPTIONS = ['whole numbers where a float is asked for are not judged']


def spoil(rng, state, lo=0.0):
    """(description, spoilt copy)"""
    s = copy.deepcopy(state)
    k = rng.choice(sorted(s))
    way = rng.choice(['missing', 'unknown', 'type', 'range', 'range'])
    if way == 'missing':
        del s[k]
    elif way == 'unknown':
        k = rng.choice(['p', 'Z', 't', 'x_', 'pressure'])
        s[k] = 1.0
    elif way == 'type':
        s[k] = rng.choice([None, 'x', '300.0', [300.0], [], (1.0,)]) if \
            isinstance(s[k], float) else rng.choice(
                [None, 'SiO2', 0.5, [0.5], [('N2', 1.0)]])
    else:
        floats = [n for n in sorted(s) if isinstance(s[n], float)]
        k = rng.choice(floats)
        s[k] = rng.choice([-1e-9, -1.0, -300.0])
        if k.startswith('y_'):
            s[k] = rng.choice([-1e-9, -0.2, 1.0 + 1e-6, 1.5, 100.0])
    return way, k, s


def case(ctx, rng, i):
    ms = fluids.models(rng)
    first = {}
    order = list(range(len(ms))) * 2
    rng.shuffle(order)
    for j in order:
        name, model, state = ms[j]
        if rng.random() < 0.6:
            way, k, bad = spoil(rng, state)
            ctx.info({'model': name, 'state': bad, 'spoilt': [way, k]})
            ask = rng.choice([model, model.calculate])
            ctx.raises(lambda: ask(**bad), 'accepted:%s:%s' % (name, way)
                       if 'of' not in name else 'accepted:' + way,
                       '%s with %s %s in %s' % (name, way, k, short(bad)))
            if rng.random() < 0.3:
                for ask in (ask, model):
                    ctx.raises(lambda: ask(**bad), 'accepted-again', '%s '
                               'with %s %s in %s, offered again' % (
                                   name, way, k, short(bad)))
                ctx.ev('refused-again')
            ctx.ev('refused-' + way)
            ctx.eval((name, way, k, repr(bad)))
        kept = copy.deepcopy(state)
        ctx.info({'model': name, 'state': state})
        v = rng.choice([model, model.calculate])(**state)
        ctx.check(isinstance(v, (int, float)) and math.isfinite(v), 'number',
                  lambda: '%s gave %r' % (name, v))
        ctx.check(state == kept, 'changed', lambda: '%s changed the state it '
                  'was given from %s to %s' % (name, kept, state))
        if name in first:
            ctx.check(v == first[name], 'memory', lambda: '%s gave %r, then '
                      '%r, for the same state' % (name, first[name], v))
            ctx.ev('repeated')
        first[name] = v
        ctx.ev('accepted')
        ctx.eval((name, repr(state)))
    ctx.sample({'models': [m[0] for m in ms]}, 1)


def run(ctx):
    for k in ('refused-missing', 'refused-unknown', 'refused-type',
              'refused-range', 'refused-again', 'repeated', 'accepted'):
        ctx.require(k, 100)
    ctx.run('state', ctx.n(2400, 15000), case)
