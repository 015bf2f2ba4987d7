"""Materials composed of property models."""
from auxi.modelling.process.materials.core import Material
from auxi.tools.materialphysicalproperties import gases, liquids
from auxi.tools.materialphysicalproperties.core import StateOfMatter
from rt import formula
from rt.core import isclose, log_uniform
from rt.fluids import LIMITS

TARGETS = ['auxi/modelling/process/materials/core.py',
           'auxi/tools/materialphysicalproperties/gases.py',
           'auxi/tools/materialphysicalproperties/liquids.py']
RULE = ('Materials with random subsets of property models, several alive at '
        'once; every property answered by its own model, diffusivity and '
        'kinematic viscosity derived from the others when they have no model, '
        'properties without a model refused; the shipped gases and water '
        'consistent in the same way. Distinct by (models, state).')
ASSUMPTIONS = ['the shipped diffusivities are those of the shipped models']
NAMES = ['alpha', 'beta', 'Cp', 'k', 'mu', 'nu', 'rho']
R = 8.314462618
NAMED = {'Air': 'Air', 'Ar': 'Argon', 'NH3': 'Ammonia',
         'CO2': 'Carbon Dioxide', 'CO': 'Carbon Monoxide', 'N2': 'Nitrogen',
         'O2': 'Oxygen', 'H2O': 'Water Vapour'}


def model(v, calls, name):
    def f(**state):
        calls.append((name, dict(state)))
        return v * (1 + state['T'] / 1000.0 + state.get('P', 0.0))
    return f


def made(ctx, rng, i):
    live = []
    for k in range(rng.randint(2, 4)):
        names = [n for n in NAMES if rng.random() < 0.6]
        calls = []
        vals = {n: log_uniform(rng, 1e-3, 1e3) for n in names}
        models = {n: model(vals[n], calls, n) for n in names}
        args = {}
        mstate = StateOfMatter.unknown
        if rng.random() < 0.5:
            mstate = args['state_of_matter'] = rng.choice(list(StateOfMatter))
        desc = rng.choice([None, 'text'])
        if desc:
            args['description'] = desc
        if names or rng.random() < 0.5:
            args['property_models'] = models
        m = Material('m%d' % k, **args)
        ctx.check(m.name == 'm%d' % k and m.description == desc and
                  m.mstate == mstate, 'attributes', 'name, description or '
                  'state of matter of the material')
        live.append((m, vals, calls))
    T = 300.0
    for _ in range(20):
        if rng.random() < 0.5 or T == 300.0:
            m, vals, calls = rng.choice(live)
        n = rng.choice(NAMES)
        if rng.random() < 0.4:
            T = rng.uniform(1, 2000)
        state = {'T': T} if rng.random() < 0.3 else {
            'T': T, 'P': rng.choice([2.0, 2.0, rng.uniform(0, 9)])}
        f = 1 + T / 1000.0 + state.get('P', 0.0)
        ctx.info({'models': sorted(vals), 'asked': n, 'state': state})
        del calls[:]
        val = lambda p: vals[p] * f
        if n in vals:
            want, used = val(n), {n}
        elif n == 'alpha' and {'k', 'rho', 'Cp'} <= set(vals):
            want, used = val('k') / (val('rho') * val('Cp')), \
                {'k', 'rho', 'Cp'}
            ctx.ev('derived-alpha')
        elif n == 'nu' and {'mu', 'rho'} <= set(vals):
            want, used = val('mu') / val('rho'), {'mu', 'rho'}
            ctx.ev('derived-nu')
        else:
            ctx.raises(lambda: getattr(m, n)(**state), 'no-model', '%s of a '
                       'material with models for %s' % (n, sorted(vals)))
            ctx.ev('refused')
            continue
        got = getattr(m, n)(**state)
        ctx.check(isclose(got, want, 1e-9, 0.0), 'value', lambda: '%s is %r, '
                  'expected %r' % (n, got, want))
        ctx.check({c[0] for c in calls} == used and
                  all(c[1] == state for c in calls), 'asked', lambda: '%s '
                  'asked %r' % (n, calls))
        ctx.ev('answered')
        ctx.eval((i, n, tuple(state.values())))


def shipped(ctx, rng, i):
    name = rng.choice(sorted(LIMITS) + ['water'])
    if name == 'water':
        m, T = liquids.h2o, rng.uniform(273.2, 619.9)
    else:
        m = gases.materials[name]
        T = rng.uniform(*LIMITS[name])
    ctx.info({'fluid': name, 'T': T})
    want = NAMED.get(name, 'Water')
    ctx.check(m.name.lower() == want.lower(), 'shipped-name', lambda: 'the '
              'name of %s is %r' % (want, m.name))
    ctx.check(m.mstate == (StateOfMatter.liquid if name == 'water' else
                           StateOfMatter.gas), 'shipped-state', lambda:
              'the state of matter of %s is %r' % (want, m.mstate))
    v = {n: getattr(m, n)(T=T) for n in NAMES}
    ctx.check(all(v[n] > 0 for n in NAMES if n != 'beta' or
                  name != 'water'), 'positive', 'properties of %s at %r: %r' %
              (name, T, v))
    ctx.check(isclose(v['alpha'], v['k'] / v['rho'] / v['Cp'], 1e-9, 0.0),
              'alpha', lambda: 'diffusivity of %s at %r' % (name, T))
    if name == 'water':
        ctx.check(isclose(v['nu'], v['mu'] / v['rho'], 0.03, 0.0), 'nu',
                  lambda: 'viscosities of water at %r: %r' % (T, v))
        ctx.ev('shipped-water')
    else:
        ctx.check(isclose(v['nu'], v['mu'] / v['rho'], 1e-9, 0.0), 'nu',
                  lambda: 'viscosities of %s at %r' % (name, T))
        ctx.check(isclose(v['beta'] * T, 1.0, 1e-9), 'beta', 'expansion of '
                  '%s at %r is %r' % (name, T, v['beta']))
        mm = 28.9645 if name == 'Air' else formula.molar_mass(
            formula.read(name))
        ideal = 101325.0 * mm / 1000 / (R * T)
        ctx.check(isclose(v['rho'], ideal, 0.05), 'rho', lambda: 'density of '
                  '%s at %r is %r, an ideal gas has %r' % (name, T, v['rho'],
                                                           ideal))
        ctx.ev('shipped-gases')
    ctx.eval((name, T))
    ctx.sample({'fluid': name, 'T': T, 'properties': v}, 3)


def run(ctx):
    for k in ('derived-alpha', 'derived-nu', 'refused', 'answered',
              'shipped-water', 'shipped-gases'):
        ctx.require(k, 50)
    ctx.run('made', ctx.n(10000, 50000), made)
    ctx.run('shipped', ctx.n(16000, 50000), shipped)
