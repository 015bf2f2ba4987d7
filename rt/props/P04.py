"""Mixture rules for gases."""
import math

from auxi.tools.materialphysicalproperties import gases
from rt import formula
from rt.core import isclose
from rt.fluids import GAS, LIMITS, fractions, gas_T

TARGETS = ['auxi/tools/materialphysicalproperties/gases.py']
RULE = ('Random gas mixtures at random temperatures; viscosities and heat '
        'capacities compared with the mixture rules evaluated from the pure '
        'gases, at the pure limits, after scaling and reordering the '
        'composition, and after splitting a component off. Distinct by '
        '(temperature, composition).')
ASSUMPTIONS = ['components without a gas model are left out of a mixture']
MODELS = {'wilke': gases.WilkeMuTx(), 'herning': gases.HerningZippererMuTx(),
          'cp': gases.IdealCpTx()}
PURE = {'wilke': 'mu', 'herning': 'mu', 'cp': 'Cp'}
MASS = {k: formula.molar_mass(formula.read(k)) for k in GAS}


def reference(x, T):
    t = sum(x.values())
    x = {k: v / t for k, v in x.items()}
    mu = {k: gases.materials[k].mu(T=T) for k in x}
    cp = {k: gases.materials[k].Cp(T=T) for k in x}
    M = MASS
    out = {}
    s = 0.0
    for i in x:
        d = 0.0
        for j in x:
            phi = (1 + math.sqrt(mu[i] / mu[j]) * (M[j] / M[i]) ** 0.25) ** 2
            d += x[j] * phi / math.sqrt(8 * (1 + M[i] / M[j]))
        s += x[i] * mu[i] / d
    out['wilke'] = s
    w = {k: x[k] * math.sqrt(M[k]) for k in x}
    out['herning'] = sum(w[k] * mu[k] for k in x) / sum(w.values())
    w = {k: x[k] * M[k] for k in x}
    out['cp'] = sum(w[k] * cp[k] for k in x) / sum(w.values())
    return out


def case(ctx, rng, i):
    x = fractions(rng, GAS, rng.choice([1, 2, 2, 3, 3, 4, 5]))
    T = gas_T(rng, x)
    if T is None:
        ctx.ev('no-common-temperature')
        return
    ctx.info({'T': T, 'x': x})
    kept = dict(x)
    got = {k: m(T=T, x=x) for k, m in MODELS.items()}
    ctx.check(x == kept and list(x) == list(kept), 'changed', 'the '
              'composition was changed')
    want = reference(x, T)
    for k in MODELS:
        ctx.check(isclose(got[k], want[k], 2e-5, 0.0), 'rule-' + k, lambda:
                  '%s: %r, expected %r' % (k, got[k], want[k]))
        ctx.ev('mixtures-' + k)
        vals = [getattr(gases.materials[n], PURE[k])(T=T)
                for n in x if x[n] > 0]
        if k != 'wilke':
            ctx.check(min(vals) * (1 - 1e-9) <= got[k] <= max(vals) *
                      (1 + 1e-9), 'between-' + k, lambda: '%s: %r is not '
                      'between its components %r' % (k, got[k], vals))
        # pure
        n = rng.choice(sorted(x))
        p = getattr(gases.materials[n], PURE[k])(T=T)
        ctx.check(isclose(MODELS[k](T=T, x={n: rng.choice([1.0, 0.3, 100.0])}
                                    ), p, 1e-9, 0.0), 'pure-' + k,
                  '%s of pure %s' % (k, n))
        # scale and order
        f = rng.choice([100.0, 0.01, rng.uniform(0.1, 10)])
        items = [(a, b * f) for a, b in x.items()]
        rng.shuffle(items)
        ctx.check(isclose(MODELS[k](T=T, x=dict(items)), got[k], 1e-9, 0.0),
                  'scale-' + k, k + ' depends on the sum or order of the '
                  'fractions')
        # components that are absent
        z = dict(x)
        for g in GAS:
            if g not in z and gas_T(rng, list(z) + [g]) is not None:
                lo, hi = _range(list(z) + [g])
                if lo <= T <= hi:
                    z[g] = 0.0
        ctx.check(isclose(MODELS[k](T=T, x=z), got[k], 1e-9, 0.0),
                  'absent-' + k, k + ' depends on components that are absent')
        # repeated
        ctx.check(MODELS[k](T=T, x=x) == got[k], 'memory', k + ' gave another '
                  'answer to the same question')
    # outside the range of a component that is present
    lo, hi = _range(list(x))
    # questions which resemble the last one
    for _ in range(3):
        e = 10 ** rng.uniform(-6, -1)
        T2, x2 = T, dict(x)
        n = rng.choice(GAS)
        if rng.random() < 0.4 or not _range(list(x) + [n])[0] <= T <= \
                _range(list(x) + [n])[1]:
            T2 = float(min(max(T * (1 + rng.choice([-1, 1]) * e), lo), hi))
        else:
            x2[n] = x2.get(n, 0.0) + e * sum(x.values())
        want2 = reference(x2, T2)
        for k in MODELS:
            r = MODELS[k](T=T2, x=x2) / got[k]
            ctx.check(abs(r - want2[k] / want[k]) <= 1e-10 + 3e-3 * e,
                      'near-' + k, lambda: '%s: %r times as much at %r and '
                      '%r, expected %r' % (k, r, T2, x2,
                                           want2[k] / want[k]))
        ctx.ev('near-questions')
    for k in MODELS:
        ctx.raises(lambda: MODELS[k](T=rng.choice([lo - 1.0, hi + 1.0]), x={
            n: 1.0 for n in x}), 'outside-' + k, k + ' outside the '
            'range of its components')
    ctx.eval((T, tuple(x.items())))
    ctx.sample({'T': T, 'x': x, 'values': got}, 3)


def _range(names):
    los = []
    his = []
    for n in names:
        lo, hi = LIMITS[n]
        los.append(lo)
        his.append(hi)
    return max(los), min(his)


def run(ctx):
    for k in MODELS:
        ctx.require('mixtures-' + k, 100)
    ctx.require('near-questions', 100)
    ctx.run('mixture', ctx.n(10000, 100000), case)
