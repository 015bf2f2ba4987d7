"""Friction factors and pressure drops in ducts."""
import math
from auxi.tools.transportphenomena.fluidflow import pressuredrop as pd
from rt.core import log_uniform, isclose
from rt.reports import captured

TARGETS = ['auxi/tools/transportphenomena/fluidflow/pressuredrop.py']
RULE = ('Random ducts and flows (Reynolds numbers 0.1 to 1e9, smooth to very '
        'rough); friction factors compared with the laminar law, the smooth '
        'and Haaland correlations and a bisection of the Colebrook equation, '
        'and with each other where they describe the same flow; pressure '
        'drops with the momentum balance. Distinct by (Re, roughness, D).')
ASSUMPTIONS = ['friction factors of rough ducts are judged for Re of 4000 to '
               '1e8 and relative roughness of 0 to 0.05']


def colebrook(Re, e):
    """Bisection in 1/sqrt(f)."""
    lo, hi = 0.1, 100.0
    for _ in range(100):
        x = (lo + hi) / 2
        if x + 2 * math.log10(e / 3.7 + 2.51 * x / Re) > 0:
            hi = x
        else:
            lo = x
    return 1 / lo ** 2


def case(ctx, rng, i):
    D = log_uniform(rng, 1e-3, 20)
    Re = rng.choice([4000.0, 1e8, log_uniform(rng, 4000, 1e8),
                     log_uniform(rng, 4000, 1e8), log_uniform(rng, 4000,
                                                              1e8)])
    e = rng.choice([0.0, 0.05, log_uniform(rng, 1e-7, 0.05),
                    log_uniform(rng, 1e-6, 0.05)])
    eps = e * D
    ctx.info({'Re': Re, 'relative roughness': e, 'D': D})
    # rough ducts
    got = {}

    def call():
        got['h'] = pd.f_tr_Haaland(Re, eps, D)
    said = captured(call)
    h = got['h']
    inside = 1e-12 < e < 0.05 - 1e-12 and 4000.0 < Re < 1e8
    ctx.check(not (inside and said), 'warning', 'a warning inside the range '
              'of the correlation: %r' % said[:100])
    ctx.check(captured(lambda: got.update(q=pd.f_tr_Haaland(
        Re, eps, D, warn=False))) == '', 'quiet', 'warned though asked not '
        'to')
    ctx.check(got['q'] == h, 'warn-result', 'the warning changes the result')
    want = (-1.8 * math.log10(6.9 / Re + (e / 3.7) ** 1.11)) ** -2
    ctx.check(isclose(h, want, 1e-9), 'haaland', lambda: 'Haaland friction '
              'factor %r, expected %r' % (h, want))
    ctx.ev('haaland')
    c = pd.f_tr_Colebrook(Re, eps, D)
    want = colebrook(Re, e)
    ctx.check(isclose(c, want, 1e-6), 'colebrook', lambda: 'Colebrook '
              'friction factor %r, expected %r' % (c, want))
    ctx.check(abs(h / c - 1) < 0.05, 'haaland-colebrook', lambda: 'Haaland %r '
              'and Colebrook %r' % (h, c))
    ctx.ev('colebrook')
    # only the relative roughness counts
    k = log_uniform(rng, 0.01, 100)
    ctx.check(isclose(pd.f_tr_Colebrook(Re, eps * k, D * k), c, 1e-7) and
              isclose(pd.f_tr_Haaland(Re, eps * k, D * k, False), h, 1e-7),
              'scale', 'a duct of another size with the same relative '
              'roughness has another friction factor')
    # rougher means more friction, faster means less
    e2 = min(0.05, e + log_uniform(rng, 1e-4, 1e-2))
    if e2 > e * 1.01:
        ctx.check(pd.f_tr_Colebrook(Re, e2 * D, D) > c and
                  pd.f_tr_Haaland(Re, e2 * D, D, False) > h, 'rougher',
                  'a rougher duct has less friction')
    ctx.check(pd.f_tr_Colebrook(Re * 1.5, eps, D) < c and
              pd.f_tr_Haaland(Re * 1.5, eps, D, False) < h, 'faster',
              'the friction factor grows with the Reynolds number')
    # smooth and laminar
    Rs = log_uniform(rng, 4000, 1e8)
    s = pd.f_ts(Rs)
    ctx.check(isclose(s, (1.82 * math.log10(Rs) - 1.64) ** -2, 1e-9),
              'smooth', 'smooth friction factor %r at %r' % (s, Rs))
    if Rs > 1e4:
        x = pd.f_tr_Colebrook(Rs, 0.0, D)
        ctx.check(abs(s / x - 1) < 0.03, 'smooth-colebrook', 'smooth duct: '
                  '%r, Colebrook without roughness: %r' % (s, x))
    ctx.ev('smooth')
    Rl = log_uniform(rng, 0.1, 2300)
    ctx.check(isclose(pd.f_l(Rl) * Rl, 64, 1e-9), 'laminar', 'laminar '
              'friction factor %r at %r' % (pd.f_l(Rl), Rl))
    ctx.ev('laminar')
    ctx.eval((Re, e, D))
    ctx.sample({'Re': Re, 'relative roughness': e, 'Haaland': h,
                'Colebrook': c}, 3)


def outside(ctx, rng, i):
    D = log_uniform(rng, 1e-3, 20)
    Re = log_uniform(rng, 4001, 0.99e8)
    e = rng.choice([0.0, log_uniform(rng, 1e-6, 0.0499)])
    what = rng.choice(['slow', 'fast', 'rough', 'inside', 'edge'])
    if what == 'edge':
        # the range includes its ends
        D = rng.choice([1.0, 1.0, 2.0, 0.5, 4.0])
        Re, e = rng.choice([(4000.0, e), (1e8, e), (Re, 0.05), (Re, 0.0),
                            (4000.0, 0.05), (1e8, 0.05), (4000.0, 0.0),
                            (4000, 0.0), (10 ** 8, 0.05)])
    if what == 'slow':
        Re = rng.choice([3999.99, 3990.0, log_uniform(rng, 10, 3999)])
    elif what == 'fast':
        Re = rng.choice([1.0001e8, log_uniform(rng, 1.01e8, 1e11)])
    elif what == 'rough':
        e = rng.choice([0.0500001, 0.051, rng.uniform(0.0501, 0.5)])
        if rng.random() < 0.3:
            Re = rng.choice([2e8, 3000.0])
    ctx.info({'Re': Re, 'relative roughness': e, 'D': D})
    got = []
    said = captured(lambda: got.append(pd.f_tr_Haaland(Re, e * D, D)))
    ctx.check(bool(said.strip()) == (what not in ('inside', 'edge')),
              'range-warning',
              'used %s of its range, Haaland\'s equation said %r' % (
                  'inside' if what == 'inside' else 'at an end' if
                  what == 'edge' else 'outside', said[:80]))
    again = captured(lambda: got.append(pd.f_tr_Haaland(Re, e * D, D, True)))
    ctx.check(again == said and got[1] == got[0], 'range-again', 'asked '
              'again, Haaland\'s equation said %r' % again[:80])
    want = (-1.8 * math.log10(6.9 / Re + (e / 3.7) ** 1.11)) ** -2
    ctx.check(isclose(got[0], want, 1e-9), 'haaland', lambda: 'Haaland '
              'friction factor %r, expected %r' % (got[0], want))
    ctx.ev('range-' + what)
    ctx.eval((Re, e))


def drop(ctx, rng, i):
    a, b = log_uniform(rng, 1e-3, 10), log_uniform(rng, 1e-3, 10)
    ctx.check(isclose(pd.D_h(math.pi * a * a / 4, math.pi * a), a, 1e-9),
              'hydraulic-diameter', 'a pipe of %r m' % a)
    ctx.check(isclose(pd.D_h(a * b, 2 * (a + b)), 2 * a * b / (a + b), 1e-9),
              'hydraulic-diameter', 'a duct of %r by %r m' % (a, b))
    f, L, rho, v = (log_uniform(rng, 1e-3, 1), log_uniform(rng, 0.1, 1e4),
                    log_uniform(rng, 0.01, 2e4), log_uniform(rng, 1e-3, 300))
    ctx.info({'f': f, 'L': L, 'D': a, 'rho': rho, 'v': v})
    p = pd.Δp(f, L, a, rho, v)
    # force balance: dp * area = wall stress * wall area
    tau = f / 4 * rho * v * v / 2
    want = tau * math.pi * a * L / (math.pi * a * a / 4)
    ctx.check(isclose(p, want, 1e-9), 'pressure-drop', lambda: 'pressure drop '
              '%r, expected %r' % (p, want))
    ctx.check(isclose(pd.Δp(f, L, a, rho, -v), p, 1e-12), 'pressure-drop',
              'a flow the other way loses %r, not %r' % (
                  pd.Δp(f, L, a, rho, -v), p))
    k = rng.uniform(0.1, 0.9)
    q = pd.Δp(f, L * k, a, rho, v) + pd.Δp(f, L * (1 - k), a, rho, v)
    ctx.check(isclose(p, q, 1e-9), 'in-series', lambda: 'two parts of a duct '
              'together lose %r, the whole loses %r' % (q, p))
    # Hagen-Poiseuille
    mu = log_uniform(rng, 1e-3, 10)
    v = log_uniform(rng, 0.1, 2000) * mu / (rho * a)
    p = pd.Δp(pd.f_l(rho * v * a / mu), L, a, rho, v)
    want = 32 * mu * L * v / a ** 2
    ctx.check(isclose(p, want, 1e-9), 'laminar-drop', lambda: 'laminar '
              'pressure drop %r, expected %r' % (p, want))
    ctx.ev('pressure-drops')
    ctx.eval((f, L, a, rho, v))


def run(ctx):
    for k in ('haaland', 'colebrook', 'smooth', 'laminar', 'pressure-drops',
              'range-slow', 'range-fast', 'range-rough', 'range-inside', 'range-edge'):
        ctx.require(k, 100)
    ctx.run('friction', ctx.n(32000, 200000), case)
    ctx.run('outside', ctx.n(8000, 40000), outside)
    ctx.run('drop', ctx.n(32000, 200000), drop)
