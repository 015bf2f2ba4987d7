"""Particle size packages: mass is conserved through any history."""
from rt.history import run_history
from rt.packages import Psd

TARGETS = ['auxi/modelling/process/materials/psd.py']
RULE = ('Histories of 10-40 random operations over 4-7 live packages of four '
        'random materials; after every operation the target is compared with '
        'the model and every other package with its exact earlier state. '
        'Non-trivial: at least five operations; distinct by the whole '
        'history.')
ASSUMPTIONS = ['masses compared to 1e-10 of the largest mass in the history of a package']
KIND = Psd()


def case(ctx, rng, i):
    span = rng.choice([(1e-2, 1e5), (1.0, 1e3), (1e-6, 1e-2)])
    run_history(ctx, rng, KIND, rng.randint(10, 40), span)


def run(ctx):
    for k in ('states-compared', 'bystanders-compared', 'sums-cross',
              'sums-same', 'foreign-refused', 'op-extract_mass',
              'op-extract_tuple', 'op-extract_key', 'op-clear', 'op-clone',
              'op-mul'):
        ctx.require(k, 20)
    ctx.run('history', ctx.n(8000, 150000), case)
