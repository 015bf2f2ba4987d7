"""The surroundings and the past do not change answers."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import warnings
from datetime import datetime, timedelta

from rt import envwork
from rt.core import isclose

warnings.simplefilter('ignore')
TARGETS = ['auxi/tools/chemistry/thermochemistry.py',
           'auxi/tools/chemistry/stoichiometry.py',
           'auxi/tools/materialphysicalproperties/core.py',
           'auxi/tools/materialphysicalproperties/gases.py',
           'auxi/modelling/business/models.py', 'auxi/core/bibliography.py',
           'auxi/core/objects.py', 'auxi/core/reporting.py']
RULE = ('Random work that uses every part of auxi is done twice in a process '
        'with a past and once in a new process with another working '
        'directory, locale, time zone, hash seed, level of optimisation and '
        'order of imports; all answers, texts and refusals must agree, and '
        'the host program must be as it was. Distinct by (work, '
        'surroundings).')
ASSUMPTIONS = ['numbers may differ in the last digits, where the order of a '
               'sum depends on the order of a set',
               'a new process may be given any locale for text but is not '
               'asked to write a character that its locale has not']
NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if not isinstance(a, str) or a == b:
        return a == b
    x, y = NUM.findall(a), NUM.findall(b)
    if len(x) != len(y):
        return False
    if NUM.sub('#', re.sub(r' +|-{3,}', ' ', a)) != \
            NUM.sub('#', re.sub(r' +|-{3,}', ' ', b)):
        return False
    for p, q in zip(x, y):
        if p == q:
            continue
        digits = len(p.split('e')[0].split('E')[0].replace('.', '').lstrip(
            '-+0'))
        if not isclose(float(p), float(q), max(1e-11, 2 * 10.0 ** -digits),
                       1e-13):
            return False
    return True


def compare(ctx, sig, what, a, b):
    ctx.check([x[0] for x in a] == [x[0] for x in b], sig, lambda: '%s: the '
              'work took another course: %r' % (what, [
                  (x[0], y[0]) for x, y in zip(a, b) if x[0] != y[0]][:3]))
    for (l, v), (_, w) in zip(a, b):
        ctx.check(same(v, w), sig, lambda: '%s: %s was %s, now %s' % (
            what, l, clip(v, w), clip(w, v)))
        ctx.ev('answers')


def clip(v, w):
    v, w = repr(v), repr(w)
    i = next((i for i, (x, y) in enumerate(zip(v, w)) if x != y), 0)
    return ('...' if i > 60 else '') + v[max(0, i - 60):i + 100]


def surroundings(rng, folder):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(rng.randrange(2 ** 32))
    env['TZ'] = rng.choice(['UTC', 'Africa/Johannesburg', 'XXX+11:30',
                            'EST5EDT', 'Asia/Kathmandu'])
    r = rng.random()
    if r < 0.4:
        env.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
    elif r < 0.6:
        env.update(LC_ALL='POSIX', PYTHONUTF8='1')
    elif r < 0.8:
        env.pop('LC_ALL')
        env.update(LANG='C.UTF-8')
    name = rng.choice(['plain', 'with space', 'percent%s{0}', 'Münze',
                       'data', 'auxi'])
    cwd = os.path.join(folder, name)
    os.mkdir(cwd)
    if rng.random() < 0.3:
        os.mkdir(os.path.join(cwd, 'data'))
        with open(os.path.join(cwd, 'data', 'references.json'), 'w') as f:
            f.write('{}')
    flag = rng.choice([[], [], [], ['-O'], ['-OO'], ['-B']])
    if flag and flag[0].startswith('-O'):
        env['PYTHONPYCACHEPREFIX'] = os.path.join(os.getcwd(), '..',
                                                  'pyc-O%d' % os.getpid())
        env.pop('PYTHONDONTWRITEBYTECODE', None)
    return env, cwd, flag


def case(ctx, rng, i):
    seed = '%d' % rng.randrange(10 ** 9)
    order = rng.randrange(10 ** 9)
    folder = os.path.join(os.getcwd(), 'o3')
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    env, cwd, flag = surroundings(rng, folder)
    ctx.info({'seed': seed, 'imports': order, 'flags': flag, 'directory': cwd,
              'environment': {k: env.get(k) for k in (
                  'LC_ALL', 'LANG', 'PYTHONUTF8', 'TZ', 'PYTHONHASHSEED')}})
    here = os.getcwd()
    inner = os.path.join(folder, 'inner')
    os.mkdir(inner)
    out = os.path.join(folder, 'out.json')
    p = subprocess.Popen([sys.executable] + flag + [
        '-m', 'rt.envwork', seed, str(order), out], cwd=cwd, env=env,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        stdin=subprocess.DEVNULL)
    try:
        os.chdir(inner)
        try:
            before = envwork.host()
            first = envwork.work(seed)
            after = envwork.host()
            second = envwork.work(seed)
        finally:
            os.chdir(here)
        so, se = p.communicate(timeout=600)
    finally:
        if p.poll() is None:
            p.kill()
            p.wait()
    ctx.check(p.returncode == 0 and os.path.exists(out), 'process', lambda:
              'a new process ended with %r: %s' % (
                  p.returncode, se.decode(errors='replace')[-600:]))
    with open(out) as f:
        res = json.load(f)
    ctx.check('error' not in res, 'process', lambda: 'in a new process: %s' %
              res['error'][-700:])
    compare(ctx, 'past', 'asked again in one process', first, second)
    compare(ctx, 'surroundings', 'in a new process', list(map(list, first)),
            res['work'])
    ctx.check(before == after, 'host', lambda: 'the work changed the host: '
              '%r' % {k: (before[k], after[k]) for k in before
                      if before[k] != after[k]})
    ctx.check(not res['host after import'] and not res['host'], 'host',
              lambda: 'importing or using auxi changed the host: %r, %r' % (
                  res['host after import'], res['host']))
    ctx.check(so == b'', 'output', lambda: 'something was printed: %r' %
              so[:200])
    ctx.ev('processes')
    if env.get('PYTHONUTF8') == '0':
        ctx.ev('processes-ascii')
    if flag:
        ctx.ev('processes-flags')
    shutil.rmtree(folder)
    ctx.eval((seed, order, flag, env['PYTHONHASHSEED']))
    ctx.sample({'seed': seed, 'flags': flag, 'answers': len(first)})


def defaults(ctx, rng, i):
    """What is left out is filled in when the call is made."""
    from auxi.modelling.business.models import TimeBasedModel
    lo = datetime.now()
    m = TimeBasedModel('M')
    hi = datetime.now()
    got = m.clock.start_datetime
    ctx.info({'start': str(got), 'created': str(lo)})
    ctx.check(isinstance(got, datetime) and
              lo - timedelta(seconds=1) * 0 <= got <= hi, 'default-start',
              lambda: 'a model created at %s starts at %s' % (lo, got))
    ctx.ev('defaults')


def run(ctx):
    ctx.require('processes', 20)
    ctx.require('processes-ascii', 3)
    ctx.require('processes-flags', 3)
    ctx.require('answers', 2000)
    ctx.require('defaults', 8)
    ctx.run('defaults', ctx.n(64, 64), defaults)
    ctx.run('work', ctx.n(48, 1200), case)
