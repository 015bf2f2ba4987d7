"""What fails or is interrupted leaves no trace."""
import builtins
import csv
import decimal
import errno
import gc
import locale
import os
import random
import shutil
import sys
import warnings

import matplotlib
import numpy

from rt.props import O04
from auxi.tools import physicalconstants as const
from rt import threads

TARGETS = O04.TARGETS
RULE = ('Random work of every kind, in which each question, each sum, copy '
        'and new package, each file written and read and each run of a model '
        'is first interrupted: by an exception at a statement of auxi chosen '
        'at random, or by a file that cannot be opened or fails after some '
        'bytes. What is interrupted is then done again, and the answers of '
        'the work must be those it has without interruptions; the host '
        'process is compared before and after. Distinct by (work, places of '
        'interruption).')
ASSUMPTIONS = ['operations that change their object (extract, add_to, clear, '
               'setting T, ticks, postings) are not interrupted: what they '
               'leave behind then is not promised']
OPEN = builtins.open


class Sick:
    """A file that fails after some reads or writes."""

    def __init__(self, f, n):
        self.f, self.n = f, n

    def spend(self, what):
        self.n -= 1
        if self.n < 0:
            raise OSError(errno.ENOSPC if what == 'write' else errno.EIO,
                          'the disk is broken')

    def write(self, s):
        if self.n == 0:
            self.f.write(s[:len(s) // 2])
        self.spend('write')
        return self.f.write(s)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self, *a):
        self.spend('read')
        return self.f.read(*a)

    def readline(self, *a):
        self.spend('read')
        return self.f.readline(*a)

    def readlines(self, *a):
        self.spend('read')
        return self.f.readlines(*a)

    def __iter__(self):
        return self

    def __next__(self):
        self.spend('read')
        return next(self.f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, k):
        return getattr(self.f, k)


class Faulty(O04.Answers):
    def __init__(self, rng, ctx):
        super().__init__()
        self.rng, self.ctx = rng, ctx
        self.places = []

    def fault(self):
        return self.rng.choice([KeyboardInterrupt, MemoryError, OSError,
                                ZeroDivisionError])('injected')

    def somewhere(self, fn):
        """A point that fn passes: those of rare lines as often as others."""
        def passed():
            c = threads.Count()
            try:
                c.run(fn)
            except Exception:
                pass
            return c.lines
        lines = O04.apart(passed)
        if not lines:
            return 1
        self.ctx.ev('places-chosen')
        line = self.rng.choice(sorted(set(lines)))
        return self.rng.choice([k for k, x in enumerate(lines, 1)
                                if x == line])

    def attempt(self, fn):
        """(fn answered, its answer)."""
        rng, ctx = self.rng, self.ctx
        e = self.fault()
        if rng.random() < 0.3:
            n = self.somewhere(fn)
        else:
            n = int(10 ** rng.uniform(0, rng.choice([1.0, 2.5, 4.5])))
        f = threads.Fault(n, e)
        before = host()
        disk = rng.random() < 0.25
        opened = []

        def sick(path, mode='r', *a, **k):
            if rng.random() < 0.3:
                opened.append(path)
                raise OSError(errno.EACCES, 'no entry', path)
            got = OPEN(path, mode, *a, **k)
            if 'b' in mode:
                return got
            opened.append(path)
            return Sick(got, rng.choice([0, 0, 1, 2, 5, 20]))
        try:
            if disk:
                builtins.open = sick
                try:
                    v = fn()
                finally:
                    builtins.open = OPEN
            else:
                v = f.run(fn)
        except BaseException as x:
            if x is e:
                ctx.ev('interrupted')
                ctx.ev('interrupted-' + type(e).__name__)
                self.places.append(f.line)
            elif opened:
                ctx.ev('files-failed')
                self.places.append(-len(opened))
            elif f.line is not None:
                ctx.ev('interrupted-and-translated')
            elif not isinstance(x, Exception):
                raise
            got = False, None
        else:
            if f.line is not None or opened:
                ctx.ev('interrupted-and-answered')
            got = True, v
        now = host()
        ctx.check(now == before, 'host', lambda: 'after %s at line %s the '
                  'process has %r and had %r' % (type(e).__name__, f.line, [
                      a for a, b in zip(now, before) if a != b], [
                          b for a, b in zip(now, before) if a != b]))
        return got

    def do(self, label, fn, *a, **k):
        done, v = self.attempt(lambda: fn(*a, **k))
        n = len(self)
        w = super().do(label, fn, *a, **k)
        if done:
            self.ctx.check(O04.plain(v) == self[n][1], 'answer', lambda:
                           '%s: %r, asked again %r' % (
                               label, O04.plain(v), self[n][1]))
        return w

    def pure(self, fn):
        self.attempt(fn)
        return fn()


def host():
    return [os.getcwd(), locale.setlocale(locale.LC_ALL), numpy.geterr(),
            sys.stdout is sys.__stdout__ or id(sys.stdout),
            warnings.showwarning is SHOW, list(map(repr, warnings.filters)),
            sorted((k, v) for k, v in vars(const).items()
                   if isinstance(v, float)),
            numpy.get_printoptions(), sys.getrecursionlimit(),
            sys.getswitchinterval(), gc.isenabled(), csv.field_size_limit(),
            csv.list_dialects(), decimal.getcontext().prec,
            dict(os.environ), list(sys.path),
            repr([dict.get(matplotlib.rcParams, k) for k in RC])]


SHOW = warnings.showwarning
RC = sorted(k for k in matplotlib.rcParams if k.split('.')[0] in (
    'lines', 'font', 'axes', 'figure', 'legend', 'text', 'savefig', 'pdf'))


def case(ctx, rng, i):
    shared = O04.shared_things(rng)
    parts = [rng.choice(O04.PARTS) for _ in range(rng.choice([1, 1, 2]))]
    folder = os.path.abspath('t')
    shutil.rmtree(folder, ignore_errors=True)
    os.mkdir(folder)
    names = [p.__name__ for p in parts]
    ctx.info({'work': names})
    seed = str(rng.randrange(10 ** 9))

    def work(log):
        r = random.Random(seed)
        for p in parts:
            p(log, r, shared, folder)
        return list(log)
    when = rng.choice(['apart', 'apart', 'before', 'after'])
    if when == 'apart':
        plain = O04.apart(lambda: work(O04.Answers()))
    if when == 'before':
        plain = work(O04.Answers())
    log = Faulty(random.Random(rng.random()), ctx)
    gc.collect()
    files = len(os.listdir('/proc/self/fd'))
    got = work(log)
    if i % 10 == 0:
        gc.collect()
        now = len(os.listdir('/proc/self/fd'))
        ctx.check(now == files, 'files-left-open', lambda: '%d files are '
                  'open that were not before' % (now - files))
        ctx.ev('open-files-counted')
    if when == 'after':
        plain = work(O04.Answers())
    ctx.ev('without-' + when)
    ctx.check([x[0] for x in got] == [x[0] for x in plain], 'course',
              lambda: 'after interruptions %r took another course' % names)
    for (l, v), (_, w) in zip(got, plain):
        ctx.check(v == w, 'trace', lambda: '%r: after interruptions %s is '
                  '%s, without %s' % (names, l, repr(v)[:200], repr(w)[:200]))
        ctx.ev('answers')
    for q in names:
        ctx.ev('work-' + q)
    ctx.eval((tuple(names), tuple(log.places)), len(log.places) > 1)
    ctx.sample({'work': names, 'interrupted at lines': log.places[:8]}, 3)


def run(ctx):
    for k in O04.PARTS:
        ctx.require('work-' + k.__name__, 20)
    ctx.require('interrupted', 1000)
    ctx.require('files-failed', 50)
    ctx.require('answers', 1000)
    ctx.run('case', ctx.n(3000, 24000), case)
