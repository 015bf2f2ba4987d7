"""Runtime-monitoring framework shared by every check.

A *check* drives the real code of /repo through seeded workloads (cases) while
oracles observe what it does.  Each observation is counted (`ctx.ev`), every
disagreement is reported through `ctx.violation` with a mechanism signature.
Nothing here looks at the text of the code under test.
"""
import collections
import copy
import hashlib
import json
import math
import os
import random
import re
import signal
import sys
import time
import traceback

REPO = os.environ.get('VP_REPO', '/repo')


class Stop(Exception):
    """Raised inside a case after a violation has been recorded."""


class Inconclusive(Exception):
    pass


class Hung(BaseException):
    """A case used far more processor time than any case needs."""


CASE_CPU = 90.0     # seconds of processor time; cases take milliseconds


def _hung(signum, frame):
    raise Hung()


class Context:
    def __init__(self, prop, tier, seed, shard, nshards, replay=None,
                 deadline=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.replay = replay
        self.deadline = deadline
        self.events = collections.Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = {}      # signature -> dict
        self.required = {}
        self.case_id = None
        self.case_info = None
        self.timed_out = False
        self.notes = []

    # -- workload -----------------------------------------------------------
    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        """Number of cases for this tier."""
        if self.tier == 'thorough':
            return thorough if thorough is not None else quick * 20
        return quick

    def cases(self, stream, count):
        """Yield (index, rng) of the cases of a stream assigned to this shard.

        Every case has its own PRNG so that it can be replayed alone.
        """
        if self.replay is not None:
            if self.replay['stream'] != stream:
                return
            idx = [self.replay['index']]
        else:
            idx = range(self.shard, count, self.nshards)
        for i in idx:
            if self.deadline is not None and time.time() > self.deadline:
                self.timed_out = True
                return
            rng = random.Random('%s|%s|%s|%d' % (self.prop, stream,
                                                 self.seed, i))
            self.case_id = (stream, i)
            self.case_info = None
            yield i, rng

    def run(self, stream, count, fn):
        """Run fn(ctx, rng, i) over a stream, guarding each case."""
        for i, rng in self.cases(stream, count):
            self.guard(fn, rng, i)

    def each(self, stream, items, fn):
        """Run fn(ctx, rng, item) over a fixed list of items."""
        items = list(items)
        for i, rng in self.cases(stream, len(items)):
            self.guard(fn, rng, items[i])

    def guard(self, fn, rng, arg):
        signal.signal(signal.SIGPROF, _hung)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        try:
            fn(self, rng, arg)
        except Stop:
            pass
        except Hung:
            stream = self.case_id[0] if self.case_id else '-'
            self.record('hang:' + stream, 'an operation that must finish was '
                        'still running after %d s of processor time' %
                        CASE_CPU)
        except Inconclusive:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            root = os.path.realpath(REPO) + os.sep
            where = [f for f in tb
                     if os.path.realpath(f.filename).startswith(root)]
            stream = self.case_id[0] if self.case_id else '-'
            if where:
                what = 'an operation that must succeed raised'
                at = '%s line %d' % (
                    os.path.relpath(where[-1].filename, REPO),
                    where[-1].lineno)
            else:
                what = 'the oracle could not use what was returned:'
                at = 'oracle %s line %d' % (
                    os.path.basename(tb[-1].filename), tb[-1].lineno)
            self.record('unexpected-exception:%s:%s' % (
                stream, type(e).__name__), '%s %s: %s  (%s)' % (
                    what, type(e).__name__, str(e)[:300], at))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    # -- observations -------------------------------------------------------
    def ev(self, kind, n=1):
        self.events[kind] += n

    def eval(self, key=None, nontrivial=True):
        """Count one evaluated case; `key` decides distinctness."""
        self.evaluations += 1
        if nontrivial and key is not None:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            self.distinct.add(h)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def info(self, obj):
        """Describe the current case (goes to the replay file)."""
        self.case_info = obj

    def require(self, kind, minimum=1):
        """The check is inconclusive unless `kind` was observed this often."""
        self.required[kind] = minimum

    # -- verdicts -----------------------------------------------------------
    def record(self, signature, message, data=None):
        v = self.violations.get(signature)
        if v is None:
            self.violations[signature] = {
                'signature': signature, 'message': message, 'count': 1,
                'stream': self.case_id[0] if self.case_id else None,
                'index': self.case_id[1] if self.case_id else None,
                'case': jsonable(self.case_info), 'data': jsonable(data)}
        else:
            v['count'] += 1

    def violation(self, signature, message, data=None):
        self.record(signature, message, data)
        raise Stop()

    def check(self, cond, signature, message, data=None):
        self.ev('assertions')
        if not cond:
            if callable(message):
                message = message()
            self.violation(signature, message, data)

    def soft(self, cond, signature, message, data=None):
        """As check, but the case goes on."""
        self.ev('assertions')
        if not cond:
            if callable(message):
                message = message()
            self.record(signature, message, data)
        return cond

    def close(self, a, b, signature, what, rel=1e-9, abs_=1e-12, data=None):
        self.ev('assertions')
        ok = isclose(a, b, rel, abs_)
        if not ok:
            self.violation(signature, '%s: got %r, expected %r' % (what, a, b),
                           data)

    def raises(self, fn, signature, what, exc=Exception):
        """fn() must raise; returns the exception."""
        self.ev('assertions')
        self.ev('rejections')
        try:
            r = fn()
        except exc as e:
            return e
        self.violation(signature, '%s: expected an error, got result %r' % (
            what, short(r)))


def short(x, n=200):
    try:
        s = repr(x)
    except Exception as e:
        s = '<unprintable %s>' % type(e).__name__
    return s if len(s) <= n else s[:n] + '...'


def isclose(a, b, rel=1e-9, abs_=1e-12):
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def jsonable(o, depth=0):
    if depth > 8:
        return short(o)
    if o is None or isinstance(o, (bool, int, str)):
        return o
    if isinstance(o, float):
        return o if math.isfinite(o) else repr(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in o]
    try:
        import numpy
        if isinstance(o, numpy.generic):
            return jsonable(o.item(), depth + 1)
        if isinstance(o, numpy.ndarray):
            return jsonable(o.tolist(), depth + 1)
    except ImportError:
        pass
    return short(o)


def log_uniform(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))
