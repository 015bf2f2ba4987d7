"""Several threads of which one runs at a time, in an order chosen here.

Modules of auxi, and of the libraries it hands its questions to, are imported
with a call of point() before each of their statements, before each return and
within each augmented assignment.  Each is a place at which another thread may
be given the turn, so that threads interleave as they never would by
themselves, and a seed chooses the schedule.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.machinery
import sys
import threading
import time

CURRENT = None


LIBRARIES = ('cerberus', 'parsimonious', 'tabulate', 'jsonpickle',
             'bibtexparser')


def point(line):
    s = CURRENT
    if s is not None:
        s.point(line)


def library_point(line):
    s = CURRENT
    if s is not None and s.libraries:
        s.point(line)


class Points(ast.NodeTransformer):
    """Adds the calls; what the code does stays the same."""

    def __init__(self, name):
        self.point = name
        self.n = 0
        self.depth = 0

    def call(self, at):
        return ast.copy_location(ast.Expr(ast.Call(
            ast.Name(self.point, ast.Load()),
            [ast.Constant(at.lineno)], [])), at)

    def name(self):
        self.n += 1
        return '__rt_v%d' % self.n

    def block(self, body):
        out = []
        for s in body:
            doc = (not out and isinstance(s, ast.Expr)
                   and isinstance(s.value, ast.Constant))
            s = self.visit(s)
            if self.depth and not doc and not isinstance(
                    s, (ast.Global, ast.Nonlocal)):
                out.append(self.call(s if not isinstance(s, list) else s[0]))
            out += s if isinstance(s, list) else [s]
        return out

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                setattr(node, f, self.block(v))
            elif f in ('handlers', 'cases') and v:
                for x in v:
                    self.generic_visit(x)
            elif isinstance(v, ast.AST) and not isinstance(node, ast.Lambda):
                pass
        return node

    def visit_FunctionDef(self, node):
        d, self.depth = self.depth, 1
        self.generic_visit(node)
        self.depth = d
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        return node

    def visit_Return(self, node):
        if node.value is None or not self.depth:
            return node
        v = self.name()
        return [ast.copy_location(x, node) for x in (
            ast.Assign([ast.Name(v, ast.Store())], node.value),
            self.call(node), ast.Return(ast.Name(v, ast.Load())))]

    def visit_AugAssign(self, node):
        """Load, change and store apart."""
        t = node.target
        if not self.depth or isinstance(t, ast.Name):
            return node
        b, v = self.name(), self.name()
        base = ast.Name(b, ast.Load())
        out = [ast.Assign([ast.Name(b, ast.Store())], t.value)]
        if isinstance(t, ast.Attribute):
            def at(ctx):
                return ast.Attribute(base, t.attr, ctx)
        else:
            k = self.name()
            out.append(ast.Assign([ast.Name(k, ast.Store())], t.slice))

            def at(ctx):
                return ast.Subscript(base, ast.Name(k, ast.Load()), ctx)
        if isinstance(t, ast.Subscript) and any(
                isinstance(x, ast.Slice) for x in ast.walk(t.slice)):
            return node
        out += [ast.Assign([ast.Name(v, ast.Store())], at(ast.Load())),
                self.call(node),
                ast.AugAssign(ast.Name(v, ast.Store()), node.op, node.value),
                self.call(node),
                ast.Assign([at(ast.Store())], ast.Name(v, ast.Load()))]
        return [ast.copy_location(x, node) for x in out]


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimization=-1):
        tree = ast.parse(data, path)
        tree.body = Points('__rt_point__' if self.name.startswith('auxi.')
                           else '__rt_library_point__').block(tree.body)
        return compile(ast.fix_missing_locations(tree), path, 'exec',
                       dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in ('auxi',) + LIBRARIES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec and isinstance(spec.loader,
                               importlib.machinery.SourceFileLoader):
            spec.loader = Loader(name, spec.origin)
        return spec


def install():
    builtins.__rt_point__ = point
    builtins.__rt_library_point__ = library_point
    sys.meta_path.insert(0, Finder())


class Schedule:
    PATIENCE = 0.25     # [s] before a thread that is stuck loses its turn

    def __init__(self, rng, p, libraries=False, limit=60000):
        self.rng, self.p, self.limit = rng, p, limit
        self.libraries = libraries
        self.cv = threading.Condition()
        self.alive = []
        self.turn = None
        self.who = threading.local()
        self.points = self.switches = self.steals = 0
        self.sign = hashlib.md5()
        self.lines = set()

    def wait_for_turn(self, me):
        """With self.cv held."""
        last, t0 = self.points, time.monotonic()
        while self.turn != me:
            self.cv.wait(self.PATIENCE)
            if self.points != last:
                last, t0 = self.points, time.monotonic()
            elif (self.turn != me and
                  time.monotonic() - t0 > self.PATIENCE):
                self.steals += 1
                self.turn = me      # the other waits for something we have
        self.points += 1

    def point(self, line):
        me = getattr(self.who, 'k', None)
        if me is None:
            return
        self.points += 1
        if self.points > self.limit:
            return
        if self.turn == me and self.rng.random() >= self.p:
            return
        with self.cv:
            if self.turn == me:
                others = [a for a in self.alive if a != me]
                if not others:
                    return
                self.turn = self.rng.choice(others)
                self.switches += 1
                self.sign.update(b'%d %d,' % (self.turn, line))
                self.lines.add((me, line))
                self.cv.notify_all()
            self.wait_for_turn(me)

    def run(self, tasks):
        """Do the tasks at the same time; what each returned or raised."""
        global CURRENT
        out = [None] * len(tasks)
        self.alive = list(range(len(tasks)))
        self.turn = self.rng.choice(self.alive)

        def body(k):
            self.who.k = k
            try:
                with self.cv:
                    self.wait_for_turn(k)
                out[k] = tasks[k]()
            except BaseException as e:
                out[k] = e
            with self.cv:
                self.alive.remove(k)
                if self.turn == k and self.alive:
                    self.turn = self.rng.choice(self.alive)
                self.points += 1
                self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(k,), daemon=True)
              for k in range(len(tasks))]
        CURRENT = self
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
                if t.is_alive():
                    raise RuntimeError('threads did not finish')
        finally:
            CURRENT = None
        return out


class Fault:
    """Raises what it is given at the n-th point; counts points without."""

    libraries = False

    def __init__(self, n=None, what=None):
        self.n, self.what = n, what
        self.points = 0
        self.line = None

    def point(self, line):
        self.points += 1
        if self.points == self.n:
            self.line = line
            raise self.what

    def run(self, fn):
        global CURRENT
        CURRENT = self
        try:
            return fn()
        finally:
            CURRENT = None


class Count:
    """Notes the lines of the points passed, disturbing nothing."""

    libraries = False

    def __init__(self):
        self.lines = []

    def point(self, line):
        if len(self.lines) < 200000:
            self.lines.append(line)

    run = Fault.run
