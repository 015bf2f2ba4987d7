"""Formula generator and an independent recursive-descent reader."""
import re
from rt.atoms import MASS

SYMBOLS = sorted(MASS)
COMMON = ['H', 'O', 'C', 'N', 'S', 'Fe', 'Si', 'Al', 'Ca', 'Mg', 'Ti', 'Na',
          'K', 'Cl', 'Cr', 'Mn', 'P', 'F', 'Co', 'Ni', 'Cu', 'Zn', 'Cs', 'Sc']


def add(a, b, k=1):
    for s, n in b.items():
        a[s] = a.get(s, 0) + n * k
    return a


def gen_number(rng):
    r = rng.random()
    if r < 0.7:
        return rng.randint(1, 9)
    if r < 0.95:
        return rng.randint(10, 120)
    return 0 if r > 0.985 else rng.randint(121, 2000)


def gen_group(rng, depth, syms):
    s, c = '', {}
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        if depth > 0 and rng.random() < 0.3:
            t, d = gen_group(rng, depth - 1, syms)
            if rng.random() < 0.8:
                n = gen_number(rng)
                s += '(%s)%s' % (t, num(rng, n))
            else:
                n = 1
                s += '(%s)' % t
            add(c, d, n)
        else:
            e = rng.choice(syms)
            if rng.random() < 0.6:
                n = gen_number(rng)
                s += e + num(rng, n)
            else:
                n = 1
                s += e
            add(c, {e: n})
    return s, c


def num(rng, n):
    return ('0' if rng.random() < 0.02 else '') + str(n)


def gen_formula(rng, phase=True, syms=None, zero=True):
    """Return (text, composition dict)."""
    if syms is None:
        syms = COMMON if rng.random() < 0.5 else SYMBOLS
    while True:
        s, c = gen_group(rng, rng.choice([0, 0, 1, 2, 3]), syms)
        if rng.random() < 0.25:
            t, d = gen_group(rng, rng.choice([0, 0, 1]), syms)
            if rng.random() < 0.75:
                n = gen_number(rng)
                s += '.' + num(rng, n) + t
            else:
                n = 1
                s += '.' + t
            add(c, d, n)
        if len(s) <= 80 and (zero or all(v > 0 for v in c.values())):
            break
    if phase and rng.random() < 0.4:
        s += '[' + rng.choice(['S', 'L', 'G', 'S1', 'Salpha', 'aq', 'S2b',
                               'Fe2', '1', 'Lx9']) + ']'
    return s, c


class Bad(Exception):
    pass


class Reader:
    """Grammar of docs: group ['.' [n] group] ['[' phase ']'] to the end."""

    def __init__(self, text):
        self.t, self.i = text, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def number(self):
        m = re.compile(r'[0-9]+').match(self.t, self.i)
        if not m:
            return None
        self.i = m.end()
        return int(m.group())

    def group(self):
        c, n = {}, 0
        while True:
            ch = self.peek()
            if ch == '(':
                self.i += 1
                d = self.group()
                if self.peek() != ')':
                    raise Bad()
                self.i += 1
                k = self.number()
                add(c, d, 1 if k is None else k)
            elif 'A' <= ch <= 'Z':
                m = re.compile(r'[A-Z][a-z]*').match(self.t, self.i)
                self.i = m.end()
                if m.group() not in MASS:
                    raise Bad()
                k = self.number()
                add(c, {m.group(): 1}, 1 if k is None else k)
            else:
                break
            n += 1
        if n == 0:
            raise Bad()
        return c

    def compound(self):
        c = self.group()
        if self.peek() == '.':
            self.i += 1
            k = self.number()
            add(c, self.group(), 1 if k is None else k)
        if self.peek() == '[':
            m = re.compile(r'\[[A-Za-z0-9]+\]').match(self.t, self.i)
            if not m:
                raise Bad()
            self.i = m.end()
        if self.i != len(self.t):
            raise Bad()
        return c


def read(text):
    return Reader(text).compound()


def molar_mass(c):
    return sum(MASS[e] * n for e, n in c.items())
