"""Executable model of material packages and streams, and the history driver.

The model of a package is {key: mass} (plus water, density, P, T, H where the
kind of package has them).  After every operation *every* live package is
observed through its public interface and compared: the target against its
model, every other one against the exact values observed before.
"""
import math
import os

import numpy

from rt.core import log_uniform, isclose
from rt.formula import gen_formula

TINY = 1e-300


def write_table(path, head, names, rows, rng, tail=()):
    """A material definition file with varying white space."""
    def sep():
        return rng.choice([' ', '  ', '\t', '     ', ' \t '])

    def line(cells):
        s = cells[0] + ''.join(sep() + c for c in cells[1:])
        if rng.random() < 0.2:
            s = rng.choice([' ', '\t']) + s
        if rng.random() < 0.2:
            s += rng.choice([' ', '\t', '   '])
        return s + '\n'
    with open(path, 'w') as f:
        f.write(line([head] + names))
        for r in rows:
            f.write(line(r))
            if rng.random() < 0.05 and r[0] not in ('solid_density',):
                f.write(rng.choice(['\n', '   \n']))
        for r in tail:
            f.write(line(r) if not isinstance(r, str) else r)


def fraction_text(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice(['0.0', '0', '0.00000', '0.0E0'])
    if r < 0.75:
        return '%.5f' % rng.random()
    if r < 0.9:
        return '%.6e' % (rng.random() * 10 ** rng.uniform(-6, 0))
    return repr(rng.random())


class Kind:
    """How one kind of package is created and observed."""
    name = None
    has_add_to = False
    head = 'Compound'
    energy = False

    # subclasses: module-level classes
    Material = None
    Package = None

    def keys(self, rng, n):
        raise NotImplementedError

    def many(self, rng, n):
        """More keys than anyone would write down by hand."""
        return self.keys(rng, min(n, len(self.pool)))

    def key_text(self, key):
        return key

    def array(self, values):
        return numpy.array(values, dtype=float)

    def define(self, rng, keys, path, n_assays=None):
        """Write a definition file; return (names, {name: {key: frac}}, extra)
        """
        n = rng.randint(1, 4) if n_assays is None else n_assays
        names = ['Assay%s' % chr(65 + k) for k in range(n)]
        if rng.random() < 0.3:
            rng.shuffle(names)
        text = {a: [fraction_text(rng) for _ in keys] for a in names}
        for a in names:
            if sum(float(t) for t in text[a]) == 0:
                text[a][rng.randrange(len(keys))] = '0.25'
        for a in names:
            if rng.random() < 0.3:
                self.nearly(rng, text[a])
        # slurries may be described that are nothing but water
        self.blank = [a for a in names if self.name == 'slurry'
                      and rng.random() < 0.05]
        for a in self.blank:
            text[a] = [rng.choice(['0.0', '0', '0.0E0']) for _ in keys]
        rows = []
        extra = {}
        self.head_rows(rng, names, rows, extra)
        for i, k in enumerate(keys):
            rows.append([self.key_text(k)] + [text[a][i] for a in names])
        tail = self.tail_rows(rng, names, extra)
        write_table(path, self.head, names, rows, rng, tail)
        assays = {a: {k: float(text[a][i]) for i, k in enumerate(keys)}
                  for a in names}
        return names, assays, extra

    @staticmethod
    def nearly(rng, text):
        """Assays are usually meant to add up to one, or to a hundred: make
        the total exactly that, or off by any small amount."""
        target = rng.choice([1.0, 1.0, 1.0, 100.0])
        total = sum(float(t) for t in text)
        for i, t in enumerate(text):
            text[i] = '%.6f' % (float(t) / total * target)
        i = max(range(len(text)), key=lambda j: float(text[j]))
        rest = sum(float(t) for j, t in enumerate(text) if j != i)
        off = rng.choice([0.0, 1.0, -1.0]) * 10 ** rng.uniform(-8, -1)
        text[i] = repr(round(target * (1.0 + off) - rest, 12))

    def head_rows(self, rng, names, rows, extra):
        pass

    def tail_rows(self, rng, names, extra):
        return rng.choice([[], [], ['\n'], ['   \n', '\n']])

    # -- observation
    def masses(self, p, keys):
        raise NotImplementedError

    def total(self, p):
        return p.get_mass()

    def state(self, p, keys):
        """Everything observable, for exact comparison."""
        return (tuple(float(x) for x in self.masses(p, keys)),
                float(self.total(p)))

    def create(self, m, assay, mass, **kw):
        return m.create_package(assay, mass, **kw)

    def create_none(self, m, assay, **kw):
        return m.create_package(assay, **kw)

    def whole(self, values):
        """Masses in whole numbers, as they may be typed in."""
        return numpy.array([int(v) for v in values])

    def make(self, m, values, whole=False, **kw):
        return self.Package(m, (self.whole if whole else self.array)(values))

    def make_of(self, m, masses):
        """A package of masses given as they are."""
        return self.Package(m, masses)


class Chem(Kind):
    name = 'chem'
    has_add_to = True
    SOME = ['Al2O3', 'CaO', 'Cr2O3', 'Fe2O3', 'Fe3O4', 'FeO', 'K2O', 'MgO',
            'MnO', 'Na2O', 'P4O10', 'SiO2', 'TiO2', 'V2O5', 'Fe2O3[S1]',
            'CaSO4.2H2O', 'Ca3(PO4)2', 'C', 'H2O', 'Fe', 'FeTiO3', 'ZrSiO4',
            'Mg(OH)2', 'NaCl[S]', 'KAl(SO4)2.12H2O', 'CO2', 'N2', 'S',
            'Cu5FeS4', 'PbS', 'UO2', 'La2O3']
    # formulas as mineralogists write them: elements and groups side by side
    MINERALS = ['Ca(OH)2', 'Fe(OH)2', 'Fe(OH)3', 'Al(OH)3', 'Al2Si2O5(OH)4',
                'Mg3Si4O10(OH)2', 'KAl2(AlSi3O10)(OH)2', 'Ca5(PO4)3F',
                'Ca5(PO4)3(OH)', 'FeSO4.7H2O', 'CaCO3.MgCO3', 'CuFeS2',
                'Fe2(SO4)3', 'K2SO4.Al2(SO4)3', 'Cu2CO3(OH)2', 'CaF2',
                '(NH4)2SO4', '(NH4)2Fe(SO4)2.6H2O', 'Pb5(PO4)3Cl',
                'KFe3(SO4)2(OH)6', 'UO2(NO3)2.6H2O', 'Al2O3.2SiO2', 'Mo',
                'No', 'Co', 'CO', 'Hf', 'HF', 'Sn', 'SN', 'Cs', 'CS2', 'In',
                'Si', 'SiC', 'Os', 'OS2', 'Po', 'PO2', 'Nb', 'NiO', 'Sc',
                'Fe(CO)5', 'Ni(CO)4', 'Cr(CO)6', 'Zn5(CO3)2(OH)6']

    def __init__(self):
        from auxi.modelling.process.materials import chem
        self.Material, self.Package = chem.Material, chem.MaterialPackage

    def array(self, values):
        return [float(v) for v in values]

    def whole(self, values):
        return [int(v) for v in values]

    def keys(self, rng, n):
        return rng.sample(self.SOME, n)

    def many(self, rng, n):
        out = dict.fromkeys(rng.sample(self.SOME, len(self.SOME)))
        while len(out) < n:
            f = gen_formula(rng, zero=False)[0]
            if not any(x.isspace() for x in f):
                out[f] = None
        return rng.sample(list(out), n)

    def masses(self, p, keys):
        return [p.get_compound_mass(k) for k in keys]

    def by_str(self, key):
        return key


class Psd(Kind):
    name = 'psd'
    has_add_to = True
    head = 'SizeClass'

    def __init__(self):
        from auxi.modelling.process.materials import psd
        self.Material, self.Package = psd.Material, psd.MaterialPackage

    POOL = [float('%.4g' % (0.5 * 0.6 ** k)) for k in range(24)] + [0.0] + [
        0.5000001, 0.18001, 2.2e-6, 1.8e-6, 1.5e-7, 1.4e-7, 2e-9, 1e-12]

    def keys(self, rng, n):
        return sorted(rng.sample(self.POOL, n), reverse=True)

    def many(self, rng, n):
        out = set(self.POOL)
        while len(out) < n:
            out.add(float('%.6g' % (10 ** rng.uniform(-7, 0))))
        return sorted(rng.sample(sorted(out), n), reverse=True)

    def key_text(self, key):
        return '%rE0' % key if key >= 1e-4 or key == 0 else repr(key)

    def masses(self, p, keys):
        return [p.get_size_class_mass(k) for k in keys]

    def by_str(self, key):
        return str(key)


class Slurry(Psd):
    name = 'slurry'
    has_add_to = False

    def __init__(self):
        from auxi.modelling.process.materials import slurry
        self.Material, self.Package = (slurry.Material,
                                       slurry.MaterialPackage)

    def head_rows(self, rng, names, rows, extra):
        d = [repr(round(rng.uniform(1.1, 8.0), 3)) for _ in names]
        w = [rng.choice(['0.0', '1.0', repr(round(rng.random(), 4)),
                         repr(round(rng.random(), 4))]) for _ in names]
        w = ['1.0' if a in self.blank else x for a, x in zip(names, w)]
        rows.append(['solid_density'] + d)
        rows.append(['H2O'] + w)
        extra['density'] = dict(zip(names, map(float, d)))
        extra['water'] = dict(zip(names, map(float, w)))

    def make(self, m, values, density=2.5, water=0.0, whole=False):
        return self.Package(m, density, water,
                            (self.whole if whole else self.array)(values))

    def make_of(self, m, masses):
        return self.Package(m, 2.5, 0.0, masses)

    def state(self, p, keys):
        return super().state(p, keys) + (float(p.H2O_mass),
                                         float(p.solid_density))


class ThermoPackage(Kind):
    name = 'thermo package'
    energy = True
    MASS, H, KEYMASS = 'mass', 'H', 'get_compound_mass'

    def __init__(self):
        from auxi.modelling.process.materials import thermo
        from auxi.tools.chemistry import thermochemistry
        self.Material = thermo.Material
        self.Package = thermo.MaterialPackage
        self.th = thermochemistry
        self.pool = self.usable()

    def usable(self):
        """Compounds whose heat capacity is positive from -20 to 1700 degC."""
        out = []
        for f in sorted(self.th.compounds):
            for ph in self.th.compounds[f].get_phase_list():
                n = '%s[%s]' % (f, ph)
                if f == 'Cobalt':
                    continue
                try:
                    if all(self.th.Cp(n, t) > 5e-6
                           for t in range(-20, 1701, 10)):
                        out.append(n)
                except Exception:
                    continue
        return out

    def keys(self, rng, n):
        return rng.sample(self.pool, n)

    def masses(self, p, keys):
        return [getattr(p, self.KEYMASS)(k) for k in keys]

    def total(self, p):
        return getattr(p, self.MASS)

    def enthalpy(self, p):
        return getattr(p, self.H)

    def set_enthalpy(self, p, v):
        setattr(p, self.H, v)

    def state(self, p, keys):
        return super().state(p, keys) + (
            float(self.enthalpy(p)), float(p.T), float(p.P))

    def make(self, m, values, whole=False, **kw):
        return self.Package(m, (self.whole if whole else self.array)(values),
                            **kw)

    def by_str(self, key):
        return key

    def tail_rows(self, rng, names, extra):
        if rng.random() < 0.6:
            return super().tail_rows(rng, names, extra)
        rows = [rng.choice(['#\n', '#  \n', '# custom\n'])]
        extra['custom'] = {}
        for prop in rng.sample(['Price[USD/kg]', 'IsCoal', 'Colour', 'k'],
                               rng.randint(1, 3)):
            v = [0.0 if prop == 'IsCoal' else rng.choice(
                [round(rng.random(), 4), round(rng.random(), 4),
                 round(rng.uniform(-50, 50), 2), rng.uniform(0, 1e9),
                 rng.uniform(0, 1e-9)]) for _ in names]
            if rng.random() < 0.15:
                rows.append(rng.choice(['\n', '  \n', '\t\n']))
            rows.append([prop] + [repr(x) for x in v])
            extra['custom'][prop] = dict(zip(names, v))
        return rows + rng.choice([[], [], ['\n'], ['  \n', '\n']])

    def H_at(self, masses, T):
        """(enthalpy, scale) of a composition by the compound functions."""
        h = s = 0.0
        for k, m in masses.items():
            x = self.th.H(k, T, float(m))
            h += x
            s += abs(x)
        return h, s


class ThermoStream(ThermoPackage):
    name = 'thermo stream'
    MASS, H, KEYMASS = 'mfr', 'Hfr', 'get_compound_mfr'

    def __init__(self):
        super().__init__()
        from auxi.modelling.process.materials import thermo
        self.Package = thermo.MaterialStream

    def create(self, m, assay, mass, **kw):
        return m.create_stream(assay, mass, **kw)

    def create_none(self, m, assay, **kw):
        return m.create_stream(assay, **kw)
