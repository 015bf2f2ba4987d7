"""References, variables and process models keep what they were given."""
import os
import re
import subprocess
import sys
from datetime import date, datetime

from auxi.core import bibliography
from auxi.core.helpers import get_date, get_path_relative_to_module
from auxi.core.objects import NamedObject, Object
from auxi.modelling.core import Project, Variable, VariableGroup
from auxi.modelling.process.core import DynamicModel, Model, SteadyStateModel
from rt.core import REPO

TARGETS = ['auxi/core/bibliography.py', 'auxi/core/helpers.py',
           'auxi/core/objects.py', 'auxi/modelling/core.py',
           'auxi/modelling/process/core.py']
RULE = ('BibTeX files of random entries (every standard type and the newer '
        'ones, several files alive, files rewritten while in use) must give '
        'back every field of every entry under its key and nothing under '
        'other keys; the shipped file likewise, read apart. Variables, '
        'groups and projects must keep name, description, value, units and '
        'category through any changes, and through a file. Process models '
        'must own their own parameters and variables, of the classes their '
        'class declares. Distinct by (kind, case).')
ASSUMPTIONS = ['BibTeX files of plain ASCII text with distinct keys']
TYPES = ['article', 'book', 'booklet', 'conference', 'inbook',
         'incollection', 'inproceedings', 'manual', 'mastersthesis', 'misc',
         'phdthesis', 'proceedings', 'techreport', 'unpublished', 'online',
         'report', 'thesis', 'patent', 'software', 'dataset', 'electronic']
FIELDS = ['author', 'title', 'journal', 'year', 'volume', 'number', 'pages',
          'publisher', 'note', 'url', 'doi', 'editor', 'series', 'edition',
          'date', 'location', 'institution', 'abstract', 'eprint']
WORDS = ['Heat', 'slag', 'A. and B.', 'viscosity', '{CaO}', 'of the', '12-34',
         'Thermo, Vol. 2', '10.1016/j.x', 'G\\"{o}del', '$x^2$', '(1999)',
         '50\\%', 'a:b', 'n_{2}', 'x = y', '#5', 'O\'Neil']


def entries(rng):
    res = {}
    for _ in range(rng.choice([0, 1, 2, 5, 12])):
        key = rng.choice(['smith', 'Smith', 'vdb', 'x-y', 'a_b', 'k:z', 'q.r',
                          'lienhard']) + rng.choice(
                              ['', '2016', '2016a', '1', ':3'])
        fs = {f: ' '.join(rng.choice(WORDS)
                          for _ in range(rng.randint(1, 5)))
              for f in rng.sample(FIELDS, rng.randint(1, 8))}
        res[key] = (rng.choice(TYPES), fs)
    return res


def text(rng, es):
    res = []
    if rng.random() < 0.3:
        res.append('% a remark\n')
    for key, (t, fs) in es.items():
        t = rng.choice([t, t, t.capitalize(), t.upper()])
        lines = []
        for f, v in fs.items():
            if re.fullmatch(r'\d+', v):
                q = rng.choice(['{%s}', '"%s"', '%s'])
            elif '"' in v:
                q = '{%s}'
            else:
                q = rng.choice(['{%s}', '{%s}', '"%s"'])
            lines.append(rng.choice(['\t', '  ', '']) + f +
                         rng.choice([' = ', '=', '   = ']) + q % v)
        res.append('@%s{%s,\n%s%s\n}\n' % (t, key, ',\n'.join(lines),
                                           rng.choice([',', ''])))
        res.append(rng.choice(['', '\n', '\n\n']))
    return ''.join(res)


def same(ctx, db, es, what):
    for key, (t, fs) in es.items():
        e = db[key]
        for f, v in fs.items():
            ctx.check(e.get(f) == v, 'field', lambda: '%s: field %s of %s '
                      'is %r, the file says %r' % (what, f, key, e.get(f), v))
            ctx.ev('fields-compared')
        extra = set(e) - set(fs) - {'ID', 'ENTRYTYPE'}
        ctx.check(not extra, 'field', lambda: '%s: fields %r of %s are not '
                  'in the file' % (what, extra, key))
        ctx.check(e.get('ID', key) == key and
                  e.get('ENTRYTYPE', t).lower() == t, 'entry-type', lambda:
                  '%s: %s is described as %r' % (what, key, e))
        ctx.ev('entries-' + ('newer' if TYPES.index(t) >= 14 else
                             'standard'))
    for key in list(es)[:3]:
        for k in (key + 'x', key[:-1], key.swapcase(), ' ' + key):
            if k not in es:
                ctx.raises(lambda: db[k], 'missing-key', '%s: the entry %r, '
                           'which the file does not have' % (what, k))
    s = str(db)
    for key in es:
        ctx.check(key in s, 'text', lambda: '%s: %s missing from the text' %
                  (what, key))


def bib(ctx, rng, i):
    live = []
    for k in range(rng.randint(1, 4)):
        es = entries(rng)
        path = rng.choice(['b.bib', 'b%d.bib' % k])
        with open(path, 'w') as f:
            f.write(text(rng, es))
        db = bibliography.Database(path)
        live.append((path, es, db))
        ctx.info({'files': [(p, sorted(e)) for p, e, _ in live]})
        for path, es, db in live:
            same(ctx, db, es, path)
    for path, _, _ in live:
        if os.path.exists(path):
            os.remove(path)
    for path, es, db in live:
        same(ctx, db, es, path + ', deleted since')
    ctx.raises(lambda: bibliography.Database('absent.bib'), 'absent-file',
               'a file which does not exist')
    ctx.ev('databases', len(live))
    ctx.eval(('bib', tuple(sorted(e) and tuple(sorted(e))
                           for _, e, _ in live)))


def read_apart(path):
    """The entries of a BibTeX file whose fields are each on one line."""
    res, cur = {}, None
    with open(path, encoding='utf-8') as f:
        for line in f:
            m = re.match(r'\s*@(\w+)\s*\{\s*([^,\s]+)\s*,\s*$', line)
            if m:
                cur = res[m.group(2)] = {}
                continue
            m = re.match(r'\s*(\w+)\s*=\s*\{(.*)\}\s*,?\s*$', line)
            if m and cur is not None:
                cur[m.group(1).lower()] = m.group(2)
    return res


def shipped(ctx, rng, i):
    path = os.path.join(REPO, 'auxi/core/data/bibliography.bib')
    want = read_apart(path)
    ctx.check(len(want) > 3, 'shipped', 'the shipped file could not be read')
    for db in (bibliography.db, bibliography.Database(path)):
        for key, fs in want.items():
            try:
                e = db[key]
            except KeyError:
                ctx.violation('shipped', 'the shipped bibliography lacks %s'
                              % key)
            for f, v in fs.items():
                ctx.check(e.get(f) == v, 'shipped', lambda: 'field %s of %s '
                          'is %r, the file says %r' % (f, key, e.get(f), v))
                ctx.ev('shipped-fields')
        ctx.raises(lambda: db['nobody1900'], 'missing-key', 'an entry the '
                   'shipped bibliography does not have')
    # imported from anywhere, the package finds its own file
    key = sorted(want)[0]
    env = dict(os.environ, PYTHONPATH=os.path.abspath(REPO))
    os.makedirs('else', exist_ok=True)
    r = subprocess.run([sys.executable, '-B', '-c', 'import sys\n'
                        'from auxi.core.bibliography import db\n'
                        'print(db[sys.argv[1]]["title"])', key],
                       cwd='else', env=env, capture_output=True, text=True)
    ctx.check(r.returncode == 0 and r.stdout.strip() == want[key]['title'],
              'shipped-elsewhere', lambda: 'imported from another folder: %s'
              % (r.stderr or r.stdout)[-300:])
    ctx.ev('shipped-read')
    ctx.eval(('shipped', i))


def value(rng):
    return rng.choice([0, 1, -2.5, 1e-300, True, None, 'text', '', [1, 2],
                       {'a': 1.0}, (1, 2), float('inf'), 10 ** 20])


def word(rng):
    return rng.choice([None, '', 'kg', 'm/s', 'Input', 'a b', 'Ünit'])


def variables(ctx, rng, i):
    live = []
    for k in range(rng.randint(2, 6)):
        cls = rng.choice([Variable, Variable, VariableGroup, Project])
        name = rng.choice(['v%d' % k, 'v', '', 'x y'])
        d = word(rng)
        want = dict(name=name, description=d)
        if cls is Project:
            o = cls(name, d) if rng.random() < 0.5 else cls(
                name, description=d)
        else:
            want['value'] = value(rng)
            want.update(units=None, category=None)
            kw = {}
            for a in ('units', 'category'):
                if rng.random() < 0.6:
                    want[a] = kw[a] = word(rng)
            if rng.random() < 0.3:
                o = cls(name, want['value'], want['units'],
                        want['category'], d)
            else:
                o = cls(name, want['value'], description=d, **kw)
        live.append((o, want))
    ctx.info({'made': [(type(o).__name__, repr(w)) for o, w in live]})

    def compare(o, want, what):
        for a, v in want.items():
            g = getattr(o, a)
            ctx.check(g == v and type(g) is type(v), 'attribute', lambda:
                      '%s: %s of the %s is %r, not %r' % (
                          what, a, type(o).__name__, g, v))
        if 'value' in want:
            ctx.check(o() == want['value'], 'called', lambda: '%s: calling '
                      'gives %r, not %r' % (what, o(), want['value']))
            ctx.ev('called')
    for _ in range(12):
        o, want = rng.choice(live)
        a = rng.choice(sorted(want))
        want[a] = value(rng) if a == 'value' else word(rng)
        setattr(o, a, want[a])
        for o, want in live:
            compare(o, want, 'after %s was set' % a)
        ctx.ev('changed')
    for o, want in live:
        if want.get('value') == float('inf'):
            continue
        o.write('v.json')
        r = rng.choice([Object, NamedObject, type(o)]).read('v.json')
        os.remove('v.json')
        ctx.check(type(r) is type(o), 'type', 'read back a %s' % type(r))
        compare(r, want, 'read back')
        ctx.check(str(r) == str(o), 'text', 'the %s read back is described '
                  'differently' % type(o).__name__)
        ctx.ev('read-back')
    ctx.eval(('variables', i))


def subclass(rng, base, n):
    """A model class which declares its own parameters and variables."""
    body, want = {}, {}
    for group, attr in (('Parameters', 'parameters'),
                        ('InputVariables', 'input_variables'),
                        ('OutputVariables', 'output_variables')):
        if rng.random() < 0.7:
            vals = {'p%d' % k: rng.uniform(-5, 5)
                    for k in range(rng.randint(0, 4))}

            def init(self, vals=vals):
                for k, v in vals.items():
                    setattr(self, k, Variable(k, v))
            body[group] = type(group, (object,), {'__init__': init})
            want[attr] = (body[group], vals)
        else:
            want[attr] = (getattr(base, group), dict(getattr(
                base, 'wanted', {}).get(attr, (None, {}))[1]))

    def run(self, streams):
        r = dict(streams)
        r['out'] = sum(v() for v in vars(self.parameters).values())
        return r
    body['run'] = run
    body['wanted'] = want
    return type('M%d' % n, (base,), body), want


def models(ctx, rng, i):
    classes = [(c, {}) for c in (Model, SteadyStateModel, DynamicModel)]
    for n in range(rng.randint(1, 3)):
        base = rng.choice(classes)[0]
        classes.append(subclass(rng, base, n))
    live = []
    for k in range(rng.randint(2, 5)):
        cls, want = rng.choice(classes)
        d = word(rng)
        m = cls('m%d' % k, d)
        vals = {a: dict(v[1]) for a, v in want.items()}
        live.append((m, cls, want, vals, 'm%d' % k, d))
    ctx.info({'models': [(c.__name__, c.__mro__[1].__name__,
                          sorted(w)) for m, c, w, _, _, _ in live]})
    attrs = ('parameters', 'input_variables', 'output_variables')
    seen = []
    for m, cls, want, vals, name, d in live:
        ctx.check(isinstance(m, Model) and isinstance(m, NamedObject) and
                  m.name == name and m.description == d, 'attributes',
                  'name or description of the model')
        for a, g in zip(attrs, ('Parameters', 'InputVariables',
                                'OutputVariables')):
            o = getattr(m, a)
            ctx.check(type(o) is getattr(cls, g), 'class', lambda: '%s of '
                      'a %s is a %s, not the %s its class declares' % (
                          a, cls.__name__, type(o).__qualname__, g))
            ctx.check(all(o is not x for x in seen), 'shared', '%s of a '
                      'model is also that of another' % a)
            seen.append(o)
            ctx.ev('groups')
    for _ in range(8):
        m, cls, want, vals, _, _ = rng.choice(live)
        a = rng.choice(attrs)
        g = vals.setdefault(a, {})
        k = rng.choice(['p0', 'p1', 'p2', 'z'])
        v = rng.uniform(-9, 9)
        o = getattr(m, a)
        if hasattr(o, k):
            getattr(o, k).value = v
        else:
            setattr(o, k, Variable(k, v))
        g[k] = v
        for n, c, w, vs, _, _ in live:
            for b in attrs:
                got = {x: y() for x, y in vars(getattr(n, b)).items()}
                ctx.check(got == vs.get(b, {}), 'shared', lambda: '%s of a '
                          'model are %r, expected %r' % (b, got,
                                                         vs.get(b, {})))
        ctx.ev('set')
    for m, cls, want, vals, _, _ in live:
        s = {'in': 1.5}
        r = m.run(s)
        if want:
            ctx.check(r == {'in': 1.5, 'out': sum(
                vals.get('parameters', {}).values())} and s == {'in': 1.5},
                'run', 'running the model gave %r' % r)
        else:
            ctx.check(s == {'in': 1.5}, 'run', 'the streams were changed')
        ctx.ev('runs')
    ctx.eval(('models', i))


def helpers(ctx, rng, i):
    part = lambda: rng.choice(['a', 'b c', 'data', 'x.y', 'Z'])
    folder = '/' + '/'.join(part() for _ in range(rng.randint(1, 4)))
    up = rng.randint(0, folder.count('/'))
    rel = '../' * up + '/'.join(rng.choice([part(), part(), '.'])
                                for _ in range(rng.randint(0, 2))) + 'f.txt'
    want = folder.split('/')[:-up] if up else folder.split('/')
    want = '/'.join(want + [p for p in rel[3 * up:].split('/') if p != '.'])
    ctx.info({'module': folder, 'target': rel})
    got = get_path_relative_to_module(folder + '/m.py', rel)
    ctx.check(got == want, 'path', lambda: '%s relative to a module in %s is '
              '%s, not %s' % (rel, folder, got, want))
    # also when the module's path is itself relative
    got = get_path_relative_to_module('sub/m.py', 'f.txt')
    ctx.check(got == os.path.join(os.getcwd(), 'sub', 'f.txt'), 'path',
              'relative to a module at a relative path: %s' % got)
    ctx.check(get_path_relative_to_module(folder + '/m.py', '/t/f') ==
              '/t/f', 'path', 'an absolute target stays where it is')
    d = date.fromordinal(rng.randint(1, date(9999, 12, 31).toordinal()))
    s = '%04d-%02d-%02d' % (d.year, d.month, d.day)
    g = get_date(s)
    ctx.check((g.year, g.month, g.day) == (d.year, d.month, d.day), 'date',
              lambda: 'the date of %r is %r' % (s, g))
    t = datetime(d.year, d.month, d.day, rng.randint(0, 23), 5)
    ctx.check(get_date(d) is d and get_date(t) is t, 'date', 'a date object '
              'is its own date')
    for bad in ('%04d-13-01' % d.year, '%04d-02-30' % d.year, s + 'x',
                'today', '', s.replace('-', '/'), s + '-01', s + ' 17:00',
                s[:7], s[:4], 'x' + s, '%04d-00-10' % d.year):
        ctx.raises(lambda: get_date(bad), 'date-refused', 'the date %r' % bad)
    ctx.ev('paths')
    ctx.ev('dates')
    ctx.eval(('helpers', folder, rel, s))


def run(ctx):
    for k in ('entries-standard', 'entries-newer', 'databases', 'called',
              'changed', 'read-back', 'groups', 'set', 'runs', 'paths',
              'dates'):
        ctx.require(k, 50)
    ctx.require('shipped-read', 1)
    ctx.run('bib', ctx.n(480, 2500), bib)
    ctx.run('shipped', ctx.n(16, 16), shipped)
    ctx.run('variables', ctx.n(1600, 12000), variables)
    ctx.run('models', ctx.n(2400, 20000), models)
    ctx.run('helpers', ctx.n(8000, 60000), helpers)
