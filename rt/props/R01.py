"""Every report says the same in every format."""
import csv
import io
import os
import re
from datetime import datetime
from auxi.core.reporting import ReportFormat as RF
from rt import ledger
from rt.reports import captured

TARGETS = ['auxi/core/reporting.py', 'auxi/modelling/financial/reporting.py',
           'auxi/modelling/financial/des.py']
RULE = ('Account reports, transaction lists, balance sheets and income '
        'statements of random ledgers rendered in every format to the '
        'console, as text and to files; cells read back from each and '
        'compared with each other and with the ledger. Distinct by (ledger, '
        'report).')
ASSUMPTIONS = ['cells hold no line breaks but in csv; spaces at the ends of a cell do '
               'not matter']

LATEX = [('\\textbackslash{}', '\\'), ('\\textasciitilde{}', '~'),
         ('\\^{}', '^'), ('\\ensuremath{<}', '<'), ('\\ensuremath{>}', '>'),
         ('\\&', '&'), ('\\%', '%'), ('\\$', '$'), ('\\#', '#'),
         ('\\_', '_'), ('\\{', '{'), ('\\}', '}')]


def from_csv(text):
    return [[c.strip() for c in r] for r in csv.reader(io.StringIO(text))
            if r]


def from_simple(text):
    lines = text.rstrip('\n').split('\n')
    k = next(i for i, l in enumerate(lines) if re.match(r'^-+(  -+)*$', l))
    cols = [(m.start(), m.end()) for m in re.finditer('-+', lines[k])]
    out = []
    for l in lines[:k] + lines[k + 1:]:
        out.append([l[a:b].strip() for a, b in cols])
    return out


def from_latex(text):
    out = []
    for l in text.split('\n'):
        l = l.strip()
        if not l.endswith('\\\\'):
            continue
        cells = re.split(r'(?<!\\)&', l[:-2])
        row = []
        for c in cells:
            c = c.strip()
            done = ''
            while c:
                for a, b in LATEX:
                    if c.startswith(a):
                        done += b
                        c = c[len(a):]
                        break
                else:
                    done += c[0]
                    c = c[1:]
            row.append(done.strip())
        out.append(row)
    return out


def same(ctx, a, b, what):
    # A row whose cells are all empty may vanish in one of the formats.
    a = [r for r in a if any(r)]
    b = [r for r in b if any(r)]
    ctx.check(a == b, 'cells:' + what, lambda: '%s: %r' % (what, [
        (x, y) for x, y in zip(a, b) if x != y][:2] or (len(a), len(b))))
    ctx.ev('tables-compared')


def path(rng):
    """A place for a report, without the extension."""
    name = rng.choice(['out', 'out', 'list 2016.01', 'v1.2', '.report', 'a b',
                       'Übersicht', 'report.csv', 'report.txt.', 'x' * 100,
                       "o'k", 'per%cent', '#1', '~out', '-out'])
    how = rng.random()
    if how < 0.6:
        return name
    folder = rng.choice(['here', 'q1.2016', 'in here', 'Café'])
    os.mkdir(folder)
    if how < 0.8:
        return os.path.join(folder, name)
    return os.path.abspath(os.path.join(folder, name))


def case(ctx, rng, i):
    s, types = ledger.structure(rng)
    for _ in range(rng.randint(0, 3)):
        a = s[types.now(rng.choice(sorted(ledger.BASE)))]
        a.create_account(rng.choice(['R&D', '50% off', 'a_b', 'x, y', '{c}',
                                     'q"q', 'C#', '1e3', '00012', '7.50',
                                     'ö']), rng.choice(['1', '0010', '1e2']),
                         rng.choice([None, '12', 'd & e']))
    n = rng.choice([0, 1, 3, 10, 30])
    if i % 100 == 50:
        n = rng.choice([300, 1200])
        ctx.ev('long-reports')
    gl, txs = ledger.ledger(rng, s, types, n)
    for what in ('accounts', 'list', 'balance', 'income'):
        render = {'accounts': s.report, 'list': gl.transaction_list,
                  'balance': gl.balance_sheet,
                  'income': gl.income_statement}[what]
        ctx.info({'report': what, 'transactions': [
            [t.name, str(t.date), t.source, t.dt, t.cr, t.amount, t.desc]
            for t in txs]})
        before = sorted(os.listdir('.'))
        string = render(format=RF.string)
        shown = {f: captured(lambda: render(format=f)) for f in
                 (RF.printout, RF.txt, RF.csv, RF.latex)}
        default = captured(lambda: render())
        ctx.check(sorted(os.listdir('.')) == before, 'stray-file',
                  'rendering to the console wrote a file')
        files = {}
        for f, ext in ((RF.txt, '.txt'), (RF.csv, '.csv'),
                       (RF.latex, '.tex')):
            out = path(rng)
            ctx.ev('paths-plain' if out == 'out' else 'paths-other')
            folder = os.path.dirname(os.path.abspath(out))
            there = sorted(os.listdir(folder))
            older = rng.random() < 0.4      # an older file is replaced
            if older:
                with open(out + ext, 'w') as h:
                    h.write('older report\n' * rng.choice([1, 20, 3000]))
                ctx.ev('files-replaced')
            text = captured(lambda: render(format=f, output_path=out))
            ctx.check(text == '', 'file-printed', 'rendering to a file '
                      'printed %r' % text[:80])
            new = [x for x in os.listdir(folder) if x not in there]
            ctx.check(new == [os.path.basename(out) + ext], 'file-name',
                      'rendering to %r wrote %r' % (out, new))
            with open(out + ext, newline='', encoding='utf8') as h:
                files[f] = h.read()
            os.remove(out + ext)
            if folder != os.getcwd():
                os.rmdir(folder)
            ctx.check(sorted(os.listdir('.')) == before, 'stray-file',
                      'rendering to %r wrote another file' % out)
        ref = from_csv(files[RF.csv])
        ctx.check(shown[RF.csv].rstrip('\n') == files[RF.csv].rstrip('\n'),
                  'csv', what + ': csv on the console and in a file differ')
        ctx.check(string.rstrip('\n') == shown[RF.printout].rstrip('\n') ==
                  default.rstrip('\n') == shown[RF.txt].rstrip('\n') ==
                  files[RF.txt].rstrip('\n'), 'text',
                  what + ': text forms of one report differ')
        ctx.check(shown[RF.latex].rstrip('\n') ==
                  files[RF.latex].rstrip('\n'), 'latex',
                  what + ': latex on the console and in a file differ')
        same(ctx, from_simple(string), ref, what + ' text')
        same(ctx, from_latex(files[RF.latex]), ref, what + ' latex')
        n = {'accounts': 1 + len(s.accounts) + sum(
                 len(s.get_account_descendants(a)) for a in s.accounts),
             'list': 2 + len(txs)}.get(what)
        if n is not None:
            ctx.check(len(ref) == n, 'row-count', '%s: %d rows, expected %d' %
                      (what, len(ref), n))
        ctx.ev('report-' + what)
        ctx.eval((i, what))
    ctx.sample({'rows of the list': len(txs), 'first': ref[:2]}, 2)


def several_lines(ctx, rng, i):
    """Text of several lines in csv, which can hold it."""
    s, types = ledger.structure(rng)
    text = ['first\nsecond', 'a\n\nb', '\nc', 'x,\n"y"', 'one line']
    a = s[types.now(rng.choice(sorted(ledger.BASE)))]
    said = rng.choice(text)
    a.create_account('Told', '77', said)
    gl, txs = ledger.ledger(rng, s, types, 2)
    for t in gl.transactions:
        t.description = rng.choice(text)
        t.is_closing_it_account = False
    ctx.info({'descriptions': [t.description for t in gl.transactions]})
    for render, want in (
            (s.report, [said]),
            (gl.transaction_list, [t.description for t in gl.transactions])):
        render(format=RF.csv, output_path='out')
        with open('out.csv', newline='', encoding='utf8') as f:
            rows = list(csv.reader(f))
        os.remove('out.csv')
        shown = list(csv.reader(io.StringIO(captured(
            lambda: render(format=RF.csv)))))
        ctx.check([r for r in shown if r] == [r for r in rows if r], 'csv',
                  'csv on the console and in a file differ')
        ctx.check(len(set(map(len, [r for r in rows if r]))) == 1,
                  'csv-rows', lambda: 'rows of different lengths: %r' % rows)
        cells = [c for r in rows for c in r]
        for w in want:
            ctx.check(w in cells, 'csv-lines', lambda: '%r is in no cell of '
                      '%r' % (w, rows))
            if '\n' in w:
                ctx.ev('cells-of-several-lines')
        ctx.eval((i, render.__name__))


def run(ctx):
    for w in ('accounts', 'list', 'balance', 'income'):
        ctx.require('report-' + w, 50)
    ctx.require('files-replaced', 50)
    ctx.require('paths-other', 500)
    ctx.require('long-reports', 5)
    ctx.require('cells-of-several-lines', 50)
    ctx.run('several_lines', ctx.n(200, 4000), several_lines)
    ctx.run('render', ctx.n(2000, 40000), case)
