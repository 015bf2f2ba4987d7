"""Rewrite the list in DESIGN.md of planted bugs by property."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    by.setdefault(json.load(open(f))['property'], []).append(
        f.split('/')[-2])
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- caught -->', '<!-- end -->'
i, j = s.index(a) + len(a), s.index(b)
t = ''.join('\n- %s: %s' % (k, ', '.join(v)) for k, v in sorted(by.items()))
open(p, 'w').write(s[:i] + t + '\n' + s[j:])
