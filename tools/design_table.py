"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'].replace('|', '\\|')))
rows.sort()
table = ['| check | planted bug | needs, in order to manifest |', '|---|---|---|']
table += ['| %s | %s | %s |' % r for r in rows]
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
a, b = '<!-- table -->', '<!-- /table -->'
assert a in text and b in text
text = text[:text.index(a)] + a + '\n' + '\n'.join(table) + '\n' + text[text.index(b):]
open(path, 'w').write(text)
