"""Put the table of the planted bugs (seeded/*/meta.json) into DESIGN.md, between its two markers."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks | what it needs |", "| --- | --- | --- |"]
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json')) + glob.glob(os.path.join(root, 'planted', '*', 'meta.json')), key=lambda f: f.split(os.sep)[-2]):
    m = json.load(open(f))
    c = [os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs']]
    rows.append('| ' + ' | '.join(re.sub(r'\s+', ' ', x.replace('|', '/')) for x in c) + ' |')
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
if 'SEEDTABLE' in s:
    s = s.replace('SEEDTABLE', a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
