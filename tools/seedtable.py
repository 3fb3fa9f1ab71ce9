"""rewrites the table of planted bugs in DESIGN.md"""
import os, json, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | file | breaks |', '|---|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    f = sorted({l[6:].strip().replace('packages/', '') for l in open('%s/seeded/%s/patch.diff' % (R, d)) if l.startswith('+++ b/')})
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], ', '.join(f), m['what_it_breaks'].replace('|', '/')))
p = R + '/DESIGN.md'; s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
