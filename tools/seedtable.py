"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
p = root + '/DESIGN.md'
s = open(p).read()
h = '### Planted bugs (`seeded/`)\n'
a = s.index(h) + len(h)
b = s.index('### Not applicable')
s = s[:a] + ('\nEach is a change which compiles and passes the 112 tests; its `demo.sh` fails with it.  "Caught by" is the check '
             'whose property it breaks (often others report it too).\n\n') + '\n'.join(rows) + '\n\n' + s[b:]
open(p, 'w').write(s)
