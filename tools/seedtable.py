"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs'], m.get('detected', 'caught by ' + m['property'])))
rows.sort()
t = '## 7. Planted bugs, and the checks that catch them\n\nEach is in `seeded/`; each was written from the text of a property and the code; all compile and pass the stable tests.  (Where a\ncheck missed one at first, what was added to it is noted below the table.)\n\n| property | bug | needs | result |\n|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
p = V + '/DESIGN.md'; s = open(p).read()
A, B = '<!-- seeds -->\n', '<!-- /seeds -->\n'
s = s[:s.index(A)] + A + t + B + s[s.index(B) + len(B):] if A in s else s + A + t + B
open(p, 'w').write(s)
