"prints the table of planted changes for DESIGN.md"
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
MISSED = {'c13-tries': 'none: needs more than the three failed attempts explored'}
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    rows.append('| %s: %s | %s | %s |' % (d, m['what_it_breaks'], m['property'], MISSED.get(d, m['property'])))
t = '\n'.join(rows); p = V + '/DESIGN.md'; s = open(p).read()
h = '| change | property | caught by |\n|---|---|---|\n'
i = s.index(h) + len(h); j = s.index('\n\n', i) if '@TABLE@' not in s else s.index('@TABLE@') + 7
open(p, 'w').write(s[:i] + t + s[j:])
