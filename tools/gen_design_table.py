"""Rewrites the list of planted bugs per check in DESIGN.md between its two markers."""
import os, json, collections, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
c = collections.defaultdict(list)
for d in sorted(os.listdir('seeded')):
    c[json.load(open(f'seeded/{d}/meta.json'))['property']].append(d)
s = open('DESIGN.md').read()
t = '\n'.join(f'- {k}: ' + ', '.join(c[k]) for k in sorted(c))
s = re.sub(r'(<!-- bugs -->\n).*?(<!-- /bugs -->)', lambda m: m[1] + t + '\n' + m[2], s, flags=re.S)
s = re.sub(r'`seeded/` has \d+', f'`seeded/` has {sum(map(len, c.values()))}', s)
open('DESIGN.md', 'w').write(s)
