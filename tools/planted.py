"""Rewrite the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
L = open(p).read().split('\n')
i = next(k for k, l in enumerate(L) if l.startswith('* `s'))
new = ['* `%s`: %s' % (os.path.basename(os.path.dirname(m)), json.load(open(m))['what_it_breaks'])
       for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')))]
open(p, 'w').write('\n'.join(L[:i] + new) + '\n')
print(len(new), 'planted bugs')
