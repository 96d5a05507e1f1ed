#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
L=[]
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); L.append('- `%s` (%s): %s'%(os.path.basename(os.path.dirname(f)),m['property'],m['what_it_breaks'][:210]))
d=open('DESIGN.md').read().split('\n')
i=[k for k,l in enumerate(d) if re.match(r'- `[a-z0-9-]+` \(C\d\d\): ',l)]
d[i[0]:i[-1]+1]=L
open('DESIGN.md','w').write('\n'.join(d)); print(len(L))
