#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads seeded/)."""
import glob,json,os,re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
rows=[]
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); rows.append((m['property'],f.split('/')[1],m['needs'].replace('|','/').strip()))
rows.sort()
t='| planted bug | caught by | needs |\n|---|---|---|\n'+'\n'.join('| %s | %s | %s |'%(b,a,c if len(c)<190 else c[:187]+'...') for a,b,c in rows)+'\n'
d=open('DESIGN.md').read(); A='<!-- table -->\n'; B='<!-- /table -->\n'
if '@TABLE@\n' in d: d=d.replace('@TABLE@\n',A+B)
i=d.index(A)+len(A); j=d.index(B)
open('DESIGN.md','w').write(d[:i]+t+d[j:]); print(len(rows),'bugs')
