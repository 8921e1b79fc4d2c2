#!/usr/bin/env python3
# Writes /verif/DESIGN.md: the text below, plus tables generated from seeded/, known-findings.txt and tools/caught.txt
import json,glob,os,re
V=os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
T=open(V+'/tools/design.md').read()
caught={}
if os.path.exists(V+'/tools/caught.txt'):
    for l in open(V+'/tools/caught.txt'):
        a=l.split(None,2)
        if len(a)>=2: caught[a[0]]=a[1]+(' ('+a[2].strip()+')' if len(a)>2 else '')
rows=['| change | property | needs | breaks | caught by (quick tier, seed 1) |','|---|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); i=f.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |'%(i,d['property'],d['needs'].replace('|','\\|'),d['what_it_breaks'].replace('|','\\|'),caught.get(i,'not recorded')))
fx=['| property | commit | what failed |','|---|---|---|']
kn=[]
for l in open(V+'/known-findings.txt'):
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',l)
    if m: fx.append('| %s | %s | %s |'%m.groups())
    m=re.match(r'known: property=(\S+) class=(\S+)',l)
    if m: kn.append(m.groups())
T=T.replace('@@SEEDS@@','\n'.join(rows)).replace('@@FIXES@@','\n'.join(fx))
open(V+'/DESIGN.md','w').write(T)
