#!/usr/bin/env python3
# Generates /verif/known-findings.txt from the list below (fix commits and open findings). Run by hand, never by a check.
import subprocess,os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
P={'38f67f3':'C02','d76878e':'C04','6c480f5':'C10','b25d810':'C09','e5020d0':'C09','b88a132':'C11','0dbc3f6':'C10','3bbf386':'C01','c852487':'C04','e013e31':'C01','dbf7bee':'C02','c1ef2c0':'C03','0a7104d':'C12','ad69dcd':'C04','7dd11a8':'C04','653fdbd':'C04','48a5f79':'C09','b0c9922':'C12','606ff3b':'C11','9b25f06':'C12','cafa781':'C03','a0ce6cc':'C06','fd7c7c1':'C06','8965c70':'C05','28b39b9':'C02','94dd666':'C15','3da873d':'C15','d385f4c':'C15','34a6e15':'C15','6c31a85':'C16','a4a008f':'C17','0421f37':'C17','5ce4d25':'C17','42b6215':'C17','bd0efa5':'C17','7bc4504':'C12','f124b89':'C12','acdf382':'C09','513f093':'C03','9aaf5ad':'C02','fb6cd40':'C13'}
exec(open(os.path.join(V,'tools','fixprops.py')).read()) if os.path.exists(os.path.join(V,'tools','fixprops.py')) else None
o=[]
G='a document or entity whose second byte is 0 and whose first byte announces no encoding is taken for UTF-16LE, except when that first byte is delivered alone: then it is taken for UTF-8 and rejected (initScan in src/lib/xmltok.rs; the C reference behaves the same)'
for p in 'C01 C02 C03 C04 C09 C10 C11 C12 C13 C14 C15'.split(): o.append(f'known: property={p} class=utf16-guess-one-byte :: {G}')
for l in subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse'],capture_output=True,text=True,check=True).stdout.split('\n'):
    h,_,s=l.partition(' ')
    if s.startswith('fix: '): o.append(f'fixed: property={P[h]} {h} {s[5:]}')
open(os.path.join(V,'known-findings.txt'),'w').write('\n'.join(o)+'\n')
