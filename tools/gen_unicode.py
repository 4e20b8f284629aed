#!/usr/bin/env python3
"""Generates mc/src/utab.rs. Input: lines `hex id_start id_continue` of an older Unicode
version (must-accept set); the running Python's unicodedata gives the newer one. A code
point in both is certainly an identifier character, one in neither and assigned certainly
is not, anything else is left open by the checks."""
import sys, unicodedata as u
OIS={0x1885,0x1886,0x2118,0x212e,0x309b,0x309c}; OIC={0xb7,0x387,0x19da}|set(range(0x1369,0x1372))
def start(c): return (u.category(chr(c)) in('Lu','Ll','Lt','Lm','Lo','Nl') or c in OIS) and c!=0x2e2f
def cont(c): return start(c) or (u.category(chr(c)) in ('Mn','Mc','Nd','Pc') or c in OIC) and c!=0x2e2f
sets={'MUST_START':[], 'MAY_START':[], 'MUST_CONT':[], 'MAY_CONT':[]}
for l in open(sys.argv[1]):
    a=l.split(); c=int(a[0],16)
    if c<0x80: continue
    s,k=a[1]=='1',a[2]=='1'
    open_=u.category(chr(c))=='Cn'
    if s: sets['MUST_START'].append(c)
    if s or start(c) or open_: sets['MAY_START'].append(c)
    if k: sets['MUST_CONT'].append(c)
    if k or cont(c) or open_ or c in (0x200c,0x200d,0x30fb,0xff65): sets['MAY_CONT'].append(c)
    if c in (0x200c,0x200d): sets['MUST_CONT'].append(c)
print("// generated by tools/gen_unicode.py")
for n,v in sets.items():
    v=sorted(set(v)); r=[]
    for c in v:
        if r and r[-1][1]==c-1: r[-1][1]=c
        else: r.append([c,c])
    print("pub static %s: &[(u32, u32)] = &[%s];"%(n,",".join("(0x%x,0x%x)"%tuple(x) for x in r)))
