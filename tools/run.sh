#!/bin/bash
# development helper: one check, short output
P=$1; shift
cd "$(dirname "$0")/.."
timeout ${T:-300} python3-vt check.py $P --verbose --debug "$@" > /tmp/$P.log 2>&1
python3 - $P <<'P'
import sys,re
L=open('/tmp/%s.log'%sys.argv[1]).read().split('\n')
out=[]
tb=0
k=0
for l in L:
    if l.startswith('Traceback'): tb+=1
    m=re.match(r'  (\S+)\s+\{"incomplete": (.*?), "error": (.*?), "reached": (\[.*?\]), "wall_s": ([\d.]+), "validated": (\d+), "stats": \{"paths": (\d+)',l)
    if m:
        n,inc,err,re_,w,v,pa=m.groups()
        if inc=='null' and err=='null' and float(w)<15: continue
        k+=1
        if k>12: continue
        print('%-26s %ss paths %s val %s inc=%s err=%s'%(n,w,pa,v,inc[:200],err[:600])); continue
    if tb>2 and (l.startswith('Traceback') or l.startswith('  ')): continue
    out.append(l[:700])
print('\n'.join(o[:400] for o in out[-25:]))
P
