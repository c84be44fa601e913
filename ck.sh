#!/bin/bash
# developer summary: distinct non-proved obligations of a check
cd /verif; p=$1; shift
timeout ${T:-800} python3 check.py $p "$@" -v > /tmp/ck.$p 2>&1
python3 - $p <<'P'
import sys,re
cur='';seen={}
for l in open('/tmp/ck.'+sys.argv[1]):
    if re.match(r'\S.* paths=',l): cur=l.split()[0]
    m=re.match(r'\s+(REFUTED|UNDECIDED) (\S+) (.*)',l)
    if m:
        k=(m[1],m[2]); seen.setdefault(k,[]).append((cur,m[3]))
for k,v in seen.items():
    scs=sorted({c for c,_ in v})
    print(k,len(v),'in',len(scs),':',' '.join(scs)[:300])
    done=set()
    for c,m in v:
        g=m[:40]
        if g in done: continue
        done.add(g)
        if len(done)<=4: print('     ',c,'|',m[:340])
P
tail -1 /tmp/ck.$p; grep -a BROKEN /tmp/ck.$p
