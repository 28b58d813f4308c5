#!/bin/bash
# h.sh harness [opts]
cd /verif; O=/tmp/h.$1.out
python3 tools/dev.py "$@" > $O 2>&1
grep -E "error:|BuildError" $O | head
python3 - $O <<'P'
import sys,json,collections
sig=collections.Counter(); msg={}; inc=collections.Counter(); reach=collections.Counter()
for l in open(sys.argv[1],errors='replace'):
    l=l.strip()
    if not l.startswith('{'): continue
    try: x=json.loads(l)
    except Exception: continue
    if 'paths' in x: print({k:x[k] for k in ('paths','instructions','queries','checks','wall_s','solver_s') if k in x}); continue
    t=x.get('t')
    if t=='viol': sig[x['sig']]+=1; msg.setdefault(x['sig'],(x['msg'],x['at'][:300],x['cex']))
    elif t=='incomplete': inc[x['why']+' @ '+x['at'][:200]]+=1
    elif t=='reach': reach[x['label']]+=x['n']
for s,n in sig.most_common(15): print('VIOL',n,s,msg[s])
for s,n in inc.most_common(5): print('INC',n,s)
print('reach',dict(reach))
P
