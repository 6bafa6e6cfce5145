#!/bin/bash
# prof.sh harness [secs]: where the solver time of a harness goes (development aid)
python3 "$(dirname "$0")/dbg.py" $1 -t ${2:-100} -j 8 2>&1 | tee /tmp/x/pa | grep '^\[slow' | python3 -c "
import sys,re,collections
c=collections.Counter();n=collections.Counter()
for l in sys.stdin:
    m=re.match(r'\[slow ([\d.]+) res (\d)',l); k=l.rsplit('@',1)[-1].strip()+' res'+m[2]; c[k]+=float(m[1]); n[k]+=1
for k,v in c.most_common(8): print(round(v,1),n[k],k)"; grep summary /tmp/x/pa | grep -o '"seconds[^}]*"checks' | tr -d '"' | tr ',' ' '
