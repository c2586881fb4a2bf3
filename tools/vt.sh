#!/bin/bash
# usage: vt.sh UNIT [verus options]: like vx.sh, with the slowest functions
cd /verif; U=$1; shift
tools/vx.sh $U --time-expanded --output-json "$@" > /tmp/o.json 2>&1
python3 - <<'P'
import json
s=open('/tmp/o.json').read()
i=s.find('\n{')
t=s[:i] if i>=0 else s
k=t.find('\nnote: function'); k2=t.find('\nerror')
ks=[x for x in (k,k2) if x>=0]
if ks: print(t[min(ks):][:9000])
if i>=0:
    d=json.JSONDecoder().raw_decode(s[i+1:])[0]
    print(d['verification-results'])
    L=[(f['time-micros']//1000,f.get('rlimit'),f['function']) for m in d['times-ms']['smt']['smt-run-module-times'] for f in m.get('function-breakdown',[])]
    L.sort(reverse=True)
    for x in L[:10]: print(*x)
P
