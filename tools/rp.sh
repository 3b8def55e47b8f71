#!/bin/bash
# developer: run one property's workload directly. rp.sh PROP secs seed...
P=$1; S=$2; shift 2
export ASAN_OPTIONS=detect_leaks=0:hard_rss_limit_mb=3500:halt_on_error=1:exitcode=99:allocator_may_return_null=1:handle_abort=1 RUST_BACKTRACE=0
BIN=$(cd /verif/bin && python3 -c "import props,sys; print(props.PROPS[sys.argv[1]].get('bin','fv'))" $P 2>/dev/null || echo ${DEFBIN:-fv})
mkdir -p /tmp/rp; export FV_SCRATCH=/tmp/rp
for s in "$@"; do
( rm -f /tmp/rp/$P.$s.json; cd /tmp/rp; /verif/target/asan/x86_64-unknown-linux-gnu/debug/$BIN $P --seed $s --shard 0 --shards 1 --secs $S --out /tmp/rp/$P.$s.json --crash /tmp/rp/$P.$s.crumb $EXTRA > /tmp/rp/$P.$s.log 2>&1; rc=$?
 W=${W:-300} MAXV=${MAXV:-8} python3 - $P $s $rc <<'PY'
import json,sys,os
P,s,rc=sys.argv[1:]
W=int(os.environ['W']);M=int(os.environ['MAXV'])
try: j=json.load(open(f'/tmp/rp/{P}.{s}.json'))
except Exception as e:
    t=open(f'/tmp/rp/{P}.{s}.log').read(); i=max(0,t.find('ERROR')-100)
    print(P,s,'rc',rc,'CRASH',t[i:i+1800]); 
    try: print('crumb',open(f'/tmp/rp/{P}.{s}.crumb').read()[:600])
    except Exception: pass
    sys.exit()
v=j.get('violations',[])
print(P,s,'rc',rc,{k:x for k,x in j.items() if k in('evals','evaluations','distinct')},j.get('counters') or j.get('cov'))
for x in v[:M]: print('  V',x['sig'],'x',x['count'],'\n    ',x['detail'][:W],'\n     IN',str(x['input'])[:W])
if len(v)>M: print('  ...',len(v),'kinds')
PY
) & done; wait
