# t.sh N checks...
n=$1; shift
for p in "$@"; do rm -f /tmp/o.json; timeout 300 /verif/harness/target/debug/vh run $p --cases $n --seed ${SEED:-1} --out /tmp/o.json --cur /tmp/cur --hang 30; echo "$p rc=$?"; python3 -c "
import json;d=json.load(open('/tmp/o.json'));d['distinct']=len(d['distinct']);f=d.pop('fails');d.pop('samples');print(d);
for a,b in f: print(a,b)"; done
