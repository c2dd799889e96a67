#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "breaks"  : /tmp/bugs/ID.rs is the demo main (parser demos), the change is in /repo's working tree
id=$1; d=/verif/seeded/$id; mkdir -p $d/demo/src
git -C /repo diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo no diff; exit 1; }
cd /verif/harness
cp Cargo.lock $d/demo/; sed 's/^name = "vh"$/name = "demo"/; /^\[lib\]/,/^$/d; /^\[\[bin\]\]/,/^$/d' Cargo.toml > $d/demo/Cargo.toml
sed -i 's/^name = "vh"$/name = "demo"/' $d/demo/Cargo.lock
if [ -z "$NOINTERP" ]; then cp src/gram.rs src/interp.rs src/out.rs $d/demo/src/; cp /tmp/bugs/prelude.rs $d/demo/src/main.rs; else : > $d/demo/src/main.rs; fi
cat /tmp/bugs/$id.rs >> $d/demo/src/main.rs
cat > $d/demo.sh <<'EOS'
#!/bin/bash
# builds the little program beside this script against /repo and runs it: exit 0 = behaves as promised
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -r "$here/demo/." "$d/"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2>/dev/null || exit 3
timeout 120 "$d/target/debug/demo"
EOS
python3 - "$@" <<'EOP'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
EOP
