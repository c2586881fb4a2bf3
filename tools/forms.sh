#!/bin/bash
# Records the forms of the loops of /repo's functions, which the hints of the contracts are written for, and their literals.
cd "$(dirname "$0")/.." || exit 1
T=$(mktemp -d)
for u in wire ctx build parse; do
  [ -f contracts/$u.unit ] || continue
  ./extract/target/debug/extract --repo /repo --contracts contracts --unit $u --out $T/$u.rs --index $T/$u.json --external "" >/dev/null || exit 1
  python3 - $T/$u.json contracts/$u.forms.json <<'P'
import json, sys
d = json.load(open(sys.argv[1]))
r = {f["key"]: f["loops"] for f in d["functions"] if f["loops"]}
open(sys.argv[2], "w").write("{\n" + ",\n".join("%s: %s" % (json.dumps(k), json.dumps(r[k])) for k in sorted(r)) + "\n}\n")
P
done
rm -rf "$T"
./extract/target/debug/extract --repo /repo --literals > contracts/literals.txt
