#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS < main.rs : turns /repo's uncommitted diff into seeded/ID and reverts it.
set -eu
here=$(cd "$(dirname "$0")" && pwd); d="$here/../seeded/$1"
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"; [ -s "$d/patch.diff" ]
git -C /repo checkout -q -- .
cat > "$d/main.rs"
cp "$here/demolib/demo.sh" "$d/demo.sh"; chmod +x "$d/demo.sh"
cp "$here/demolib/Cargo.toml.in" "$d/Cargo.toml.in"
for m in $(grep -oE '^mod [a-z_]+;' "$d/main.rs" | sed 's/mod //;s/;//'); do cp "$here/demolib/$m.rs" "$d/"; done
python3 - "$d" "$2" "$3" "$4" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
