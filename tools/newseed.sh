#!/bin/bash
# tools/newseed.sh ID PROP NEEDS BREAKS < demo.rs : keeps the edit that is in /repo's working tree as a planted bug, and undoes it
D=/verif/seeded/$1; mkdir -p $D
git -C /repo diff > $D/patch.diff; [ -s $D/patch.diff ] || { echo "no edit in /repo"; exit 1; }
git -C /repo checkout -q -- .
cat > $D/demo.rs
cp /verif/harness/src/http.rs $D/http.rs; cp /verif/harness/Cargo.lock $D/lock
cat > $D/demo.sh <<'S'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$here/http.rs" "$t/src/http.rs"; cp "$here/lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<C
[package]
name = "falsify"
version = "0.1.0"
edition = "2018"
[dependencies]
rustful = { path = "$repo" }
hyper = { version = "0.10", default-features = false }
url = "1"
anymap = "0.12"
serde_json = "1"
[profile.dev]
debug = 0
incremental = false
[workspace]
C
cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 280 cargo run --offline --quiet
S
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
