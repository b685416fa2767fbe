#!/bin/bash
# plant.sh ID PROP  : expects /tmp/plants/ID.py (edits cwd repo), /tmp/plants/ID.rs, /tmp/plants/ID.json
id=$1; prop=$2; d=/verif/seeded/$id
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
mkdir -p $d
if [ -f /tmp/plants/$id.sh ]; then cp /tmp/plants/$id.sh $d/demo.sh; else
cat > $d/demo.sh <<'D'
#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"
FEATURES="FEAT"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
kdl = { path = "$PWD", features = [$FEATURES] }
serde = { version = "1", features = ["derive"] }
[workspace]
T
cp "$PWD/Cargo.lock" "$w/Cargo.lock" 2>/dev/null
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 250 cargo run --offline -q
D
f=$(python3 -c "import json;print(json.load(open('/tmp/plants/$id.json')).get('features',''))")
sed -i "s|FEAT\"|$f\"|" $d/demo.sh
[ -n "$f" ] && sed -i "s|FEATURES=.*|FEATURES='$f'|" $d/demo.sh
cp /tmp/plants/$id.rs $d/main.rs; fi
chmod +x $d/demo.sh
python3 /tmp/plants/$id.py || exit 8
git diff > $d/patch.diff
python3 - <<P
import json
j=json.load(open('/tmp/plants/$id.json')); j.pop('features',None); j={'property':'$prop',**j}
json.dump(j,open('$d/meta.json','w'),indent=1)
P
bash /opt/vp/build.sh >/tmp/plants/$id.build 2>&1 || { echo "$id BUILD FAIL"; tail -5 /tmp/plants/$id.build; git checkout -q -- .; exit 7; }
bash /opt/vp/test.sh /tmp/plants/$id.test >/dev/null 2>&1
python3 - <<P
import json
o=json.load(open('/tmp/plants/$id.test')); b=json.load(open('/opt/vp/BASELINE.json'))
print('$id tests:', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})
P
(cd /repo && bash $d/demo.sh >/tmp/plants/$id.demo1 2>&1); echo "$id demo patched rc=$? $(grep -m1 panicked -A1 /tmp/plants/$id.demo1 | tail -1 | cut -c1-150)"
if [ -z "$NOCHECK" ]; then for c in ${3:-$prop}; do (cd /verif && VERIF_NO_EVIDENCE=1 timeout 900 bash run.sh $c >/tmp/plants/$id.chk 2>&1; echo "$id check $c rc=$? $(grep -m1 -A2 VIOLATION /tmp/plants/$id.chk | tr '\n' ' ' | cut -c1-300)"); done; fi
git checkout -q -- .
(cd /repo && bash $d/demo.sh >/tmp/plants/$id.demo0 2>&1); echo "$id demo clean rc=$?"
