#!/bin/bash
# mkseed.sh ID PROP "needs" "what it breaks": keeps the change in /tmp/seed/repo (a copy of /repo) with demo /tmp/seed/main.rs as /verif/seeded/ID,
# after confirming that it builds, passes the stable tests and that the demo tells the trees apart.
set -e
id=$1; d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/seed/repo diff > $d/patch.diff
[ -s $d/patch.diff ]
cp /tmp/seed/main.rs $d/main.rs
cat > $d/demo.sh <<'D'
#!/bin/bash
# run with the repository as the current directory; exit 0 when the property holds for the inputs of main.rs
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
graph_safe_compare = { path = "$repo", features = ["fastrand", "oorandom"] }
T
cd "$w"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTFLAGS=-Awarnings cargo build -q --offline 2>"$w/err" || { tail -20 "$w/err"; exit 2; }
timeout -k 1 60 "$w/target/debug/demo"
D
chmod +x $d/demo.sh
python3 - "$id" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
(cd /repo && git diff --quiet && bash $d/demo.sh) || { echo "demo fails on the unchanged tree"; exit 1; }
(cd /tmp/seed/repo && if bash $d/demo.sh; then echo "demo does not fail with the change"; exit 1; fi)
echo "demo ok"
[ -n "$SKIPTESTS" ] || ( cd /tmp/seed/repo && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test .*FAILED|^error|panicked' | head; cd test_no_std && cargo test --features graph_safe_compare/wyrng --offline -- --test-threads 8 2>&1 | grep -E 'FAILED|^error' | head; true)
