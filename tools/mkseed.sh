#!/bin/bash
# development helper: mkseed.sh <id> — turns the edits in the scratch copy /tmp/sw of /repo into seeded/<id>/patch.diff and
# confirms it (builds, stable tests pass, demo passes without and fails with it).  demo.rs and meta.json must lie in seeded/<id>.
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/sw
cat > $S/demo.sh <<'D'
#!/bin/bash
# exit 0 if the demonstration holds on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/c/src"; cp "$D/demo.rs" "$T/c/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ncbm = { path = "%s" }\n[workspace]\n' "$R" > "$T/c/Cargo.toml"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/c/Cargo.lock"
cd "$T/c" && CARGO_TARGET_DIR="$T/t" cargo build -q --offline || exit 2
mkdir "$T/w" && cd "$T/w" && timeout 120 "$T/t/debug/demo"
D
chmod +x $S/demo.sh
if [ "${2:-}" != keep ]; then git -C $W diff > $S/patch.diff; fi
git -C $W checkout -q -- .
(cd $W && bash $S/demo.sh >/tmp/d0.log 2>&1); a=$?
git -C $W apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
(cd $W && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=$W/target timeout 600 cargo test --offline >/tmp/t0.log 2>&1); t=$?
(cd $W && bash $S/demo.sh >/tmp/d1.log 2>&1); b=$?
git -C $W checkout -q -- .
echo "$ID: demo clean=$a (want 0) tests=$t (want 0) demo patched=$b (want nonzero) patch lines=$(grep -c '^[+-][^+-]' $S/patch.diff)"
[ $a = 0 ] && [ $t = 0 ] && [ $b != 0 ] || { tail -5 /tmp/d0.log; tail -20 /tmp/t0.log | grep -i "fail\|error"; tail -3 /tmp/d1.log; }
