#!/bin/bash
# tryseed.sh ID [PROP...]: confirms a planted bug in a scratch copy, then runs checks against it
id=$1; shift
s=/verif/seeded/$id
d=/tmp/seed/$id
rm -rf "$d"; mkdir -p "$d"
cp -a /repo "$d/repo"
cd "$d/repo" || exit 2
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
bash "$s/demo.sh" >"$d/demo0.log" 2>&1; a=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
t=$(CARGO_PROFILE_DEV_DEBUG=line-tables-only timeout 600 cargo test --workspace --no-fail-fast --offline 2>&1 | grep -c '\.\.\. ok$')
bash "$s/demo.sh" >"$d/demo1.log" 2>&1; b=$?
echo "$id: tests ok $t/15, demo unchanged $a, demo patched $b ($(tail -1 $d/demo1.log | cut -c1-150))"
[ $# = 0 ] && { rm -rf "$d"; exit; }
mkdir -p "$d/v"
cp -a /verif/check.sh "$d/v/"; mkdir "$d/v/mc"; cp -a /verif/mc/src /verif/mc/Cargo.* "$d/v/mc/"
sed -i "s#path = \"/repo\"#path = \"$d/repo\"#" "$d/v/mc/Cargo.toml"
for p in "$@"; do
  t0=$(date +%s)
  bash "$d/v/check.sh" $p >"$d/$p.log" 2>&1; r=$?
  echo "  $p: exit $r, $(($(date +%s)-t0)) s: $(grep -a '^observed' $d/$p.log | cut -c1-160)"
done
[ -n "$KEEP" ] || rm -rf "$d"
