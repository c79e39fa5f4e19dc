#!/bin/bash
# seedcopy.sh [-a] [-j DIR] [ID...]: like runseeds.sh, but on a copy of /repo and of the harness under DIR
# (default /tmp/sr), so that both can be worked on meanwhile. Prints one line per planted bug.
V=$(cd "$(dirname "$0")/.." && pwd)
all=; D=/tmp/sr
while :; do case "$1" in -a) all=1; shift;; -j) D=$2; shift 2;; *) break;; esac; done
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls "$V/seeded"))
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
mkdir -p "$D/root"; rm -rf "$D/repo"; git clone -q /repo "$D/repo" || exit 2
cp /repo/Cargo.lock "$D/repo/" 2>/dev/null
rsync -a --delete --exclude target --exclude 'target-*' "$V/harness/" "$D/harness/" 2>/dev/null || { mkdir -p "$D/harness"; (cd "$V/harness" && tar cf - --exclude=./target --exclude='./target-*' .) | (cd "$D/harness" && tar xf -); }
sed -i "s#\"/repo\"#\"$D/repo\"#; s#path = \"[./]*repo\"#path = \"$D/repo\"#" "$D/harness/Cargo.toml"
cp "$V/known-findings.txt" "$D/root/"
for id in "${ids[@]}"; do
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
  git -C "$D/repo" apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  (cd "$D/harness" && cargo build --release --offline --features scene -q 2>/dev/null) || echo "$id: does not build"
  checks=$prop; [ -n "$all" ] && checks=$(seq -f 'P%02g' 1 28)
  line="$id ($prop):"
  for c in $checks; do
    s=$(date +%s)
    VH_ROOT=$D/root timeout 900 "$D/harness/target/release/vh" check $c quick > "$D/out" 2>&1; rc=$?
    [ $rc = 1 ] && ! grep -q "^VIOLATION property=$c " "$D/out" && rc=1novio
    [ -n "$all" ] && [ $rc = 0 ] || line="$line $c=$rc/$(( $(date +%s) - s ))s"
  done
  echo "$line"
  git -C "$D/repo" checkout -q -- .
done
