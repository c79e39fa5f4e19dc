#!/bin/bash
# Builds the harness against a copy of /repo in which every small change is behind a switch (VH_MUT=ID), in /tmp/mut.
# Changes that do not compile are left out. List: /tmp/mut/list.tsv
set -e
here=$(cd "$(dirname "$0")" && pwd)
M=/tmp/mut; mkdir -p $M
(cd $here/mutgen && cargo build --release --offline --quiet)
rm -rf /tmp/mut/repo /tmp/mut/harness-src
cp -a /repo $M/repo; rm -rf /tmp/mut/repo/target
mkdir -p $M/harness; cp -a $here/../harness/src $here/../harness/Cargo.toml $here/../harness/Cargo.lock $M/harness/
sed -i 's#/repo"#/tmp/mut/repo"#' $M/harness/Cargo.toml
touch $M/exclude
for round in $(seq 1 40); do
  rm -rf /tmp/mut/repo/src; cp -a /repo/src $M/repo/src
  $here/mutgen/target/release/mutgen $M/repo/src $M/exclude $M/list.tsv
  find $M/repo/src -name '*.rs' -print0 | xargs -0 rustfmt --edition 2024 --config max_width=100 2>/dev/null || true
  cd $M/harness
  feat=$1
  if cargo build --release --offline $feat --message-format json >$M/build.json 2>$M/build.err; then echo "built after $round rounds"; wc -l $M/list.tsv; exit 0; fi
  python3 $here/mutexclude.py $M || exit 1
done
