#!/bin/bash
# run.sh ID [quick|thorough]        decide a property against /repo's working tree
# run.sh ID replay FILE             run one recorded case again
# run.sh build                      build the harness only
cd "$(dirname "$0")/harness" || exit 2
export CARGO_NET_OFFLINE=true
id=$1
args=(--release --offline --quiet)
bin=target/release/vh
if [ "$id" = P22 ]; then
  args+=(--features scene --target-dir target-scene)
  bin=target-scene/release/vh
fi
log=$(mktemp)
if ! cargo build "${args[@]}" 2>"$log"; then
  tail -40 "$log"; rm -f "$log"
  echo "the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
if [ "$id" = build ]; then
  cargo build "${args[@]}" --features scene --target-dir target-scene || exit 2
  exit 0
fi
if [ "$2" = replay ]; then exec "$bin" replay "$id" "$3"; fi
exec "$bin" check "$id" "${2:-quick}"
