#!/bin/bash
# builds the driver (if needed) and runs it
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
if ! out=$(CARGO_TARGET_DIR="$PWD/target/driver" cargo build -q --offline --manifest-path driver/Cargo.toml 2>&1); then
  echo "$out" >&2
  exit 2
fi
exec "$PWD/target/driver/debug/pdv" "$@"
