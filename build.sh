#!/bin/bash
# usage: build.sh BIN...   builds harness binaries against /repo's working tree with the hooks on
set -e
[ -f /opt/vp/etc/env.sh ] && source /opt/vp/etc/env.sh
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target
cd /verif/harness
args=()
for b in "$@"; do args+=(--bin "$b"); done
[ ${#args[@]} -eq 0 ] && args=(--bins)
exec cargo build --offline --locked -q --config 'build.rustflags=["-Wdependency_on_unit_never_type_fallback","-Awarnings","--cfg","coerce_verif"]' "${args[@]}"
