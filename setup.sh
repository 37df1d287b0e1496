#!/bin/bash
# Builds the replay programs once, so that the checks find their dependencies compiled.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/build/replay-target" PATH="/root/.cargo/bin:$PATH"
cd replay || exit 1
feats=$(python3 - <<'P'
import re
print(",".join(re.findall(r'^(c\d\d) = ', open('Cargo.toml').read(), re.M)))
P
)
cargo build --offline --release --features "$feats" >/dev/null 2>../build/setup.log || { tail -20 ../build/setup.log; exit 1; }
exit 0
