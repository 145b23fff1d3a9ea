#!/bin/bash
# Build the checker against /repo's current working tree, offline.
set -eu
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target RUSTC_WRAPPER=
mkdir -p /verif/target
exec 9>/verif/target/.check-lock
flock 9
# Cargo goes by modification times; go by contents.
now=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
if [ "$(cat /verif/target/.repo-hash 2>/dev/null || true)" != "$now" ]; then
  rm -rf /verif/target/release/.fingerprint/financelib-* /verif/target/release/.fingerprint/fincheck-*
fi
cd /verif/harness
cargo build --release --offline --locked 2>/verif/target/build.log || { cat /verif/target/build.log >&2; exit 2; }
echo "$now" > /verif/target/.repo-hash
