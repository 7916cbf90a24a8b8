#!/bin/bash
# Builds the harness and the code under test from /repo's working tree, offline.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.85.1
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
flags="-Awarnings -A invalid_reference_casting"
unset RUST_LOG
cd /verif/harness || exit 2
# never trust file times: the code under test and what links it are always rebuilt
for d in /verif/target/debug/.fingerprint/ledger-rs-lib-* /verif/target/debug/.fingerprint/verif-harness-*; do
    if [ -d "$d" ]; then rm -rf "$d"; fi
done
# the hook, or the scanner's interface, may not fit the library's present internals: without them
for cfg in "--cfg ledger_verif --cfg ledger_verif_lots --cfg verif_scan" "--cfg ledger_verif --cfg ledger_verif_lots" "--cfg ledger_verif --cfg verif_scan" "--cfg ledger_verif" "--cfg verif_scan" ""; do
    export RUSTFLAGS="$flags $cfg"
    cargo build --offline --bins "$@" && exit 0
done
exit 1
