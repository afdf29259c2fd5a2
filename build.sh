#!/bin/bash
# Builds the model checker against /repo's current working tree.  Prints the path of the binary.
# With the guarded hook (cfg ruq_verif) if the tree still supports it, otherwise without.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
unset RUSTC_WRAPPER RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export PATH="/usr/local/bin:/usr/bin:/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$V/harness" || exit 2
exec 9>"$V/.build.lock"
flock 9
build() { # target-dir cargo-args...
    local t=$1
    shift
    # cargo goes by mtime: always compile ruq itself again, whatever the mtimes say
    if [ -d "$t/debug/.fingerprint" ]; then
        find "$t/debug/.fingerprint" -mindepth 1 -maxdepth 1 -name 'ruq-*' -exec rm -r -- {} +
    fi
    cargo build --offline --locked --target-dir "$t" "$@" >"$t.log" 2>&1
}
if RUSTFLAGS="--cfg ruq_verif" build "$V/target" --features hook; then
    echo "$V/target/debug/ruqmc"
elif build "$V/target-nohook"; then
    echo "note: built without the hook, see $V/target.log" >&2
    echo "$V/target-nohook/debug/ruqmc"
else
    tail -40 "$V/target-nohook.log" >&2
    exit 2
fi
