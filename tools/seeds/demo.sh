#!/bin/bash
# Run in the repository: builds the demonstration against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=$PATH:/root/.cargo/bin CARGO_NET_OFFLINE=true
unset RUSTFLAGS
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/main.rs" "$here/common.rs" "$t/src/"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
http-box = { path = "$repo" }
[workspace]
T
if [ -f "$here/shipped" ]; then printf '[profile.dev]\ndebug-assertions = false\noverflow-checks = false\n' >> "$t/Cargo.toml"; fi
cp "$repo/Cargo.lock" "$t/" 2>/dev/null
export CARGO_TARGET_DIR="$t/target"
if [ -f "$here/machine" ]; then
    # on a machine of another kind, in the interpreter
    export XDG_CACHE_HOME="$t/cache" MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"
    m=$(cat "$here/machine")
    mkdir -p "$t/cache"
    cd "$t" || exit 99
    cargo +nightly miri setup --target "$m" >"$t/log" 2>&1 || { cat "$t/log"; exit 0; }
    timeout 200 cargo +nightly miri run --offline -q --target "$m" 2>&1 | grep -v '^ *|\|^warning' | tail -5
    exit "${PIPESTATUS[0]}"
fi
(cd "$t" && cargo build --offline -q) >"$t/log" 2>&1 || { cat "$t/log"; exit 98; }
cd "$t" && timeout 120 "$t/target/debug/demo"
