#!/bin/sh
# Runs the scenario of demo.rs against the program in /repo: exit 0 if it behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cp -R "$here/kit" "$work/kit" && cp "$here/demo.rs" "$work/kit/src/demo.rs" || exit 2
chmod +x "$work/kit/rustc-wrapper.sh"
PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER="$work/kit/rustc-wrapper.sh"
cd "$work/kit" || exit 2
cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 || { tail -30 "$work/log"; exit 2; }
"$work/target/debug/conformance"
