#!/bin/sh
# builds demo.rs against the Rust client of the current directory's repository and runs it
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -R "$here/kit" "$t/kit"; mkdir -p "$t/kit/src"; cp "$here/demo.rs" "$t/kit/src/main.rs"
sed -i "s#path = \"/repo/rust-client\"#path = \"$(pwd)/rust-client\"#" "$t/kit/Cargo.toml"
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true
cd "$t/kit" && cargo build --offline --quiet --bin clients --target-dir "$t/target" $(cat "$here/features" 2>/dev/null) 2>"$t/log" || { tail -20 "$t/log"; exit 9; }
"$t/target/debug/clients"
