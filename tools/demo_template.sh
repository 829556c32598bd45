#!/bin/bash
# run with cwd = the repository; exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
sed -i 's/^name = "actiondb"$/name = "actiondb"/' "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
actiondb = { path = "$repo" }
[workspace]
T
cd "$tmp" || exit 3
export CARGO_TARGET_DIR="$tmp/target"
cargo run --offline -q 2>&1
rc=$?
cd /
exit $rc
