#!/bin/bash
# Runs in the repository after its build: exit 0 when the behaviour is right.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/demo/src" "$work/scratch"
cp "$here/demo.rs" "$work/demo/src/main.rs"
cp "$repo/Cargo.lock" "$work/demo/Cargo.lock" 2>/dev/null
cat >"$work/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
spreadsheet-ods = { path = "$repo" }
chrono = "0.4"
[profile.dev]
debug = false
T
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
if ! cargo build --offline --quiet --manifest-path "$work/demo/Cargo.toml" 2>"$work/log"; then
    cat "$work/log" >&2
    exit 2
fi
cd "$work/scratch" || exit 2
timeout 60 "$CARGO_TARGET_DIR/debug/demo" "$work/scratch"
