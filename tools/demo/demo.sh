#!/bin/bash
# Runs demo.rs (beside this script) as an example of the library in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
root="$PWD"
name="vp_demo_$$"
dst="$root/iris-mpc/examples/$name.rs"
trap 'rm -f "$dst"' EXIT
mkdir -p "$root/iris-mpc/examples"
cat "$here/demo.rs" > "$dst"
cargo build -q --offline --locked -p iris-mpc --example "$name" || { echo "demo does not build"; exit 3; }
timeout 200 "$root/target/debug/examples/$name"
rc=$?
rm -f "$root/target/debug/examples/$name" "$root"/target/debug/examples/"$name"-* "$root/target/debug/examples/$name.d"
exit $rc
