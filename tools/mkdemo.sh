#!/bin/bash
# mkdemo.sh <id>: assembles seeded/<id>/demo.rs from seeded/<id>/body.rs and the common part
set -e
cd "$(dirname "$0")/.."
d=${SEEDS:-seeded}/$1
cat tools/demo/common.rs "$d/body.rs" > "$d/demo.rs"
rm "$d/body.rs"
cp tools/demo/demo.sh "$d/demo.sh"
