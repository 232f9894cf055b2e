#!/bin/bash
# newseed.sh ID: captures /repo's working-tree change as the patch of a seeded bug
d=/verif/seeded/$1; mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"; git -C /repo checkout -q -- .
cp /verif/tools/demo/demo.sh "$d/demo.sh"; cp /verif/sim/Cargo.lock "$d/Cargo.lock"
sed -i 's/^name = "sim"/name = "demo"/; ' "$d/Cargo.lock"
