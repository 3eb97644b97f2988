#!/bin/bash
# newseed.sh <id> <property> : makes seeded/<id> from the diff of /tmp/work (a scratch clone), demo.rs at /tmp/demo.rs
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/work diff > $d/patch.diff
cp /verif/tools/demo/demo.sh /verif/tools/demo/fx.rs $d/
cp /tmp/demo.rs $d/demo.rs
git -C /tmp/work checkout -q -- .
