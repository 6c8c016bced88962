#!/bin/bash
# mkseed.sh ID PKG: run in a scratch worktree with the change applied; packs /verif/seeded/ID from
# ID's demo_test.go.txt and meta.json (already there), the demo helper and the worktree's diff.
set -e
id=$1 pkg=$2 d=/verif/seeded/$1
git diff > $d/patch.diff
echo $pkg > $d/pkg
cp /verif/tools/demo/demo.sh $d/demo.sh
cp /verif/tools/demo/helper_$(basename $pkg | sed 's/^\.$/root/').go.txt $d/helper_test.go.txt
