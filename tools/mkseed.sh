#!/bin/bash
# mkseed.sh <id> <property>: take the uncommitted change in the scratch worktree /tmp/w as a planted bug
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/w diff > $d/patch.diff
git -C /tmp/w checkout -q -- .
[ -s $d/patch.diff ] || echo "EMPTY PATCH $1"
