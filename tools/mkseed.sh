#!/bin/bash
# mkseed.sh ID PROPERTY : takes the current uncommitted diff of /repo as the seeded change, then reverts it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
test -s $d/patch.diff
