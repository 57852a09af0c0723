#!/bin/sh
# mkbug.sh ID: take the working-tree change of /repo as the planted bug ID and undo it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
test -s $d/patch.diff
git -C /repo checkout -q -- .
