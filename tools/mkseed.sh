#!/bin/bash
# mkseed.sh ID: record /repo's uncommitted change as seeded/ID/patch.diff and restore /repo
set -e
mkdir -p /verif/seeded/$1
git -C /repo diff > /verif/seeded/$1/patch.diff
git -C /repo checkout -- .
wc -l /verif/seeded/$1/patch.diff
