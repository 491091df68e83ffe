#!/bin/bash
# tools/reseed.sh ID  apply an existing seeded patch back to /repo (to rebuild it with seed.sh)
git -C /repo apply /verif/seeded/$1/patch.diff
