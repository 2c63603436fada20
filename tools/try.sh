#!/bin/bash
# try.sh SEED PROP...: runs the checks with a planted bug
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
for p in "${@:2}"; do (cd /verif && ./run.sh $p 2>&1 | grep -v "^  case" | tail -4 | cut -c1-300; ) ; done
git -C /repo checkout -- .
