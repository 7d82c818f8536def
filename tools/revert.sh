#!/bin/bash
# tools/revert.sh PROPERTY COMMIT -- runs a check against /repo without one of its fixes
D=/tmp/rev.$$; git -C /repo worktree add -q --detach $D HEAD && cd $D && git revert -n $2 >/dev/null 2>$D.err || { echo "cannot revert $2"; cat $D.err | head -3; }
cd /verif; TRAJOPT_REPO=$D python3 bin/check.py $1 2>&1 | tail -${3:-4} | cut -c1-220
git -C /repo worktree remove --force $D; rm -f $D.err
