#!/bin/bash
# regress.sh: reverts each repair of /repo in a scratch copy and lists the checks that notice.
export T=$(cd "$(dirname "$0")" && pwd)
one() { echo "$("$T/mutant.sh" -r "$1" 2>&1) <- $(git -C /repo log -1 --format=%s "$1")"; }
export -f one
git -C /repo log --format=%h --grep='^fix:' | xargs -P 6 -I{} bash -c 'one {}'
