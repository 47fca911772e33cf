#!/bin/bash
# mutant.sh PATCH|-r COMMIT [ID...]: runs the checks on a scratch copy of /repo with a patch applied (or a commit reverted).
# Prints which checks report a violation. Scratch copies live under /tmp and are removed.
here=$(cd "$(dirname "$0")/.." && pwd)
"$here/check.sh" build || exit 2
d=$(mktemp -d /tmp/gmut.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/r" "$d/v"
git -C /repo archive HEAD | tar -x -C "$d/r"
cp "$here/known-findings.txt" "$d/v/"
if [ "$1" = -r ]; then
	git -C /repo diff "$2" "$2~1" > "$d/p"; name=$2; shift 2
else
	cp "$1" "$d/p"; name=$1; shift
fi
(cd "$d/r" && git init -q . && git apply --recount "$d/p" 2>"$d/err" || patch -p1 -s <"$d/p" >"$d/err" 2>&1) || { echo "$name: does not apply: $(head -1 "$d/err")"; exit 3; }
ids=${*:-all}
out=$(GCHECK_REPO=$d/r GCHECK_VERIF=$d/v "$here/bin/gcheck" $ids)
echo "$name: $(echo "$out" | sed -n 's/^VIOLATION property=\([^ ]*\).*/\1/p' | tr '\n' ' ')"
[ -n "$V" ] && echo "$out" | grep -v "obligations, 0 open"
exit 0
