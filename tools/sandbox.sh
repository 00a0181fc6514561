#!/bin/bash
# sandbox.sh PATCH ID...   runs checks against a scratch copy of /repo with PATCH applied
# (PATCH may be "revert:COMMIT" or "-" for none). Copies live in /tmp/sb.$$ and are removed.
# Env TESTS=1 runs the repository's tests there as well.
p=$1; shift
[ -f "$p" ] && p=$(realpath "$p")
S=${SB:-/tmp/sb}
mkdir -p $S
if [ ! -d $S/repo ]; then git -C /repo worktree add -q --detach $S/repo HEAD; fi
git -C $S/repo checkout -q -- . && git -C $S/repo checkout -q --detach "$(git -C /repo rev-parse HEAD)" && git -C $S/repo clean -qfd -e target
mkdir -p $S/verif/sim
rsync -a --delete --exclude target /verif/sim/ $S/verif/sim/ 2>/dev/null || { cp -a /verif/sim/src /verif/sim/Cargo.* /verif/sim/.cargo $S/verif/sim/; }
cp /verif/check.sh $S/verif/; cp /verif/known_findings.txt $S/verif/ 2>/dev/null
cd $S/repo || exit 2
case "$p" in
-) ;;
revert:*) git revert -n "${p#revert:}" >/dev/null 2>&1 || { git revert --abort 2>/dev/null; git checkout -q -f; echo "revert conflicts"; exit 3; }; git reset -q ;;
*) git apply "$p" || exit 3 ;;
esac
if [ -n "$TESTS" ]; then
    . /opt/vp/env.sh >/dev/null 2>&1
    (cargo test --offline --workspace 2>&1 || true) | grep -E "^test result|FAILED|failed|error" | head -20
fi
for id in "$@"; do
    out=$(cd $S/verif && timeout 880 ./check.sh $id quick 2>&1); rc=$?
    echo "$id rc=$rc $(echo "$out" | grep -E '^(violation:|VIOLATION|build failed)' | head -1 | cut -c1-${W:-260})"
done
