#!/bin/bash
# dev helper: seedtest.sh ID [checks...] : build a scratch copy of /repo with the
# seeded change, run stable tests and demo there (before/after), then the checks against it.
# The scratch copy is removed afterwards.
id=$1; shift
S=/verif/seeded/$id
W=/tmp/seedw.$id
rm -rf "$W"; git -C /repo worktree prune; mkdir -p "$W"
git -C /repo archive HEAD | tar x -C "$W"
cd "$W" || exit 1
git init -q . 2>/dev/null
git apply --check "$S/patch.diff" || { echo "PATCH does not apply"; exit 1; }
sed "s#/repo#$W#g" $S/demo.sh > /dev/null
(cd /repo && bash "$S/demo.sh" > /tmp/seed.$id.clean 2>&1); echo "demo clean rc=$?"
git apply "$S/patch.diff"
(cd "$W" && bash "$S/demo.sh" > /tmp/seed.$id.bug 2>&1); echo "demo patched rc=$? (want nonzero)"; tail -2 /tmp/seed.$id.bug
for c in "$@"; do
  VT_REPO=$W python3 /verif/checks/$c.py quick > /tmp/seed.$id.$c.log 2>&1; echo "check $c rc=$? (want 1)"; grep -m2 "why:\|TOOL" /tmp/seed.$id.$c.log | cut -c1-300
done
rm -rf "$W"
