#!/bin/bash
# usage: mutate.sh revert COMMIT PROP... | patch FILE PROP...   runs checks on a scratch copy of /repo with the change
how=$1; what=$2; shift 2
W=/tmp/wt.$$; rm -rf "$W"; git -C ${RR:-/repo} worktree add -q --detach "$W" ${RC:-HEAD} || exit 2
trap 'git -C /repo worktree remove --force '"$W" EXIT
cd "$W"
if [ "$how" = revert ]; then git revert -n "$what" >/dev/null 2>&1 || { echo "CONFLICT $what"; exit 3; }
else git apply "$what" || { echo "DOES NOT APPLY $what"; exit 3; }; fi
for p in "$@"; do out=$(VERIF_REPO=$W python3 ${VR:-/verif}/run.py $p $MUT_ARGS 2>&1); rc=$?; echo "$what $p rc=$rc $(echo "$out" | grep -o 'VIOLATION.*' | sed 's/.*replays.//' | tr '\n' ' ') $(echo "$out" | grep -m1 tier=)"; [ $rc -ne 0 ] && [ $rc -ne 1 ] && echo "$out" | tail -5; done
