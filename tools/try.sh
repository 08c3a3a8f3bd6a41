#!/bin/bash
# try.sh PATCH PROP...: runs checks against a scratch copy of /repo with PATCH applied (VF_REPO, VF_BUILD, VF_EVIDENCE: see vf/proof.py)
P=$(realpath "$1"); shift
W=/tmp/try.$$; mkdir -p "$W/ev" /tmp/trybuild
cp -a /repo "$W/repo"
git -C "$W/repo" apply "$P" || exit 3
for p in "$@"; do
 VF_REPO="$W/repo" VF_BUILD=/tmp/trybuild VF_EVIDENCE="$W/ev" timeout 900 python3 /verif/vf/check.py "$p" ${TIER:-quick} | cut -c1-${COLS:-420}; echo "rc $?/${PIPESTATUS[0]}"
 [ -n "$SHOW" ] && cat "$W/ev/$p.replay.txt" 2>/dev/null | cut -c1-300 | head -${SHOW}
done
rm -rf "/tmp/try.$$"
