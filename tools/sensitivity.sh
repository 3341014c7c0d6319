#!/bin/bash
# sensitivity.sh [SECONDS [COMMIT...]]   every repair listed in known-findings.txt, reverted in a scratch copy of /repo
# (on its own), must make the check of its property report a violation.
set -u
cd "$(dirname "$0")/.." || exit 2
ROOT=$PWD; W=${1:-45}; shift; ONLY=$*
T=$(mktemp -d /tmp/sensitivity.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir "$T/verif"
cp -a check.sh harness sim "$T/verif/"
git clone -q /repo "$T/repo"
cp /repo/Cargo.lock "$T/repo/" 2>/dev/null
find "$T/verif/harness" -name '*.toml' -exec sed -i "s#/repo/xtra#$T/repo/xtra#; s#\"\(\.\./\)*\.\./repo/xtra#\"$T/repo/xtra#" {} +
grep -q "$T/repo/xtra" "$T/verif/harness/Cargo.toml" || { echo "the harness does not use the copy"; exit 2; }
bad=0
while read -r _ prop commit what; do
  P=${prop#property=}
  [ -n "$ONLY" ] && [[ " $ONLY " != *" $commit "* ]] && continue
  git -C "$T/repo" reset -q --hard
  # a hand-made reversal of this repair, where later ones touch the same lines, otherwise git's
  if [ -e "$ROOT/tools/unfix/$commit.diff" ]; then
    git -C "$T/repo" apply "$ROOT/tools/unfix/$commit.diff"
  else
    git -C "$T/repo" revert -n "$commit" >/dev/null 2>&1
  fi || { echo "$P $commit: cannot be reverted on its own"; bad=1; continue; }
  out=$(cd "$T/verif" && mkdir -p evidence replays && XSIM_WALL=$W ./check.sh "$P" 2>"$T/err")
  rc=$?
  echo "$P $commit: exit $rc $(printf '%s\n' "$out" | grep -m1 VIOLATION)"
  [ $rc = 1 ] || { bad=1; tail -3 "$T/err"; }
done < <(grep '^fixed: ' known-findings.txt)
exit $bad
