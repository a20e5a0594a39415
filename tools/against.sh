#!/bin/sh
# usage: tools/against.sh PATCH ID...   run checks against a scratch copy of /repo with PATCH applied
#        tools/against.sh -R COMMIT ID...  with COMMIT reverted
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
if [ "$1" = "-R" ]; then
  git -C "$d/repo" -c user.email=a@b -c user.name=x revert --no-edit "$2" >/dev/null 2>&1 || { echo "revert conflict"; exit 3; }
  what=$2; shift 2
else
  git -C "$d/repo" apply "$(realpath "$1")" || exit 3
  what=$1; shift
fi
for id in "$@"; do
  SUBSETTER_REPO="$d/repo" "$(dirname "$0")/../check" "$id" > "$d/out" 2>&1
  rc=$?
  echo "== $what $id rc=$rc"
  grep -E "VIOLATION|^message|harness|Error" "$d/out" | head -4 | cut -c1-400
done
