#!/bin/sh
# usage: tools/plant.sh NAME   validates seeded/NAME: demo passes on the unchanged tree, patch applies,
# builds, passes the tests, demo fails with the patch.  With EDIT=script first makes the patch:
# the python script is run in the scratch copy to edit the sources.
v=$(cd "$(dirname "$0")/.." && pwd)
s=$v/seeded/$1
d=$(mktemp -d /tmp/plant.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
cd "$d/repo" || exit 2
if [ -n "$EDIT" ]; then
  python3 "$EDIT" || exit 3
  git diff > "$s/patch.diff"
  git checkout -q -- .
fi
mkdir "$d/demo"; cp "$s"/* "$d/demo"; rm -f "$d/demo/patch.diff" "$d/demo/meta.json"
run() { timeout 300 sh "$d/demo/demo.sh" > "$d/out" 2>&1; }
run || { echo "$1: demo fails on unchanged tree"; tail -5 "$d/out"; exit 1; }
git apply "$s/patch.diff" || { echo "$1: does not apply"; exit 1; }
run && { echo "$1: demo passes with patch"; exit 1; }
tail -2 "$d/out"
if [ -z "$NOTEST" ]; then
RUN=$(mktemp -d /tmp/st.XXXXXX); chown subsetter-test:subsetter-test "$RUN"
chmod a+rx "$d" "$d/repo"; chmod -R a+rX "$d/repo/subsetter" "$d/repo/tests" "$d/repo/pyproject.toml"
env -i HOME="$RUN" TMPDIR="$RUN" LANG=C.UTF-8 TZ=UTC PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin \
    PYTHONPATH="$d/repo" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$RUN/pyc" PYTHONHASHSEED=0 \
    setpriv --reuid subsetter-test --regid subsetter-test --clear-groups \
    /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=300 --basetemp="$RUN/p" \
    --postgresql-exec=/usr/lib/postgresql/16/bin/pg_ctl > "$d/t" 2>&1
rc=$?; pkill -KILL -f "$RUN/p"; rm -rf "$RUN"
[ $rc = 0 ] || { echo "$1: tests fail"; tail -5 "$d/t"; exit 1; }
tail -1 "$d/t"
fi
echo "$1: ok"
