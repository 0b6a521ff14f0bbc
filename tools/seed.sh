#!/bin/bash
# seed.sh ID... - evaluate planted bugs in scratch copies of /repo
#   applies? builds? tests pass? demo passes without / fails with the patch?
#   is it caught by the check of its property?
export PATH=/opt/venv/bin:$PATH LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
    dir=$here/seeded/$id
    prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$dir/meta.json")
    work=$(mktemp -d /tmp/seed.XXXXXX)
    cp -a /repo "$work/repo"; cp -a "$dir" "$work/demo"
    cd "$work/repo" || exit 1
    res="$id $prop"
    timeout 300 bash "$work/demo/demo.sh" >"$work/clean.log" 2>&1 && res="$res clean:ok" || res="$res clean:FAIL"
    if git apply "$dir/patch.diff"; then
        timeout 300 bash "$work/demo/demo.sh" >"$work/bug.log" 2>&1 && res="$res bug:NOT-SHOWN" || res="$res bug:ok"
        if [ -z "$NOTEST" ]; then
            PYTHONPATH=$PWD/src_py PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p hat.doit.pytest --unit --perf \
                -p no:cacheprovider --timeout=120 --continue-on-collection-errors \
                --ignore=test_pytest/test_common/test_collection.py \
                --ignore=test_pytest/test_common/test_collection_perf.py \
                --ignore=test_pytest/test_common/test_subscription.py \
                --ignore=test_pytest/test_common/test_subscription_perf.py \
                --basetemp="$work/pytest" >"$work/test.log" 2>&1
            res="$res tests:[$(tail -1 "$work/test.log")]"
        fi
        if [ -z "$NOCHECK" ]; then
            out=$(cd "$here" && MC_REPO=$work/repo timeout 900 ./check.sh "$prop" 2>/dev/null); rc=$?
            res="$res check:rc=$rc $(printf '%s' "$out" | grep -m1 "^VIOLATION property=$prop" | cut -c1-60)"
        fi
    else
        res="$res NOT-APPLIED"
    fi
    echo "$res"
    if [ -n "$VERBOSE" ]; then tail -5 "$work/clean.log" "$work/bug.log"; grep -E '^(FAILED|ERROR)' "$work/test.log"; fi
    cd /; rm -rf "$work"
done
