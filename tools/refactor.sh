#!/bin/bash
# Applies each behaviour-preserving rewrite in selftest/ref to a scratch copy of /repo
# and runs all checks on it: every one of them has to stay quiet and decided.
cd "$(dirname "$0")/.."
for d in selftest/ref/${1:-*}.diff; do
    T=$(mktemp -d); cp -a /repo/. "$T/repo"; git -C "$T/repo" apply "$PWD/$d" || echo "!! $d does not apply"
    seq -w 1 36 | SA_ROOT=$T/repo SA_EVID=$T xargs -P 8 -I{} sh -c '/opt/venv/bin/python check.py C{} > '$T'/C{}.out 2>&1; echo "'$d' C{} rc=$? $(grep -m1 obligations '$T'/C{}.out)"' |
        grep -v 'rc=0.* 0 violated, 0 undecided' && echo "!! $d" || echo "ok $d"
    find "$T" -mindepth 1 -delete; rmdir "$T"
done
