#!/bin/bash
# all self-test corpora; prints what is not as expected
cd "$(dirname "$0")/.."
for f in selftest/c*.txt; do echo "== $f"; timeout 3000 /opt/venv/bin/python tools/mut.py $f 2>&1 | grep -A1 '!!'; done
