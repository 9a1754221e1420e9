#!/bin/bash
# Runs every check (8 in parallel) against $PA_ROOT (default /repo); prints the last line of each.
cd "$(dirname "$0")/.."
ids=${*:-$(/usr/bin/python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}
printf '%s\n' $ids | xargs -P 8 -I{} sh -c '/usr/bin/python3 check.py {} >/tmp/pa_out_{}.txt 2>&1; grep -h "^OK\|^FAIL\|^ERROR" /tmp/pa_out_{}.txt; grep -h "^  " /tmp/pa_out_{}.txt | head -2 | cut -c1-250' | sort
