#!/bin/bash
# catch.sh [ID...]: which planted bugs their property's quick check catches (all properties with ALL=1).
V="$(cd "$(dirname "$0")/.." && pwd)"
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
for id in "$@"; do
 p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
 [ -z "$ALL" ] || p=$(python3 -c "import json;print(' '.join(c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']))")
 "$V/tools/try.sh" "$V/seeded/$id/patch.diff" $p 2>&1 | sed "s/^/$id /"
done
