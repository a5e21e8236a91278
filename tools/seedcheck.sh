#!/bin/bash
# Run checks on a scratch copy of /repo with a planted bug: seedcheck.sh ID Cxx...
id=$1; shift; W=/tmp/sc_$id
rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar -x -C "$W"
(cd "$W" && patch -sp1 < /verif/seeded/$id/patch.diff) || exit 1
for c in "$@"; do
    s=$(date +%s); VERIF_REPO=$W timeout 900 /verif/run $c > /tmp/sc_$id.$c.log 2>&1; rc=$?
    echo "$id $c rc=$rc $(( $(date +%s) - s ))s: $(grep -m1 -B1 '^VIOLATION' /tmp/sc_$id.$c.log | head -1 | cut -c1-300)"
done
rm -rf "$W"
