#!/bin/bash
# check.sh ID [TIER]: builds from /repo's working tree, then decides the property on generated cases.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
cd /verif || exit 2
log=$(mktemp) || exit 2
if ! bash /verif/build.sh >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "the harness does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec /verif/target/debug/harness run "$id" "$tier" "$seed" /verif
