#!/bin/bash
# check.sh ID [tier] [extra wsym options]: builds everything from /repo's working tree, then decides the property.
cd "$(dirname "$0")" || exit 2
. ./lib.sh
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
pids=""
build_engine & pids="$pids $!"
case $id in C21) modes="";; C13|C14|C16) modes="tcod legacyd";; C18) modes="tco legacy tco-instr legacy-instr";; *) modes="tco legacy";; esac
for m in $modes; do build_harness ${m/-/ } & pids="$pids $!"; done
[ "$id" = C21 ] && for m in tco legacy; do build_cli $m & pids="$pids $!"; done
for p in $pids; do wait $p || { echo "build failed"; exit 2; }; done
exec "$B/wsym/release/wsym" "$id" --tier "$tier" --build "$B" --evidence "$V/evidence" --known "$V/known_findings.txt" "$@"
