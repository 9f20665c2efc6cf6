#!/bin/bash
# Runs guest.wasm in the interpreter built in the current directory (both dispatchers) and compares what it prints.
# cases.txt: command-line arguments | expected text (a fixed string that the output must contain)
export PATH="$PATH:/opt/wasmtime/bin"
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d) || exit 2
trap 'find "$S" -delete' EXIT
cp "$D"/*.wasm "$S"
rc=0
for m in tco legacy; do
  vm="$PWD/target/vp/$m/wasm32-wasip1/release/chiwawa.wasm"
  [ -f "$vm" ] || { echo "no $vm"; exit 2; }
  while IFS='|' read -r args want; do
    [ -z "$args" ] && continue
    read -r -a a <<< "$args"
    got=$(cd "$S" && timeout 100 wasmtime run -C cache=n --dir . "$vm" "${a[@]}" 2>&1)
    if [[ "$got" != *"$want"* ]]; then echo "$m: $args: wanted '$want', got '$got'"; rc=1; fi
  done < "$D/cases.txt"
done
exit $rc
