# Shared build environment: everything is rebuilt from /repo's working tree.
export RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true
export PATH="$PATH:/opt/wasmtime/bin"
V=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
B=$V/build
mkdir -p "$B"
FEAT="+bulk-memory,+mutable-globals,+nontrapping-fptoint,+reference-types,+sign-ext"
build_engine() { (cd "$V/wsym" && CARGO_TARGET_DIR="$B/wsym" cargo build --release --offline -q); }
# build_harness MODE [extra features]; MODE: tco, legacy, or either with a d for dense checkpoint polling
build_harness() {
  local f="" x="$FEAT" c=""
  case $1 in tco*) f=tco; x="$FEAT,+multivalue,+tail-call";; esac
  case $1 in *d) c="--cfg chiwawa_dense_poll";; esac
  [ -n "$2" ] && f="$f${f:+,}$2"
  (cd "$V/harness" && RUSTFLAGS="-C target-feature=$x $c -A warnings" CARGO_TARGET_DIR="$B/h-$1${2:+-$2}" \
    cargo build --release --offline -q --target wasm32-wasip1 ${f:+--features $f} && \
    cp "$B/h-$1${2:+-$2}/wasm32-wasip1/release/harness.wasm" "$B/$1${2:+-$2}.wasm")
}
# build_cli MODE: the command-line program itself (tco or legacy)
build_cli() {
  local f=wasmtime x="$FEAT"
  [ "$1" = tco ] && { f=wasmtime,tco; x="$FEAT,+multivalue,+tail-call"; }
  (cd /repo && RUSTFLAGS="-C target-feature=$x -A warnings" CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16 CARGO_TARGET_DIR="$B/cli-$1" \
    cargo build --release --offline --locked -q --bin chiwawa --target wasm32-wasip1 --features $f && \
    cp "$B/cli-$1/wasm32-wasip1/release/chiwawa.wasm" "$B/cli-$1.wasm")
}
