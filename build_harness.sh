#!/bin/bash
# Compile the harness crate together with /repo's current xtra (and its real dependencies and std) to LLVM
# bitcode, then reduce and instrument it.  usage: build_harness.sh OUTDIR [features]
set -e
OUT="$(realpath -m "$1")"; FEAT="$2"
V="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$OUT/target"
unset RUSTFLAGS
mkdir -p "$OUT"
rm -rf "$OUT"/target/release/deps/vh*.bc "$OUT"/target/release/.fingerprint/xtra-* "$OUT"/target/release/.fingerprint/vh-*
D=harness
if [ "$FEAT" = derive ]; then D=harness-derive; python3 "$V/tools/macros_lib.py" "$V/build/macros-lib"; fi
(cd "$V/$D" && cargo rustc --release --offline ${FEAT:+--features $FEAT} -- --emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp) >"$OUT/cargo.log" 2>&1 || { cat "$OUT/cargo.log" >&2; exit 3; }
BC=$(ls "$OUT"/target/release/deps/vh*.bc | head -1)
"$V/build/xse" prep "$BC" "$OUT/h.bc" "$OUT/hi.bc"
