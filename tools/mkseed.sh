#!/bin/bash
# mkseed.sh ID: completes /verif/seeded/ID (main.rs, edit.py, meta.json) with Cargo.toml, Cargo.lock, demo.sh, patch.diff
# edit.py is run with cwd = a scratch copy of /repo and edits its sources.
set -e
ID=$1; D=/verif/seeded/$ID; mkdir -p $D; E=/verif/tools/seed_edits; cat $E/prelude.rs $E/$ID.rs > $D/main.rs; cp $E/$ID.json $D/meta.json
cat > $D/Cargo.toml.in <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
xtra = { path = "@REPO@/xtra", features = ["sink"@FEAT@] }
futures-util = { version = "0.3.21", default-features = false, features = ["sink"] }
futures-sink = { version = "0.3.21", default-features = false }
@DEPS@
[profile.release]
debug-assertions = true
[workspace]
T
if grep -q spawn_smol\\\|async_std $D/main.rs; then sed -i 's/@FEAT@/, "smol", "async_std"/; s/@DEPS@/smol = "1.1"/' $D/Cargo.toml.in; fi
if grep -q xtra_macros $D/main.rs; then sed -i 's/@FEAT@//; s,@DEPS@,xtra-macros = { path = "@REPO@/macros" },' $D/Cargo.toml.in; fi
if grep -q tracing $D/main.rs; then sed -i 's/@FEAT@/, "instrumentation"/; s/@DEPS@/tracing = { version = "0.1.35", default-features = false, features = ["std"] }\ntracing-core = { version = "0.1", default-features = false, features = ["std"] }/' $D/Cargo.toml.in; else sed -i 's/@FEAT@//; s/@DEPS@//' $D/Cargo.toml.in; fi
cp /verif/tools/demo.lock $D/Cargo.lock.in; if grep -q 'smol\|xtra-macros' $D/Cargo.toml.in; then cp /repo/Cargo.lock $D/Cargo.lock.in; fi
sed -i 's/^name = "vh"/name = "demo"/' $D/Cargo.lock.in
cat > $D/demo.sh <<T
#!/bin/bash
# exit 0: behaves as it should; nonzero: the defect shows. cwd: the repository.
R="\$PWD"; D="\$(cd "\$(dirname "\$0")" && pwd)"
T=/tmp/xtra-demo-$ID
rm -rf /tmp/xtra-demo-$ID; mkdir -p \$T || exit 9
cp "\$D/main.rs" \$T/; cp "\$D/Cargo.lock.in" \$T/Cargo.lock; sed "s#@REPO@#\$R#g" "\$D/Cargo.toml.in" > \$T/Cargo.toml
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=\$T/target; unset RUSTFLAGS
(cd \$T && cargo build --release --offline -q >\$T/log 2>&1) || { cat \$T/log; rm -rf /tmp/xtra-demo-$ID; exit 8; }
timeout 120 \$T/target/release/demo; rc=\$?
rm -rf /tmp/xtra-demo-$ID
exit \$rc
T
chmod +x $D/demo.sh
rm -rf /tmp/xtra-seed-src; mkdir /tmp/xtra-seed-src; cp -a /repo/.git /repo/xtra /repo/macros /repo/Cargo.toml /tmp/xtra-seed-src/ 2>/dev/null || true
(cd /tmp/xtra-seed-src && git checkout -q -f HEAD -- . && PYTHONPATH=/verif/tools/seed_edits python3 /verif/tools/seed_edits/$ID.py && git diff > $D/patch.diff)
rm -rf /tmp/xtra-seed-src
[ -s $D/patch.diff ] || { echo "$ID: empty patch"; exit 1; }
