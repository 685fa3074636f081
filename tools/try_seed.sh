#!/bin/bash
# try_seed.sh ID [check]: validates a planted bug in a scratch copy; with "check" also runs its property's check on it.
ID=$1; D=/verif/seeded/$ID; W=/tmp/xtra-try-$ID
rm -rf "/tmp/xtra-try-$ID"; mkdir -p $W; cp -a /repo/. $W/; rm -rf "/tmp/xtra-try-$ID/target"
cd $W; git checkout -q -f HEAD -- .
bash $D/demo.sh > $W.demo0 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $D/demo.sh > $W.demo1 2>&1; b=$?
t="(tests skipped)"
if [ "$2" != notest ]; then
  t=$(source /opt/vp/env.sh 2>/dev/null; export CARGO_TARGET_DIR=/tmp/xtra-try-target; (cargo test --workspace --all-features --offline; cargo test --workspace --no-default-features --offline) 2>&1 | grep -E "^test .*FAILED|panicked|error(\[|:)|^test result" | grep -vE "result: ok" | head -8)
fi
echo "$ID: demo unpatched=$a patched=$b tests:[${t:-ok}]"
[ $a = 0 ] || tail -3 $W.demo0; [ $b != 0 ] || tail -3 $W.demo1
rm -rf "/tmp/xtra-try-$ID" "/tmp/xtra-try-$ID.demo0" "/tmp/xtra-try-$ID.demo1"
