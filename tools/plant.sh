#!/bin/bash
# plant.sh <id>: confirms a planted change in a scratch copy: applies, builds, passes the tests, demo fails with it and passes without
set -u
id=$1; d=${SEEDS:-/verif/seeded}/$id; wt=/tmp/wt
if [ ! -d $wt ]; then cp -a /repo $wt; fi
cd $wt && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq iris-mpc mpc-net plain-reference
cd $wt
bash $d/demo.sh > /tmp/plant.$id.clean 2>&1; rc=$?
[ $rc = 0 ] || { echo "$id: demo fails on the clean tree ($rc)"; tail -5 /tmp/plant.$id.clean; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "${SKIPTESTS:-}" ]; then
  cargo test --workspace --all-targets --no-run --locked --offline >/tmp/plant.$id.build 2>&1 || { echo "$id: build fails"; tail -20 /tmp/plant.$id.build; git checkout -q -f .; exit 1; }
  SLOW='test(=tests::network_swift3::swift3_test::dot_test) + test(=tests::iris_swift3::iris_swift3_test::hwd_test_swift3) + test(=tests::iris_swift3::iris_swift3_test::cmp_iris_test_swift3) + test(=tests::iris_swift3::iris_swift3_test::full_test_swift3)'
  timeout 800 cargo nextest run --workspace --no-fail-fast --locked --offline --run-ignored all -E "not ($SLOW)" --test-threads 8 >/tmp/plant.$id.tests 2>&1 || { echo "$id: tests fail"; grep -E "FAIL|Summary" /tmp/plant.$id.tests | head; git checkout -q -f .; exit 1; }
fi
bash $d/demo.sh > /tmp/plant.$id.bug 2>&1; rc=$?
git checkout -q -f .
[ $rc != 0 ] || { echo "$id: demo passes with the bug"; exit 1; }
[ $rc != 3 ] || { echo "$id: demo does not build with the bug"; tail -20 /tmp/plant.$id.bug; exit 1; }
echo "$id: confirmed (rc=$rc: $(tail -1 /tmp/plant.$id.bug))"
