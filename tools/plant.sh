#!/bin/bash
# plant.sh ID     confirms /verif/seeded/ID in a scratch copy: applies, builds, passes the stable tests, demo passes without and fails with it
W=/tmp/plantwt; V=/verif
[ -d $W ] || { cp -a /repo $W; }
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD
id=$1; S=$V/seeded/$id
export HOME=/root CARGO_NET_OFFLINE=true
D=/tmp/plantdemo.$$; mkdir -p $D; cp $S/* $D/; rm -f $D/*.diff $D/meta.json
trap 'rm -rf '$D EXIT
cd $W
cargo test --workspace --no-run --offline -q >/tmp/plant.log 2>&1 || { echo "$id: clean build fails"; exit 1; }
bash $D/demo.sh >/tmp/plant.demo0 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/plant.demo0; exit 1; }
git apply $S/patch.diff || { echo "$id: does not apply"; exit 1; }
cargo test --workspace --no-run --offline -q >/tmp/plant.log 2>&1 || { echo "$id: build fails"; grep -A7 ^error /tmp/plant.log; git checkout -q -f .; exit 1; }
bash $D/demo.sh >/tmp/plant.demo1 2>&1 && { echo "$id: demo passes with the change"; git checkout -q -f .; exit 1; }
# the command line tests share one stderr and are flaky: three attempts
ok=0; for k in 1 2 3; do cargo test --workspace --no-fail-fast --offline -- --test-threads 1 >/tmp/plant.test 2>&1 && { ok=1; break; }; done
git checkout -q -f .
[ $ok = 1 ] || { echo "$id: tests fail"; grep FAILED /tmp/plant.test | head -5; exit 1; }
echo "$id: confirmed ($(tail -1 /tmp/plant.demo1))"
