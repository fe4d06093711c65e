#!/bin/bash
# tools/plant.sh ID   verify a planted bug (/verif/seeded/ID) in a scratch copy of /repo: applies, builds,
# passes the stable tests, demo 0 without / nonzero with it. Then (with "check") run the property's check on it.
set -u
id=$1
src=/verif/seeded/$id
scratch=/tmp/pl/repo
mkdir -p /tmp/pl
[ -d $scratch ] || cp -a /repo $scratch
cd $scratch && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
demo=$(mktemp -d /tmp/pl/demo.XXXX)
cp -a $src/. $demo/; rm -f $demo/*.diff $demo/meta.json
bash $demo/demo.sh >/tmp/pl/$id.clean 2>&1; a=$?
git apply $src/patch.diff || { echo "$id: does not apply"; exit 1; }
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_NET_OFFLINE=true
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/pl/$id.tests 2>&1; t=$?
n=$(grep -c ' \.\.\. ok' /tmp/pl/$id.tests)
bash $demo/demo.sh >/tmp/pl/$id.bug 2>&1; b=$?
git checkout -q -- .
rm -rf "$demo"
echo "$id: demo clean=$a bug=$b tests rc=$t ok=$n"
