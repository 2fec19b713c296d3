#!/bin/bash
# seed_try.sh ID...: verifies planted bugs in a scratch copy: builds, tests, demo with and without, check.
S=/tmp/seedtry; mkdir -p $S
. /opt/vp/env.sh 2>/dev/null
[ -d $S/repo ] || git clone -q /repo $S/repo
git -C $S/repo fetch -q origin && git -C $S/repo reset -q --hard origin/HEAD
[ -d $S/verif ] || mkdir $S/verif
rsync -a --delete --exclude .git --exclude seeded --exclude .build /verif/ $S/verif/ 2>/dev/null || { cp -a /verif/harness /verif/shims /verif/*.sh /verif/*.py /verif/*.txt /verif/tools $S/verif/; [ -d /verif/sched ] && cp -a /verif/sched $S/verif/; }
rm -rf $S/verif/replays; 
for id in "$@"; do
  b=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
  git -C $S/repo reset -q --hard; git -C $S/repo clean -qfd
  (cd $S/repo && bash $b/demo.sh >$S/$id.demo0 2>&1); d0=$?
  git -C $S/repo apply $b/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $S/repo && bash $b/demo.sh >$S/$id.demo1 2>&1); d1=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    python3 /verif/mirror.py $S/ws $S/repo; cp /opt/vp/ws/Cargo.lock $S/ws/; 
    mkdir -p $S/ws/.cargo; cp /repo/.cargo/config.toml $S/ws/.cargo/ 2>/dev/null
    (cd $S/ws && CARGO_TARGET_DIR=$S/t timeout 800 cargo test --workspace --no-default-features --no-fail-fast --offline >$S/$id.test 2>&1); t=$?
  fi
  c=none; out=
  if [ -z "$NOCHECK" ]; then
  (cd $S/verif && VERIF_REPO=$S/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $p >$S/$id.check 2>&1); c=$?
  out=$(grep -m1 VIOLATION $S/$id.check); fi
  echo "$id: demo0=$d0 demo1=$d1 tests=$t check=$c $out"
done
git -C $S/repo reset -q --hard
