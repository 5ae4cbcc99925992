#!/bin/bash
# seedtest.sh ID...: confirms planted bugs in a scratch copy bound over /repo in a private mount namespace (development tool)
[ -d /tmp/seedrepo ] || cp -a /repo /tmp/seedrepo
if [ -z "$SEED_NS" ]; then SEED_NS=1 exec unshare -m bash "$0" "$@"; fi
mount --bind /tmp/seedrepo /repo || exit 1
cd /repo && git checkout -q -- . && git fetch -q /tmp/seedorig 2>/dev/null
for id in "$@"; do
  d=/verif/seeded/$id
  git checkout -q -- .
  # the demo sees its own folder only
  r0=$(cd /repo; bash $d/demo.sh >/tmp/seed_$id.log0 2>&1; echo $?)
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  b=$(bash /opt/vp/build.sh >/tmp/seed_$id.build 2>&1; echo $?)
  t=$(bash /opt/vp/test.sh /tmp/seed_$id.json 2>/dev/null | tail -1)
  r1=$(cd /repo; bash $d/demo.sh >/tmp/seed_$id.log1 2>&1; echo $?)
  echo "$id: unpatched demo $r0, build $b, tests $t, patched demo $r1 ($(tail -1 /tmp/seed_$id.log1 | cut -c1-150))"
  git checkout -q -- .
done
