#!/bin/bash
# tools/seed.sh wt            : (re)create the scratch worktree /tmp/wt from /repo
# tools/seed.sh save ID PROP  : save /tmp/wt's diff as seeded/ID and validate it
# tools/seed.sh try ID        : run the property's quick check with the patch applied to /repo
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
case $1 in
wt) rm -rf /tmp/wt; cp -a /repo /tmp/wt;;
save)
  id=$2 prop=$3 d=/verif/seeded/$2
  mkdir -p $d
  git -C /tmp/wt diff > $d/patch.diff
  [ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
  cp /verif/tools/demo.sh $d/demo.sh
  [ -f /tmp/demo_test.go ] && mv /tmp/demo_test.go $d/demo_test.go
  python3 - "$prop" "$4" "$5" > $d/meta.json <<'P'
import json,sys
json.dump({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},sys.stdout,indent=1)
P
  (cd /tmp/wt && go build ./... && go vet ./... >/dev/null 2>&1; go test -vet=off -count=1 -timeout 10m ./... 2>&1 | grep -v "no test files" | grep -v ^ok | grep -v '^\(encode\|{\)' | grep -E "FAIL|panic" | head)
  (cd /repo && bash $d/demo.sh >/tmp/demo.clean 2>&1; echo "clean demo: $?")
  (cd /tmp/wt && bash $d/demo.sh >/tmp/demo.bug 2>&1; echo "bug demo: $?"; grep -E "demo_test.go|panic" /tmp/demo.bug | head -3)
  git -C /tmp/wt checkout -q -- .
  ;;
try)
  id=$2; prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
  (cd /verif && VERIF_SEED=1 ./check.sh $prop quick 2>&1 | tail -4 | cut -c1-400)
  git -C /repo checkout -q -- .
  ;;
esac
