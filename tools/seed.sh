#!/bin/bash
# Seeding helper. usage:
#   seed.sh reset                       fresh scratch clone of /repo's HEAD at /work/seedrepo
#   seed.sh save ID PROP PKG "needs" "what"   save the worktree's diff + /tmp/seed_demo_test.go as $V/seeded/ID, and validate
#   seed.sh check ID PROP               run the property's check against a seeded bug (on the scratch clone)
set -u
W=/work/seedrepo
SRC=${SEED_SRC:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
T='ledger test_ledger_mock'
case $1 in
reset)
  if [ -d $W ]; then git -C $W checkout -q -f; git -C $W clean -fdq; git -C $W pull -q; else git clone -q $SRC $W; fi
  cp /opt/vp/go.work.sum $W/go.work.sum;;
save)
  ID=$2; PROP=$3; PKG=$4; NEEDS=$5; WHAT=$6
  D=$V/seeded/$ID; mkdir -p $D
  git -C $W diff > $D/patch.diff
  cp /tmp/seed_demo_test.go $D/demo_test.go.txt
  cat > $D/demo.sh <<X
#!/bin/bash
# Overlays demo_test.go.txt into $PKG and runs it: exit 0 when the property holds.
D=\$(cd "\$(dirname "\$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=1
R=\${DEMO_REPO:-/repo}
cd "\$R" || exit 2
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
cp "\$D/demo_test.go.txt" "\$T/demo_test.go"
echo "{\"Replace\": {\"\$R/$PKG/zz_demo_test.go\": \"\$T/demo_test.go\"}}" > "\$T/ov.json"
go test -count=1 -vet=off -overlay "\$T/ov.json" -tags '$T' -run '^TestSeedDemo$' ./$PKG
X
  chmod +x $D/demo.sh
  python3 - "$D" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
  DEMO_REPO=${SEED_SRC:-/repo} bash $D/demo.sh > /tmp/demo_clean.log 2>&1; A=$?
  DEMO_REPO=$W bash $D/demo.sh > /tmp/demo_bug.log 2>&1; B=$?
  (cd $W && go build -tags "$T" ./... ./integration-tests/...) > /tmp/seed_build.log 2>&1; C=$?
  (cd $W && go test -tags "$T" ./... 2>&1 | grep -v "no test files" | grep -v "^ok") > /tmp/seed_test.log 2>&1
  echo "demo clean=$A bugged=$B build=$C tests-not-ok:"; tail -5 /tmp/seed_test.log; [ $A -ne 0 ] && tail -20 /tmp/demo_clean.log; [ $B -eq 0 ] && tail -5 /tmp/demo_bug.log; grep -m3 -E "cannot|undefined|build failed" /tmp/demo_bug.log;;
check)
  ID=$2; PROP=$3
  bash $0 reset
  git -C $W apply $V/seeded/$ID/patch.diff || exit 9
  VERIF_REPO=$W VERIF_EVIDENCE=/tmp/seed_ev VERIF_REPLAYS=/tmp/seed_rp $V/run.sh $PROP quick 2>&1 | cut -c1-400 | tail -6; R=${PIPESTATUS[0]}
  git -C $W checkout -q -- .
  echo "check $PROP on $ID: exit $R";;
checkw)
  # like check, but on the scratch worktree's current edits (VERIF_REPO)
  VERIF_REPO=$W VERIF_EVIDENCE=/tmp/seed_ev VERIF_REPLAYS=/tmp/seed_rp $V/run.sh $2 quick 2>&1 | cut -c1-400 | tail -6; echo "exit ${PIPESTATUS[0]}";;
esac
