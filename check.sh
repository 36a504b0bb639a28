#!/bin/bash
# check.sh Cxx: build the adapter from /repo's working tree and the harness, run one check.
set -u
prop=$1
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export GOROOT=/opt/veriftools/go1.23.12 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=$GOROOT/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GONOSUMDB='*' GOSUMDB=off
unset KUBECONFIG KUBERNETES_SERVICE_HOST KUBERNETES_SERVICE_PORT CLUSTER_ROOT
repo=${VH_REPO:-/repo}
scratch=$(mktemp -d /tmp/vh.XXXXXXXX)
child=
# own_crash: the first running goroutine of a crash is in the repository's code, or, in the checkers
# that contain that code, in a library that nothing of the harness called
own_crash() {
  sed -n '/^goroutine .*running\]/,/^$/p' "$scratch/out" | sed '/^$/q' >"$scratch/trace"
  grep -q "$repo/" "$scratch/trace" && return 0
  [ $cmd != bb ] && [ -s "$scratch/trace" ] && ! grep -q /harness/ "$scratch/trace"
}
cleanup() { [ -n "$child" ] && kill "$child" 2>/dev/null; rm -rf "$scratch"; }
trap cleanup EXIT
trap 'cat "$scratch/out" 2>/dev/null; exit 2' INT TERM
export VH_SCRATCH=$scratch VH_SUT=$scratch/adapter VH_EVIDENCE=$here/evidence
mkdir -p "$here/evidence"
rm -f "$here/evidence/$prop.json" "$here/evidence/replay/$prop"-*.json
race=
[ "$prop" = C12 ] && race=-race
cmd=bb
case $prop in C16|C23) cmd=$(echo "$prop" | tr A-Z a-z);; esac
# the harness module is built from a copy, so that nothing in /verif or /repo is rewritten
cp -r "$here/harness" "$scratch/harness" || exit 2
sed -i "s#=> /repo\$#=> $repo#" "$scratch/harness/go.mod"
(cd "$scratch/harness" && go build -o "$scratch/check" ./cmd/$cmd) || { echo "$prop: harness does not build"; exit 2; }
cp "$repo/go.mod" "$scratch/go.mod"; cp "$repo/go.sum" "$scratch/go.sum"
overlay=
case $prop in C11|C15|C18)
  cp "$here/harness/overlay/entropy.go.txt" "$scratch/entropy.go"
  echo "{\"Replace\":{\"$repo/cmd/zz_verif_entropy.go\":\"$scratch/entropy.go\"}}" >"$scratch/overlay.json"
  overlay="-overlay $scratch/overlay.json";;
esac
(cd "$repo" && go build $race $overlay -modfile "$scratch/go.mod" -o "$VH_SUT" ./cmd) || { echo "$prop: adapter does not build"; exit 2; }
"$scratch/check" -prop "$prop" >"$scratch/out" 2>&1 &
child=$!
wait $child
rc=$?
child=
# (what hostile inputs left in messages and traces)
if command -v iconv >/dev/null; then iconv -c -f utf-8 -t utf-8 "$scratch/out" 2>/dev/null; else cat "$scratch/out"; fi
if [ $rc -gt 1 ]; then
  # code of the repository that runs within the checker (C16, C23) may have ended it
  if grep -q '^VIOLATION property=' "$scratch/out"; then
    rc=1
  elif grep -qE '^(panic|fatal error): ' "$scratch/out" && ! grep -qE 'out of memory|cannot allocate' "$scratch/out" &&
      own_crash; then
    mkdir -p "$here/evidence/replay"
    python3 -c 'import json,sys; t=open(sys.argv[1],errors="replace").read(); i=max(t.find("panic: "),t.find("fatal error: ")); json.dump({"property":sys.argv[2],"what":"the code under test crashed","trace":t[max(i,0):][:20000]},open(sys.argv[3],"w"))' \
      "$scratch/out" "$prop" "$here/evidence/replay/$prop-0.json"
    echo "$prop: the code under test crashed"
    echo "VIOLATION property=$prop replay=$here/evidence/replay/$prop-0.json"
    rc=1
  fi
fi
exit $rc
