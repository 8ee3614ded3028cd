#!/bin/bash
# usage: run.sh ID      (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Builds the harness against /repo's current working tree and runs the check of property ID.
id="${1:?property id}"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset KUBECONFIG KUBERNETES_SERVICE_HOST KUBERNETES_SERVICE_PORT
work="$(mktemp -d /tmp/verif-run.XXXXXX)" || exit 2
trap 'rm -rf "$work"' EXIT
export VERIF_BUILD="$work"
race=""
case "$id" in
C11|C16|C22|C23|C28|C29|C32) race="-race" ;;
esac
export GOFLAGS=-mod=mod
cd "$here/harness" || exit 2
if ! go build -buildvcs=false $race -o "$work/vrun" . >"$work/build.log" 2>&1; then
  echo "INCONCLUSIVE: build failed"; cat "$work/build.log"; exit 2
fi
case "$id" in
C24|C26|C27|C01|C30|C31|C34)
  cd /repo || exit 2
  for b in cacheproxy ckube-plugin ckubecli; do
    go build -buildvcs=false -o "$work/$b" "./cmd/$b" >"$work/build.log" 2>&1 || { echo "INCONCLUSIVE: build failed"; cat "$work/build.log"; exit 2; }
  done ;;
C22)
  cd /repo || exit 2
  go build -buildvcs=false -race -o "$work/cacheproxy" ./cmd/cacheproxy >"$work/build.log" 2>&1 || { echo "INCONCLUSIVE: build failed"; cat "$work/build.log"; exit 2; } ;;
esac
cd "$here" || exit 2
TMPDIR="$work" "$work/vrun" "$id" "$here"
