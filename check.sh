#!/bin/bash
# check.sh ID [quick|thorough]      decide a property on /repo's working tree
# check.sh ID replay SEED CASE      run one case again and print it
# check.sh --setup                  warm the build cache
# exit 0: held; 1: violated (VIOLATION line); 2: no answer
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
case $seed in *[!0-9]*|'') seed=1;; esac

for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  [ -x $g/go ] && { PATH=$g:$PATH; break; }
done
export PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=mod
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export VERIF_REPO=/repo

work=$(mktemp -d /tmp/verif-check.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
export TMPDIR=$work

# the harness is built from a copy: go may rewrite go.mod and go.sum
cp -r "$here/harness" "$work/harness" || exit 2
cd "$work/harness" || exit 2

if [ "$id" = --setup ]; then
  go build -o "$work/monitor" . && go build -race -o "$work/monitor-race" . || exit 2
  exit 0
fi

race=
[ "$id" = C16 ] && race=-race
if ! go build $race -o "$work/monitor" . 2>"$work/build.log"; then
  echo "check: the build failed" >&2
  cat "$work/build.log" >&2
  exit 2
fi

export GORACE="halt_on_error=0 exitcode=0 history_size=4"
if [ "$tier" = replay ]; then
  "$work/monitor" -prop "$id" -seed "${3:?seed}" -case "${4:?case}"
  exit $?
fi
"$work/monitor" -prop "$id" -tier "$tier" -seed "$seed" -root "$here"
exit $?
