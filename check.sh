#!/bin/bash
# usage: check.sh PROPERTY [extra runner flags]
# Builds the runner from /repo's current working tree and runs one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1
shift
for v in 1.27.3 1.26.10 1.25.14 1.24.13 1.23.12; do
  if [ -x /opt/veriftools/go$v/bin/go ]; then PATH=/opt/veriftools/go$v/bin:$PATH; break; fi
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export VERIF_DIR=$here
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
tmp=$(mktemp -d /tmp/xvbuild.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
race=
case " P14 P15 " in *" $id "*) race=-race ;; esac
cd "$here/harness" || exit 2
if [ -n "$race" ]; then cgo=1; else cgo=0; fi
if ! CGO_ENABLED=$cgo go build $race -o "$tmp/xv" . 2>"$tmp/err"; then
  cat "$tmp/err" >&2
  echo "check could not be built" >&2
  exit 2
fi
mkdir -p "$here/evidence"
TMPDIR=$tmp "$tmp/xv" -prop "$id" -tier "$tier" -seed "$seed" "$@"
