#!/bin/bash
# usage: bash check.sh PROPERTY [quick|thorough]
# Builds the verifier from /verif/gv, verifies /repo's current source against
# /verif/contracts and reports. Nothing is kept between runs.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
bin=$work/gv
if ! (cd "$here/gv" && GOFLAGS=-mod=mod go build -o "$bin" .) >"$work/log" 2>&1; then
  cat "$work/log"; exit 2
fi
TMPDIR=$work "$bin" -check -prop "$prop" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here"
