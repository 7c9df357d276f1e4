#!/bin/bash
# Builds the verifier once (checks build it again: no state is kept between runs).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/gv" && GOFLAGS=-mod=mod go build -o /dev/null . && go vet . >/dev/null 2>&1
command -v cvc5 >/dev/null && command -v z3-new >/dev/null
