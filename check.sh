#!/bin/bash
# check.sh PROPERTY [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
export GOVC_VERIF="$here" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
[ -x "$here/bin/govc" ] && [ -z "$(find "$here/govc" -newer "$here/bin/govc" -type f | head -1)" ] || bash "$here/setup.sh" >&2 || exit 2
cd "$here" && exec "$here/bin/govc" check "$1" "${2:-quick}"
