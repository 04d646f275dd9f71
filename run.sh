#!/bin/bash
# run.sh PROPERTY: decides one property on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export HOME=${HOME:-/root}
mkdir -p "$here/bin" && cd "$here/analyzer" && go build -mod=vendor -o "$here/bin/gverif" . || exit 2
[ "$1" = build ] && exit 0
exec "$here/bin/gverif" -repo "${VERIF_REPO:-/repo}" -prop "$1" -tier "${VERIF_TIER:-quick}"
