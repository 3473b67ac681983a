#!/bin/bash
# usage: run.sh <property> [thorough]   -- decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
bash "$V/build.sh" >&2 || exit 2
TIER=${2:-${VERIF_TIER:-quick}}
exec "$V/bin/govc" check -repo "${VERIF_REPO:-/repo}" -verif "$V" -prop "$1" -tier "$TIER" -seed "${VERIF_SEED:-1}"
