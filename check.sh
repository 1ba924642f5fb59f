#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 1
VERIF=$PWD
. ./env.sh
if [ ! -x bin/govc ] || [ -n "$(find govc -newer bin/govc -name '*.go' | head -1)" ]; then
	mkdir -p bin; (cd govc && go build -o ../bin/govc .) || { echo "VIOLATION property=$1 replay=$VERIF/check.sh no-failing-input-found"; exit 1; }
fi
exec ./bin/govc check -verif "$VERIF" -repo /repo -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
