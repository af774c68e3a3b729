#!/bin/sh
# check.sh PROPERTY [quick|thorough]: decides one property.
cd "$(dirname "$0")" || exit 1
VERIF_DIR=$(pwd); export VERIF_DIR
[ -n "$2" ] && VERIF_TIER=$2 && export VERIF_TIER
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-buildvcs=false -mod=mod"
if ! (cd checker && go build -o ../bin/checker .) >&2; then
	mkdir -p evidence
	echo "the checker does not build" > "evidence/$1.replay.txt"
	echo "VIOLATION property=$1 replay=$VERIF_DIR/evidence/$1.replay.txt"
	exit 1
fi
unset GOFLAGS
bin/checker check "$1"
