#!/bin/sh
# Usage: run.sh <property>
#
# Builds the harness against the current content of /repo and runs the check of
# one property. VERIF_SEED and VERIF_TIER select the seed and the tier.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh || exit 2
mkdir -p ../bin || exit 2

bin=../bin/verif
go build -o "$bin" ./cmd/verif || exit 2
if [ "$("$bin" race "$1")" = true ]; then
	bin=../bin/verif-race
	go build -race -o "$bin" ./cmd/verif || exit 2
fi

cd .. || exit 2
exec "./bin/$(basename "$bin")" check "$1"
