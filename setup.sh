#!/bin/sh
# Fills the build cache, so that the checks themselves build quickly.
cd "$(dirname "$0")/harness" || exit 2
. ../env.sh || exit 2
mkdir -p ../bin || exit 2
go build -o ../bin/verif ./cmd/verif || exit 2
go build -race -o ../bin/verif-race ./cmd/verif || exit 2
