#!/bin/bash
# bug.sh COPY [PROPERTY...]: builds and tests a changed copy of the repository and runs checks against it (development only)
copy=$1; shift
cd $copy && git diff --stat | tail -1
(cd streams && GOFLAGS=-mod=readonly go1.27 vet . ./stores ./sak >/dev/null 2>&1; true)
source /opt/vp/env.sh
(cd $copy/streams && go build ./... ) || exit 1
(cd $copy/msk && go build ./... ) || exit 1
(cd $copy/streams && timeout 200 go test -short ./... 2>&1 | grep -v "no test files" | tail -5)
cd /verif
for p in "$@"; do VERIF_REPO=$copy python3 run.py $p 2>&1 | cut -c1-200 | tail -4; done
