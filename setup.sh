#!/bin/bash
# warms the Go build cache; every check rebuilds from /repo's tree anyway
cd "$(dirname "$0")" || exit 1
. ./env.sh
mkdir -p build evidence
cd go && go build -o /dev/null ./cmd/... && python3-vt -c 'import z3'
