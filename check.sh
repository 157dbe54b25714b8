#!/bin/bash
# check.sh <property id>: decides one property on /repo's current tree
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p build evidence
exec python3-vt py/check.py "$@"
