#!/bin/bash
# trial.sh PATCH|none CMD...: runs CMD with /repo replaced (in a private mount namespace) by a scratch copy with PATCH applied,
# and /verif/build, /verif/evidence by scratch folders.  Development aid; no check uses it.
P=$1; shift
[ "$P" = none ] || P=$(realpath "$P")
D=$(mktemp -d /tmp/trial.XXXXXX)
mkdir "$D/build" "$D/evidence"
cp -a /repo "$D/repo"
if [ "$P" != none ]; then git -C "$D/repo" apply "$P" || { rm -rf "$D"; echo "patch does not apply"; exit 9; }; fi
unshare -m bash -c 'mount --make-rprivate / && mount --bind "$0/repo" /repo && mount --bind "$0/build" /verif/build && mount --bind "$0/evidence" /verif/evidence && cd /verif && "$@"' "$D" "$@"
RC=$?
rm -rf "$D"
exit $RC
