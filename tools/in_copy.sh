#!/bin/bash
# in_copy.sh PATCH CMD...: run CMD in /verif with a scratch copy of /repo, patched, bound over /repo in a private mount namespace
P=$(realpath "$1"); shift
R=$(mktemp -d /tmp/incopy_XXXX); cp -a /repo "$R/repo"
unshare -Urm bash -c 'mount --bind "$1/repo" /repo; git -C /repo apply "$2" || exit 9; shift 2; cd /verif; "$@"' x "$R" "$P" "$@"
rc=$?; rm -rf "$R"; exit $rc
