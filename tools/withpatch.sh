#!/bin/bash
# withpatch.sh PATCH CMD...: run CMD in a private mount namespace in which /repo
# is a scratch copy with PATCH applied.  The real /repo is not touched.
set -e
patch=$(readlink -f "$1"); shift
wt=$(mktemp -d /tmp/wt.XXXXXX)
trap 'rm -rf "$wt"' EXIT
cp -a /repo/. "$wt/"
git -C "$wt" apply "$patch"
ev=$(mktemp -d "$wt/.ev.XXXX")
unshare -Urm bash -c 'mount --bind "$1" /repo; mount --bind "$2" /verif/evidence; shift 2; "$@"' _ "$wt" "$ev" "$@"
