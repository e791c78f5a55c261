#!/bin/bash
# with_patch.sh PATCH|none CMD...: run CMD while /repo shows a scratch copy with PATCH applied (own mount namespace; /repo itself is untouched)
patch="$1"; shift
d=$(mktemp -d /tmp/wp.XXXXXX)
mkdir -p "$d/repo" "$d/ev" "$d/rp"
cp -a /repo/. "$d/repo/"
if [ "$patch" != none ]; then git -C "$d/repo" apply "$(realpath "$patch")" || { rm -rf "$d"; exit 99; }; fi
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && mount --bind "$0/ev" /verif/evidence && mount --bind "$0/rp" /verif/replays && "$@"' "$d" "$@"
rc=$?
rm -rf "$d"
exit $rc
