#!/bin/bash
# check.sh <property> [quick|thorough]: decide one property of /repo's working tree.
id=$1; tier=${2:-${VERIF_TIER:-quick}}
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tmp=$(mktemp -d /tmp/webrpcverif.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
(cd "$here/checker" && go build -o "$tmp/checker" .) || exit 1
"$tmp/checker" -prop "$id" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -verif "$here"
rc=$?
[ $rc -eq 0 ] || rc=1
exit $rc
