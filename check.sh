#!/bin/bash
# check.sh check|replay|... : builds the verifier if needed and runs it
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
export GVC_VERIF="$here"
if [ ! -x "$here/gvc/bin/gvc" ] || [ -n "$(find "$here/gvc" -name '*.go' -newer "$here/gvc/bin/gvc" | head -1)" ]; then
	(cd "$here/gvc" && go build -o bin/gvc .) || exit 3
fi
cmd=$1; shift
exec "$here/gvc/bin/gvc" "$cmd" "$@"
