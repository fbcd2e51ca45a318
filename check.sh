#!/bin/bash
# check.sh PROPERTY: decide one property from /repo's current source.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
bash setup.sh >&2 || exit 2
exec bin/kcheck check "$1"
