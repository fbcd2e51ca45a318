#!/bin/bash
# Build the checker from the committed files if it is missing or out of date.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
mkdir -p bin evidence
sum=$(cat $(find analyzer -name '*.go' -not -path '*/vendor/*' | sort) analyzer/go.mod | sha256sum)
if [ -x bin/kcheck ] && [ "$(cat bin/sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
(cd analyzer && GOFLAGS=-mod=vendor go build -o ../bin/kcheck.tmp .) || exit 1
mv bin/kcheck.tmp bin/kcheck && echo "$sum" > bin/sum
