#!/bin/bash
# Builds the framework once, to fail early and warm the build cache; every check builds what it needs again.
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin
(cd govc && go build -o ../bin/govc .)
(cd /repo && go build ./...)
