#!/bin/bash
# Builds the analyser (if needed) and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_DIR="$PWD"
mkdir -p bin evidence
(cd analyzer && go build -o ../bin/az .) || exit 2
exec bin/az check "$1"
