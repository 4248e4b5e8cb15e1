#!/bin/bash
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin evidence
cd analyzer && go build -o ../bin/az .
