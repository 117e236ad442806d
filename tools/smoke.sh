#!/bin/bash
# Runs functions of the standard library under the engine (tools/smoke): finds library functions that it cannot execute.
cd "$(dirname "$0")/.." && ./build.sh || exit 2
d=$(mktemp -d) && mkdir $d/harness && cp -a tools/smoke/root harness/sym $d/harness/ && cp -a engine bin known_findings.txt $d/
VERIF_DIR=$d VERIF_REPO=${VERIF_REPO:-/repo} ./bin/gosym check -property S01 -evidence=false "$@"
rm -rf "$d"
