#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the checker and decides one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./bin/gosym check -property "$1" -tier "${2:-quick}"
