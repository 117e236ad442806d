#!/bin/bash
# Builds the checker from /verif/engine (offline); used by setup_cmd and by every check.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
cd "$(dirname "$0")/engine" && exec go build -o ../bin/gosym .
