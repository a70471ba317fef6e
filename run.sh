#!/bin/bash
# Usage: run.sh PROPERTY TIER -- build the checker from committed source, then check /repo's working tree.
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
cd /verif/engine && mkdir -p /verif/bin && go build -o /verif/bin/engine . || exit 2
cd /verif && exec /verif/bin/engine check -prop "$1" -tier "$2"
