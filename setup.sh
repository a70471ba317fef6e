#!/bin/bash
# Builds the checker from the committed source (offline).
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
mkdir -p /verif/bin /verif/evidence
cd /verif/engine && go build -o /verif/bin/engine .
