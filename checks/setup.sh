#!/bin/bash
# Builds the symbolic checker into /verif/build (git-ignored).
set -e
. /verif/checks/env.sh
mkdir -p /verif/build
cd /verif/engine
go build -o /verif/build/vx .
