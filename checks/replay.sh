#!/bin/bash
# usage: replay.sh FILE    runs a recorded counterexample against the real code
bash /verif/checks/setup.sh >&2 || exit 2
. /verif/checks/env.sh
cd /verif
exec /verif/build/vx -replay "$1"
