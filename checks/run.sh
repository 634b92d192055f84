#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough]
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: error.
tier=${2:-${VERIF_TIER:-quick}}
bash /verif/checks/setup.sh >&2 || exit 2
. /verif/checks/env.sh
cd /verif
exec /verif/build/vx -prop "$1" -tier "$tier"
