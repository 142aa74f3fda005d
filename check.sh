#!/bin/bash
# usage: check.sh PROPERTY [TIER]   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT=$PWD
bash build.sh || exit 2
exec build/target/debug/ratelmq-sim check "$1" ${2:+--tier "$2"}
