#!/bin/bash
# determinism.sh [RUNS]: the traces of every property's runs must not depend on threads or processes.
cd "$(dirname "$0")/.." || exit 2
./check.sh --build || exit 2
export VERIF_DIR=$PWD
props="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18"
a=$(CBMSIM_WORKERS=8 sim/target/release/cbmsim digest "${1:-2000}" $props)
b=$(CBMSIM_WORKERS=3 sim/target/release/cbmsim digest "${1:-2000}" $props)
echo "$a"
[ "$a" = "$b" ] && echo "deterministic" || { echo "DIFFERENT:"; echo "$b"; exit 1; }
