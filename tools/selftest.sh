#!/bin/bash
# Validates vmpi itself: the programs of mc/selftest.cpp on the real MPI (1-4 processes) and on vmpi under all 64 uniform policies.
cd "$(dirname "$0")/.." || exit 2
w=$(mktemp -d) || exit 2
g++ -g -O1 -std=c++17 -w -fsanitize=address -Imc/include -Imc -o $w/self mc/selftest.cpp mc/vmpi.cpp -lfftw3 -lfftw3f -ldl && mpicxx -std=c++17 -w -DNATIVE -Imc -o $w/nat mc/selftest.cpp || exit 2
cd $w && for n in 1 2 3 4; do timeout -s KILL 60 mpirun --allow-run-as-root --oversubscribe -np $n ./nat log || exit 2; done
timeout -s KILL 600 ./self log; rc=$?
cd / && rm -rf "$w"; exit $rc
