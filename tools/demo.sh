#!/bin/bash
# Compiles demo.cpp beside this script against /repo's current build and runs it.
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap '/bin/rm -r "$t"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -g -w -std=c++17 -DFMT_HEADER_ONLY=1 -I/repo -I/repo/include -I/repo/_build/include -isystem $L/openmpi/include -isystem /usr/include/eigen3 -isystem /usr/include/python3.12 "$d/demo.cpp" -o "$t/demo" \
  /repo/_build/libFiniteVolumeSolver.Solver.a /repo/_build/libFiniteVolumeSolver.OdeSolver.a /repo/_build/libFiniteVolumeSolver.Solver.a /repo/_build/libRadauSolverFortran.a -lmpi -lboost_container -lboost_log -lboost_chrono -lboost_filesystem -lboost_regex -lboost_thread -lboost_atomic -lboost_program_options -lboost_serialization -lVc -lpython3.12 -lgmp -lmpfr -lgfortran -lquadmath -lpthread
cd "$t"; timeout 100 ./demo
