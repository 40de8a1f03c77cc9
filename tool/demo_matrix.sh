#!/bin/bash
# compiles the demonstration against the library just built in /repo (plus the sources the build leaves out) and runs it
set -e
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
X="$(find cpp/lib_moment -name polynomial_matrix.cpp -o -name polynomial_to_basis.cpp -o -name moment_rulebook_to_basis.cpp)"
g++-12 -include numeric -std=gnu++20 -DUNIX -O1 -DNDEBUG -DsetFromSortedTriplets=setFromTriplets -Icpp/eigen -Icpp/lib_moment -isystem /usr/include/eigen3 "$D/demo.cpp" $X $(find _build -name liblib_moment.a -o -name lib_moment.a | head -1) -lpthread -o "$W/demo"
timeout 100 "$W/demo"
