#!/bin/bash
# run with cwd = the repository root after the build: exit 0 when the property holds on the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
B=$R/_build
INC=""
for i in bland/bland/include bland/bland/internal/include bland/bland bland/external/dlpack bliss/core/include bliss/drift_search/include bliss/drift_search bliss/file_types/include bliss/flaggers/include bliss/estimators/include bliss/preprocess/include; do INC="$INC -I$R/$i"; done
LIBS="$B/bliss/drift_search/libdrift_search.a $B/bliss/drift_search/libdrift_search_kernels.a $B/bliss/flaggers/libflaggers.a $B/bliss/estimators/libestimators.a $B/bliss/preprocess/libbliss_preprocess.a $B/bliss/file_types/libbliss_serialization.a $B/bliss/core/libbliss_core.a $B/bliss/file_types/libfile_types.a $B/bland/bland/libbland.a"
g++ -std=gnu++17 -DFMT_DEPRECATED_OSTREAM -DBLISS_USE_CAPNP=1 -w -O0 $INC -isystem /usr/include/hdf5/serial "$D/demo.cpp" -o "$T/demo" \
  -Wl,--start-group $LIBS -Wl,--end-group -lfmt -lfftw3f -L/usr/lib/x86_64-linux-gnu/hdf5/serial -Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -lcapnp -lkj -lpthread -lstdc++fs || exit 3
cd "$T" && timeout 120 ./demo
