# cwd is the repository; $here is the demo's folder
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$tmp"' EXIT
export PATH=/usr/local/bin:/usr/bin:/bin LC_ALL=C HOME=$tmp TMPDIR=$tmp OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_btl_vader_backing_directory=$tmp OMPI_MCA_pml=ob1
export OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
build() { # dim flags...
  local d=$1; shift
  mpicxx -g -O1 -w -std=c++17 -DDIM=$d -DFFT_MEMALIGN=64 "$@" -I "$repo/src" -I "$here" "$here/demo.cpp" "$repo"/src/fft${d}d.cpp "$repo"/src/remap${d}d.cpp "$repo"/src/memory.cpp "$repo"/src/error.cpp -o "$tmp/demo" -lm || { echo "demo does not compile"; exit 1; }
}
# np args...: 0 when the demo says DEMO-OK; a launch that gives no verdict is tried again
run() { local n=$1 k; shift
  for k in 1 2 3; do
    timeout -s KILL 40 mpirun -np $n "$tmp/demo" "$@" > "$tmp/log" 2>&1; rc=$?
    tail -5 "$tmp/log"
    if grep -q DEMO-OK "$tmp/log" && [ $rc = 0 ]; then return 0; fi
    if grep -q DEMO-BAD "$tmp/log"; then return 1; fi
  done
  return 1
}
