# sourced by demo.sh: builds the library from /repo's current tree (release or debug) and links the demo program.
# usage: kit_build DEMO.cxx [0|1 debug]   -> $W/demo        kit_run N [args]
D=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
kit_build () {
  local debug=${2:-0}
  mkdir -p "$W/inc" "$W/obj"
  cp "$D/sc_mpi.h" "$W/inc/"
  local nd=""; [ "$debug" = 0 ] && nd="-DNDEBUG"
  {
    echo "flags = -O0 -g0 -I$W/inc -I$R/src -I$R -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -w -DT8_CC=\\\"gcc\\\" -DT8_CFLAGS=\\\"\\\" -DT8_CMAKE_BUILD -DT8_CXX=\\\"g++\\\" -DT8_CXXFLAGS=\\\"\\\" -DT8_ENABLE_DEBUG=$debug $nd -DT8_ENABLE_MPI=1 -DT8_ENABLE_MPIIO=1 -DT8_LDFLAGS=\\\"\\\" -DT8_LIBS=\\\"\\\" -DT8_PACKAGE_STRING=\\\"t8\\\" -DT8_TEST_LEVEL_INT=0 -DT8_VERSION=\\\"4.0.0\\\" -DT8_VERSION_MAJOR=4 -DT8_VERSION_MINOR=0 -DT8_VERSION_PATCH=0 -DT8_VERSION_POINT=4.0.0 -DOMPI_SKIP_MPICXX"
    echo "rule cxx"; echo " command = g++ -std=gnu++20 \$flags -c \$in -o \$out"
    echo "rule cc"; echo " command = gcc -std=gnu11 \$flags -c \$in -o \$out"
    echo "rule link"; echo " command = g++ -o \$out \$in -lp4est -lsc -lmpi -lz -lm"
    local objs=""
    local s o
    for s in $(find "$R/src" -name '*.c' -o -name '*.cxx' | grep -v 't8_with_vtk\|t8_cad/\|geometry_cad\|mesh_deformation' | sort); do
      o=obj/$(echo "${s#$R/}" | tr / _).o
      objs="$objs $o"
      case $s in *.c) echo "build $o: cc $s";; *) echo "build $o: cxx $s";; esac
    done
    echo "build obj/demo.o: cxx $D/$1"
    echo "build demo: link obj/demo.o $objs"
  } > "$W/build.ninja"
  ninja -C "$W" demo > "$W/log" 2>&1 || { grep -i -A3 "error\|undefined" "$W/log" | cut -c1-300 | head -20; echo "demo does not build"; exit 3; }
}
kit_run () {
  local n=$1; shift
  if [ "$n" = 1 ]; then timeout 100 "$W/demo" "$@"; return; fi
  OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 timeout 100 mpirun --oversubscribe --mca btl self,vader,tcp -n "$n" "$W/demo" "$@"
}
