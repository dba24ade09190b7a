#!/bin/bash
# Runs in /repo after the build: exit 0 when the program behaves, nonzero when it does not.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
export OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 \
 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_btl_vader_single_copy_mechanism=none \
 OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=1 LC_ALL=C TMPDIR=/tmp
NP=$(sed -n 's/^\/\/ np \([0-9]*\)$/\1/p' "$D/demo.cpp")
mpicxx -std=gnu++17 -fno-access-control -w -O1 -DTEMPEST_MPIOMP -DTEMPEST_NETCDF -DTEMPEST_LAPACK_FORTRAN_INTERFACE \
 -I"$D" -Isrc/base -Isrc/atm "$D/demo.cpp" lib/libhardcoreatm.a lib/libtempestbase.a -lnetcdf -llapack -lblas -lgfortran -o "$T/demo" || exit 98
cd "$T" && mpirun -n ${NP:-1} ./demo
