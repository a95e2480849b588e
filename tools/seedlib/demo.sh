#!/bin/bash
# run in /repo after the build; CONF/DEFS/NP/ARGS come from demo.conf beside this file
D=$(cd "$(dirname "$0")" && pwd)
CONF=ref; DEFS=-DVPIC_USE_PTHREADS; NP=1; ARGS=
. "$D/demo.conf"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm_rsh_agent=/bin/true OMPI_MCA_hwloc_base_binding_policy=none
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mpicxx -O1 -w -fno-strict-aliasing $DEFS -std=gnu++11 -I. -Isrc -I"$D" "$D/demo.cc" _build/$CONF/libvpic.a -o "$T/demo" -lpthread -ldl || exit 3
cd "$T" && timeout 200 mpirun -n $NP ./demo $ARGS
