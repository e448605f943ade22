# Sourced by every script: the interpreter Thetis is installed in, Firedrake's kernel caches
# (keyed by the generated code, so they never hide a change of /repo), and single-threaded BLAS.
VERIF_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"; export VERIF_ROOT
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin
unset LD_LIBRARY_PATH PETSC_ARCH
export HOME=/root PETSC_DIR=/opt/petsc-3.26.0 CC=mpicc CXX=mpicxx
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export FIREDRAKE_CACHE_DIR=/opt/thetis-cache XDG_CACHE_HOME=/opt/thetis-cache
export PYOP2_CACHE_DIR=/opt/thetis-cache/pyop2 FIREDRAKE_TSFC_KERNEL_CACHE_DIR=/opt/thetis-cache/tsfc
export PYOP2_CFLAGS="-march=x86-64 -mtune=generic" PYOP2_CXXFLAGS="-march=x86-64 -mtune=generic"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_plm=isolated OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_btl_vader_single_copy_mechanism=none
export PYTHONPATH="$VERIF_ROOT/lib:$VERIF_ROOT/drivers"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
