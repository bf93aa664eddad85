export LANG=C.UTF-8 LC_ALL=C.UTF-8
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_plm=isolated
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_orte_tmpdir_base=/tmp
export PYTHONWARNINGS=ignore
