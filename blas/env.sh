# link the installed OpenBLAS the way the project's own tests do (build.rs of rstsr-openblas)
export RSTSR_DEV=1 LIBRARY_PATH=/usr/lib/x86_64-linux-gnu
# the explorer runs one case per core
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export RAYON_NUM_THREADS=1
