# OpenBLAS computes, with stand-ins for the thread-count functions of all BLAS libraries
unset RSTSR_DEV LIBRARY_PATH
export OPENBLAS_NUM_THREADS=1
