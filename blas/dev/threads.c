// The thread-count functions of the BLAS libraries that are not linked; OpenBLAS computes in their place.
static __thread long n = 1;
void bli_thread_set_num_threads(long k) { n = k; }
long bli_thread_get_num_threads(void) { return n; }
int MKL_Set_Num_Threads_Local(int k) { int o = (int)n; n = k; return o; }
void MKL_Set_Num_Threads(int k) { n = k; }
int MKL_Get_Max_Threads(void) { return (int)n; }
void BlasSetNumThreads(int k) { n = k; }
void BlasSetNumThreadsLocal(int k) { n = k; }
int BlasGetNumThreads(void) { return (int)n; }
int BlasGetNumThreadsLocal(void) { return (int)n; }
void KmlSetNumThreads(int k) { n = k; }
int KmlGetMaxThreads(void) { return (int)n; }
