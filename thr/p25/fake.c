// Stand-ins for the BLAS libraries' thread-count functions, and a scheduler that lets one thread run at a time.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXT 4
#define MAXP 4096
enum { NONE, READY, BLOCKED, DONE };
static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t C = PTHREAD_COND_INITIALIZER;
static int nthr, state[MAXT], turn = -1;
static const void *addr_of[MAXT];
static __thread int me = -1;
// the script: choice k at point k; beyond it choice 0 (carry on with the running thread if it can)
int mc_script[MAXP], mc_nscript, mc_taken[MAXP], mc_width[MAXP], mc_free[MAXP], mc_pos, mc_deadlock;

// called with M held
static void pick(void) {
    int list[MAXT], n = 0, all = 1;
    if (me >= 0 && state[me] == READY) list[n++] = me;
    for (int i = 0; i < nthr; i++) {
        if (state[i] == READY && i != me) list[n++] = i;
        if (state[i] != DONE) all = 0;
    }
    if (n == 0) {
        if (!all) {
            printf("bad: no thread can go on (deadlock)\n");
            fflush(stdout);
            _exit(0);
        }
        turn = -2;
    } else {
        int k = mc_pos < mc_nscript ? mc_script[mc_pos] : 0;
        if (k >= n) { printf("bad: the run is not reproducible\n"); fflush(stdout); _exit(0); }
        if (mc_pos >= MAXP) { printf("bad: no end\n"); fflush(stdout); _exit(0); }
        mc_taken[mc_pos] = k;
        mc_width[mc_pos] = n;
        // leaving a thread that could go on is a preemption
        mc_free[mc_pos] = !(me >= 0 && state[me] == READY);
        mc_pos++;
        turn = list[k];
    }
    pthread_cond_broadcast(&C);
}
static void wait_turn(void) { while (turn != me) pthread_cond_wait(&C, &M); }

void mc_begin(int n) {
    nthr = n; mc_pos = 0; turn = -1;
    for (int i = 0; i < n; i++) state[i] = NONE;
}
// a thread joins; the last to join lets the first run
void mc_join(int id) {
    pthread_mutex_lock(&M);
    me = id;
    state[id] = READY;
    int all = 1;
    for (int i = 0; i < nthr; i++) all &= state[i] == READY;
    if (all) { int m = me; me = -1; pick(); me = m; }
    wait_turn();
    pthread_mutex_unlock(&M);
}
void mc_leave(void) {
    pthread_mutex_lock(&M);
    state[me] = DONE;
    pick();
    me = -1;
    pthread_mutex_unlock(&M);
}
void mc_yield(void) {
    if (me < 0) return;
    pthread_mutex_lock(&M);
    pick();
    wait_turn();
    pthread_mutex_unlock(&M);
}

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
// std's locks wait and wake through here
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n != SYS_futex || me < 0) return raw(n, a, b, c, d, e, f);
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        if (*(volatile unsigned *)a != (unsigned)c) { errno = EAGAIN; return -1; }
        pthread_mutex_lock(&M);
        state[me] = BLOCKED;
        addr_of[me] = (const void *)a;
        pick();
        wait_turn();
        pthread_mutex_unlock(&M);
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        int w = 0;
        pthread_mutex_lock(&M);
        for (int i = 0; i < nthr && w < (int)c; i++)
            if (state[i] == BLOCKED && addr_of[i] == (const void *)a) { state[i] = READY; w++; }
        // threads outside the run (starting or finished ones) wait for real
        if (w < (int)c) w += (int)raw(n, a, b, (long)((int)c - w), d, e, f);
        pick();
        wait_turn();
        pthread_mutex_unlock(&M);
        return w;
    }
    return raw(n, a, b, c, d, e, f);
}

// ---- the libraries ----
int mc_omp;                                // is this OpenBLAS built with OpenMP?
static int openblas = 8, blis = 8, aocl = 8, kml_service = 8, kblas = 8;
static __thread int omp = 8, mkl_local, kblas_local;
static int mkl_global = 8;
#define SET(name, var, T) void name(T n) { mc_yield(); var = (int)n; }
#define GET(name, expr, T) T name(void) { mc_yield(); return (T)(expr); }
int openblas_get_parallel(void) { return mc_omp ? 2 : 1; }
SET(openblas_set_num_threads, openblas, int)
GET(openblas_get_num_threads, openblas, int)
SET(omp_set_num_threads, omp, int)
GET(omp_get_max_threads, omp, int)
SET(bli_thread_set_num_threads, blis, long)
GET(bli_thread_get_num_threads, blis, long)
GET(MKL_Get_Max_Threads, mkl_local ? mkl_local : mkl_global, int)
int MKL_Set_Num_Threads_Local(int n) { mc_yield(); int o = mkl_local; mkl_local = n; return o; }
SET(MKL_Set_Num_Threads, mkl_global, int)
SET(BlasSetNumThreads, kblas, int)
SET(BlasSetNumThreadsLocal, kblas_local, int)
GET(BlasGetNumThreads, kblas, int)
GET(BlasGetNumThreadsLocal, kblas_local ? kblas_local : kblas, int)
SET(KmlSetNumThreads, kml_service, int)
GET(KmlGetMaxThreads, kml_service, int)
static unsigned tblis = 6;
SET(tblis_set_num_threads, tblis, unsigned)
GET(tblis_get_num_threads, tblis, unsigned)
// nothing is computed; only the thread count matters here
void tblis_tensor_add(void) {}
void tblis_tensor_mult(void) {}
void tblis_tensor_scale(void) {}
void tblis_tensor_set(void) {}
void tblis_tensor_shift(void) {}
void tblis_tensor_dot(void) {}
void tblis_tensor_reduce(void) {}
