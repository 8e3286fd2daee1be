// A stand-in for the TBLIS library: its tensor operations by their definition,
// C = beta C + alpha sum over the labels that C does not have.
#include <complex.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
    union { float s; double d; float complex c; double complex z; } data;
    int type;  // 0 float, 1 float complex, 2 double, 3 double complex
} scalar;
typedef struct { int type, conj; scalar scalar; void *data; int ndim; ptrdiff_t *len, *stride; } tensor;

static double complex get(const tensor *t, ptrdiff_t p) {
    double complex x = 0;
    switch (t->type) {
        case 0: x = ((float *)t->data)[p]; break;
        case 1: x = ((float complex *)t->data)[p]; break;
        case 2: x = ((double *)t->data)[p]; break;
        case 3: x = ((double complex *)t->data)[p]; break;
        default: abort();
    }
    return t->conj ? conj(x) : x;
}
static void put(const tensor *t, ptrdiff_t p, double complex x) {
    switch (t->type) {
        case 0: ((float *)t->data)[p] = creal(x); break;
        case 1: ((float complex *)t->data)[p] = x; break;
        case 2: ((double *)t->data)[p] = creal(x); break;
        case 3: ((double complex *)t->data)[p] = x; break;
        default: abort();
    }
}
static double complex val(const scalar *s) {
    switch (s->type) {
        case 0: return s->data.s;
        case 1: return s->data.c;
        case 2: return s->data.d;
        case 3: return s->data.z;
    }
    abort();
}

// distances in one tensor for one step of each label
static void steps(const tensor *t, const char *idx, const char *lab, int n, ptrdiff_t *st, ptrdiff_t *len) {
    memset(st, 0, n * sizeof *st);
    for (int i = 0; i < t->ndim; i++) {
        int k = 0;
        while (lab[k] != idx[i]) k++;
        st[k] += t->stride[i];
        if (len[k] != -1 && len[k] != t->len[i]) { fprintf(stderr, "TBLIS called with differing lengths of one label\n"); abort(); }
        len[k] = t->len[i];
    }
}
static int collect(const tensor *t, const char *idx, char *lab, int n) {
    for (int i = 0; i < t->ndim; i++) if (!memchr(lab, idx[i], n)) lab[n++] = idx[i];
    return n;
}

void tblis_tensor_mult(const void *comm, const void *cntx, const tensor *A, const char *ia, const tensor *B, const char *ib, tensor *C, const char *ic) {
    (void)comm; (void)cntx;
    char lab[256];
    ptrdiff_t sa[256], sb[256], sc[256], len[256], x[256] = {0};
    int nc = collect(C, ic, lab, 0), n = nc;
    n = collect(A, ia, lab, n);
    if (B) n = collect(B, ib, lab, n);
    for (int i = 0; i < n; i++) len[i] = -1;
    steps(C, ic, lab, n, sc, len);
    steps(A, ia, lab, n, sa, len);
    if (B) steps(B, ib, lab, n, sb, len); else memset(sb, 0, sizeof sb);
    for (int i = 0; i < n; i++) if (len[i] <= 0) { fprintf(stderr, "TBLIS called with an empty tensor\n"); abort(); }
    double complex alpha = val(&A->scalar) * (B ? val(&B->scalar) : 1), beta = val(&C->scalar);
    ptrdiff_t pa = 0, pb = 0, pc = 0;
    double complex sum = 0;
    for (;;) {
        sum += get(A, pa) * (B ? get(B, pb) : 1);
        // the last label runs fastest; when a label of C moves, the sum is complete
        int k = n - 1;
        while (k >= 0 && x[k] + 1 == len[k]) { pa -= x[k] * sa[k]; pb -= x[k] * sb[k]; if (k >= nc) pc -= x[k] * sc[k]; k--; }
        if (k < nc) {
            double complex old = beta == 0 ? 0 : beta * get(C, pc);
            put(C, pc, old + alpha * sum);
            sum = 0;
        }
        if (k < 0) return;
        for (int i = k + 1; i < n; i++) { if (i < nc) pc -= x[i] * sc[i]; x[i] = 0; }
        x[k]++; pa += sa[k]; pb += sb[k]; pc += sc[k];
    }
}
void tblis_tensor_add(const void *comm, const void *cntx, const tensor *A, const char *ia, tensor *B, const char *ib) {
    tblis_tensor_mult(comm, cntx, A, ia, NULL, NULL, B, ib);
}

#define NO(f) void f(void) { fprintf(stderr, #f " is not there\n"); abort(); }
NO(tblis_tensor_dot) NO(tblis_tensor_reduce) NO(tblis_tensor_scale) NO(tblis_tensor_set) NO(tblis_tensor_shift)
void tblis_init_scalar_s(scalar *s, float v) { s->type = 0; s->data.s = v; }
void tblis_init_scalar_d(scalar *s, double v) { s->type = 2; s->data.d = v; }
void tblis_init_scalar_c(scalar *s, float complex v) { s->type = 1; s->data.c = v; }
void tblis_init_scalar_z(scalar *s, double complex v) { s->type = 3; s->data.z = v; }
const void *tblis_single;
static unsigned threads = 1;
unsigned tblis_get_num_threads(void) { return threads; }
void tblis_set_num_threads(unsigned n) { threads = n; }
