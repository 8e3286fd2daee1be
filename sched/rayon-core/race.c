// Determinacy-race detection over the fork-join tree of one thread's controlled execution.
//
// Every load and store of the instrumented crates arrives here (sanitizer-coverage callbacks; memcpy, memmove
// and memset through --wrap). A strand is named by its path: the (join, side) pairs it is inside of. Two strands
// are concurrent iff at the first difference of their paths they are on different sides of the same join. Each
// byte remembers its last writer and one reader (the rule of SP-bags: the reader is replaced when it is
// sequential with the current strand); a conflicting access by a concurrent strand is a race, whatever the
// order in which this execution happened to run the two.
//
// Bytes of the stack below the frame that made the join belong to one side only and are ignored for that join.
#define _GNU_SOURCE
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);

#define MAXDEPTH 64
struct strand { uint32_t depth; uint32_t join[MAXDEPTH]; uint8_t side[MAXDEPTH]; uintptr_t sp[MAXDEPTH]; };
struct cell { uint32_t w, r; };
#define PB 256
struct page { uintptr_t base; struct cell c[PB]; };

static __thread int on, active;
static __thread uint32_t cur;
static __thread struct strand *strands; static __thread uint32_t nstr, cstr;
static __thread uint32_t njoin;
static __thread struct page **tab; static __thread uint32_t tabn, npages;
static __thread struct page *pool; static __thread uint32_t poolcap; 
static __thread struct page *last[2];
static __thread uintptr_t stlo, sthi, tlslo, tlshi;
static __thread uint64_t nacc;
// stack below this belongs to the current strand alone
static __thread uintptr_t mysp;
static __thread char report[512]; static __thread uint64_t nraces;
struct range { uintptr_t lo, hi; };
static __thread struct range skip[64]; static __thread int nskip;

// the last verdict of conc, which off the stack depends on the two strands only
static __thread uint32_t ma, mb; static __thread int mr;

static void init(void) {
  pthread_attr_t a; void *p; size_t n;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &p, &n);
  pthread_attr_destroy(&a);
  stlo = (uintptr_t)p; sthi = stlo + n;
  cstr = 1 << 12; strands = __real_malloc(cstr * sizeof *strands);
  tabn = 1 << 18; tab = __real_calloc(tabn, sizeof *tab);
  poolcap = 1 << 16; pool = __real_malloc((size_t)poolcap * sizeof *pool);
}

void mcrace_begin(void) {
  on = 0;
  if (!strands) init();
  // forget the pages of the previous run
  for (uint32_t i = 0; i < npages; i++) {
    uint32_t h = (uint32_t)((pool[i].base / PB * 0x9E3779B97F4A7C15ull) >> 46) & (tabn - 1);
    while (tab[h]) { tab[h] = 0; h = (h + 1) & (tabn - 1); }
  }
  npages = 0; last[0] = last[1] = 0;
  ma = mb = 0; nstr = 2; njoin = 1; cur = 1; nacc = 0; nraces = 0; report[0] = 0;
  strands[1].depth = 0;
  on = 1; active = 1;
}
void mcrace_end(void) { on = 0; active = 0; }
int mcrace_pause(void) { int o = on; on = 0; return o; }
void mcrace_resume(int o) { on = o; }
uint64_t mcrace_races(void) { return nraces; }
uint64_t mcrace_accesses(void) { return nacc; }
const char *mcrace_report(void) { return report; }
uint32_t mcrace_strands(void) { return nstr - 2; }
uint32_t mcrace_cur(void) { return cur; }
uint32_t mcrace_fork(void) { return njoin++; }
// enter one side of a join; returns the strand to come back to
uint32_t mcrace_enter(uint32_t join, int side, uintptr_t sp) {
  uint32_t old = cur;
  if (!strands) return old;
  if (nstr == cstr) { cstr *= 2; strands = __real_realloc(strands, cstr * sizeof *strands); }
  struct strand *s = &strands[nstr], *o = &strands[old];
  uint32_t d = o->depth;
  if (d + 1 >= MAXDEPTH) { fprintf(stderr, "join nesting too deep\n"); abort(); }
  __real_memcpy(s->join, o->join, d * sizeof s->join[0]);
  __real_memcpy(s->side, o->side, d);
  __real_memcpy(s->sp, o->sp, d * sizeof s->sp[0]);
  s->join[d] = join; s->side[d] = side; s->sp[d] = sp; s->depth = d + 1;
  cur = nstr++; mysp = sp;
  return old;
}
void mcrace_leave(uint32_t old) { cur = old; if (strands && strands[old].depth) mysp = strands[old].sp[strands[old].depth - 1]; }

static struct page *find(uintptr_t base, int make) {
  if (last[0] && last[0]->base == base) return last[0];
  if (last[1] && last[1]->base == base) { struct page *p = last[1]; last[1] = last[0]; last[0] = p; return p; }
  uint32_t h = (uint32_t)((base / PB * 0x9E3779B97F4A7C15ull) >> 46) & (tabn - 1);
  while (tab[h]) { if (tab[h]->base == base) { last[1] = last[0]; last[0] = tab[h]; return tab[h]; } h = (h + 1) & (tabn - 1); }
  if (!make) return 0;
  if (npages == poolcap) { fprintf(stderr, "shadow memory exhausted\n"); abort(); }
  struct page *p = &pool[npages++];
  p->base = base;
  __real_memset(p->c, 0, sizeof p->c);
  tab[h] = p; last[1] = last[0]; last[0] = p;
  return p;
}

// 0: sequential (or private to one side), 1: concurrent
static inline int conc(uint32_t a, uint32_t b, uintptr_t p) {
  if (a == b || !a) return 0;
  struct strand *x = &strands[a], *y = &strands[b];
  uint32_t n = x->depth < y->depth ? x->depth : y->depth;
  for (uint32_t i = 0; i < n; i++) {
    if (x->join[i] != y->join[i]) return 0;
    if (x->side[i] != y->side[i]) return !(p >= stlo && p < sthi && p < x->sp[i]);
  }
  return 0;
}
static void race(uint32_t a, uint32_t b, uintptr_t p, const char *what) {
  if (!nraces++) snprintf(report, sizeof report, "%s of %s memory %#lx by concurrent pieces %u and %u", what, p >= stlo && p < sthi ? "stack" : "heap", (unsigned long)p, a, b);
}
void mcrace_skip(void *p, size_t n) { if (nskip < 64) { skip[nskip].lo = (uintptr_t)p; skip[nskip++].hi = (uintptr_t)p + n; } }

static inline int conc1(uint32_t a, uint32_t b, uintptr_t p) {
  if (a == b || !a) return 0;
  if (p >= stlo && p < sthi) return conc(a, b, p);
  if (a == ma && b == mb) return mr;
  ma = a; mb = b;
  return mr = conc(a, b, p);
}
static void access1(uintptr_t p, size_t n, int write) {
  // code outside every join runs alone, and so does its own stack
  uint32_t c = cur;
  nacc++;
  if (!strands[c].depth) return;
  if (p >= stlo && p < mysp) return;
  for (int i = 0; i < nskip; i++) if (p >= skip[i].lo && p < skip[i].hi) return;
  while (n) {
    uintptr_t base = p & ~(uintptr_t)(PB - 1);
    struct page *pg = find(base, 1);
    size_t o = p - base, k = PB - o < n ? PB - o : n;
    for (size_t i = 0; i < k; i++) {
      struct cell *e = &pg->c[o + i];
      if (write) {
        if (conc1(e->w, c, p + i)) race(e->w, c, p + i, "two writes");
        if (conc1(e->r, c, p + i)) race(e->r, c, p + i, "read and write");
        e->w = c;
      } else {
        if (conc1(e->w, c, p + i)) race(e->w, c, p + i, "write and read");
        if (e->r != c && !conc1(e->r, c, p + i)) e->r = c;
      }
    }
    p += k; n -= k;
  }
}
static void fresh(void *q, size_t n) {
  uintptr_t p = (uintptr_t)q;
  while (n) {
    uintptr_t base = p & ~(uintptr_t)(PB - 1);
    size_t o = p - base, k = PB - o < n ? PB - o : n;
    struct page *pg = find(base, 0);
    if (pg) __real_memset(&pg->c[o], 0, k * sizeof(struct cell));
    p += k; n -= k;
  }
}
#define ACC(p, n, w) do { if (on) { on = 0; access1((uintptr_t)(p), n, w); on = 1; } } while (0)
#define F(n) void __sanitizer_cov_load##n(void *a) { ACC(a, n, 0); } void __sanitizer_cov_store##n(void *a) { ACC(a, n, 1); }
F(1) F(2) F(4) F(8) F(16)
void *__wrap_memcpy(void *d, const void *s, size_t n) { ACC(s, n, 0); ACC(d, n, 1); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { ACC(s, n, 0); ACC(d, n, 1); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { ACC(d, n, 1); return __real_memset(d, v, n); }
int __wrap_memcmp(const void *d, const void *s, size_t n) { ACC(s, n, 0); ACC(d, n, 0); return __real_memcmp(d, s, n); }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (active && p) fresh(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (active && p) fresh(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) {
  size_t o = q ? malloc_usable_size(q) : 0;
  void *p = __real_realloc(q, n);
  if (active && p) { if (p != q) fresh(p, n); else if (n > o) fresh((char *)p + o, n - o); }
  return p;
}
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (active && !r) fresh(*p, n); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { void *p = __real_aligned_alloc(a, n); if (active && p) fresh(p, n); return p; }
