/* Simulated OpenMP team with access recording.
 *
 * The Fortran sources are compiled with -fsanitize=thread (instrumentation
 * only, at -O0) and linked against this file instead of libtsan, so that every
 * load and store in the sources arrives here; the OpenMP entry points defined
 * here run the members of a team as coroutines on stacks of their own, one
 * after another in a configurable order.  Within a parallel region, between
 * barriers, two accesses of different members to the same byte conflict if one
 * of them writes and they are not both atomic or both made under a common
 * lock.  If a region has no conflict, all interleavings of its members are
 * equivalent (Mazurkiewicz), so the one executed decides them all.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <malloc.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

#define MAXT 64
#define STACK (4u << 20)

static int team = 1, order[MAXT] = {0};
static int in_region, cur, phase_members;
static long n_regions, n_access, n_conflict, n_barrier;
static char first[1024];
static int locks;          /* bit mask of held locks */

typedef struct { ucontext_t ctx; char *stack; int state; int single; long chunk; } member_t;
enum { RUN, BARRIER, DONE };
static member_t mem[MAXT];
static ucontext_t home;
static void (*body)(void *); static void *body_data;

/* ---- access table: byte address -> per phase record ---- */
typedef struct { uintptr_t a; uint32_t epoch; uint64_t rd, wr, ard, awr; int lock; void *pc; } rec_t;
static rec_t *tab; static size_t cap, used; static uint32_t epoch = 1;

static void grow(void);
static rec_t *find(uintptr_t a)
{
    size_t i = (a * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
    while (tab[i].epoch == epoch && tab[i].a != a) i = (i + 1) & (cap - 1);
    if (tab[i].epoch != epoch) {
        if (used * 2 >= cap) { grow(); return find(a); }
        memset(&tab[i], 0, sizeof tab[i]);
        tab[i].a = a; tab[i].epoch = epoch; tab[i].lock = -1; used++;
    }
    return &tab[i];
}
static void grow(void)
{
    rec_t *o = tab; size_t oc = cap;
    cap = cap ? cap * 2 : 1 << 16; used = 0;
    tab = calloc(cap, sizeof *tab);
    for (size_t i = 0; i < oc; i++) if (o[i].epoch == epoch) { rec_t *r = find(o[i].a); *r = o[i]; }
    free(o);
}
static void new_phase(void) { epoch++; used = 0; }

static void access_(void *p, size_t n, int write, int atomic, void *pc)
{
    if (!in_region || cur < 0) return;
    char *q = p;
    if (q >= mem[cur].stack && q < mem[cur].stack + STACK) return;
    n_access++;
    if (!tab) grow();
    uint64_t me = 1ull << cur;
    for (size_t i = 0; i < n; i++) {
        rec_t *r = find((uintptr_t)(q + i));
        int lk = (r->rd | r->wr | r->ard | r->awr) ? (r->lock & locks) : locks;
        uint64_t plain_o = (r->wr & ~me), atom_w = (r->awr & ~me);
        uint64_t plain_r = (r->rd & ~me), atom_r = (r->ard & ~me);
        int bad;
        if (atomic) bad = plain_o || (write && plain_r);
        else bad = plain_o || atom_w || (write && (plain_r || atom_r));
        if (bad && !lk) {
            if (!n_conflict++) {
                Dl_info d, e; memset(&d, 0, sizeof d); memset(&e, 0, sizeof e);
                dladdr(pc, &d); dladdr(r->pc, &e);
                snprintf(first, sizeof first,
                         "members %d and another of a team of %d access the same memory without order: %s at <%lx>, earlier access at <%lx>",
                         cur, team, write ? "write" : "read",
                         (unsigned long)((char *)pc - (char *)d.dli_fbase) - 1,
                         (unsigned long)((char *)r->pc - (char *)e.dli_fbase) - 1);
            }
        }
        r->lock = lk;
        if (write) { if (atomic) r->awr |= me; else r->wr |= me; }
        else { if (atomic) r->ard |= me; else r->rd |= me; }
        r->pc = pc;
    }
}
#define PC __builtin_return_address(0)
#define RW(n) \
    void __tsan_read##n(void *p) { access_(p, n, 0, 0, PC); } \
    void __tsan_write##n(void *p) { access_(p, n, 1, 0, PC); } \
    void __tsan_unaligned_read##n(void *p) { access_(p, n, 0, 0, PC); } \
    void __tsan_unaligned_write##n(void *p) { access_(p, n, 1, 0, PC); } \
    void __tsan_volatile_read##n(void *p) { access_(p, n, 0, 0, PC); } \
    void __tsan_volatile_write##n(void *p) { access_(p, n, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access_(p, n, 0, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { access_(p, n, 1, 0, PC); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { *p = v; }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const T *p, int m) { access_((void *)p, b / 8, 0, 1, PC); return *p; } \
    void __tsan_atomic##b##_store(T *p, T v, int m) { access_(p, b / 8, 1, 1, PC); *p = v; } \
    T __tsan_atomic##b##_exchange(T *p, T v, int m) { access_(p, b / 8, 1, 1, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(T *p, T v, int m) { access_(p, b / 8, 1, 1, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(T *p, T v, int m) { access_(p, b / 8, 1, 1, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(T *p, T v, int m) { access_(p, b / 8, 1, 1, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(T *p, T v, int m) { access_(p, b / 8, 1, 1, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(T *p, T v, int m) { access_(p, b / 8, 1, 1, PC); T o = *p; *p = o ^ v; return o; } \
    bool __tsan_atomic##b##_compare_exchange_strong(T *p, T *c, T v, int m, int f) \
    { access_(p, b / 8, 1, 1, PC); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
    bool __tsan_atomic##b##_compare_exchange_weak(T *p, T *c, T v, int m, int f) \
    { access_(p, b / 8, 1, 1, PC); if (*p == *c) { *p = v; return true; } *c = *p; return false; } \
    T __tsan_atomic##b##_compare_exchange_val(T *p, T c, T v, int m, int f) \
    { access_(p, b / 8, 1, 1, PC); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
typedef unsigned __int128 u128;
AT(128, u128)
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }

/* ---- library calls made by the compiled code ---- */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_memcpy(void *d, const void *s, size_t n)
{ access_((void *)s, n, 0, 0, PC); access_(d, n, 1, 0, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n)
{ access_((void *)s, n, 0, 0, PC); access_(d, n, 1, 0, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n)
{ access_(d, n, 1, 0, PC); return __real_memset(d, c, n); }
/* memory released inside a region is kept until its end: no address is reused
 * by another member */
static void **kept; static size_t nkept, ckept;
static void keep(void *p)
{
    if (!p) return;
    if (nkept == ckept) { ckept = ckept ? 2 * ckept : 64; kept = __real_realloc(kept, ckept * sizeof *kept); }
    kept[nkept++] = p;
}
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n)
{
    if (!in_region) return __real_realloc(p, n);
    void *q = __real_malloc(n);
    if (p) { size_t m = malloc_usable_size(p); __real_memcpy(q, p, m < n ? m : n); keep(p); }
    return q;
}
void __wrap_free(void *p) { if (in_region) keep(p); else __real_free(p); }

/* ---- OpenMP ---- */
static void entry(void) { body(body_data); mem[cur].state = DONE; swapcontext(&mem[cur].ctx, &home); }
static long loop_next[MAXT]; static int singles_taken; static unsigned nsec;
static long ls, le, linc, lchunk, lcur; static int lactive;

static void run_team(void (*fn)(void *), void *data, unsigned req)
{
    if (in_region) { fn(data); return; }            /* nested: serial */
    int n = req == 1 ? 1 : team, done = 0;
    int saved = team; team = n;
    n_regions++; body = fn; body_data = data; in_region = 1; lactive = 0; locks = 0; singles_taken = 0;
    new_phase();
    for (int i = 0; i < n; i++) {
        if (!mem[i].stack) mem[i].stack = __real_malloc(STACK);
        getcontext(&mem[i].ctx);
        mem[i].ctx.uc_stack.ss_sp = mem[i].stack; mem[i].ctx.uc_stack.ss_size = STACK;
        mem[i].ctx.uc_link = &home; mem[i].state = RUN; mem[i].single = 0; mem[i].chunk = 0;
        makecontext(&mem[i].ctx, entry, 0);
    }
    while (done < n) {
        done = 0;
        for (int i = 0; i < n; i++) {
            int t = saved == n ? order[i] : i;
            if (mem[t].state == DONE) continue;
            mem[t].state = RUN; cur = t; locks = 0;
            swapcontext(&home, &mem[t].ctx);
            cur = -1;
        }
        new_phase(); lactive = 0;
        for (int i = 0; i < n; i++) done += mem[i].state == DONE;
    }
    in_region = 0; cur = -1; team = saved;
    for (size_t i = 0; i < nkept; i++) __real_free(kept[i]);
    nkept = 0;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags)
{ (void)flags; run_team(fn, data, nt); }
void GOMP_barrier(void)
{ if (!in_region) return; n_barrier++; mem[cur].state = BARRIER; swapcontext(&mem[cur].ctx, &home); }
void GOMP_atomic_start(void) { locks |= 1; }
void GOMP_atomic_end(void) { locks &= ~1; }
void GOMP_critical_start(void) { locks |= 2; }
void GOMP_critical_end(void) { locks &= ~2; }
static int lockid(void **p) { return 4 << (((uintptr_t)p >> 3) % 24); }
void GOMP_critical_name_start(void **p) { locks |= lockid(p); }
void GOMP_critical_name_end(void **p) { locks &= ~lockid(p); }
bool GOMP_single_start(void)
{ if (!in_region) return true; mem[cur].single++; if (mem[cur].single > singles_taken) { singles_taken = mem[cur].single; return true; } return false; }
/* dynamic loops: chunks are dealt out round robin in the order of the members */
static bool deal(long *a, long *b)
{
    long total = linc > 0 ? (le - ls + linc - 1) / linc : (le - ls + linc + 1) / linc;
    if (total < 0) total = 0;
    long ch = lchunk > 0 ? lchunk : 1, idx = cur < 0 ? 0 : cur;
    long n = in_region ? team : 1;
    long k = (cur < 0 ? loop_next[0]++ : mem[cur].chunk++) * n + idx;
    if (k * ch >= total) return false;
    long e = (k + 1) * ch; if (e > total) e = total;
    *a = ls + k * ch * linc; *b = ls + e * linc;
    return true;
}
static bool start_loop(long s, long e, long inc, long ch, long *a, long *b)
{ ls = s; le = e; linc = inc; lchunk = ch; if (cur >= 0) mem[cur].chunk = 0; else loop_next[0] = 0; return deal(a, b); }
#define LOOP(k) \
    bool GOMP_loop_##k##_start(long s, long e, long inc, long ch, long *a, long *b) { return start_loop(s, e, inc, ch, a, b); } \
    bool GOMP_loop_##k##_next(long *a, long *b) { return deal(a, b); } \
    void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, long ch, unsigned f) \
    { (void)f; ls = s; le = e; linc = inc; lchunk = ch; run_team(fn, d, nt); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(k) \
    bool GOMP_loop_##k##_start(long s, long e, long inc, long *a, long *b) { return start_loop(s, e, inc, 1, a, b); } \
    bool GOMP_loop_##k##_next(long *a, long *b) { return deal(a, b); } \
    void GOMP_parallel_loop_##k(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, unsigned f) \
    { (void)f; ls = s; le = e; linc = inc; lchunk = 1; run_team(fn, d, nt); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
static unsigned section(void)
{ long n = in_region ? team : 1, k = (cur < 0 ? loop_next[0]++ : mem[cur].chunk++) * n + (cur < 0 ? 0 : cur); return k < nsec ? k + 1 : 0; }
unsigned GOMP_sections_start(unsigned c) { nsec = c; if (cur >= 0) mem[cur].chunk = 0; else loop_next[0] = 0; return section(); }
unsigned GOMP_sections_next(void) { return section(); }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned c, unsigned f)
{ (void)f; nsec = c; run_team(fn, d, nt); }
void GOMP_loop_end_nowait(void) {}
void GOMP_loop_end(void) { GOMP_barrier(); }
int omp_get_thread_num(void) { return in_region && cur >= 0 ? cur : 0; }
int omp_get_num_threads(void) { return in_region ? team : 1; }
int omp_get_max_threads(void) { return team; }
int omp_get_num_procs(void) { return team; }
int omp_in_parallel(void) { return in_region; }
int omp_get_thread_num_(void) { return omp_get_thread_num(); }
int omp_get_num_threads_(void) { return omp_get_num_threads(); }
int omp_get_max_threads_(void) { return omp_get_max_threads(); }

/* ---- control ---- */
void vt_config(int n, const int *perm)
{ team = n < 1 ? 1 : n > MAXT ? MAXT : n; for (int i = 0; i < team; i++) order[i] = perm ? perm[i] : i; cur = -1; }
void vt_reset(void) { n_regions = n_access = n_conflict = n_barrier = 0; first[0] = 0; }
long vt_regions(void) { return n_regions; }
long vt_accesses(void) { return n_access; }
long vt_conflicts(void) { return n_conflict; }
const char *vt_first(void) { return first; }
