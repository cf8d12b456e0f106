/* Scheduling points at every memory access of code compiled with
 * clang -fsanitize=thread and linked with this instead of the run time of
 * ThreadSanitizer: coroutines switched at the points, with the choices of the
 * scheduler given by a depth first search with bounded preemptions or by a
 * random generator. */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

#ifndef MAXT
#define MAXT 8
#endif
#define STK (64 * 1024)
static struct co { ucontext_t c; void (*f)(int); bool done; bool spin; const void *la; uint64_t lv; long lrun; int same; char *stk; unsigned prio; } co[MAXT];
static ucontext_t mainc;
static int nco, cur = -1;
static long runs_; /* number of switches, to see whether others ran */
static uintptr_t lo_, hi_; /* the shared memory: other accesses are no points */
static long npoints, maxpoints = 5000;
static bool stuck;
static bool (*co_ready)(int); /* can this thread go on? (NULL: always) */
static void (*on_access)(const void *);
static bool rdy(int i) { return !co[i].done && (!co_ready || co_ready(i)); }

/* ---- choices */
#define MAXCH 100000
static int ch[MAXCH], chn[MAXCH], nch, chpos; /* choice taken, number of alternatives */
static int mode; /* 0 dfs, 1 random */
static int pbound, preempts;
static uint64_t rs = 88172645463325252ull;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static double rp = 0.2;

static int choose(int n) {
    if (n <= 1) return 0;
    if (mode == 1) return (int)(rnd() % (unsigned)n);
    if (chpos < nch) { chn[chpos] = n; if (ch[chpos] >= n) ch[chpos] = n - 1; return ch[chpos++]; }
    if (nch == MAXCH) { stuck = true; return 0; }
    ch[nch] = 0; chn[nch] = n; nch++; chpos++; return 0;
}
static bool dfs_next(void) {
    while (nch > 0 && ch[nch - 1] + 1 >= chn[nch - 1]) nch--;
    if (!nch) return false;
    ch[nch - 1]++; return true;
}

static void sw(int to) { int me = cur; cur = to; if (me == to) return; runs_++; if (me < 0) swapcontext(&mainc, &co[to].c); else swapcontext(&co[me].c, &co[to].c); }
static void tomain(void) { int me = cur; cur = -1; swapcontext(&co[me].c, &mainc); }

/* Who runs next?  A thread that read the same value from the same place twice
 * without anybody else running in between is waiting. */
static void point_at(const void *a, uint64_t v, bool rd) {
    struct co *m = &co[cur];
    if (++npoints > maxpoints) { stuck = true; tomain(); }
    m->same = rd && m->la == a && m->lv == v && m->lrun == runs_ ? m->same + 1 : 0;
    bool spin = m->same >= 3;
    m->la = rd ? a : NULL; m->lv = v; m->lrun = runs_;
    if (!rd) for (int i = 0; i < nco; i++) co[i].spin = false;
    if (spin) m->spin = true;
    int al[MAXT], n = 0;
    if (!spin) al[n++] = cur;
    if (spin || mode == 1 || preempts < pbound)
        for (int i = 0; i < nco; i++) if (i != cur && rdy(i) && !co[i].spin) al[n++] = i;
    if (n == 0) al[n++] = cur; /* nobody else can run: the number of points ends it */
    int k;
    if (mode == 1 && !spin) k = (double)(rnd() >> 11) / 9007199254740992.0 < rp ? choose(n) : 0;
    else k = choose(n);
    if (!spin && k) preempts++;
    if (al[k] != cur) { sw(al[k]); m->lrun = -1; }
}
static void point(void) { point_at(NULL, 0, false); }
static void co_end(void) {
    co[cur].done = true;
    for (int i = 0; i < nco; i++) co[i].spin = false;
    int al[MAXT], n = 0, left = 0;
    for (int i = 0; i < nco; i++) { if (rdy(i)) al[n++] = i; left += !co[i].done; }
    if (!n) { stuck = left > 0; tomain(); }
    sw(al[choose(n)]);
}
/* the current thread cannot go on (co_ready says no for it) */
static void co_block(void) {
    while (!co_ready(cur)) {
        int al[MAXT], n = 0;
        if (++npoints > maxpoints) { stuck = true; tomain(); }
        co[cur].same = 0; co[cur].lrun = -1;
        for (int i = 0; i < nco; i++) { co[i].spin = false; if (rdy(i)) al[n++] = i; }
        if (!n) { stuck = true; tomain(); }
        sw(al[choose(n)]);
    }
}
static void co_main(int i) { co[i].f(i); co_end(); abort(); }
static void co_new(void (*f)(int)) {
    struct co *c = &co[nco]; if (!c->stk) c->stk = malloc(STK);
    char *s = c->stk; memset(c, 0, sizeof *c); c->stk = s; c->f = f; c->lrun = -1;
    getcontext(&c->c); c->c.uc_stack.ss_sp = s; c->c.uc_stack.ss_size = STK; c->c.uc_link = NULL;
    makecontext(&c->c, (void (*)(void))co_main, 1, nco); nco++;
}
static void co_run(void) { npoints = 0; preempts = 0; stuck = false; runs_ = 0; int al[MAXT], n = 0; for (int i = 0; i < nco; i++) if (rdy(i)) al[n++] = i; if (n) sw(al[choose(n)]); }
static void co_reset(void) { nco = 0; cur = -1; chpos = 0; }

/* ---- the interface of the instrumentation */
static inline bool sh(const void *a) { if (on_access && cur >= 0) on_access(a); return cur >= 0 && (uintptr_t)a >= lo_ && (uintptr_t)a < hi_; }
#define RD(n, T) \
    void __tsan_read##n(void *a) { if (sh(a)) point_at(a, *(T *)a, true); } \
    void __tsan_unaligned_read##n(void *a) { if (sh(a)) point_at(a, *(T *)a, true); } \
    void __tsan_volatile_read##n(void *a) { if (sh(a)) point_at(a, *(T *)a, true); } \
    void __tsan_unaligned_volatile_read##n(void *a) { if (sh(a)) point_at(a, *(T *)a, true); } \
    void __tsan_write##n(void *a) { if (sh(a)) point(); } \
    void __tsan_unaligned_write##n(void *a) { if (sh(a)) point(); } \
    void __tsan_volatile_write##n(void *a) { if (sh(a)) point(); } \
    void __tsan_unaligned_volatile_write##n(void *a) { if (sh(a)) point(); } \
    void __tsan_read_write##n(void *a) { if (sh(a)) point(); } \
    void __tsan_unaligned_read_write##n(void *a) { if (sh(a)) point(); }
RD(1, uint8_t) RD(2, uint16_t) RD(4, uint32_t) RD(8, uint64_t)
void __tsan_read16(void *a) { if (sh(a)) point(); }
void __tsan_write16(void *a) { if (sh(a)) point(); }
void __tsan_read_range(void *a, unsigned long n) { if (sh(a)) point(); }
void __tsan_write_range(void *a, unsigned long n) { if (sh(a)) point(); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (sh(d) || sh(s)) point(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (sh(d) || sh(s)) point(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { if (sh(d)) point(); return memset(d, c, n); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int mo) { if (sh((void *)a)) point_at((void *)a, *a, true); return *a; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { if (sh((void *)a)) point(); T o = *a; *a = ~(o & v); return o; } \
    static bool cas##b(volatile T *a, T *c, T v) { if (sh((void *)a)) { if (*a == *c) point(); else point_at((void *)a, *a, true); } if (*a == *c) { *a = v; return true; } *c = *a; return false; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { return cas##b(a, c, v); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return cas##b(a, c, v); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { cas##b(a, &c, v); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
