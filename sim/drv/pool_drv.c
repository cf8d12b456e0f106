/* Runs scenarios on src/pool.c under all schedules (up to a number of
 * preemptions) or random ones; prints the distinct histories.
 * pool_drv THREADS QUEUE MODE PBOUND MAXRUNS SEED OPTS PROG...
 *   OPTS: i or g (kind of shutdown), w (wait for all accepted tasks before it),
 *     h (begin it once a task of kind h runs: it keeps the pool in use while adders go on), s (spurious wake-ups), cN (creating the Nth thread fails), mN (the Nth allocation fails),
 *     - (nothing)
 *   PROG: one adding thread; its tasks, comma separated:
 *     n (plain), a (adds a plain task itself), gK (ends once K tasks began), h (ends once all adders are
 *     through), d (asks for shutdown itself once the shutdown began), N (no function), P (no pool) */
#define MAXT 12
#include <errno.h>
#include <pthread.h>
#include <unistd.h>
#include "tsanrt.h"
#include "pool.h"

static char buf[1 << 20]; static int bl;
#define LOG(...) do { if (bl < (int)sizeof buf - 400) bl += sprintf(buf + bl, __VA_ARGS__); } while (0)

/* ------------------------------------------------ memory of the pool */
static char arena[1 << 16]; static size_t apos;
static struct { char *p; size_t n; bool freed; } blk[64]; static int nblk, nalloc, failalloc; static bool uaf;
static void *alloc(size_t n) {
    if (++nalloc == failalloc || nblk == 64) return NULL;
    apos = (apos + 15) & ~(size_t)15; char *p = arena + apos; apos += n + 16; memset(p, 0xA5, n);
    blk[nblk].p = p; blk[nblk].n = n; blk[nblk++].freed = false; return p;
}
void *WSS_malloc(size_t n) { return alloc(n); }
void *WSS_calloc(size_t m, size_t n) { void *p = alloc(m * n); if (p) memset(p, 0, m * n); return p; }
void *WSS_copy(void *s, size_t n) { void *p = alloc(n); if (p) memcpy(p, s, n); return p; }
void *WSS_realloc(void **s, size_t o, size_t n) { void *p = alloc(n); if (p && *s) memcpy(p, *s, o < n ? o : n); return p; }
void *WSS_realloc_normal(void *s, size_t n) { void *p = alloc(n); if (p && s) memcpy(p, s, n); return p; }
static void touched(const void *a) {
    const char *c = a; if (c < arena || c >= arena + sizeof arena) return;
    for (int i = 0; i < nblk; i++) if (c >= blk[i].p && c < blk[i].p + blk[i].n) { if (blk[i].freed && !uaf) { uaf = true; LOG("{\"e\":\"use-after-free\",\"t\":%d},", cur); } return; }
    if (!uaf) { uaf = true; LOG("{\"e\":\"out-of-bounds\",\"t\":%d},", cur); }
}
void WSS_free_normal(void *p) { for (int i = 0; i < nblk; i++) if (blk[i].p == p) { if (blk[i].freed) LOG("{\"e\":\"double-free\"},"); blk[i].freed = true; } }
void WSS_free(void **p) { if (*p) WSS_free_normal(*p); *p = NULL; }

/* ------------------------------------------------ synchronisation */
static struct mx { void *a; int owner; bool dead; } mx[16]; static int nmx;
static struct mx *M(void *a) { for (int i = 0; i < nmx; i++) if (mx[i].a == a) return &mx[i]; if (nmx == 16) abort(); mx[nmx].a = a; mx[nmx].owner = -1; mx[nmx].dead = false; return &mx[nmx++]; }
static struct { struct mx *m; void *cond; bool sig; int join; int gate; bool holding, closing; bool main; } wt[MAXT];
static int begun, nadders, addersdone, accepted, finished, downs, held, waithold, waitall; static bool spurious;
static bool ready(int i) {
    if (wt[i].gate) return begun >= wt[i].gate || (addersdone == nadders && begun == accepted);
    if (wt[i].holding) return addersdone == nadders;
    if (wt[i].closing) return wt[0].join >= 0 || (addersdone == nadders && !held); /* the shutdown has taken effect */
    if (wt[i].main) return waitall ? addersdone == nadders && finished == accepted : held > 0 || (addersdone == nadders && finished == accepted);
    if (wt[i].join >= 0) return co[wt[i].join].done;
    if (wt[i].cond) return wt[i].sig && wt[i].m->owner < 0;
    if (wt[i].m) return wt[i].m->owner < 0;
    return true;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { touched(m); struct mx *x = M(m); x->owner = -1; x->dead = false; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { touched(m); struct mx *x = M(m); if (x->owner >= 0 && x->owner != cur) LOG("{\"e\":\"destroy-locked\"},"); x->dead = true; x->owner = -1; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
    touched(m); point(); touched(m); struct mx *x = M(m); if (x->dead) LOG("{\"e\":\"lock-destroyed\"},");
    wt[cur].m = x; co_block(); wt[cur].m = NULL; x->owner = cur; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) { touched(m); point(); struct mx *x = M(m); if (x->owner >= 0) return EBUSY; x->owner = cur; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { touched(m); struct mx *x = M(m); if (x->owner != cur) LOG("{\"e\":\"unlock-of-other\"},"); x->owner = -1; if (cur >= 0) point(); return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { touched(c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { touched(c); for (int i = 0; i < nco; i++) if (wt[i].cond == c) LOG("{\"e\":\"destroy-waited\"},"); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    touched(c); struct mx *x = M(m); if (x->owner != cur) LOG("{\"e\":\"wait-unlocked\"},");
    x->owner = -1; wt[cur].m = x; wt[cur].cond = c; wt[cur].sig = spurious && mode == 1 && rnd() % 4 == 0;
    if (ready(cur)) point();
    co_block(); touched(m); wt[cur].cond = NULL; wt[cur].m = NULL; x->owner = cur; return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return pthread_cond_wait(c, m); }
int pthread_cond_signal(pthread_cond_t *c) {
    touched(c); point(); int w[MAXT], n = 0; for (int i = 0; i < nco; i++) if (wt[i].cond == c && !wt[i].sig) w[n++] = i;
    if (n) wt[w[choose(n)]].sig = true;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { touched(c); point(); for (int i = 0; i < nco; i++) if (wt[i].cond == c) wt[i].sig = true; return 0; }
static void *(*cfn[MAXT])(void *); static void *carg[MAXT]; static int ncreate, failcreate;
static void cmain(int i) { cfn[i](carg[i]); }
static void clearw(int i) { memset(&wt[i], 0, sizeof wt[i]); wt[i].join = -1; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (++ncreate == failcreate || nco == MAXT) return EAGAIN;
    cfn[nco] = f; carg[nco] = arg; clearw(nco); *t = (pthread_t)(nco + 1); co_new(cmain); point(); return 0;
}
void pthread_exit(void *r) { co_end(); abort(); }
int pthread_join(pthread_t t, void **r) { int k = (int)t - 1; if (k < 0 || k >= nco || k == cur) return EINVAL; wt[cur].join = k; co_block(); wt[cur].join = -1; return 0; }
int pthread_detach(pthread_t t) { return 0; }
pthread_t pthread_self(void) { return (pthread_t)(cur + 1); }

/* ------------------------------------------------ scenario */
static threadpool_t *pool; static int threads, queue, gr, nprog; static char *prog[MAXT]; static int ids;
static struct task { int id; char k; int n; } tasks[256];
static void routine(void *a);
static void add(char k, int n, int by) {
    struct task *t = &tasks[ids]; t->id = ++ids; t->k = k; t->n = n; int id = t->id;
    LOG("{\"e\":\"add?\",\"t\":%d,\"id\":%d,\"ok\":%s},", cur, id, k == 'N' || k == 'P' ? "false" : "true");
    int r = threadpool_add(k == 'P' ? NULL : pool, k == 'N' ? NULL : routine, t, 0);
    if (!r) accepted++;
    LOG("{\"e\":\"add\",\"t\":%d,\"r\":%d},", cur, r);
}
static void destroy(int g) { LOG("{\"e\":\"des?\",\"t\":%d,\"g\":%s},", cur, g ? "true" : "false"); downs++; int r = threadpool_destroy(pool, g); LOG("{\"e\":\"des\",\"t\":%d,\"r\":%d},", cur, r); }
static void routine(void *a) {
    struct task *t = a; char k = t->k; int n = t->n, id = t->id;
    LOG("{\"e\":\"run\",\"id\":%d,\"t\":%d},", id, cur); begun++;
    point();
    if (k == 'a') add('n', 0, cur);
    else if (k == 'g') { wt[cur].gate = n; co_block(); wt[cur].gate = 0; }
    else if (k == 'h') { held++; wt[cur].holding = true; co_block(); wt[cur].holding = false; }
    else if (k == 'd') { wt[cur].closing = true; co_block(); wt[cur].closing = false; if (wt[0].join >= 0) destroy(gr); }
    finished++; LOG("{\"e\":\"ran\",\"id\":%d,\"t\":%d},", id, cur);
}
static void adder(int me) {
    char *p = prog[me - 1]; /* threads: 0 main, then the adders, then the pool's */
    while (*p && *p != '-') { char k = *p++; int n = (int)strtol(p, &p, 10); add(k, n, me); if (*p == ',') p++; }
    addersdone++;
}
static bool go;
static void mainco(int me) {
    LOG("{\"e\":\"new\",\"n\":%d,\"q\":%d},", threads, queue);
    pool = threadpool_create(threads, queue, 65536, 0);
    if (!pool) { LOG("{\"e\":\"none\"},"); return; }
    go = true;
    if (waitall || waithold) { wt[me].main = true; co_block(); wt[me].main = false; }
    destroy(gr);
}
static bool ready0(int i) { if (i >= 1 && i <= nprog && !go) return false; return ready(i); }

static uint64_t *seen; static size_t nseen, cap = 1 << 22;
static bool fresh(void) {
    uint64_t h = 1469598103934665603ull; for (int i = 0; i < bl; i++) { h ^= (unsigned char)buf[i]; h *= 1099511628211ull; } if (!h) h = 1;
    size_t i = h & (cap - 1); while (seen[i]) { if (seen[i] == h) return false; i = (i + 1) & (cap - 1); }
    if (nseen > cap / 2) return false; seen[i] = h; nseen++; return true;
}
int main(int c, char **v) {
    if (c < 9) return 2;
    threads = atoi(v[1]); queue = atoi(v[2]); mode = v[3][0] == 'd' ? 0 : 1; pbound = atoi(v[4]); long maxruns = atol(v[5]); rs ^= strtoull(v[6], NULL, 10) * 0x9E3779B97F4A7C15ull;
    for (char *o = v[7]; *o;) { char k = *o++; int n = (int)strtol(o, &o, 10); if (k == 'g') gr = 1; if (k == 'w') waitall = 1; if (k == 'h') waithold = 1; if (k == 's') spurious = true; if (k == 'c') failcreate = n; if (k == 'm') failalloc = n; }
    nprog = c - 8; for (int i = 0; i < nprog; i++) prog[i] = v[8 + i];
    seen = calloc(cap, sizeof *seen);
    lo_ = (uintptr_t)arena; hi_ = lo_ + sizeof arena; co_ready = ready0; on_access = touched;
    long runs = 0; bool complete = false;
    for (;;) {
        co_reset(); bl = 0; apos = 0; nblk = nalloc = ncreate = nmx = 0; uaf = go = false; ids = begun = addersdone = accepted = finished = downs = held = 0; nadders = nprog;
        for (int i = 0; i < MAXT; i++) clearw(i);
        if (mode == 1) { static const double ps[] = {0.02, 0.05, 0.1, 0.2, 0.4, 0.7}; rp = ps[rnd() % 6]; }
        co_new(mainco); for (int i = 0; i < nprog; i++) co_new(adder);
        if (failcreate || failalloc) { addersdone = 0; }
        co_run();
        bool none = strstr(buf, "\"none\"") != NULL && bl > 0; buf[bl] = 0; none = strstr(buf, "\"none\"") != NULL;
        if (stuck && !none) LOG("{\"e\":\"stuck\"},"); else LOG("{\"e\":\"end\"},");
        runs++;
        if (fresh()) { buf[bl - 1] = 0; printf("[%s]\n", buf); }
        if (runs >= maxruns) break;
        if (mode == 0 && !dfs_next()) { complete = true; break; }
    }
    printf("{\"runs\":%ld,\"distinct\":%ld,\"complete\":%s}\n", runs, (long)nseen, complete ? "true" : "false");
    return 0;
}
