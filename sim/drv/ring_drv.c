/* Runs scenarios on src/ringbuf.c under all schedules (up to a number of
 * preemptions) or random ones; prints the distinct histories.
 * ring_drv SPACE NWORKERS NTEMP MODE PBOUND MAXRUNS SEED CONS PROG...
 *   CONS: number of consume attempts and, behind a comma, how much is released:
 *   a (all), o (one element at a time), h (the first element only, the rest later)
 *   PROG: lengths to acquire, as 1,1,2; a leading p: use a permanent worker record */
#include <unistd.h>
#include "tsanrt.h"
#include "ringbuf.h"

static int space, nworkers, ntemp, ncons, relmode;
static struct { int n, len[32]; bool perm; } prog[MAXT];
static ringbuf_t *rb; static size_t rbsz;
static int data[4096], serial, lens[4096];
static char buf[1 << 20]; static int bl;
#define LOG(...) do { if (bl < (int)sizeof buf - 400) bl += sprintf(buf + bl, __VA_ARGS__); } while (0)

static void producer(int t) {
    ringbuf_worker_t *w = NULL;
    if (prog[t].perm) w = ringbuf_register(rb, (unsigned)t - 1);
    for (int k = 0; k < prog[t].n; k++) {
        int len = prog[t].len[k];
        LOG("{\"e\":\"a?\",\"t\":%d,\"len\":%d},", t, len);
        ssize_t off = ringbuf_acquire(rb, &w, (size_t)len);
        int id = off < 0 ? 0 : ++serial;
        LOG("{\"e\":\"a\",\"t\":%d,\"off\":%d,\"id\":%d},", t, (int)off, id);
        if (off < 0) continue;
        if (off + len > space) { LOG("{\"e\":\"outside\"},"); return; }
        lens[id] = len;
        for (int i = 0; i < len; i++) { if (i) point(); data[off + i] = id; }
        LOG("{\"e\":\"p?\",\"t\":%d},", t);
        ringbuf_produce(rb, &w);
        LOG("{\"e\":\"p\",\"t\":%d},", t);
    }
    if (prog[t].perm) ringbuf_unregister(rb, w);
}
static void release(size_t n) { LOG("{\"e\":\"r?\",\"n\":%d},", (int)n); ringbuf_release(rb, n); LOG("{\"e\":\"r\",\"n\":%d},", (int)n); }
static size_t consume_once(void) {
    size_t off = 0, n;
    LOG("{\"e\":\"c?\"},");
    n = ringbuf_consume(rb, &off);
    LOG("{\"e\":\"c\",\"off\":%d,\"len\":%d,\"ids\":[", (int)off, (int)n);
    if (n && off + n > (size_t)space) { LOG("-1]},"); return 0; }
    for (size_t i = 0; i < n; i++) LOG("%s%d", i ? "," : "", data[off + i]);
    LOG("]},");
    size_t d = 0;
    if (n && relmode == 'a') release(n);
    else while (d < n) {
        size_t k = (size_t)lens[data[off + d]]; if (!k || d + k > n) k = n - d;
        release(k); d += k;
        if (relmode == 'h') break;
    }
    return n;
}
static void consumer(int t) { for (int k = 0; k < ncons; k++) { if (k) point(); consume_once(); } }

/* distinct histories */
static uint64_t *seen; static size_t nseen, cap = 1 << 22;
static bool fresh(void) {
    uint64_t h = 1469598103934665603ull; for (int i = 0; i < bl; i++) { h ^= (unsigned char)buf[i]; h *= 1099511628211ull; } if (!h) h = 1;
    size_t i = h & (cap - 1); while (seen[i]) { if (seen[i] == h) return false; i = (i + 1) & (cap - 1); }
    if (nseen > cap / 2) return false; seen[i] = h; nseen++; return true;
}

int main(int c, char **v) {
    if (c < 10) return 2;
    space = atoi(v[1]); nworkers = atoi(v[2]); ntemp = atoi(v[3]); mode = v[4][0] == 'd' ? 0 : 1; pbound = atoi(v[5]); long maxruns = atol(v[6]); rs ^= strtoull(v[7], NULL, 10) * 0x9E3779B97F4A7C15ull;
    ncons = atoi(v[8]); relmode = strchr(v[8], ',') ? strchr(v[8], ',')[1] : 'a';
    int np = c - 9; for (int i = 0; i < np; i++) { char *s = v[9 + i]; prog[i + 1].n = 0; if (*s == 'p') { prog[i + 1].perm = true; s++; } for (char *p = strtok(s, ","); p; p = strtok(NULL, ",")) prog[i + 1].len[prog[i + 1].n++] = atoi(p); }
    seen = calloc(cap, sizeof *seen);
    ringbuf_get_sizes((unsigned)nworkers, (unsigned)ntemp, &rbsz, NULL);
    rb = malloc(rbsz); lo_ = (uintptr_t)rb; hi_ = lo_ + rbsz;
    long runs = 0; bool complete = false;
    for (;;) {
        co_reset(); bl = 0; serial = 0; memset(data, 0, sizeof data); memset(rb, 0xA5, rbsz);
        if (ringbuf_setup(rb, (unsigned)nworkers, (unsigned)ntemp, (size_t)space)) return 3;
        co_new(consumer); for (int i = 0; i < np; i++) co_new(producer);
        if (mode == 1) { static const double ps[] = {0.02, 0.05, 0.1, 0.2, 0.4, 0.7}; rp = ps[rnd() % 6]; }
        co_run();
        if (stuck) LOG("{\"e\":\"stuck\"},");
        else { cur = -1; int k = 0; size_t d; relmode = relmode; while ((d = consume_once()) && ++k < 1000); /* what is left */ LOG("{\"e\":\"end\"},"); }
        runs++;
        if (fresh()) { buf[bl - 1] = 0; printf("[%s]\n", buf); }
        if (runs >= maxruns) break;
        if (mode == 0 && !dfs_next()) { complete = true; break; }
    }
    printf("{\"runs\":%ld,\"distinct\":%ld,\"complete\":%s}\n", runs, (long)nseen, complete ? "true" : "false");
    return 0;
}
