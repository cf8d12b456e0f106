/*
 * simshim: deterministic simulation of the machine below an unmodified WSServer
 * binary (LD_PRELOAD).  Threads' synchronisation, sockets, pipes, epoll, poll
 * and the clock are replaced by one seeded, single-token scheduler, so that a
 * (scenario, strategy, seed) triple is one repeatable execution and the
 * interleaving of worker threads, cleanup thread and clients is a controlled
 * input.  Clients are small programs in the scenario file (SIM_SCRIPT).  Every
 * observable event is appended, in execution order, to SIM_LOG (JSON lines).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXTH 300
#define MAXFD 4096
#define FDBASE 100
#define MAXPROG 512
#define MAXCONN 5000
#define MAXOPS 60000
typedef long long ll;

static void *xalloc(size_t n) {
    /* small bump allocator: the shim never uses the process's malloc */
    static char *cur; static size_t left;
    n = (n + 15) & ~(size_t)15;
    if (n > left) {
        size_t want = n > (4u << 20) ? n : (4u << 20);
        cur = mmap(NULL, want, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (cur == MAP_FAILED) _exit(96);
        left = want;
    }
    void *p = cur; cur += n; left -= n; return p;
}

/* ------------------------------------------------------------------ log */
static char lbuf[1 << 20]; static size_t llen; static int lfd = -1;
static void lflush(void) {
    size_t o = 0;
    while (o < llen) { long n = syscall(SYS_write, lfd, lbuf + o, llen - o); if (n <= 0) break; o += (size_t)n; }
    llen = 0;
}
static void lput(const char *s, size_t n) {
    if (lfd < 0) return;
    while (n) {
        if (llen == sizeof lbuf) lflush();
        size_t k = sizeof lbuf - llen; if (k > n) k = n;
        memcpy(lbuf + llen, s, k); llen += k; s += k; n -= k;
    }
}
static void lhex(const void *d, size_t n) {
    static const char hx[] = "0123456789abcdef"; char t[512]; size_t k = 0; const unsigned char *p = d;
    for (size_t i = 0; i < n; i++) {
        t[k++] = hx[p[i] >> 4]; t[k++] = hx[p[i] & 15];
        if (k == sizeof t) { lput(t, k); k = 0; }
    }
    lput(t, k);
}
static void lfmt(const char *f, ...) {
    char t[1024]; va_list a; va_start(a, f); int n = vsnprintf(t, sizeof t, f, a); va_end(a);
    if (n > (int)sizeof t - 1) n = sizeof t - 1;
    lput(t, (size_t)n);
}

/* -------------------------------------------------------------- threads */
enum { W_NONE, W_MUTEX, W_RD, W_WR, W_COND, W_JOIN, W_SLEEP, W_EPOLL, W_POLL, W_PIPE, W_DONE };
static const char *wname[] = {"run","mutex","rdlock","wrlock","cond","join","sleep","epoll","poll","pipe","done"};
struct vth {
    int id; pthread_t real; int fut; int wait; void *obj; void *obj2; bool signaled; ll deadline; int fd;
    struct pollfd *pfds; nfds_t npfd; bool finished, joined, detached, gone; unsigned prio; void *(*fn)(void *); void *arg;
    int condcount;
};
static struct vth th[MAXTH]; static int nth = 1;
static __thread struct vth *selfp;
static inline struct vth *self(void) { return selfp ? selfp : &th[0]; }

static bool active;
static bool logclock;                         /* report the progress of time */
static ll vnow = 1000000000000LL;            /* virtual nanoseconds, monotonic clock */
static ll steps, progress; static ll maxsteps = 20000000;
static uint64_t rng = 88172645463325252ULL;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ULL >> 16; }
static enum { S_SEQ, S_RAND, S_PCT, S_DFS } strat = S_SEQ;
static double prand = 0.1; static int npct; static ll pctpt[64];
static double pspur = 0.0, peintr = 0.0;
static int choices[100000], nchoices, choicepos; static bool logchoices;
static ll maxwait = 30000000000LL;
static bool giveup; static bool do_shutdown = true; static int shutdown_state;  /* 0 no, 1 begun */

static void futwait(int *f) { while (!__atomic_load_n(f, __ATOMIC_ACQUIRE)) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); *f = 0; }
static void futwake(int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

static void ub(const char *what) {
    if (getenv("SIM_BT")) { void *b[30]; int backtrace(void **, int); void backtrace_symbols_fd(void **, int, int); backtrace_symbols_fd(b, backtrace(b, 30), 2); }
    int e = errno; lfmt("{\"e\":\"ub\",\"what\":\"%s\",\"th\":%d}\n", what, self()->id); errno = e;
}

/* ---------------------------------------------------------- lock tables */
struct lk { void *addr; int kind; int owner; int count; int readers; bool destroyed; };
#define LKN (1 << 18)
static struct lk lks[LKN];
static struct lk *lk_get(void *a) {
    size_t h = ((uintptr_t)a >> 3) * 11400714819323198485ULL >> 46;
    for (size_t i = 0; i < LKN; i++) {
        struct lk *l = &lks[(h + i) & (LKN - 1)];
        if (l->addr == a) return l;
        if (!l->addr) { l->addr = a; return l; }
    }
    _exit(95);
}

/* ------------------------------------------------------- fds and sockets */
enum { F_FREE, F_LISTEN, F_CONN, F_PIPER, F_PIPEW, F_EPOLL, F_SOCK };
struct pipeb { char *d; size_t len, cap; bool wclosed, rclosed; };
struct epitem { int fd; uint32_t ev; epoll_data_t data; bool armed, pend; ll stamp; };
struct ep { struct epitem it[MAXCONN]; int n; };
struct vfd { int type; bool nonblock; int conn; struct pipeb *pb; struct ep *ep; int lq[MAXCONN]; int lqn; int port; int dom; };
static struct vfd *vfds[MAXFD];
struct conn {
    int id, fd, prog, port; bool used, fin, rst, cl_closed, srv_closed, srv_shut, accepted;
    char *rx; size_t rlen, rpos, rcap; ll win; int wlim[64]; int nwlim, wlimpos; int wrerr; int rdlim;
    ll out, hdrend; int hs; /* header match state */ ll frames; ll fneed; unsigned char fh[16]; int fhl; bool eof;
    bool tls; int seg, tst; ll lim; char *pq; size_t pqn, pqpos, pqcap;   /* client of a TLS server: what is on its way */
};
static struct conn conns[MAXCONN];
static ll stampctr;

static int fd_alloc(int type) {
    for (int i = 0; i < MAXFD; i++) if (!vfds[i] || vfds[i]->type == F_FREE) {
        if (!vfds[i]) vfds[i] = xalloc(sizeof(struct vfd));
        memset(vfds[i], 0, sizeof *vfds[i]); vfds[i]->type = type; return i + FDBASE;
    }
    errno = EMFILE; return -1;
}
static bool isv(int fd) { return fd >= FDBASE && fd < FDBASE + MAXFD; }
static struct vfd *V(int fd) { if (!isv(fd)) return NULL; struct vfd *v = vfds[fd - FDBASE]; return v && v->type != F_FREE ? v : NULL; }

static uint32_t fdmask(int fd) {
    struct vfd *v = V(fd); uint32_t m = 0; if (!v) return 0;
    switch (v->type) {
    case F_LISTEN: if (v->lqn) m |= EPOLLIN; break;
    case F_CONN: { struct conn *c = &conns[v->conn];
        if (c->rpos < c->rlen || c->fin || c->rst) m |= EPOLLIN;
        if (c->fin || c->rst) m |= EPOLLRDHUP;
        if (c->rst || (c->fin && c->srv_shut)) m |= EPOLLHUP;
        if (c->rst) m |= EPOLLERR;
        if (c->win != 0 || c->rst) m |= EPOLLOUT;
        break; }
    case F_PIPER: if (v->pb->len) m |= EPOLLIN; if (v->pb->wclosed) m |= EPOLLHUP; break;
    case F_PIPEW: m |= EPOLLOUT; if (v->pb->rclosed) m |= EPOLLERR; break;
    }
    return m;
}
static void notify(int fd, uint32_t mask) {
    for (int i = 0; i < MAXFD; i++) {
        struct vfd *v = vfds[i]; if (!v || v->type != F_EPOLL) continue;
        for (int k = 0; k < v->ep->n; k++) { struct epitem *it = &v->ep->it[k];
            if (it->fd == fd && it->armed && ((it->ev | EPOLLHUP | EPOLLERR) & mask) && !it->pend) { it->pend = true; it->stamp = ++stampctr; } }
    }
}
static bool it_ready(struct epitem *it) {
    if (!it->armed) return false;
    if ((it->ev & EPOLLET) && !it->pend) return false;
    return (fdmask(it->fd) & (it->ev | EPOLLHUP | EPOLLERR)) != 0;
}
static bool ep_any(int epfd) { struct vfd *v = V(epfd); if (!v || v->type != F_EPOLL) return true; for (int k = 0; k < v->ep->n; k++) if (it_ready(&v->ep->it[k])) return true; return false; }
static bool poll_any(struct vth *t) {
    for (nfds_t i = 0; i < t->npfd; i++) { uint32_t m = fdmask(t->pfds[i].fd); if (m & ((uint32_t)t->pfds[i].events | EPOLLHUP | EPOLLERR)) return true; if (!V(t->pfds[i].fd)) return true; }
    return false;
}

/* -------------------------------------------------------------- programs */
enum { O_CONN, O_SEND, O_WAIT, O_WAITHTTP, O_WAITFR, O_WAITEOF, O_CLOSE, O_RST, O_HALF, O_SLEEP, O_IDLE, O_CAP, O_DRAIN, O_WLIM, O_LOG, O_SIG, O_BAR, O_WRERR, O_RDLIM, O_SHUTDOWN, O_USE, O_TLS, O_RAW, O_TCLOSE, O_KEYUPD };
static const char *onames[] = {"conn","send","wait","waithttp","waitfr","waiteof","close","rst","half","sleep","idle","cap","drain","wlim","log","sig","bar","wrerr","rdlim","shutdown","use","tls","raw","tclose","keyupd"};
struct op { int o; ll a, b; char *d; size_t n; };
struct prog { int id; struct op *ops; int n, pc; int conn; ll start; bool started; unsigned prio; };
static struct prog progs[MAXPROG]; static int nprog;
static int bars[8192];
static struct sigaction handlers[65]; static bool have_handler[65];
static void srv_eof(struct conn *c, const char *how) {
    if (c->eof) return;
    c->eof = true;
    lfmt("{\"e\":\"eof\",\"c\":%d,\"how\":\"%s\",\"unread\":%zu,\"t\":%lld}\n", c->id, how, c->rlen - c->rpos, (vnow - 1000000000000LL) / 1000000);
}
static void count_out(struct conn *c, const unsigned char *p, size_t n) {
    for (size_t i = 0; i < n; i++) {
        c->out++;
        if (c->hs < 4) { if (p[i] == (unsigned char)"\r\n\r\n"[c->hs]) c->hs++; else c->hs = p[i] == '\r'; if (c->hs == 4) c->hdrend = c->out; continue; }
        if (c->fneed > 0) { if (--c->fneed == 0) { c->frames++; c->fhl = 0; } continue; }
        c->fh[c->fhl++] = p[i];
        if (c->fhl >= 2) {
            int l = c->fh[1] & 127, need = 2 + (l == 126 ? 2 : l == 127 ? 8 : 0) + ((c->fh[1] & 128) ? 4 : 0);
            if (c->fhl == need) {
                ll L = l; if (l == 126) L = c->fh[2] << 8 | c->fh[3]; else if (l == 127) { L = 0; for (int k = 0; k < 8; k++) L = L << 8 | c->fh[2 + k]; }
                if (L <= 0) { c->frames++; c->fhl = 0; } else c->fneed = L;
            }
        }
    }
}
static bool nothing_runnable_flag; /* set while evaluating idle */
static bool sigged;
static struct vfd *listener(int port);
static bool op_ready(struct prog *p) {
    if (p->pc >= p->n) return false;
    struct op *o = &p->ops[p->pc]; struct conn *c = &conns[p->conn];
    switch (o->o) {
    case O_CONN: return sigged || listener((int)o->b);
    case O_SIG: case O_SHUTDOWN: return sigged || have_handler[SIGINT];
    case O_WAIT: return c->out >= o->a || c->eof;
    case O_WAITHTTP: return c->hs == 4 || c->eof;
    case O_WAITFR: return c->frames >= o->a || c->eof;
    case O_WAITEOF: return c->eof;
    case O_SLEEP: return p->started && vnow >= p->start + o->a * 1000000;
    case O_IDLE: return nothing_runnable_flag;
    case O_BAR: return bars[o->a] >= o->b || !p->started;
    case O_CLOSE: case O_HALF: return !(c->tls && c->pqn > c->pqpos);
    default: return true;
    }
}
static int vcreate(void *(*fn)(void *), void *arg, pthread_t *out, const pthread_attr_t *attr);
static void *sigthread(void *a) { int s = (int)(intptr_t)a; handlers[s].sa_handler(s); return NULL; }
static void raise_sig(int s) {
    sigged = true;
    lfmt("{\"e\":\"sig\",\"n\":%d,\"t\":%lld}\n", s, (vnow - 1000000000000LL) / 1000000);
    if (have_handler[s] && handlers[s].sa_handler != SIG_DFL && handlers[s].sa_handler != SIG_IGN) { pthread_t t; vcreate(sigthread, (void *)(intptr_t)s, &t, NULL); }
    else lfmt("{\"e\":\"sigdefault\",\"n\":%d}\n", s);
}
static struct vfd *listener(int port) {
    struct vfd *f = NULL;
    for (int i = 0; i < MAXFD; i++) if (vfds[i] && vfds[i]->type == F_LISTEN && (port == 0 || vfds[i]->port == port)) { f = vfds[i]; break; }
    return f;
}
static void client_data(struct conn *c, const char *d, size_t n) {
    if (c->rlen + n > c->rcap) {
        size_t live = c->rlen - c->rpos; size_t want = (live + n) * 2 + 4096;
        char *nb = xalloc(want); memcpy(nb, c->rx + c->rpos, live); c->rx = nb; c->rcap = want; c->rlen = live; c->rpos = 0;
    }
    memcpy(c->rx + c->rlen, d, n); c->rlen += n;
}
/* TLS clients: a process of its own does their part (tlspeer.c) */
static int tlsfd = -1; static struct prog netp; static int pendl[MAXCONN], npend;
static void tls_start(void) {
    const char *exe = getenv("SIM_TLS"); if (!exe) return;
    int sv[2]; if (syscall(SYS_socketpair, AF_UNIX, SOCK_STREAM, 0, sv)) return;
    long pid = fork();
    if (pid == 0) {
        char a[16]; snprintf(a, sizeof a, "%d", sv[1]); unsetenv("LD_PRELOAD"); syscall(SYS_close, sv[0]); syscall(SYS_close, 1); syscall(SYS_close, 2);
        syscall(SYS_prctl, 1 /* PR_SET_PDEATHSIG */, SIGKILL, 0, 0, 0);
        execl(exe, exe, a, getenv("SIM_TLSCERT"), NULL); _exit(127);
    }
    syscall(SYS_close, sv[1]);
    tlsfd = (int)syscall(SYS_fcntl, sv[0], F_DUPFD_CLOEXEC, 61); syscall(SYS_close, sv[0]);
}
static void tls_io(int wr, void *d, size_t n) {
    for (size_t k = 0; k < n;) { long r = syscall(wr ? SYS_write : SYS_read, tlsfd, (char *)d + k, n - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) { lput("{\"e\":\"tlsgone\"}\n", 16); lflush(); _exit(92); } k += (size_t)r; }
}
static void queue(struct conn *c, const char *d, size_t n) {
    if (!n) return;
    if (c->pqn + n > c->pqcap) { size_t want = (c->pqn + n) * 2 + 1024; char *b = xalloc(want); memcpy(b, c->pq + c->pqpos, c->pqn - c->pqpos); c->pq = b; c->pqcap = want; c->pqn -= c->pqpos; c->pqpos = 0; }
    if (c->pqn == c->pqpos) pendl[npend++] = c->id;
    memcpy(c->pq + c->pqn, d, n); c->pqn += n;
}
static void unqueue(struct conn *c) { if (c->pqn > c->pqpos) for (int i = 0; i < npend; i++) if (pendl[i] == c->id) { pendl[i] = pendl[--npend]; break; } c->pqn = c->pqpos = 0; }
static char *tls_get(uint32_t *n) { static char *b; static uint32_t cap; tls_io(0, n, 4); if (*n > cap) { cap = *n * 2; b = xalloc(cap); } tls_io(0, b, *n); return b; }
static void tls_ask(struct conn *c, char op, const char *d, size_t n) {
    if (tlsfd < 0) { lput("{\"e\":\"notls\"}\n", 14); lflush(); _exit(92); }
    char h[9]; uint32_t L = (uint32_t)n; h[0] = op; memcpy(h + 1, &c->id, 4); memcpy(h + 5, &L, 4);
    tls_io(1, h, 9); tls_io(1, (void *)d, n);
    unsigned char st; tls_io(0, &st, 1);
    char *b = tls_get(&L); queue(c, b, L);
    b = tls_get(&L);
    if (L) { lfmt("{\"e\":\"out\",\"c\":%d,\"t\":%lld,\"th\":%d,\"h\":\"", c->id, (vnow - 1000000000000LL) / 1000000, self()->id); lhex(b, L); lput("\"}\n", 3); count_out(c, (unsigned char *)b, L); }
    b = tls_get(&L);
    if (st != c->tst) { lfmt("{\"e\":\"tls\",\"c\":%d,\"done\":%s,\"closed\":%s,\"failed\":%s,\"text\":\"%.*s\"}\n", c->id, st & 1 ? "true" : "false", st & 2 ? "true" : "false", st & 4 ? "true" : "false", (int)L, b); c->tst = st; }
}
static void deliver(void) {
    struct conn *c = &conns[pendl[strat == S_SEQ || strat == S_DFS ? 0 : rnd() % (unsigned)npend]];
    if (c->fin || c->rst || c->srv_closed) { unqueue(c); return; }
    size_t n = c->pqn - c->pqpos, k = c->seg == 0 ? n : c->seg < 0 ? 1 + rnd() % (unsigned)-c->seg : (size_t)c->seg;
    if (k > n) k = n;
    if (c->lim >= 0 && (ll)k > c->lim) k = (size_t)c->lim;
    if (k) { client_data(c, c->pq + c->pqpos, k); if (c->lim >= 0) c->lim -= (ll)k; }
    if (k == n || c->lim == 0) unqueue(c); else c->pqpos += k;
    if (k && c->fd >= 0) notify(c->fd, EPOLLIN);
    progress++;
}
/* with memshim: what is in use now */
static void level(void) {
    static int known; static void (*live)(long *);
    if (!known) { known = 1; live = (void (*)(long *))dlsym(RTLD_DEFAULT, "mem_live"); }
    if (!live) return;
    long m[2]; live(m);
    int nv = 0, nr = 0, op = 0, nt_ = 0;
    for (int i = 0; i < MAXFD; i++) if (vfds[i] && vfds[i]->type == F_CONN) nv++;
    for (int i = 0; i < MAXCONN; i++) if (conns[i].used && conns[i].accepted && !conns[i].srv_closed) op++;
    for (int i = 0; i < 100; i++) if (syscall(SYS_fcntl, i, F_GETFD, 0) >= 0) nr++;
    for (int i = 0; i < nth; i++) if (!th[i].finished) nt_++;
    lfmt(",\"blk\":%ld,\"byt\":%ld,\"fds\":%d,\"rfds\":%d,\"conns\":%d,\"thr\":%d", m[0], m[1], nv, nr, op, nt_);
}
static void exec_op(struct prog *p) {
    struct op *o = &p->ops[p->pc]; struct conn *c = &conns[p->conn];
    if (!p->started) { p->started = true; p->start = vnow;
        if (o->o == O_SLEEP) { return; }
        if (o->o == O_BAR) { bars[o->a]++; if (bars[o->a] < o->b) return; } }
    switch (o->o) {
    case O_CONN: {
        int id = (int)o->a; p->conn = id; c = &conns[id];
        unqueue(c); memset(c, 0, sizeof *c); c->used = true; c->lim = -1; c->id = id; c->fd = -1; c->win = -1; c->prog = p->id;
        struct vfd *l = listener((int)o->b);
        lfmt("{\"e\":\"conn\",\"c\":%d,\"ok\":%s}\n", id, l ? "true" : "false");
        if (!l) { srv_eof(c, "refused"); break; }
        l->lq[l->lqn++] = id;
        for (int i = 0; i < MAXFD; i++) if (vfds[i] == l) notify(i + FDBASE, EPOLLIN);
        break; }
    case O_USE: p->conn = (int)o->a; break;
    case O_SEND:
        lfmt("{\"e\":\"send\",\"c\":%d,\"n\":%zu}\n", c->id, o->n);
        if (c->tls) { if (c->srv_closed) lfmt("{\"e\":\"sendlost\",\"c\":%d}\n", c->id); else tls_ask(c, 'W', o->d, o->n); }
        else if (!c->fin && !c->rst && !c->srv_closed) { client_data(c, o->d, o->n); if (c->fd >= 0) notify(c->fd, EPOLLIN); }
        else if (c->srv_closed) lfmt("{\"e\":\"sendlost\",\"c\":%d}\n", c->id);
        break;
    case O_CLOSE: case O_HALF:
        lfmt("{\"e\":\"%s\",\"c\":%d}\n", o->o == O_CLOSE ? "cclose" : "chalf", c->id);
        c->fin = true;
        if (o->o == O_CLOSE) { c->cl_closed = true; if (c->win >= 0) { c->win = -1; if (c->fd >= 0) notify(c->fd, EPOLLOUT); } }
        if (c->fd >= 0) notify(c->fd, EPOLLIN | EPOLLRDHUP | (c->srv_shut ? EPOLLHUP : 0));
        break;
    case O_RST:
        lfmt("{\"e\":\"crst\",\"c\":%d}\n", c->id);
        c->rst = true; c->cl_closed = true; c->rlen = c->rpos = 0; unqueue(c);
        if (c->fd >= 0) notify(c->fd, EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR | EPOLLOUT);
        break;
    case O_CAP: c->win = o->a; lfmt("{\"e\":\"cap\",\"c\":%d,\"n\":%lld}\n", c->id, o->a); break;
    case O_DRAIN:
        lfmt("{\"e\":\"drain\",\"c\":%d,\"n\":%lld}\n", c->id, o->a);
        if (o->a < 0) c->win = -1; else if (c->win >= 0) c->win += o->a;
        if (c->fd >= 0 && c->win != 0) notify(c->fd, EPOLLOUT);
        break;
    case O_WLIM: { c->nwlim = 0; c->wlimpos = 0; char *s = o->d; while (*s && c->nwlim < 64) { c->wlim[c->nwlim++] = (int)strtol(s, &s, 10); while (*s == ',' || *s == ' ') s++; } break; }
    case O_WRERR: c->wrerr = (int)o->a; break;
    case O_RDLIM: c->rdlim = (int)o->a; break;
    case O_LOG: lfmt("{\"e\":\"mark\",\"m\":\"%s\",\"t\":%lld}\n", o->d, (vnow - 1000000000000LL) / 1000000); break;
    case O_SIG: raise_sig((int)o->a); break;
    case O_SHUTDOWN: shutdown_state = 1; raise_sig(SIGINT); break;
    case O_IDLE: lfmt("{\"e\":\"idle\",\"t\":%lld", (vnow - 1000000000000LL) / 1000000); level(); lput("}\n", 2); break;
    case O_TLS: { char *m = o->d; c->seg = (int)strtol(m, &m, 10); c->lim = strtoll(m, &m, 10); while (*m == ' ') m++; c->tls = true; tls_ask(c, 'N', m, strlen(m)); break; }
    case O_RAW: lfmt("{\"e\":\"raw\",\"c\":%d,\"n\":%zu}\n", c->id, o->n); queue(c, o->d, o->n); break;
    case O_TCLOSE: lfmt("{\"e\":\"tclose\",\"c\":%d}\n", c->id); if (!c->srv_closed) tls_ask(c, 'S', "", 0); break;
    case O_KEYUPD: if (!c->srv_closed) tls_ask(c, 'K', "", 0); break;
    case O_WAITEOF: case O_WAIT: case O_WAITHTTP: case O_WAITFR: case O_SLEEP: case O_BAR: break;
    }
    p->pc++; p->started = false; progress++;
}

/* ------------------------------------------------------------- scheduler */
static bool th_ready(struct vth *t) {
    switch (t->wait) {
    case W_NONE: return !t->finished;
    case W_MUTEX: { struct lk *l = lk_get(t->obj); return l->owner == 0 || (l->owner == t->id + 1 && l->kind == PTHREAD_MUTEX_RECURSIVE) || (t->deadline && vnow >= t->deadline); }
    case W_RD: { struct lk *l = lk_get(t->obj); return l->owner == 0; }
    case W_WR: { struct lk *l = lk_get(t->obj); return l->owner == 0 && l->readers == 0; }
    case W_COND: { struct lk *l = lk_get(t->obj2); return (t->signaled || (t->deadline && vnow >= t->deadline)) && l->owner == 0; }
    case W_JOIN: return ((struct vth *)t->obj)->finished;
    case W_SLEEP: return vnow >= t->deadline;
    case W_EPOLL: return ep_any(t->fd) || (t->deadline && vnow >= t->deadline);
    case W_POLL: return poll_any(t) || (t->deadline && vnow >= t->deadline);
    case W_PIPE: return (fdmask(t->fd) & (EPOLLIN | EPOLLHUP)) != 0 || !V(t->fd);
    }
    return false;
}
static void dump_threads(void) {
    lput("\"threads\":[", 11); bool f = true;
    for (int i = 0; i < nth; i++) if (!th[i].finished) { lfmt("%s[%d,\"%s\"]", f ? "" : ",", i, wname[th[i].wait]); f = false; }
    lput("],\"progs\":[", 11); f = true;
    for (int i = 0; i < nprog; i++) if (progs[i].pc < progs[i].n) { lfmt("%s[%d,%d,\"%s\",%d]", f ? "" : ",", progs[i].id, progs[i].pc, onames[progs[i].ops[progs[i].pc].o], progs[i].conn); f = false; }
    lput("]", 1);
}
static void die(const char *why, int code) {
    lfmt("{\"e\":\"%s\",\"t\":%lld,", why, (vnow - 1000000000000LL) / 1000000); dump_threads(); lput("}\n", 2); lflush(); _exit(code);
}
static void quiet_report(void) {
    lfmt("{\"e\":\"quiet\",\"t\":%lld,\"open\":[", (vnow - 1000000000000LL) / 1000000); bool f = true;
    for (int i = 0; i < MAXCONN; i++) if (conns[i].used && !conns[i].srv_closed && conns[i].accepted) { lfmt("%s%d", f ? "" : ",", i); f = false; }
    int nv = 0; for (int i = 0; i < MAXFD; i++) if (vfds[i] && vfds[i]->type == F_CONN) nv++;
    lfmt("],\"fds\":%d,\"steps\":%lld,\"pending\":[", nv, steps); f = true;
    for (int i = 0; i < MAXCONN; i++) if (conns[i].used && conns[i].accepted && !conns[i].srv_closed && conns[i].rpos < conns[i].rlen) { lfmt("%s%d", f ? "" : ",", i); f = false; }
    lput("]}\n", 3);
}
static bool reported_quiet;
/* hand the token on; returns when `me` holds it again (or at once if me has finished) */
static int nosched;  /* >0 inside a pthread_once routine: it must not be preempted */
static void resched(struct vth *me, bool force) {
    if (!active) return;
    if (me->gone || (nosched && me->wait == W_NONE && !me->finished)) return;
    steps++; progress++;
    if (steps > maxsteps) die("livelock", 97);
    for (;;) {
        struct vth *rt[MAXTH]; struct prog *rp[MAXPROG + 1]; int nt = 0, np = 0; bool mer = false;
        for (int i = 0; i < nth; i++) if (!th[i].finished && th_ready(&th[i])) { rt[nt++] = &th[i]; if (&th[i] == me) mer = true; }
        nothing_runnable_flag = false;
        if (npend) rp[np++] = &netp;
        for (int i = 0; i < nprog; i++) {
            struct prog *p = &progs[i];
            if (p->pc < p->n && !p->started && p->ops[p->pc].o == O_SLEEP) { p->started = true; p->start = vnow; }
            if (p->pc < p->n && !p->started && p->ops[p->pc].o != O_BAR) { p->started = true; p->start = vnow; }
            if (op_ready(p)) rp[np++] = p;
        }
        if (nt + np == 0) {
            bool alldone = true, sleeper = false; ll dl = 0;
            for (int i = 0; i < nprog; i++) if (progs[i].pc < progs[i].n) alldone = false;
            for (int i = 0; i < nth; i++) if (!th[i].finished && th[i].wait == W_SLEEP) sleeper = true;
            if (!sleeper && !alldone) {
                nothing_runnable_flag = true; bool any = false;
                for (int i = 0; i < nprog && !any; i++) if (progs[i].pc < progs[i].n && progs[i].ops[progs[i].pc].o == O_IDLE && op_ready(&progs[i])) { exec_op(&progs[i]); any = true; }
                nothing_runnable_flag = false;
                if (any) continue;
                if (giveup) { /* whoever waits for what does not come goes on */
                    bool asleep = false;
                    for (int i = 0; i < nprog; i++) if (progs[i].pc < progs[i].n && progs[i].ops[progs[i].pc].o == O_SLEEP) asleep = true;
                    for (int i = 0; i < nprog && !any; i++) { struct prog *p = &progs[i]; if (p->pc >= p->n) continue;
                        int o = p->ops[p->pc].o;
                        if (o == O_WAIT || o == O_WAITHTTP || o == O_WAITFR || o == O_WAITEOF || (o == O_BAR && !asleep)) { lfmt("{\"e\":\"idle\",\"gave\":%d,\"t\":%lld}\n", p->conn, (vnow - 1000000000000LL) / 1000000); p->pc++; p->started = false; progress++; any = true; } }
                    if (any) continue;
                }
            }
            if (alldone && !sleeper) {
                if (!reported_quiet) { reported_quiet = true; quiet_report(); }
                if (!shutdown_state) {
                    if (!do_shutdown) { lput("{\"e\":\"end\"}\n", 12); lflush(); _exit(0); }
                    shutdown_state = 1; raise_sig(SIGINT); continue;
                }
                die("stuck-shutdown", 98);
            }
            for (int i = 0; i < nth; i++) { struct vth *t = &th[i];
                if (!t->finished && t->deadline && (t->wait == W_SLEEP || t->wait == W_EPOLL || t->wait == W_POLL || (t->wait == W_COND && !t->signaled) || t->wait == W_MUTEX)) if (!dl || t->deadline < dl) dl = t->deadline; }
            for (int i = 0; i < nprog; i++) { struct prog *p = &progs[i]; if (p->pc < p->n && p->started && p->ops[p->pc].o == O_SLEEP) { ll d = p->start + p->ops[p->pc].a * 1000000; if (!dl || d < dl) dl = d; } }
            if (!dl) die("stuck", 98);
            for (int i = 0; i < nprog; i++) { struct prog *p = &progs[i]; if (p->pc < p->n && p->ops[p->pc].o != O_SLEEP && p->started && dl - p->start > maxwait) die("stuck", 98); }
            if (alldone && shutdown_state && dl > vnow + maxwait) die("stuck-shutdown", 98);
            static ll quietsince; static bool qs; if (alldone) { if (!qs) { qs = true; quietsince = vnow; } if (vnow - quietsince > maxwait) die("stuck", 98); } else qs = false;
            ll before = vnow / 1000000;
            if (dl > vnow) vnow = dl; else vnow += 1000;
            if (logclock && vnow / 1000000 != before) lfmt("{\"e\":\"time\",\"t\":%lld}\n", (vnow - 1000000000000LL) / 1000000);
            continue;
        }
        int pick = -1; /* index into rt ++ rp */
        int tot = nt + np;
        switch (strat) {
        case S_SEQ:
            if (mer && !force) { for (int i = 0; i < nt; i++) if (rt[i] == me) pick = i; }
            else if (nt) { pick = 0; if (force && mer && nt > 1) { for (int i = 0; i < nt; i++) if (rt[i]->id > me->id) { pick = i; break; } } }
            else pick = nt;
            break;
        case S_RAND:
            if (mer && !force && (double)(rnd() & 0xffffff) / 0x1000000 >= prand) { for (int i = 0; i < nt; i++) if (rt[i] == me) pick = i; }
            else pick = (int)(rnd() % (unsigned)tot);
            break;
        case S_PCT: {
            for (int i = 0; i < npct; i++) if (pctpt[i] == steps) me->prio = (unsigned)(npct - i);
            unsigned best = 0; for (int i = 0; i < nt; i++) if (pick < 0 || rt[i]->prio > best) { best = rt[i]->prio; pick = i; }
            for (int i = 0; i < np; i++) if (pick < 0 || rp[i]->prio > best) { best = rp[i]->prio; pick = nt + i; }
            if (force && mer && rt[pick % (nt ? nt : 1)] == me && tot > 1) { pick = (int)(rnd() % (unsigned)tot); }
            break; }
        case S_DFS: {
            int mi = 0; if (mer) { for (int i = 0; i < nt; i++) if (rt[i] == me) mi = i; }
            /* alternative 0 = continue with me (or first), others in order */
            int alt = 0;
            if (tot > 1) { alt = choicepos < nchoices ? choices[choicepos] : 0; choicepos++; if (logchoices) lfmt("{\"e\":\"ch\",\"n\":%d,\"a\":%d,\"m\":%d}\n", tot, alt, mer && !force); }
            pick = (mi + alt) % tot; break; }
        }
        if (pick < 0) pick = 0;
        if (pick >= nt) { if (rp[pick - nt] == &netp) deliver(); else exec_op(rp[pick - nt]); force = false; continue; }
        struct vth *t = rt[pick];
        if (t == me) return;
        bool fin = me->finished; if (fin) me->gone = true;
        futwake(&t->fut);
        if (fin) return;
        futwait(&me->fut);
        return;
    }
}
static inline void point(void) { if (active) resched(self(), false); }
static void block(int w) { struct vth *t = self(); t->wait = w; resched(t, false); t->wait = W_NONE; }

/* ---------------------------------------------------------------- setup */
static void crash(int s) { lfmt("{\"e\":\"crash\",\"sig\":%d,\"th\":%d}\n", s, self()->id); lflush(); _exit(128 + s); }
static void altstack(void) { stack_t ss; ss.ss_sp = xalloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, NULL); }
static int (*r_sigaction)(int, const struct sigaction *, struct sigaction *);
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_minit)(pthread_mutex_t *, const pthread_mutexattr_t *);
#define REAL(v, n) do { if (!v) v = dlsym(RTLD_NEXT, n); } while (0)
static void *watchdog(void *a) {
    (void)a; ll last = -1; int same = 0;
    for (;;) { struct timespec ts = {1, 0}; syscall(SYS_nanosleep, &ts, NULL);
        if (progress == last) { if (++same >= 25) { lput("{\"e\":\"hang\"}\n", 13); lflush(); _exit(97); } } else same = 0; last = progress; }
    return NULL;
}
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void load_script(const char *path) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0); if (fd < 0) _exit(94);
    size_t cap = (size_t)syscall(SYS_lseek, fd, 0, SEEK_END); syscall(SYS_lseek, fd, 0, SEEK_SET);
    char *b = mmap(NULL, cap + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); size_t o = 0;
    while (o < cap) { long n = syscall(SYS_read, fd, b + o, cap - o); if (n <= 0) break; o += (size_t)n; }
    b[o] = 0; syscall(SYS_close, fd);
    for (char *s = b; *s;) {
        char *e = strchr(s, '\n'); if (e) *e = 0; char *next = e ? e + 1 : s + strlen(s);
        char *k = s; while (*k == ' ') k++;
        if (*k == 0 || *k == '#') { s = next; continue; }
        if (!strncmp(k, "opt ", 4)) {
            char *n = k + 4; char *v = strchr(n, ' '); if (v) *v++ = 0; else v = (char *)"";
            if (!strcmp(n, "strat")) strat = !strcmp(v, "seq") ? S_SEQ : !strcmp(v, "rand") ? S_RAND : !strcmp(v, "pct") ? S_PCT : S_DFS;
            else if (!strcmp(n, "seed")) { rng = 88172645463325252ULL ^ (strtoull(v, NULL, 10) * 0x9E3779B97F4A7C15ULL); if (!rng) rng = 1; for (int i = 0; i < 8; i++) rnd(); }
            else if (!strcmp(n, "p")) prand = strtod(v, NULL);
            else if (!strcmp(n, "pct")) { int d = 0; ll K = 1000; sscanf(v, "%d %lld", &d, &K); npct = d > 60 ? 60 : d; for (int i = 0; i < npct; i++) pctpt[i] = (ll)(rnd() % (uint64_t)K); }
            else if (!strcmp(n, "spurious")) pspur = strtod(v, NULL);
            else if (!strcmp(n, "eintr")) peintr = strtod(v, NULL);
            else if (!strcmp(n, "maxwait")) maxwait = strtoll(v, NULL, 10) * 1000000;
            else if (!strcmp(n, "maxsteps")) maxsteps = strtoll(v, NULL, 10);
            else if (!strcmp(n, "noshutdown")) do_shutdown = false;
            else if (!strcmp(n, "giveup")) giveup = true;
            else if (!strcmp(n, "clock")) logclock = true;
            else if (!strcmp(n, "choices")) { logchoices = true; while (*v && nchoices < 100000) { choices[nchoices++] = (int)strtol(v, &v, 10); while (*v == ',' || *v == ' ') v++; } }
            s = next; continue;
        }
        int id = (int)strtol(k, &k, 10); while (*k == ' ') k++;
        struct prog *p = NULL; for (int i = 0; i < nprog; i++) if (progs[i].id == id) p = &progs[i];
        if (!p) { if (nprog == MAXPROG) _exit(93); p = &progs[nprog++]; p->id = id; p->ops = mmap(NULL, MAXOPS * sizeof(struct op), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
        char *a = strchr(k, ' '); if (a) { *a++ = 0; while (*a == ' ') a++; } else a = (char *)"";
        int oc = -1; for (unsigned i = 0; i < sizeof onames / sizeof *onames; i++) if (!strcmp(onames[i], k)) oc = (int)i;
        if (oc < 0 || p->n == MAXOPS) { lfmt("{\"e\":\"badop\",\"op\":\"%s\"}\n", k); lflush(); _exit(93); }
        struct op *op = &p->ops[p->n++]; op->o = oc; op->d = a;
        if (oc == O_SEND || oc == O_RAW) { size_t L = strlen(a) / 2; char *d = a; for (size_t i = 0; i < L; i++) d[i] = (char)(hexv(a[2 * i]) << 4 | hexv(a[2 * i + 1])); op->n = L; }
        else { char *q; op->a = strtoll(a, &q, 10); while (*q == ' ') q++; op->b = *q ? strtoll(q, NULL, 10) : 0; if (oc == O_SIG && !strcmp(a, "INT")) op->a = SIGINT; }
        s = next;
    }
    for (int i = 0; i < nprog; i++) progs[i].prio = 1000 + (unsigned)(rnd() & 0xffff);
    th[0].prio = 1000 + (unsigned)(rnd() & 0xffff);
    if (getenv("SIM_TLS")) netp.prio = 1000 + (unsigned)(rnd() & 0xffff);
}
__attribute__((constructor)) static void init(void) {
    const char *sp = getenv("SIM_SCRIPT"), *lp = getenv("SIM_LOG");
    REAL(r_sigaction, "sigaction"); REAL(r_create, "pthread_create"); REAL(r_join, "pthread_join"); REAL(r_minit, "pthread_mutex_init");
    if (!sp || !lp) return;
    lfd = (int)syscall(SYS_openat, AT_FDCWD, lp, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (lfd >= 0) { int hi = fcntl(lfd, F_DUPFD, 60); if (hi >= 0) { syscall(SYS_close, lfd); lfd = hi; } }
    th[0].real = pthread_self();
    load_script(sp);
    tls_start();
    altstack();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
    int ss[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}; for (int i = 0; i < 5; i++) r_sigaction(ss[i], &sa, NULL);
    pthread_t w; r_create(&w, NULL, watchdog, NULL);
    active = true;
}
__attribute__((destructor)) static void fini(void) { if (lfd >= 0) { lfmt("{\"e\":\"end\",\"steps\":%lld", steps); level(); lput("}\n", 2); lflush(); } }

/* --------------------------------------------------- exported to plugins */
EXPORT void sim_emit(const char *json) { lput(json, strlen(json)); lput("\n", 1); point(); }
EXPORT void sim_emit_hex(const char *head, const void *d, size_t n, const char *tail) { lput(head, strlen(head)); lhex(d, n); lput(tail, strlen(tail)); lput("\n", 1); point(); }
EXPORT void sim_point(void) { point(); }

/* ------------------------------------------------------------- pthreads */
static void th_finish(void *a) {
    struct vth *t = a; static void (*ots)(void); static bool looked;
    if (!looked) { looked = true; ots = dlsym(RTLD_DEFAULT, "OPENSSL_thread_stop"); }
    if (ots && t->fn != sigthread) ots();
    t->finished = true; t->wait = W_DONE; if (active) resched(t, true); t->gone = true; }
static void *th_start(void *a) {
    struct vth *t = a; selfp = t; futwait(&t->fut); altstack();
    void *r = NULL;
    pthread_cleanup_push(th_finish, t);
    r = t->fn(t->arg);
    pthread_cleanup_pop(1);
    return r;
}
static int vcreate(void *(*fn)(void *), void *arg, pthread_t *out, const pthread_attr_t *attr) {
    if (nth == MAXTH) return EAGAIN;
    struct vth *t = &th[nth]; memset(t, 0, sizeof *t); t->id = nth; t->fn = fn; t->arg = arg; t->prio = 1000 + (unsigned)(rnd() & 0xffff);
    int r = r_create(&t->real, attr, th_start, t);
    if (r) return r;
    *out = t->real; nth++; return 0;
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    REAL(r_create, "pthread_create");
    if (!active) return r_create(out, attr, fn, arg);
    int r = vcreate(fn, arg, out, attr); if (!getenv("SIM_ASAN")) point(); return r;
}
EXPORT int pthread_join(pthread_t p, void **ret) {
    REAL(r_join, "pthread_join");
    if (!active) return r_join(p, ret);
    for (int i = nth - 1; i > 0; i--) if (pthread_equal(th[i].real, p) ) {
        if (th[i].joined) { ub("double-join"); return ESRCH; }
        self()->obj = &th[i]; block(W_JOIN); th[i].joined = true; return r_join(p, ret);
    }
    ub("join-unknown"); return ESRCH;
}
EXPORT int pthread_detach(pthread_t p) { for (int i = nth - 1; i > 0; i--) if (pthread_equal(th[i].real, p)) { th[i].detached = true; } return 0; }
EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    REAL(r_minit, "pthread_mutex_init"); int r = r_minit(m, a); struct lk *l = lk_get(m); memset(&l->kind, 0, sizeof *l - offsetof(struct lk, kind)); l->kind = m->__data.__kind & 3; return r;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) {
    struct lk *l = lk_get(m);
    if (l->owner) { ub("destroy-locked-mutex"); return EBUSY; }
    l->destroyed = true; return 0;
}
static int mxlock(pthread_mutex_t *m, bool try, ll deadline) {
    struct lk *l = lk_get(m); struct vth *t = self();
    if (l->destroyed) { ub("lock-destroyed-mutex"); }
    else if (l->kind == 0) l->kind = m->__data.__kind & 3;
    if (l->owner == t->id + 1) {
        if (l->kind == PTHREAD_MUTEX_RECURSIVE) { l->count++; return 0; }
        if (l->kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (try) return EBUSY;
    }
    if (!try) point();
    l = lk_get(m);
    if (try) { if (l->owner) { point(); return EBUSY; } }
    else if (l->owner) { t->obj = m; t->deadline = deadline; block(W_MUTEX); t->deadline = 0; l = lk_get(m); if (l->owner) return ETIMEDOUT; }
    l->owner = t->id + 1; l->count = 1; return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) { if (self()->gone) return 0; return mxlock(m, false, 0); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) { point(); return mxlock(m, true, 0); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { ll d = ts->tv_sec * 1000000000LL + ts->tv_nsec; return mxlock(m, false, d > vnow ? d : vnow + 1); }
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (self()->gone) return 0;
    struct lk *l = lk_get(m); struct vth *t = self();
    if (l->owner != t->id + 1) {
        if (l->kind == PTHREAD_MUTEX_RECURSIVE || l->kind == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
        if (l->owner) ub("unlock-not-owner");
        l->owner = 0; return 0;
    }
    if (--l->count > 0) return 0;
    l->owner = 0; point(); return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)c; (void)a; return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, ll deadline) {
    struct lk *l = lk_get(m); struct vth *t = self();
    if (l->owner != t->id + 1) ub("cond-wait-unlocked");
    int cnt = l->count; l->owner = 0; l->count = 0;
    t->obj = c; t->obj2 = m; t->signaled = false; t->deadline = deadline;
    if (pspur > 0 && (double)(rnd() & 0xffffff) / 0x1000000 < pspur) t->signaled = true;
    block(W_COND);
    int r = t->signaled ? 0 : ETIMEDOUT; t->deadline = 0;
    l = lk_get(m); l->owner = t->id + 1; l->count = cnt; return r;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cwait(c, m, 0); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { ll d = ts->tv_sec * 1000000000LL + ts->tv_nsec; return cwait(c, m, d > vnow ? d : vnow + 1); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
    struct vth *w[MAXTH]; int n = 0;
    for (int i = 0; i < nth; i++) if (th[i].wait == W_COND && th[i].obj == c && !th[i].signaled && !th[i].finished) w[n++] = &th[i];
    if (n) w[strat == S_SEQ || strat == S_DFS ? 0 : rnd() % (unsigned)n]->signaled = true;
    point(); return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
    for (int i = 0; i < nth; i++) if (th[i].wait == W_COND && th[i].obj == c) th[i].signaled = true;
    point(); return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t *r, const pthread_rwlockattr_t *a) { (void)a; struct lk *l = lk_get(r); memset(&l->kind, 0, sizeof *l - offsetof(struct lk, kind)); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *r) { struct lk *l = lk_get(r); if (l->owner || l->readers) ub("destroy-locked-rwlock"); l->destroyed = true; return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *r) {
    if (self()->gone) return 0;
    struct lk *l = lk_get(r); struct vth *t = self(); if (l->destroyed) ub("rdlock-destroyed");
    if (l->owner == t->id + 1) return EDEADLK;
    point(); if (l->owner) { t->obj = r; block(W_RD); } l->readers++; return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *r) { struct lk *l = lk_get(r); point(); if (l->owner) return EBUSY; l->readers++; return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *r) {
    if (self()->gone) return 0;
    struct lk *l = lk_get(r); struct vth *t = self(); if (l->destroyed) ub("wrlock-destroyed");
    if (l->owner == t->id + 1) return EDEADLK;
    point(); if (l->owner || l->readers) { t->obj = r; block(W_WR); } l->owner = t->id + 1; return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *r) { struct lk *l = lk_get(r); point(); if (l->owner || l->readers) return EBUSY; l->owner = self()->id + 1; return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *r) {
    if (self()->gone) return 0;
    struct lk *l = lk_get(r);
    if (l->owner == self()->id + 1) l->owner = 0; else if (l->readers > 0) l->readers--; else ub("rwunlock-not-held");
    point(); return 0;
}
EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (*(volatile int *)o == 2) return 0;
    nosched++; fn(); nosched--; *(volatile int *)o = 2; return 0;
}
EXPORT int sched_yield(void) { if (active) resched(self(), true); return 0; }

/* ----------------------------------------------------------------- time */
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!active) return (int)syscall(SYS_clock_gettime, c, ts);
    ll v = vnow; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) v += 1700000000LL * 1000000000LL;
    ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) { (void)tz; if (tv) { ll v = vnow + 1700000000LL * 1000000000LL; tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000; } return 0; }
EXPORT time_t time(time_t *p) { time_t v = vnow / 1000000000 + 1700000000LL; if (p) *p = v; return v; }
EXPORT int nanosleep(const struct timespec *a, struct timespec *rem) {
    (void)rem; if (!active) return (int)syscall(SYS_nanosleep, a, rem);
    self()->deadline = vnow + a->tv_sec * 1000000000LL + a->tv_nsec; block(W_SLEEP); self()->deadline = 0; return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *rem) { (void)c; (void)fl; return nanosleep(a, rem); }
EXPORT int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, NULL); }
EXPORT unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, NULL); return 0; }

/* -------------------------------------------------------------- signals */
EXPORT int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    REAL(r_sigaction, "sigaction");
    if (!active) return r_sigaction(s, a, o);
    if (o && s > 0 && s < 65) *o = handlers[s];
    if (a && s > 0 && s < 65) { handlers[s] = *a; have_handler[s] = true; }
    return 0;
}
EXPORT void (*signal(int s, void (*h)(int)))(int) { void (*o)(int) = handlers[s].sa_handler; handlers[s].sa_handler = h; have_handler[s] = true; return o; }

/* -------------------------------------------------------------- sockets */
EXPORT int socket(int d, int t, int p) { (void)p; if (!active || (d != AF_INET && d != AF_INET6)) return (int)syscall(SYS_socket, d, t, p); int f = fd_alloc(F_SOCK); if (f >= 0) { V(f)->dom = d; if (t & SOCK_NONBLOCK) V(f)->nonblock = true; } return f; }
EXPORT int setsockopt(int fd, int l, int n, const void *v, socklen_t k) { if (V(fd)) return 0; return (int)syscall(SYS_setsockopt, fd, l, n, v, k); }
EXPORT int getsockopt(int fd, int l, int n, void *v, socklen_t *k) { if (V(fd)) { if (v && k && *k >= 4) { *(int *)v = 0; } return 0; } return (int)syscall(SYS_getsockopt, fd, l, n, v, k); }
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t n) {
    struct vfd *v = V(fd); if (!v) return (int)syscall(SYS_bind, fd, a, n);
    v->port = a->sa_family == AF_INET6 ? ntohs(((const struct sockaddr_in6 *)a)->sin6_port) : ntohs(((const struct sockaddr_in *)a)->sin_port); return 0;
}
EXPORT int listen(int fd, int n) { struct vfd *v = V(fd); if (!v) return (int)syscall(SYS_listen, fd, n); v->type = F_LISTEN; lfmt("{\"e\":\"listen\",\"port\":%d}\n", v->port); return 0; }
static int do_accept(int fd, struct sockaddr *a, socklen_t *n, int fl) {
    point();
    struct vfd *v = V(fd); if (!v) { errno = EBADF; return -1; }
    if (!v->lqn) { errno = EAGAIN; return -1; }
    int id = v->lq[0]; int nf = fd_alloc(F_CONN); if (nf < 0) return -1;
    memmove(v->lq, v->lq + 1, (size_t)(--v->lqn) * sizeof(int));
    struct conn *c = &conns[id]; c->fd = nf; c->accepted = true; V(nf)->conn = id; V(nf)->nonblock = fl & SOCK_NONBLOCK;
    char ip[64];
    if (id % 3 == 1 && v->dom == AF_INET6) snprintf(ip, sizeof ip, "2001:db8::%x", id + 1); else if (id % 3 == 2) snprintf(ip, sizeof ip, "127.0.0.1"); else snprintf(ip, sizeof ip, "10.%d.0.%d", id / 250, id % 250 + 1);
    if (a && n) {
        struct sockaddr_storage ss; memset(&ss, 0, sizeof ss); socklen_t k;
        if (v->dom == AF_INET6) {
            struct sockaddr_in6 *s6 = (void *)&ss; char m[80]; snprintf(m, sizeof m, "%s%s", strchr(ip, ':') ? "" : "::ffff:", ip);
            s6->sin6_family = AF_INET6; s6->sin6_port = htons((uint16_t)(10000 + id)); inet_pton(AF_INET6, m, &s6->sin6_addr); k = sizeof *s6;
        } else { struct sockaddr_in *s4 = (void *)&ss; s4->sin_family = AF_INET; s4->sin_port = htons((uint16_t)(10000 + id)); inet_pton(AF_INET, ip, &s4->sin_addr); k = sizeof *s4; }
        memcpy(a, &ss, *n < k ? *n : k); *n = k;     // as the kernel: the full length is reported
    }
    lfmt("{\"e\":\"accept\",\"c\":%d,\"fd\":%d,\"ip\":\"%s\"}\n", id, nf, ip);
    return nf;
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *n) { if (!isv(fd)) return (int)syscall(SYS_accept, fd, a, n); return do_accept(fd, a, n, 0); }
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) { if (!isv(fd)) return (int)syscall(SYS_accept4, fd, a, n, fl); return do_accept(fd, a, n, fl); }
static bool inject_eintr(void) { return peintr > 0 && (double)(rnd() & 0xffffff) / 0x1000000 < peintr; }
static ssize_t vread(int fd, void *b, size_t n) {
    point();
    struct vfd *v = V(fd); if (!v) { ub("read-bad-fd"); errno = EBADF; return -1; }
    if (v->type == F_CONN) {
        struct conn *c = &conns[v->conn];
        if (c->rst) { errno = ECONNRESET; return -1; }
        size_t av = c->rlen - c->rpos;
        if (!av) { if (c->fin) return 0; errno = EAGAIN; return -1; }
        if (av > n) av = n;
        if (c->rdlim > 0 && av > (size_t)c->rdlim) av = (size_t)c->rdlim;
        memcpy(b, c->rx + c->rpos, av); c->rpos += av;
        lfmt("{\"e\":\"rd\",\"c\":%d,\"n\":%zu}\n", c->id, av);
        return (ssize_t)av;
    }
    if (v->type == F_PIPER) {
        while (!v->pb->len) { if (v->pb->wclosed) return 0; if (v->nonblock) { errno = EAGAIN; return -1; } self()->fd = fd; block(W_PIPE); v = V(fd); if (!v) { errno = EBADF; return -1; } }
        size_t k = v->pb->len < n ? v->pb->len : n; memcpy(b, v->pb->d, k); memmove(v->pb->d, v->pb->d + k, v->pb->len - k); v->pb->len -= k; return (ssize_t)k;
    }
    errno = EINVAL; return -1;
}
static ssize_t vwrite(int fd, const void *b, size_t n) {
    point();
    struct vfd *v = V(fd); if (!v) { if (!(n == 5 && !memcmp(b, "HALT", 5))) ub("write-bad-fd"); /* the signal handler racing with the exit */ errno = EBADF; return -1; }
    if (v->type == F_CONN) {
        struct conn *c = &conns[v->conn];
        if (c->wrerr) { errno = c->wrerr; return -1; }
        if (c->rst || c->srv_shut) { errno = c->rst ? ECONNRESET : EPIPE; return -1; }
        if (n && c->win == 0) { errno = EAGAIN; return -1; }
        if (c->win > 0 && (ll)n > c->win) n = (size_t)c->win;
        if (c->wlimpos < c->nwlim) { int k = c->wlim[c->wlimpos++]; if (k <= 0) { notify(fd, EPOLLOUT); errno = EAGAIN; return -1; } if ((size_t)k < n) n = (size_t)k; }
        if (c->win > 0) c->win -= (ll)n;
        if (c->cl_closed) { lfmt("{\"e\":\"outlost\",\"c\":%d,\"n\":%zu}\n", c->id, n); if (n) { c->rst = true; notify(fd, EPOLLIN | EPOLLRDHUP | EPOLLHUP | EPOLLERR | EPOLLOUT); } return (ssize_t)n; }
        if (c->tls) { lfmt("{\"e\":\"wire\",\"c\":%d,\"n\":%zu}\n", c->id, n); tls_ask(c, 'F', b, n); return (ssize_t)n; }
        lfmt("{\"e\":\"out\",\"c\":%d,\"t\":%lld,\"th\":%d,\"h\":\"", c->id, (vnow - 1000000000000LL) / 1000000, self()->id); lhex(b, n); lput("\"}\n", 3);
        count_out(c, b, n);
        return (ssize_t)n;
    }
    if (v->type == F_PIPEW) {
        struct pipeb *p = v->pb; if (p->rclosed) { errno = EPIPE; return -1; }
        if (p->len + n > p->cap) { size_t nc = (p->len + n) * 2 + 256; char *d = xalloc(nc); memcpy(d, p->d, p->len); p->d = d; p->cap = nc; }
        memcpy(p->d + p->len, b, n); p->len += n;
        for (int i = 0; i < MAXFD; i++) if (vfds[i] && vfds[i]->type == F_PIPER && vfds[i]->pb == p) notify(i + FDBASE, EPOLLIN);
        return (ssize_t)n;
    }
    errno = EINVAL; return -1;
}
EXPORT ssize_t read(int fd, void *b, size_t n) { if (!isv(fd)) return syscall(SYS_read, fd, b, n); if (inject_eintr()) { errno = EINTR; return -1; } return vread(fd, b, n); }
EXPORT ssize_t __read_chk(int fd, void *b, size_t n, size_t z) { (void)z; return read(fd, b, n); }
EXPORT ssize_t write(int fd, const void *b, size_t n) { if (!isv(fd)) return syscall(SYS_write, fd, b, n); return vwrite(fd, b, n); }
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) { if (!isv(fd)) return syscall(SYS_recvfrom, fd, b, n, fl, NULL, NULL); return vread(fd, b, n); }
EXPORT ssize_t __recv_chk(int fd, void *b, size_t n, size_t z, int fl) { (void)z; return recv(fd, b, n, fl); }
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) { if (!isv(fd)) return syscall(SYS_sendto, fd, b, n, fl, NULL, 0); return vwrite(fd, b, n); }
EXPORT ssize_t writev(int fd, const struct iovec *io, int k) {
    if (!isv(fd)) return syscall(SYS_writev, fd, io, k);
    ssize_t t = 0; for (int i = 0; i < k; i++) { if (!io[i].iov_len) continue; ssize_t r = vwrite(fd, io[i].iov_base, io[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < io[i].iov_len) break; } return t;
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl) { if (!isv(fd)) return syscall(SYS_sendmsg, fd, m, fl); return writev(fd, m->msg_iov, (int)m->msg_iovlen); }
EXPORT ssize_t readv(int fd, const struct iovec *io, int k) {
    if (!isv(fd)) return syscall(SYS_readv, fd, io, k);
    ssize_t t = 0; for (int i = 0; i < k; i++) { if (!io[i].iov_len) continue; ssize_t r = vread(fd, io[i].iov_base, io[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < io[i].iov_len) break; } return t;
}
EXPORT int shutdown(int fd, int how) {
    struct vfd *v = V(fd); if (!v) return (int)syscall(SYS_shutdown, fd, how);
    point();
    if (v->type == F_CONN && (how == SHUT_WR || how == SHUT_RDWR)) { struct conn *c = &conns[v->conn]; c->srv_shut = true; srv_eof(c, "shutdown"); if (c->fin) notify(fd, EPOLLIN | EPOLLRDHUP | EPOLLHUP); }
    if (v->type == F_CONN && (how == SHUT_RD || how == SHUT_RDWR)) { struct conn *c = &conns[v->conn]; c->fin = true; notify(fd, EPOLLIN | EPOLLRDHUP | (c->srv_shut ? EPOLLHUP : 0)); }
    if (v->type == F_LISTEN) { notify(fd, EPOLLIN | EPOLLRDHUP | EPOLLHUP); }
    return 0;
}
EXPORT int close(int fd) {
    if (!isv(fd)) return (int)syscall(SYS_close, fd);
    point();
    struct vfd *v = V(fd); if (!v) { ub("close-bad-fd"); errno = EBADF; return -1; }
    if (v->type == F_CONN) { struct conn *c = &conns[v->conn]; srv_eof(c, "close"); c->srv_closed = true; c->fd = -1; lfmt("{\"e\":\"fdclose\",\"c\":%d,\"fd\":%d}\n", c->id, fd); }
    if (v->type == F_PIPEW) v->pb->wclosed = true;
    if (v->type == F_PIPER) v->pb->rclosed = true;
    if (v->type == F_LISTEN) { for (int i = 0; i < v->lqn; i++) srv_eof(&conns[v->lq[i]], "refused"); }
    for (int i = 0; i < MAXFD; i++) if (vfds[i] && vfds[i]->type == F_EPOLL) { struct ep *e = vfds[i]->ep; for (int k = 0; k < e->n; k++) if (e->it[k].fd == fd) { e->it[k] = e->it[--e->n]; k--; } }
    v->type = F_FREE; return 0;
}
EXPORT int fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
    struct vfd *v = V(fd); if (!v) { if (isv(fd)) { errno = EBADF; return -1; } return (int)syscall(SYS_fcntl, fd, cmd, arg); }
    if (cmd == F_GETFL) return O_RDWR | (v->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { v->nonblock = arg & O_NONBLOCK; return 0; }
    return 0;
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a); return fcntl(fd, cmd, arg); }
EXPORT int pipe(int p[2]) {
    if (!active) return (int)syscall(SYS_pipe, p);
    struct pipeb *b = xalloc(sizeof *b); memset(b, 0, sizeof *b);
    p[0] = fd_alloc(F_PIPER); V(p[0])->pb = b; p[1] = fd_alloc(F_PIPEW); V(p[1])->pb = b; return 0;
}
EXPORT int pipe2(int p[2], int fl) { int r = pipe(p); if (!r && (fl & O_NONBLOCK)) { V(p[0])->nonblock = V(p[1])->nonblock = true; } return r; }
EXPORT int epoll_create1(int fl) { (void)fl; if (!active) return (int)syscall(SYS_epoll_create1, fl); int f = fd_alloc(F_EPOLL); V(f)->ep = mmap(NULL, sizeof(struct ep), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); return f; }
EXPORT int epoll_create(int n) { (void)n; return epoll_create1(0); }
EXPORT int epoll_ctl(int e, int op, int fd, struct epoll_event *ev) {
    struct vfd *v = V(e); if (!v || v->type != F_EPOLL) { errno = EBADF; return -1; }
    point();
    v = V(e); if (!v) { errno = EBADF; return -1; }
    if (!V(fd)) { ub("epoll_ctl-bad-fd"); errno = EBADF; return -1; }
    struct epitem *it = NULL; for (int k = 0; k < v->ep->n; k++) if (v->ep->it[k].fd == fd) it = &v->ep->it[k];
    if (op == EPOLL_CTL_DEL) { if (!it) { errno = ENOENT; return -1; } *it = v->ep->it[--v->ep->n]; return 0; }
    if (op == EPOLL_CTL_MOD && !it) { errno = ENOENT; return -1; }
    if (op == EPOLL_CTL_ADD) { if (it) { errno = EEXIST; return -1; } it = &v->ep->it[v->ep->n++]; memset(it, 0, sizeof *it); it->fd = fd; }
    it->ev = ev->events; it->data = ev->data; it->armed = true; it->pend = false;
    if (fdmask(fd) & (it->ev | EPOLLHUP | EPOLLERR)) { it->pend = true; it->stamp = ++stampctr; }
    return 0;
}
EXPORT int epoll_wait(int e, struct epoll_event *out, int max, int timeout) {
    struct vfd *v = V(e); if (!v || v->type != F_EPOLL) { errno = EBADF; return -1; }
    if (inject_eintr()) { point(); errno = EINTR; return -1; }
    struct vth *t = self(); t->fd = e; t->deadline = timeout >= 0 ? vnow + timeout * 1000000LL + (timeout == 0) : 0;
    if (timeout != 0) block(W_EPOLL); else point();
    t->deadline = 0;
    v = V(e); if (!v) { errno = EBADF; return -1; }
    int n = 0;
    while (n < max) {
        struct epitem *b = NULL;
        for (int k = 0; k < v->ep->n; k++) { struct epitem *it = &v->ep->it[k]; if (!it_ready(it)) { if (it->pend && it->armed) it->pend = false; continue; } bool dup = false; if (!(it->ev & EPOLLET)) for (int q = 0; q < n; q++) if (out[q].data.fd == it->data.fd) dup = true; if (dup) continue; if (!b || it->stamp < b->stamp) b = it; }
        if (!b) break;
        out[n].events = fdmask(b->fd) & (b->ev | EPOLLHUP | EPOLLERR); out[n].data = b->data; n++;
        b->pend = false; if (b->ev & EPOLLONESHOT) { b->armed = false; }
    }
    return n;
}
EXPORT int epoll_pwait(int e, struct epoll_event *out, int max, int timeout, const sigset_t *s) { (void)s; return epoll_wait(e, out, max, timeout); }
EXPORT int poll(struct pollfd *p, nfds_t n, int timeout) {
    if (!active) return (int)syscall(SYS_poll, p, n, timeout);
    struct vth *t = self(); t->pfds = p; t->npfd = n; t->deadline = timeout >= 0 ? vnow + timeout * 1000000LL + (timeout == 0) : 0;
    if (timeout == 0) { t->deadline = 0; point(); } else block(W_POLL);
    t->deadline = 0; int r = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (!V(p[i].fd)) { p[i].revents = POLLNVAL; r++; continue; } uint32_t m = fdmask(p[i].fd) & ((uint32_t)p[i].events | EPOLLHUP | EPOLLERR); p[i].revents = (short)m; if (m) r++; }
    return r;
}
EXPORT int __poll_chk(struct pollfd *p, nfds_t n, int timeout, size_t z) { (void)z; return poll(p, n, timeout); }
EXPORT int raise(int s) { if (active && s == SIGABRT) { crash(s); } return (int)syscall(SYS_tgkill, syscall(SYS_getpid), syscall(SYS_gettid), s); }
EXPORT int setrlimit(int r, const void *l) { (void)r; (void)l; return 0; }
EXPORT int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *s) { (void)s; return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }
