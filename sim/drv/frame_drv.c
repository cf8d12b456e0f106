/* Runs the frame codec on the plan made from spec/Frame.tla (see checks/frame_checks.py):
   D <header hex> <len> fin rsv op mask          decode, every truncation
   H <header hex>                                header announcing more than is ever there
   S <n> (<header hex> <len> fin rsv op mask)*   several frames, every truncation
   C <op> <n> <lim> <count> (<header hex> <len>)*   cut a message, encode, decode again
   X <header hex> fin rsv op <ext> <app>         encode a frame with extension data
   K <code> <1|0>                                the server's own closing frame (0: unknown code)
   M <code> <hex reason>                         closing frame asked for by the application
   P <header hex> <len> <rsv>                    pong for a ping
   Q                                             the server's own ping
   Z <header hex> <len> ...                      random bytes (any): total
   Output: "BAD <line no> <what>" lines, then "DONE <calls> <lines>". */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include "frame.h"
#include "config.h"
#include "alloc.h"
size_t __sanitizer_get_current_allocated_bytes(void);
static long calls, failat = -1, nalloc;
#define live ((long)__sanitizer_get_current_allocated_bytes())   /* bytes allocated now */
static int fails(void) { return failat >= 0 && nalloc++ == failat; }
void *WSS_malloc(size_t n) { if (!n || fails()) return NULL; void *p = malloc(n); return memset(p, 0, n); }
void *WSS_calloc(size_t m, size_t n) { return WSS_malloc(m * n); }
void *WSS_copy(void *p, size_t n) { if (!p) return NULL; void *b = WSS_malloc(n); return b ? memcpy(b, p, n) : NULL; }
void *WSS_realloc(void **p, size_t o, size_t n) {
    if (!n) return NULL;
    if (fails()) { free(*p); *p = NULL; return NULL; }
    char *q = malloc(n); memset(q, 0, n); if (*p) { memcpy(q, *p, o < n ? o : n); free(*p); }
    return *p = q;
}
void *WSS_realloc_normal(void *p, size_t n) { return realloc(p, n); }
void WSS_free(void **p) { if (p && *p) { free(*p); *p = NULL; } }
void WSS_free_normal(void *p) { free(p); }
static int line, nbad;
static void bad(const char *f, ...) { if (nbad++ > 20) return; va_list a; va_start(a, f); printf("BAD %d ", line); vprintf(f, a); printf("\n"); fflush(stdout); va_end(a); }
static unsigned char pat(size_t i, int k) { return (unsigned char)(i * 37 + (i >> 8) * 11 + k * 101 + 7); }
static size_t unhex(const char *h, unsigned char *o) { size_t n = 0; if (*h == '-') return 0; for (; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); o[n++] = v; } return n; }
typedef struct { unsigned char h[16]; size_t hl; size_t len; int fin, rsv, op, mask; } F;
static char *w; static size_t wc;
static char *tok(char **s) { return strsep(s, " \n"); }
static F rd(char **s, int full) { F f; memset(&f, 0, sizeof f); f.hl = unhex(tok(s), f.h); f.len = strtoull(tok(s), 0, 10); if (full) { f.fin = atoi(tok(s)); f.rsv = atoi(tok(s)); f.op = atoi(tok(s)); f.mask = atoi(tok(s)); } return f; }
/* the bytes of the frame; payload pattern k, masked with the key that ends the header */
static size_t wire(F *f, char *d, int k) {
    memcpy(d, f->h, f->hl);
    for (size_t i = 0; i < f->len; i++) d[f->hl + i] = (char)(pat(i, k) ^ (f->mask ? f->h[f->hl - 4 + i % 4] : 0));
    return f->hl + f->len;
}
static void same(wss_frame_t *r, F *f, int k) {
    if (!!r->fin != f->fin || (r->rsv1 ? 4 : 0) + (r->rsv2 ? 2 : 0) + (r->rsv3 ? 1 : 0) != f->rsv || r->opcode != f->op || !!r->mask != f->mask) bad("decoded flags differ: fin %d rsv %d%d%d op %d mask %d", r->fin, r->rsv1, r->rsv2, r->rsv3, r->opcode, r->mask);
    else if (r->payloadLength != f->len || r->applicationDataLength + r->extensionDataLength != f->len) bad("decoded length %llu instead of %zu", (unsigned long long)r->payloadLength, f->len);
    else for (size_t i = 0; i < f->len; i++) if ((unsigned char)r->payload[i] != pat(i, k)) { bad("decoded byte %zu differs (%02x)", i, (unsigned char)r->payload[i]); break; }
}
/* decode the first n bytes of w, which are those of frames f[0..c) */
static void decode(F *f, int c, size_t n, size_t shift) {
    char *b = malloc(n + shift); memcpy(b + shift, w, n);      /* exactly these bytes: the sanitizer sees what is read beyond */
    size_t off = shift, at = shift; int k = 0;
    n += shift;
    while (off < n) {
        long l0 = live; calls++;
        wss_frame_t *r = WSS_parse_frame(b, n, &off);
        int complete = k < c && at + f[k].hl + f[k].len <= n;
        if (!r) { bad("%zu bytes: no frame", n - shift); break; }
        if (complete) {
            at += f[k].hl + f[k].len;
            if (off != at) bad("%zu bytes: consumed %zd of the %zu of frame %d", n - shift, (ssize_t)(off - at + f[k].hl + f[k].len), f[k].hl + f[k].len, k);
            else same(r, &f[k], k);
        } else if (off <= n) bad("%zu bytes: incomplete frame %d taken for complete (offset %zu)", n - shift, k, off);
        WSS_free_frame(r);
        if (live != l0) bad("%ld bytes kept", live - l0);
        if (!complete || off != at) break;
        k++;
    }
    free(b);
}
static void need(size_t n) { if (n > wc) w = realloc(w, wc = n * 2); }
static int utf8(const unsigned char *s, size_t n) {
    for (size_t i = 0; i < n;) { int k = s[i] < 128 ? 1 : s[i] >= 0xc2 && s[i] < 0xe0 ? 2 : s[i] >= 0xe0 && s[i] < 0xf0 ? 3 : s[i] >= 0xf0 && s[i] < 0xf5 ? 4 : 0; if (!k || i + k > n) return 0; for (int j = 1; j < k; j++) if ((s[i + j] & 0xc0) != 0x80) return 0; i += k; }
    return 1;
}
static wss_config_t cf;
static wss_frame_t *ctl(const char *what, wss_frame_t *f, int op, char **o, size_t *n) {
    if (!f) { bad("%s: no frame", what); *n = 0; *o = NULL; return NULL; }
    *n = WSS_stringify_frame(f, o);
    unsigned char *p = (unsigned char *)*o;
    if (*n < 2 || p[0] != (0x80 | op) || p[1] != *n - 2 || p[1] > 125) { bad("%s: encoded as %02x %02x with %zu bytes", what, *n ? p[0] : 0, *n > 1 ? p[1] : 0, *n); }
    return f;
}
static int cutmsg(int op, size_t n, int cnt, char *exp, size_t el) {
    wss_frame_t **fs = NULL; char *o = NULL; long l0 = live; int ok = 0;
    char *m = malloc(n + !n); for (size_t i = 0; i < n; i++) m[i] = (char)pat(i, 0);
    size_t c = WSS_create_frames(&cf, op, n ? m : NULL, n, &fs);
    calls++;
    if (cnt == 0) { if (c) bad("%zu frames for a control message of %zu bytes", c, n); goto end; }
    if (failat >= 0 && c == 0) goto end;
    if (c != (size_t)cnt) { bad("%zu frames instead of %d", c, cnt); goto end; }
    size_t ol = WSS_stringify_frames(fs, c, &o);
    if (failat >= 0 && ol == 0) { if (o) bad("bytes left behind a failure"); goto end; }
    if (ol != el || memcmp(o, exp, el)) { size_t i = 0; while (i < ol && i < el && o[i] == exp[i]) i++; bad("encoding differs at byte %zu of %zu (%zu produced): %02x instead of %02x", i, el, ol, i < ol ? (unsigned char)o[i] : 0, i < el ? (unsigned char)exp[i] : 0); }
    else ok = 1;
end:
    for (size_t i = 0; i < c; i++) WSS_free_frame(fs[i]);
    WSS_free((void **)&fs); WSS_free((void **)&o); free(m);
    if (live != l0) bad("%ld bytes kept", live - l0);
    return ok;
}
int main(int argc, char **argv) {
    static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
    FILE *in = fopen(argv[1], "r"); char *lb = NULL; size_t lc = 0; static F f[4096];
    need(1 << 20);
    while (getline(&lb, &lc, in) > 0) {
        char *s = lb; line++; char t = *tok(&s);
        if (t == 'D' || t == 'S') {
            int c = t == 'D' ? 1 : atoi(tok(&s)); size_t n = 0;
            for (int i = 0; i < c; i++) { f[i] = rd(&s, 1); need(n + f[i].hl + f[i].len + 16); n += wire(&f[i], w + n, i); }
            if (n <= 400) for (size_t k = 1; k <= n; k++) decode(f, c, k, k % 3 == 0 ? k % 7 : 0);
            else { for (size_t k = 1; k < 40; k++) decode(f, c, k, 0); size_t at = 0; for (int i = 0; i < c; i++) { for (int d = -3; d < 16; d++) if (at + d >= 1 && at + d <= n) decode(f, c, at + d, 0); at += f[i].hl + f[i].len; if (at > 60) for (int d = -40; d <= 0; d += 13) decode(f, c, at + d, 0); } decode(f, c, n, 0); decode(f, c, n - 1, 0); decode(f, c, n, 5); }
        } else if (t == 'H') {
            F h; memset(&h, 0, sizeof h); h.hl = unhex(tok(&s), h.h);
            memcpy(w, h.h, h.hl); for (int i = 0; i < 300; i++) w[h.hl + i] = (char)i;
            for (size_t k = 1; k < h.hl + 40; k++) decode(f, 0, k, k % 5);
            decode(f, 0, h.hl + 300, 0);
        } else if (t == 'Z') {
            size_t n = strlen(s) / 2; unsigned char *b = malloc(n + 1); n = unhex(s, b);
            char *e = malloc(n); memcpy(e, b, n);
            for (size_t off = 0; off < n;) { size_t o0 = off; calls++; wss_frame_t *r = WSS_parse_frame(e, n, &off); if (!r) { bad("no frame"); break; } if (off <= o0 + 1) bad("offset does not advance"); if (off <= n) for (size_t i = 0; i < r->payloadLength; i++) calls += r->payload[i] == 1; WSS_free_frame(r); }
            free(b); free(e);
        } else if (t == 'C') {
            int op = atoi(tok(&s)); size_t n = strtoull(tok(&s), 0, 10); cf.size_frame = (unsigned)strtoull(tok(&s), 0, 10); int c = atoi(tok(&s));
            size_t wl = 0, pl = 0; need(n + 64 + (size_t)c * 16);
            for (int i = 0; i < c; i++) { F g = rd(&s, 0); memcpy(w + wl, g.h, g.hl); wl += g.hl; for (size_t j = 0; j < g.len; j++) w[wl++] = (char)pat(pl++, 0); }
            if (cutmsg(op, n, c, w, wl) && c <= 64) {     /* and back */
                size_t off = 0, i = 0;
                while (off < wl) { wss_frame_t *r = WSS_parse_frame(w, wl, &off); if (!r || off > wl) { bad("own encoding is not decoded"); WSS_free_frame(r); break; } for (size_t j = 0; j < r->payloadLength; j++) if ((unsigned char)r->payload[j] != pat(i++, 0)) { bad("decoding the encoding: byte %zu", i - 1); break; } WSS_free_frame(r); }
                if (i != n) bad("decoding the encoding: %zu bytes", i);
            }
            if (c <= 4) for (long k = 0; k < 3L * c + 3; k++) { failat = k; nalloc = 0; cutmsg(op, n, c, w, wl); failat = -1; }
        } else if (t == 'X') {
            F g; memset(&g, 0, sizeof g); g.hl = unhex(tok(&s), g.h); int fin = atoi(tok(&s)), rsv = atoi(tok(&s)), op = atoi(tok(&s)); size_t e = strtoull(tok(&s), 0, 10), a = strtoull(tok(&s), 0, 10);
            wss_frame_t *r = WSS_malloc(sizeof *r); r->fin = fin; r->rsv1 = rsv & 4; r->rsv2 = rsv & 2; r->rsv3 = rsv & 1; r->opcode = op; r->extensionDataLength = e; r->applicationDataLength = a; r->payloadLength = e + a;
            r->payload = WSS_malloc(e + a); for (size_t i = 0; i < e + a; i++) r->payload[i] = (char)pat(i, 0);
            char *o; size_t n = WSS_stringify_frame(r, &o); calls++;
            if (n != g.hl + e + a || memcmp(o, g.h, g.hl)) bad("encoded header or length (%zu) differs", n);
            else for (size_t i = 0; i < e + a; i++) if ((unsigned char)o[g.hl + i] != pat(i, 0)) { bad("encoded byte %zu differs", i); break; }
            WSS_free((void **)&o); WSS_free_frame(r);
        } else if (t == 'K') {
            int code = atoi(tok(&s)), known = atoi(tok(&s)); char *o; size_t n; long l0 = live; calls++;
            wss_frame_t *r = WSS_closing_frame(code, NULL);
            if (!known) { if (r) bad("closing frame for %d", code); WSS_free_frame(r); continue; }
            r = ctl("closing frame", r, 8, &o, &n);
            if (r && (n < 4 || ((unsigned char)o[2] << 8 | (unsigned char)o[3]) != code || !utf8((unsigned char *)o + 4, n - 4))) bad("closing frame for %d: code or reason", code);
            WSS_free((void **)&o); WSS_free_frame(r);
            if (live != l0) bad("%ld bytes kept", live - l0);
        } else if (t == 'M') {
            int code = atoi(tok(&s)); unsigned char b[4096]; size_t n = 0; long l0 = live; calls++;
            if (code >= 0) { b[0] = code >> 8; b[1] = code; n = 2; }
            char *q = tok(&s); size_t rl = unhex(q, b + n); n += rl;
            char *m = malloc(n + !n); memcpy(m, b, n); wss_frame_t **fs = NULL; cf.size_frame = code % 2 ? 100 : 1000;
            size_t c = WSS_create_frames(&cf, CLOSE_FRAME, n ? m : NULL, n, &fs); char *o = NULL; size_t ol = 0;
            if (c != 1) bad("%zu closing frames", c);
            else {
                ctl("closing frame", fs[0], 8, &o, &ol);
                int want = code >= 0 ? code : n == 1 ? 1002 : 1000;
                if (ol < 4 || ((unsigned char)o[2] << 8 | (unsigned char)o[3]) != want) bad("closing frame without its code %d", want);
                else if (code >= 0 && (ol - 4 > rl || memcmp(o + 4, b + 2, ol - 4))) bad("reason is not what was given");
                else if (code >= 0 && rl <= 123 && !memchr(b + 2, 0, rl) && ol - 4 != rl) bad("reason cut although it fits (%zu of %zu)", ol - 4, rl);
                else if (code >= 0 && !memchr(b + 2, 0, rl) && ol - 4 + 4 <= 123 && ol - 4 < rl) bad("reason cut too early (%zu of %zu)", ol - 4, rl);
                else if (utf8(b + 2, rl) && !utf8((unsigned char *)o + 4, ol - 4)) bad("reason cut inside a character");
            }
            for (size_t i = 0; i < c; i++) WSS_free_frame(fs[i]);
            WSS_free((void **)&fs); WSS_free((void **)&o); free(m);
            if (live != l0) bad("%ld bytes kept", live - l0);
        } else if (t == 'P') {
            F g = rd(&s, 1); need(g.hl + g.len + 16); size_t n = wire(&g, w, 0), off = 0, ol; char *o, *e = malloc(n); memcpy(e, w, n); calls++;
            wss_frame_t *r = WSS_parse_frame(e, n, &off); free(e); long l0 = live - (r ? sizeof *r + r->payloadLength : 0);
            r = ctl("pong", WSS_pong_frame(r), 10, &o, &ol);
            if (r) { if (ol != g.len + 2) bad("pong with %zu bytes", ol); else for (size_t i = 0; i < g.len; i++) if ((unsigned char)o[2 + i] != pat(i, 0)) { bad("pong byte %zu differs", i); break; } }
            WSS_free((void **)&o); WSS_free_frame(r);
            if (live != l0) bad("%ld bytes kept", live - l0);
        } else if (t == 'Q') {
            long l0 = live; char *o; size_t n; calls++; wss_frame_t *r = ctl("ping", WSS_ping_frame(), 9, &o, &n); WSS_free((void **)&o); WSS_free_frame(r);
            for (failat = 0; failat < 3; failat++) { nalloc = 0; r = WSS_ping_frame(); WSS_free_frame(r); nalloc = 0; r = WSS_closing_frame(1000, NULL); WSS_free_frame(r); }
            failat = -1;
            if (live != l0) bad("%ld bytes kept", live - l0);
        }
    }
    printf("DONE %ld %d\n", calls, line);
    return 0;
}
