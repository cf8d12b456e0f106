/* Compares utf8_check with the table of the automaton of spec/Utf8.tla.
   utf8_drv <table file> <mode> <seed> <amount>
   modes: short   every string of up to three bytes, alone and inside texts
          class   every string of four bytes over class representatives, at every
                  position of a block, with different texts around it
          random  long mutated texts at every alignment
   In all modes the text lies between two inaccessible pages, so reading outside
   it is a fault.  Output: "BAD <hex> want got" lines, then "DONE <calls>". */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "utf8.h"
static unsigned char T[9][256];
static unsigned char *pg;           /* first accessible byte */
#define SZ 8192
static unsigned long calls, nbad;
static const unsigned char *cur; static size_t curlen;

static int run(const unsigned char *s, size_t n) { int q = 0; for (size_t i = 0; i < n; i++) q = T[q][s[i]]; return q == 0; }
static void hex(const unsigned char *s, size_t n) { for (size_t i = 0; i < n; i++) printf("%02x", s[i]); }
static void bad(const unsigned char *s, size_t n, int want, int got) {
    if (nbad++ < 5) { printf("BAD "); hex(s, n); printf(" %d %d at %lu\n", want, got, (unsigned long)((uintptr_t)s % 64)); fflush(stdout); }
}
static void segv(int sig) { printf("BAD "); hex(cur, curlen); printf(" -1 %d at %lu\n", sig, (unsigned long)((uintptr_t)cur % 64)); fflush(stdout); _exit(0); }
static inline void one(const unsigned char *s, size_t n, int want) {
    cur = s; curlen = n; calls++;
    int got = utf8_check((const char *)s, n);
    if (got != want) bad(s, n, want, got);
}
/* the text of n bytes, put directly before the end page */
static unsigned char *atend(const unsigned char *s, size_t n) { unsigned char *d = pg + SZ - n; memcpy(d, s, n); return d; }
static uint64_t x;
static unsigned rnd(unsigned n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (unsigned)((x >> 11) % n); }

static const char *chars[] = {"a", "\x7f", "\x00", "\xc2\x80", "\xc3\xa9", "\xdf\xbf", "\xe0\xa0\x80", "\xe2\x82\xac", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf3\xbf\xbf\xbf", "\xf4\x8f\xbf\xbf"};
static const unsigned char clen[] = {1, 1, 1, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 4, 4};
/* valid text of exactly n bytes ending in characters of kind k (0: ASCII) */
static void fill(unsigned char *d, int n, int k) {
    int i = 0, w = clen[k];
    while ((n - i) % w) d[i++] = 'x';
    while (i < n) { memcpy(d + i, chars[k], w); i += w; }
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    for (int q = 0; q < 9; q++) for (int b = 0; b < 256; b++) { int v; if (fscanf(f, "%d", &v) != 1) return 2; T[q][b] = v; }
    x = strtoull(argv[3], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    long amount = atol(argv[4]);
    unsigned char *m = mmap(0, SZ + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + 4096, SZ, PROT_READ | PROT_WRITE);
    pg = m + 4096;
    signal(SIGSEGV, segv); signal(SIGBUS, segv); signal(SIGILL, segv);
    unsigned char b[1024];
    if (!strcmp(argv[2], "short")) {
        one(pg + SZ, 0, 1); one(pg, 0, 1);
        /* (before, after, filler) */
        static const short pl[][3] = {{0,0,0},{1,0,0},{13,3,0},{14,0,0},{15,0,4},{15,20,7},{29,3,0},{30,0,0},{31,1,4},{31,40,12},{62,0,0},{63,0,7},{63,5,0},{61,0,12}};
        int np = sizeof pl / sizeof *pl;
        if (amount < np) np = amount;
        for (int p = 0; p < np; p++) {
            int P = pl[p][0], A = pl[p][1];
            for (int L = 1; L <= 3; L++) {
                int n = P + L + A;
                unsigned char *d = pg + SZ - n;
                fill(d, P, pl[p][2]); fill(d + P + L, A, 0);
                int c0 = 0, c1 = 256;
                for (int i = c0; i < c1; i++) {
                    d[P] = i; int q0 = T[0][i];
                    if (L == 1) { one(d, n, (A ? T[q0]['x'] : q0) == 0); continue; }
                    for (int j = 0; j < 256; j++) {
                        d[P + 1] = j; int q1 = T[q0][j];
                        if (L == 2) { one(d, n, (A ? T[q1]['x'] : q1) == 0); continue; }
                        if (i < 128 && j < 128) continue;   /* covered by shorter ones */
                        for (int k = 0; k < 256; k++) {
                            d[P + 2] = k; int q2 = T[q1][k];
                            one(d, n, (A ? T[q2]['x'] : q2) == 0);
                        }
                    }
                }
            }
        }
    } else if (!strcmp(argv[2], "class")) {
        static const unsigned char R[] = {'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff};
        int nr = sizeof R;
        /* representatives really are representatives: bytes with equal columns are covered by one */
        for (int v = 0; v < 256; v++) {
            int ok = 0;
            for (int r = 0; r < nr && !ok; r++) { ok = 1; for (int q = 0; q < 9; q++) if (T[q][v] != T[q][R[r]]) ok = 0; }
            if (!ok) { printf("NOREP %d\n", v); return 2; }
        }
        static const unsigned char after[] = {0, 1, 2, 15, 33, 64};
        long cnt = 0;
        for (int P = 0; P <= 66; P++) {
            for (int a = 0; a < 6; a++) for (int k = 0; k < 15; k += 4) {
                if (amount < 1000 && rnd(1000) >= amount) continue;
                int A = after[a], n = P + 4 + A, ka = rnd(15);
                unsigned char *d = pg + SZ - n;
                fill(d, P, k); fill(d + P + 4, A, ka);
                for (int i0 = 0; i0 < nr; i0++) { d[P] = R[i0]; int q0 = T[0][R[i0]];
                for (int i1 = 0; i1 < nr; i1++) { d[P + 1] = R[i1]; int q1 = T[q0][R[i1]];
                for (int i2 = 0; i2 < nr; i2++) { d[P + 2] = R[i2]; int q2 = T[q1][R[i2]];
                for (int i3 = 0; i3 < nr; i3++) { d[P + 3] = R[i3]; int q = T[q2][R[i3]];
                    /* what follows starts with a complete character */
                    if (A) { const unsigned char *e = d + P + 4; for (int z = 0; z < A && q != 8; z++) q = T[q][e[z]]; }
                    one(d, n, q == 0); cnt++;
                }}}}
            }
        }
    } else if (!strcmp(argv[2], "torn")) {
        /* a character (or a wrong sequence) torn by whole blocks of other text */
        static const unsigned char W[][5] = {{2, 0xc3, 0xa9}, {3, 0xe2, 0x82, 0xac}, {4, 0xf0, 0x9f, 0x98, 0x80}, {3, 0xed, 0xa0, 0x80}, {4, 0xf4, 0x90, 0x80, 0x80}, {2, 0xc0, 0xaf}, {3, 0xe0, 0x80, 0x80}, {2, 0xff, 0xff}, {3, 'a', 0x80, 'a'}, {4, 0xc3, 0xa9, 0x80, 'x'}};
        static const short G[] = {0, 1, 15, 16, 31, 32, 33, 48, 64, 96, 127, 128, 192, 256};
        for (int w = 0; w < 10; w++) for (int P = 0; P < 132; P++) for (int cut = 0; cut <= W[w][0]; cut++)
        for (int g = 0; g < 14; g++) for (int k = 0; k < 15; k += 1 + (amount < 2) * 3) for (int A = 0; A < 66; A += A < 2 ? 1 : A < 30 ? 13 : 19) {
            int n = 0; fill(b, P, (P + k) % 15); n = P;
            memcpy(b + n, W[w] + 1, cut); n += cut;
            fill(b + n, G[g], k); n += G[g];
            memcpy(b + n, W[w] + 1 + cut, W[w][0] - cut); n += W[w][0] - cut;
            fill(b + n, A, 0); n += A;
            one(atend(b, n), n, run(b, n));
        }
    } else {
        for (long it = 0; it < amount; it++) {
            int n = 0, len = rnd(8) ? rnd(150) : rnd(900);
            int style = rnd(4);
            while (n < len) {
                int k = style == 0 ? 0 : style == 1 ? rnd(15) : style == 2 ? (rnd(8) ? 0 : rnd(15)) : 3 + rnd(12);
                memcpy(b + n, chars[k], clen[k]); n += clen[k];
            }
            int mut = rnd(4);
            while (mut--) {
                if (!n) break;
                int p = rnd(3) ? rnd(n) : (int)(n - 1 - rnd(n < 6 ? n : 6));
                switch (rnd(6)) {
                    case 0: b[p] = rnd(256); break;
                    case 1: b[p] ^= 1 << rnd(8); break;
                    case 2: memmove(b + p, b + p + 1, n - p - 1); n--; break;
                    case 5: {           /* a run of whole characters put anywhere, or right at the end of a block */
                        static const short R[] = {1, 8, 15, 16, 17, 31, 32, 33, 48, 64, 96, 128};
                        int w = R[rnd(12)], k = rnd(2) ? 0 : rnd(15);
                        if (rnd(2) && p > 16) p -= p % (rnd(2) && p > 64 ? 64 : p > 32 ? 32 : 16);
                        if (n + w > 1000) break;
                        memmove(b + p + w, b + p, n - p); fill(b + p, w, k); n += w; break; }
                    case 3: if (n > 1) n = p + 1; break;
                    default: { static const unsigned char B[] = {0x80, 0xbf, 0xc0, 0xed, 0xa0, 0xf4, 0x90, 0xf5, 0xe0, 0x9f, 0xff, 0xf0, 0x8f}; b[p] = B[rnd(sizeof B)]; }
                }
            }
            int want = run(b, n);
            one(atend(b, n), n, want);
            unsigned char *d = pg + rnd(80); memmove(d, b, n); one(d, n, want);
            if (it % 8 == 0) for (int al = 0; al < 64; al++) { memmove(pg + al, b, n); pg[al + n] = rnd(2) ? 0x80 : 0xff; if (al) pg[al - 1] = rnd(256); one(pg + al, n, want); }
        }
    }
    printf("DONE %lu %lu\n", calls, nbad);
    return 0;
}
