/* Independent inflater (RFC 1951) that knows how far every match reaches.
 * strict_inflate(in, n, hist, hn, out, cap, maxdist, &reach): decodes blocks
 * until the input is used up exactly between two blocks (final blocks are
 * followed by further ones,
 * from the next byte on); returns the length, or
 * -1 malformed, -2 input ends inside a block, -3 a match reaches beyond the
 * available history, -4 beyond maxdist, -5 output larger than cap.  *reach is
 * the greatest distance used. */
#include <stddef.h>
#include <string.h>
typedef unsigned char u8;
struct S { const u8 *in; size_t n, p; unsigned bits, nb; int short_; };
static unsigned get(struct S *s, unsigned k) {
    while (s->nb < k) { if (s->p >= s->n) { s->short_ = 1; return 0; } s->bits |= (unsigned)s->in[s->p++] << s->nb; s->nb += 8; }
    unsigned v = s->bits & ((1u << k) - 1); s->bits >>= k; s->nb -= k; return v;
}
struct H { short count[16], sym[288]; };
static int build(struct H *h, const u8 *len, int n) {
    int left = 1; short offs[16]; memset(h->count, 0, sizeof h->count);
    for (int i = 0; i < n; i++) h->count[len[i]]++;
    if (h->count[0] == n) return 0;
    for (int l = 1; l < 16; l++) { left <<= 1; left -= h->count[l]; if (left < 0) return left; }
    offs[1] = 0; for (int l = 1; l < 15; l++) offs[l + 1] = (short)(offs[l] + h->count[l]);
    for (int i = 0; i < n; i++) if (len[i]) h->sym[offs[len[i]]++] = (short)i;
    return left;
}
static int dec(struct S *s, const struct H *h) {
    int code = 0, first = 0, index = 0;
    for (int l = 1; l < 16; l++) { code |= (int)get(s, 1); if (s->short_) return -2; int c = h->count[l]; if (code - c < first) return h->sym[index + (code - first)]; index += c; first += c; first <<= 1; code <<= 1; }
    return -1;
}
long strict_inflate(const u8 *in, size_t n, const u8 *hist, size_t hn, u8 *out, size_t cap, size_t maxdist, size_t *reach) {
    static const short lb[29] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258}, le[29] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
    static const unsigned short db[30] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577};
    static const short de[30] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
    struct S s = {in, n, 0, 0, 0, 0}; size_t o = 0; struct H L, D; u8 len[320]; unsigned final = 0; *reach = 0;
    for (;;) {
        if (s.p == s.n && s.nb < 3) return (long)o;
        if (final) { s.bits = 0; s.nb = 0; if (s.p == s.n) return (long)o; }
        final = get(&s, 1); unsigned t = get(&s, 2); if (s.short_) return -2;
        if (t == 3) return -1;
        if (t == 0) {
            s.bits = 0; s.nb = 0; if (s.n - s.p < 4) return -2;
            unsigned l = s.in[s.p] | s.in[s.p + 1] << 8, c = s.in[s.p + 2] | s.in[s.p + 3] << 8; s.p += 4;
            if ((l ^ c) != 0xffff) return -1;
            if (s.n - s.p < l) return -2;
            if (o + l > cap) return -5;
            memcpy(out + o, s.in + s.p, l); o += l; s.p += l; continue;
        }
        if (t == 1) { int i = 0; for (; i < 144; i++) len[i] = 8; for (; i < 256; i++) len[i] = 9; for (; i < 280; i++) len[i] = 7; for (; i < 288; i++) len[i] = 8; build(&L, len, 288); for (i = 0; i < 30; i++) len[i] = 5; build(&D, len, 30); }
        else {
            static const u8 ord[19] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15}; u8 cl[19] = {0};
            int nl = (int)get(&s, 5) + 257, nd = (int)get(&s, 5) + 1, nc = (int)get(&s, 4) + 4, i = 0; if (s.short_) return -2;
            if (nl > 286 || nd > 30) return -1;
            for (int k = 0; k < nc; k++) cl[ord[k]] = (u8)get(&s, 3);
            if (s.short_) return -2;
            if (build(&L, cl, 19)) return -1;
            while (i < nl + nd) {
                int y = dec(&s, &L); if (y < 0) return y;
                if (y < 16) { len[i++] = (u8)y; continue; }
                int prev = 0, rep; if (y == 16) { if (!i) return -1; prev = len[i - 1]; rep = 3 + (int)get(&s, 2); } else if (y == 17) rep = 3 + (int)get(&s, 3); else rep = 11 + (int)get(&s, 7);
                if (s.short_) return -2;
                if (i + rep > nl + nd) return -1;
                while (rep--) len[i++] = (u8)prev;
            }
            if (!len[256]) return -1;
            struct H T; int e = build(&T, len, nl); if (e && (e < 0 || nl != T.count[0] + T.count[1])) return -1;
            e = build(&D, len + nl, nd); if (e && (e < 0 || nd != D.count[0] + D.count[1])) return -1;
            L = T;
        }
        for (;;) {
            int y = dec(&s, &L); if (y < 0) return y;
            if (y < 256) { if (o >= cap) return -5; out[o++] = (u8)y; continue; }
            if (y == 256) break;
            y -= 257; if (y >= 29) return -1;
            size_t l = (size_t)lb[y] + get(&s, (unsigned)le[y]); int d = dec(&s, &D); if (d < 0) return d; if (d >= 30) return -1;
            size_t dist = (size_t)db[d] + get(&s, (unsigned)de[d]); if (s.short_) return -2;
            if (dist > o + hn) return -3;
            if (dist > maxdist) return -4;
            if (dist > *reach) *reach = dist;
            if (o + l > cap) return -5;
            while (l--) { out[o] = dist > o ? hist[hn - (dist - o)] : out[o - dist]; o++; }
        }
    }
}
