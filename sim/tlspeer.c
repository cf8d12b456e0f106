/* The TLS clients of a simulation: a process of its own that the simulator asks,
 * one request and one answer at a time, over the descriptor given as argument.
 * request: op (1) connection (4) length (4) data
 * answer:  state (1) wire length (4) wire, plain length (4) plain, text length (4) text
 * N new (data: protocol and ciphers "1.2 CIPHER", "1.3 SUITE", a name of a file appended for a client
 * certificate), F bytes from the server, W plain text (one call of SSL_write), S close_notify, K key update
 * state bits: 1 handshake done, 2 close_notify received, 4 failed */
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define MAXC 5000
struct buf { char *d; size_t n, cap; };
static struct c { SSL *s; BIO *in, *out; int done, closed, failed, wantclose; struct buf q; } cs[MAXC];
static void put(struct buf *b, const void *d, size_t n) { if (b->n + n > b->cap) { b->cap = (b->n + n) * 2 + 256; b->d = realloc(b->d, b->cap); } memcpy(b->d + b->n, d, n); b->n += n; }
static int get(int fd, void *d, size_t n) { size_t k = 0; while (k < n) { ssize_t r = read(fd, (char *)d + k, n - k); if (r <= 0) return 0; k += (size_t)r; } return 1; }
static void snd(int fd, const void *d, size_t n) { size_t k = 0; while (k < n) { ssize_t r = write(fd, (const char *)d + k, n - k); if (r <= 0) exit(0); k += (size_t)r; } }
static struct buf plain, wire, text;
static void problem(struct c *c, const char *what) {
    char m[200]; unsigned long e = ERR_get_error(); snprintf(m, sizeof m, "%s: %s", what, e ? ERR_reason_error_string(e) : "?"); put(&text, m, strlen(m)); ERR_clear_error(); c->failed = 1;
}
static void pump(struct c *c) {
    char b[20000]; int r;
    if (c->s && !c->failed) {
        if (!c->done) {
            r = SSL_do_handshake(c->s);
            if (r == 1) { c->done = 1; const char *v = SSL_get_version(c->s), *n = SSL_get_cipher_name(c->s); put(&text, v, strlen(v)); put(&text, " ", 1); put(&text, n, strlen(n)); }
            else if (SSL_get_error(c->s, r) != SSL_ERROR_WANT_READ) problem(c, "handshake");
        }
        if (c->done) {
            while (c->q.n) {       /* what waited for the handshake: length and data */
                uint32_t L; memcpy(&L, c->q.d, 4);
                if (SSL_write(c->s, c->q.d + 4, (int)L) != (int)L) { problem(c, "write"); break; }
                c->q.n -= 4 + L; memmove(c->q.d, c->q.d + 4 + L, c->q.n);
            }
            if (c->wantclose) { SSL_shutdown(c->s); c->wantclose = 0; }
            while ((r = SSL_read(c->s, b, sizeof b)) > 0) put(&plain, b, (size_t)r);
            r = SSL_get_error(c->s, r);
            if (r == SSL_ERROR_ZERO_RETURN) c->closed = 1;
            else if (r != SSL_ERROR_WANT_READ && !c->closed) problem(c, "read");
        }
    }
    if (c->s) while ((r = BIO_read(c->out, b, sizeof b)) > 0) put(&wire, b, (size_t)r);
    ERR_clear_error();
}
/* tlspeer gen DIR: a CA, certificates of a server and a client, and a certificate of nobody known */
static void pem(const char *dir, const char *n, X509 *x, EVP_PKEY *k) {
    char f[600]; FILE *o; snprintf(f, sizeof f, "%s/%s.crt", dir, n); o = fopen(f, "w"); PEM_write_X509(o, x); fclose(o);
    snprintf(f, sizeof f, "%s/%s.key", dir, n); o = fopen(f, "w"); PEM_write_PrivateKey(o, k, NULL, NULL, 0, NULL, NULL); fclose(o);
}
static X509 *crt(const char *cn, EVP_PKEY *k, X509 *ca, EVP_PKEY *cak, int serial) {
    X509 *x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
    ASN1_TIME_set_string(X509_getm_notBefore(x), "20000101000000Z"); ASN1_TIME_set_string(X509_getm_notAfter(x), "20990101000000Z");
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char *)cn, -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(ca ? ca : x)); X509_set_pubkey(x, k);
    if (!ca) { X509_EXTENSION *e = X509V3_EXT_conf_nid(NULL, NULL, NID_basic_constraints, "critical,CA:TRUE"); X509_add_ext(x, e, -1); X509_EXTENSION_free(e); }
    X509_sign(x, cak ? cak : k, EVP_sha256()); return x;
}
static int gen(const char *dir) {
    EVP_PKEY *a = EVP_RSA_gen(2048), *s = EVP_RSA_gen(2048); X509 *ca = crt("ca", a, NULL, NULL, 1);
    pem(dir, "ca", ca, a); pem(dir, "server", crt("localhost", s, ca, a, 2), s); pem(dir, "client", crt("client", s, ca, a, 3), s); pem(dir, "stranger", crt("stranger", s, NULL, NULL, 4), s);
    return 0;
}
int main(int argc, char **argv) {
    if (argc == 3 && !strcmp(argv[1], "gen")) return gen(argv[2]);
    int fd = atoi(argv[1]); const char *cert = argc > 2 ? argv[2] : ".";
    for (;;) {
        unsigned char h[9]; uint32_t id, n; if (!get(fd, h, 9)) return 0;
        memcpy(&id, h + 1, 4); memcpy(&n, h + 5, 4);
        char *d = malloc(n + 1); if (!get(fd, d, n)) return 0; d[n] = 0;
        struct c *c = &cs[id % MAXC]; plain.n = wire.n = text.n = 0;
        if (h[0] == 'N') {
            if (c->s) SSL_free(c->s);
            free(c->q.d); memset(c, 0, sizeof *c);
            SSL_CTX *x = SSL_CTX_new(TLS_client_method()); char *p = strtok(d, " ");
            SSL_CTX_set_security_level(x, 0);
            int v = p && !strcmp(p, "1.2") ? TLS1_2_VERSION : p && !strcmp(p, "1.1") ? TLS1_1_VERSION : p && !strcmp(p, "1.3") ? TLS1_3_VERSION : 0;
            if (v) { SSL_CTX_set_min_proto_version(x, v); SSL_CTX_set_max_proto_version(x, v); }
            SSL_CTX_set_quiet_shutdown(x, 0);
            while ((p = strtok(NULL, " "))) {
                if (p[0] == '@') { char f[600]; snprintf(f, sizeof f, "%s/%s.crt", cert, p + 1); SSL_CTX_use_certificate_file(x, f, SSL_FILETYPE_PEM); snprintf(f, sizeof f, "%s/%s.key", cert, p + 1); SSL_CTX_use_PrivateKey_file(x, f, SSL_FILETYPE_PEM); }
                else if (v == TLS1_3_VERSION) SSL_CTX_set_ciphersuites(x, p); else SSL_CTX_set_cipher_list(x, p);
            }
            c->s = SSL_new(x); SSL_CTX_free(x);
            c->in = BIO_new(BIO_s_mem()); c->out = BIO_new(BIO_s_mem()); SSL_set_bio(c->s, c->in, c->out); SSL_set_connect_state(c->s);
        } else if (c->s) switch (h[0]) {
        case 'F': BIO_write(c->in, d, (int)n); break;
        case 'W': if (n) { put(&c->q, &n, 4); put(&c->q, d, n); } break;
        case 'S': c->wantclose = 1; break;
        case 'K': if (c->done && SSL_version(c->s) == TLS1_3_VERSION) { SSL_key_update(c->s, SSL_KEY_UPDATE_REQUESTED); SSL_do_handshake(c->s); } break;
        }
        free(d); pump(c);
        unsigned char st = (unsigned char)((c->done ? 1 : 0) | (c->closed ? 2 : 0) | (c->failed ? 4 : 0)); uint32_t L;
        snd(fd, &st, 1); L = (uint32_t)wire.n; snd(fd, &L, 4); snd(fd, wire.d, L); L = (uint32_t)plain.n; snd(fd, &L, 4); snd(fd, plain.d, L); L = (uint32_t)text.n; snd(fd, &L, 4); snd(fd, text.d, L);
    }
}
