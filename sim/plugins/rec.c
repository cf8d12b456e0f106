/* Recording subprotocol: a plugin written against the documented subprotocol
 * API.  Every callback is reported to the simulation log (sim_emit) or, outside
 * the simulation, appended to the file named by REC_LOG.  Behaviour is chosen by
 * the configuration string: "mode=echo|sink|cmd;greet=1;name=x". */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include "subprotocol.h"
#ifndef RECNAME
#define RECNAME "rec"
#endif
static WSS_send snd; static int mode; static int greet; /* 0 sink 1 echo 2 cmd 3 bcast 4 mix: echo unless the message starts with '!', then cmd */
static void (*emit)(const char *); static void (*emit_hex)(const char *, const void *, size_t, const char *);
static FILE *f; static pthread_mutex_t fl = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t tl = PTHREAD_MUTEX_INITIALIZER; static int fds[4096], nfds;
static void out(const char *s) { if (emit) emit(s); else if (f) { pthread_mutex_lock(&fl); fprintf(f, "%s\n", s); fflush(f); pthread_mutex_unlock(&fl); } }
static void outhex(const char *h, const void *d, size_t n, const char *t) {
    if (emit_hex) { emit_hex(h, d, n, t); return; }
    if (!f) return;
    pthread_mutex_lock(&fl); fputs(h, f); for (size_t i = 0; i < n; i++) fprintf(f, "%02x", ((const unsigned char *)d)[i]); fprintf(f, "%s\n", t); fflush(f); pthread_mutex_unlock(&fl);
}
static void esc(char *o, size_t cap, const char *s) { size_t k = 0; if (!s) { snprintf(o, cap, "(null)"); return; } for (; *s && k + 5 < cap; s++) { unsigned char c = (unsigned char)*s; if (c < 32 || c == '"' || c == '\\' || c > 126) k += (size_t)sprintf(o + k, "%%%02x", c); else o[k++] = (char)c; } o[k] = 0; }
static void dosnd(int from, int to, wss_opcode_t op, char *m, uint64_t n) {
    char h[160]; snprintf(h, sizeof h, "{\"e\":\"snd\",\"fd\":%d,\"to\":%d,\"op\":%d,\"h\":\"", from, to, (int)op); outhex(h, m, n, "\"}");
    snd(to, op, m, n);
    snprintf(h, sizeof h, "{\"e\":\"sndend\",\"fd\":%d,\"to\":%d}", from, to); out(h);
}
void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t fr) { (void)m; (void)r; (void)fr; }
void onInit(char *config, WSS_send s) {
    snd = s; emit = (void (*)(const char *))dlsym(RTLD_DEFAULT, "sim_emit"); emit_hex = (void (*)(const char *, const void *, size_t, const char *))dlsym(RTLD_DEFAULT, "sim_emit_hex");
    if (!emit && getenv("REC_LOG")) f = fopen(getenv("REC_LOG"), "a");
    mode = 1;
    if (config) { if (strstr(config, "mode=sink")) mode = 0; if (strstr(config, "mode=cmd")) mode = 2; if (strstr(config, "mode=bcast")) mode = 3; if (strstr(config, "mode=mix")) mode = 4; if (strstr(config, "greet=1")) greet = 1; }
    char c[512], b[700]; esc(c, sizeof c, config); snprintf(b, sizeof b, "{\"e\":\"init\",\"p\":\"" RECNAME "\",\"cfg\":\"%s\"}", c); out(b);
}
void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
    char p[400], k[400], b[1200]; esc(p, sizeof p, path); esc(k, sizeof k, cookies);
    snprintf(b, sizeof b, "{\"e\":\"open\",\"p\":\"" RECNAME "\",\"fd\":%d,\"ip\":\"%s\",\"port\":%d,\"path\":\"%s\",\"cookies\":\"%s\"}", fd, ip, port, p, k); out(b);
    pthread_mutex_lock(&tl); if (nfds < 4096) fds[nfds++] = fd; pthread_mutex_unlock(&tl);
    if (greet) dosnd(fd, fd, TEXT_FRAME, "hello", 5);
    snprintf(b, sizeof b, "{\"e\":\"opened\",\"fd\":%d}", fd); out(b);
}
static void pattern(char *b, size_t n, unsigned k) { for (size_t i = 0; i < n; i++) b[i] = (char)('a' + (i * 7 + k * 13 + (i >> 8)) % 26); }
void onMessage(int fd, wss_opcode_t op, char *m, size_t n) {
    char h[160]; snprintf(h, sizeof h, "{\"e\":\"msg\",\"p\":\"" RECNAME "\",\"fd\":%d,\"op\":%d,\"len\":%zu,\"h\":\"", fd, (int)op, n); outhex(h, m, n, "\"}");
    char *all = m; int cmd = mode == 2; (void)all;
    if (mode == 4) { if (n > 1 && m[0] == '!') { cmd = 1; m++; n--; } else dosnd(fd, fd, op, m, n); }
    if (mode == 1) dosnd(fd, fd, op, m, n);
    else if (mode == 3) { int c[4096], k = 0; pthread_mutex_lock(&tl); for (int i = 0; i < nfds; i++) if (fds[i] != fd) c[k++] = fds[i]; pthread_mutex_unlock(&tl); for (int i = 0; i < k; i++) dosnd(fd, c[i], op, m, n); }
    else if (cmd && n > 0) {
        char *t = malloc(n + 1); memcpy(t, m, n); t[n] = 0; int a = 0, sz = 0, k = 0;
        switch (t[0]) {
        case 'E': dosnd(fd, fd, op, m, n); break;
        case 'N': break;
        case 'R': { /* R<count>,<size>[,<first>]: replies */
            if (sscanf(t + 1, "%d,%d,%d", &a, &sz, &k) >= 2) { char *b = malloc((size_t)sz + 1); for (int i = 0; i < a; i++) { pattern(b, (size_t)sz, (unsigned)(k + i)); dosnd(fd, fd, BINARY_FRAME, b, (uint64_t)sz); } free(b); } break; }
        case 'T': /* T<fd>,text: send text to fd */
            { char *q = strchr(t, ','); if (q) dosnd(fd, atoi(t + 1), TEXT_FRAME, q + 1, strlen(q + 1)); } break;
        case 'X': { unsigned code = 1000; sscanf(t + 1, "%u", &code); char b[2] = {(char)(code >> 8), (char)code}; dosnd(fd, fd, CLOSE_FRAME, b, 2); break; }
        case 'Y': { /* Y<fd>,<code>: closes the connection of fd */
            unsigned code = 1000; int o = fd; sscanf(t + 1, "%d,%u", &o, &code); char b[2] = {(char)(code >> 8), (char)code}; dosnd(fd, o, CLOSE_FRAME, b, 2); break; }
        case 'P': dosnd(fd, fd, PING_FRAME, t + 1, n - 1); break;
        case 'B': { int c[4096], q = 0; pthread_mutex_lock(&tl); for (int i = 0; i < nfds; i++) if (fds[i] != fd) c[q++] = fds[i]; pthread_mutex_unlock(&tl); for (int i = 0; i < q; i++) dosnd(fd, c[i], op, m, n); break; }
        }
        free(t);
    }
    snprintf(h, sizeof h, "{\"e\":\"msgend\",\"fd\":%d}", fd); out(h);
}
void onWrite(int fd, char *m, size_t n) { (void)m; char b[120]; snprintf(b, sizeof b, "{\"e\":\"onwrite\",\"fd\":%d,\"n\":%zu}", fd, n); out(b); }
void onClose(int fd) {
    char b[120]; snprintf(b, sizeof b, "{\"e\":\"close\",\"p\":\"" RECNAME "\",\"fd\":%d}", fd); out(b);
    pthread_mutex_lock(&tl); for (int i = 0; i < nfds; i++) if (fds[i] == fd) { fds[i] = fds[--nfds]; break; } pthread_mutex_unlock(&tl);
}
void onDestroy() { out("{\"e\":\"destroy\",\"p\":\"" RECNAME "\"}"); if (f) fclose(f); f = NULL; }
