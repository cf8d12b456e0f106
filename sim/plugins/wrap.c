/* Wraps a subprotocol (config "file=<path>;<config of it>") and reports all
 * its callbacks and everything it sends. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "subprotocol.h"
static WSS_send snd; static void *h; static __thread int curfd = -1;
static void (*emit)(const char *); static void (*emit_hex)(const char *, const void *, size_t, const char *);
static WSS_malloc_t am; static WSS_realloc_t ar; static WSS_free_t af;
static void (*i_alloc)(WSS_malloc_t, WSS_realloc_t, WSS_free_t), (*i_init)(char *, WSS_send), (*i_conn)(int, char *, int, char *, char *), (*i_msg)(int, wss_opcode_t, char *, size_t), (*i_write)(int, char *, size_t), (*i_close)(int), (*i_destroy)(void);
static void esc(char *o, size_t cap, const char *s) { size_t k = 0; if (!s) { snprintf(o, cap, "(null)"); return; } for (; *s && k + 5 < cap; s++) { unsigned char c = (unsigned char)*s; if (c < 32 || c == '"' || c == '\\' || c > 126) k += (size_t)sprintf(o + k, "%%%02x", c); else o[k++] = (char)c; } o[k] = 0; }
static void wsend(int to, wss_opcode_t op, char *m, uint64_t n) {
    char b[160]; int from = curfd; snprintf(b, sizeof b, "{\"e\":\"snd\",\"fd\":%d,\"to\":%d,\"op\":%d,\"h\":\"", from, to, (int)op); emit_hex(b, m, n, "\"}");
    snd(to, op, m, n);
    snprintf(b, sizeof b, "{\"e\":\"sndend\",\"fd\":%d,\"to\":%d}", from, to); emit(b);
}
void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t fr) { am = m; ar = r; af = fr; }
void onInit(char *config, WSS_send s) {
    char p[1024]; snd = s; emit = (void (*)(const char *))dlsym(RTLD_DEFAULT, "sim_emit"); emit_hex = (void (*)(const char *, const void *, size_t, const char *))dlsym(RTLD_DEFAULT, "sim_emit_hex");
    if (!config || strncmp(config, "file=", 5)) abort();
    snprintf(p, sizeof p, "%s", config + 5); char *q = strchr(p, ';'); if (q) *q++ = 0; else q = p + strlen(p);
    if (!(h = dlopen(p, RTLD_LAZY))) { fprintf(stderr, "%s\n", dlerror()); abort(); }
    i_alloc = dlsym(h, "setAllocators"); i_init = dlsym(h, "onInit"); i_conn = dlsym(h, "onConnect"); i_msg = dlsym(h, "onMessage"); i_write = dlsym(h, "onWrite"); i_close = dlsym(h, "onClose"); i_destroy = dlsym(h, "onDestroy");
    i_alloc(am, ar, af); i_init(q, wsend);
}
void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
    char p[400], k[400], b[1200]; esc(p, sizeof p, path); esc(k, sizeof k, cookies);
    snprintf(b, sizeof b, "{\"e\":\"open\",\"p\":\"wrap\",\"fd\":%d,\"ip\":\"%s\",\"port\":%d,\"path\":\"%s\",\"cookies\":\"%s\"}", fd, ip, port, p, k); emit(b);
    curfd = fd; i_conn(fd, ip, port, path, cookies); curfd = -1;
    snprintf(b, sizeof b, "{\"e\":\"opened\",\"fd\":%d}", fd); emit(b);
}
void onMessage(int fd, wss_opcode_t op, char *m, size_t n) {
    char b[160]; snprintf(b, sizeof b, "{\"e\":\"msg\",\"p\":\"wrap\",\"fd\":%d,\"op\":%d,\"len\":%zu,\"h\":\"", fd, (int)op, n); emit_hex(b, m, n, "\"}");
    curfd = fd; i_msg(fd, op, m, n); curfd = -1;
    snprintf(b, sizeof b, "{\"e\":\"msgend\",\"fd\":%d}", fd); emit(b);
}
void onWrite(int fd, char *m, size_t n) { i_write(fd, m, n); }
void onClose(int fd) {
    char b[120]; snprintf(b, sizeof b, "{\"e\":\"close\",\"p\":\"wrap\",\"fd\":%d}", fd); emit(b);
    curfd = fd; i_close(fd); curfd = -1;
}
void onDestroy(void) { emit("{\"e\":\"destroy\",\"p\":\"wrap\"}"); i_destroy(); dlclose(h); }
