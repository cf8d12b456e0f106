/* Extension that records every call and leaves marks on the data frames.  Loaded
 * under several names (copies of the shared object); configuration
 * "n=<name>;t=<letter>;m=frame|msg|head|none;b=<0-3>;d=y|n|p;a=<answer>".
 * frame: every frame gets the letter at its end; msg: the first frame of every
 * message gets it; head: every frame gets it as extension data in front;
 * b: reserved bit that is set on what it marked.  On the way in the mark and the bit go. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "extension.h"
static void (*emit)(const char *); static WSS_malloc_t am; static WSS_realloc_t ar; static WSS_free_t af;
static char name[64] = "?", tag = 'Z', mode = 'n', dec = 'y', ans[64]; static int bit;
static void esc(char *o, size_t cap, const char *s) { size_t k = 0; if (!s) { snprintf(o, cap, "(null)"); return; } for (; *s && k + 5 < cap; s++) { unsigned char c = (unsigned char)*s; if (c < 32 || c == '"' || c == '\\' || c > 126) k += (size_t)sprintf(o + k, "%%%02x", c); else o[k++] = (char)c; } o[k] = 0; }
static char *get(const char *c, const char *k, char *o, size_t n) { o[0] = 0; const char *q = c ? strstr(c, k) : NULL; if (q) { q += strlen(k); size_t i = 0; while (q[i] && q[i] != ';' && i + 1 < n) { o[i] = q[i]; i++; } o[i] = 0; } return o; }
static size_t one(char *o, wss_frame_t *f) {
    size_t k = (size_t)sprintf(o, "{\"op\":%d,\"fin\":%s,\"rsv\":%d,\"ext\":%llu,\"ok\":%s,\"h\":\"", f->opcode, f->fin ? "true" : "false", f->rsv1 * 4 + f->rsv2 * 2 + f->rsv3, (unsigned long long)f->extensionDataLength,
                               f->payloadLength == f->extensionDataLength + f->applicationDataLength ? "true" : "false");
    for (uint64_t i = 0; i < f->payloadLength; i++) k += (size_t)sprintf(o + k, "%02x", (unsigned char)f->payload[i]);
    return k + (size_t)sprintf(o + k, "\"}");
}
static void rec(const char *what, int fd, wss_frame_t **f, size_t n) {
    size_t c = 300; for (size_t i = 0; i < n; i++) c += 200 + 2 * f[i]->payloadLength;
    char *b = malloc(c); size_t k = (size_t)sprintf(b, "{\"e\":\"x\",\"n\":\"%s\",\"k\":\"%s\",\"fd\":%d,\"f\":[", name, what, fd);
    for (size_t i = 0; i < n; i++) { if (i) b[k++] = ','; k += one(b + k, f[i]); }
    sprintf(b + k, "]}"); emit(b); free(b);
}
static bool has(wss_frame_t *f) { return bit == 0 || (bit == 1 && f->rsv1) || (bit == 2 && f->rsv2) || (bit == 3 && f->rsv3); }
static void mark(wss_frame_t *f, bool v) { if (bit == 1) f->rsv1 = v; if (bit == 2) f->rsv2 = v; if (bit == 3) f->rsv3 = v; }
static void put(wss_frame_t *f, bool front) {
    char *p = am(f->payloadLength + 1);
    if (front) { p[0] = tag; if (f->payloadLength) memcpy(p + 1, f->payload, f->payloadLength); f->extensionDataLength += 1; }
    else { if (f->payloadLength) memcpy(p, f->payload, f->payloadLength); p[f->payloadLength] = tag; f->applicationDataLength += 1; }
    if (f->payload) af(f->payload);
    f->payload = p; f->payloadLength += 1; mark(f, true);
}
static void take(wss_frame_t *f) {     /* only what is marked in every way */
    if (f->applicationDataLength == 0 || !has(f) || f->payload[f->payloadLength - 1] != tag) return;
    f->payloadLength -= 1; f->applicationDataLength -= 1; mark(f, false);
}
static void takehead(wss_frame_t *f) { if (f->applicationDataLength == 0 || !has(f) || f->payload[f->extensionDataLength] != tag) return; f->extensionDataLength += 1; f->applicationDataLength -= 1; mark(f, false); }
void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) { am = m; ar = r; af = f; }
void onInit(char *config) {
    char b[64], c[300], o[500]; emit = (void (*)(const char *))dlsym(RTLD_DEFAULT, "sim_emit"); if (!emit) abort();
    get(config, "n=", name, sizeof name); tag = get(config, ";t=", b, sizeof b)[0]; mode = get(config, ";m=", b, sizeof b)[0]; bit = atoi(get(config, ";b=", b, sizeof b)); dec = get(config, ";d=", b, sizeof b)[0]; get(config, ";a=", ans, sizeof ans);
    esc(c, sizeof c, config); snprintf(o, sizeof o, "{\"e\":\"x\",\"n\":\"%s\",\"k\":\"init\",\"fd\":0,\"cfg\":\"%s\"}", name, c); emit(o);
}
void onOpen(int fd, char *param, char **accepted, bool *valid) {
    char p[600], o[900]; esc(p, sizeof p, param ? param : "");
    *valid = dec == 'y' || (dec == 'p' && param && strstr(param, "ok"));
    if (*valid && ans[0]) { *accepted = am(strlen(ans) + 1); strcpy(*accepted, ans); }
    snprintf(o, sizeof o, "{\"e\":\"x\",\"n\":\"%s\",\"k\":\"open\",\"fd\":%d,\"p\":\"%s\"}", name, fd, p); emit(o);
}
#define DATA(f) ((f)->opcode <= 2)
void inFrame(int fd, wss_frame_t *f) { rec("in", fd, &f, 1); if (DATA(f)) { if (mode == 'f') take(f); else if (mode == 'h') takehead(f); } }
void inFrames(int fd, wss_frame_t **f, size_t n) { rec("ins", fd, f, n); if (n && DATA(f[0]) && mode == 'm') take(f[0]); }
void outFrame(int fd, wss_frame_t *f) { rec("out", fd, &f, 1); if (DATA(f)) { if (mode == 'f') put(f, false); else if (mode == 'h') put(f, true); } }
void outFrames(int fd, wss_frame_t **f, size_t n) { rec("outs", fd, f, n); if (n && DATA(f[0]) && mode == 'm') put(f[0], false); }
void onClose(int fd) { char b[160]; snprintf(b, sizeof b, "{\"e\":\"x\",\"n\":\"%s\",\"k\":\"close\",\"fd\":%d}", name, fd); emit(b); }
void onDestroy() { char b[160]; snprintf(b, sizeof b, "{\"e\":\"x\",\"n\":\"%s\",\"k\":\"destroy\",\"fd\":0}", name); emit(b); }
