/* Runs the real main() with configuration files up to the start of the server,
 * which is replaced by writing down the configuration it got.  Input: lines
 * "<path>" ("-" for no file); output: lines of JSON (strings in hex). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <getopt.h>
#include <sys/wait.h>
#include "config.h"
#include "server.h"
int wss_main(int argc, char **argv);
static FILE *o;
static void str(const char *n, const char *s) {
    fprintf(o, "\"%s\":", n);
    if (!s) { fprintf(o, "null,"); return; }
    fputc('"', o); for (; *s; s++) fprintf(o, "%02x", (unsigned char)*s); fprintf(o, "\",");
}
static void list(const char *n, char **l, size_t k) {
    fprintf(o, "\"%s\":[", n);
    for (size_t i = 0; i < k; i++) { fprintf(o, "%s", i ? ",{" : "{"); str("s", l ? l[i] : NULL); fprintf(o, "\"x\":0}"); }
    fprintf(o, "],");
}
int WSS_server_start(wss_config_t *c) {
    fprintf(o, "{");
#define N(n, f) fprintf(o, "\"%s\":%lld,", n, (long long)c->f)
    N("setup.port.http", port_http); N("setup.port.https", port_https); N("setup.log_level", log);
    N("setup.size.payload", size_payload); N("setup.size.header", size_header); N("setup.size.uri", size_uri); N("setup.size.buffer", size_buffer);
    N("setup.size.thread", size_thread); N("setup.size.ringbuffer", size_ringbuffer); N("setup.size.frame", size_frame); N("setup.size.fragmented", max_frames);
    N("setup.pool.workers", pool_workers); N("setup.pool.retries", pool_retries); N("setup.timeouts.pings", timeout_pings);
    N("setup.timeouts.poll", timeout_poll); N("setup.timeouts.read", timeout_read); N("setup.timeouts.write", timeout_write); N("setup.timeouts.client", timeout_client);
    N("setup.ssl.compression", ssl_compression); N("setup.ssl.peer_cert", ssl_peer_cert);
    str("setup.ssl.key", c->ssl_key); str("setup.ssl.cert", c->ssl_cert); str("setup.ssl.ca_file", c->ssl_ca_file); str("setup.ssl.ca_path", c->ssl_ca_path);
    str("setup.ssl.dhparam", c->ssl_dhparam); str("setup.ssl.cipher_list", c->ssl_cipher_list); str("setup.ssl.cipher_suites", c->ssl_cipher_suites); str("setup.favicon", c->favicon);
    list("hosts", c->hosts, c->hosts_length); list("origins", c->origins, c->origins_length); list("paths", c->paths, c->paths_length); list("queries", c->queries, c->queries_length);
    list("sf", c->subprotocols, c->subprotocols_length); list("sc", c->subprotocols_config, c->subprotocols_length);
    list("ef", c->extensions, c->extensions_length); list("ec", c->extensions_config, c->extensions_length);
    fprintf(o, "\"end\":1}"); fflush(o);
    return 0;
}
int main(void) {
    char *line = NULL; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, stdin)) > 0) {
        if (line[n - 1] == '\n') line[--n] = 0;
        char tmp[] = "cfgXXXXXX"; int fd = mkstemp(tmp); unlink(tmp);
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            alarm(20);
            o = fdopen(fd, "w");
            char *av[] = {"WSServer", "-c", line, NULL};
            if (!strcmp(line, "-")) av[1] = NULL;
            optind = 0;
            int r = wss_main(av[1] ? 3 : 1, av);
            fflush(o);
            _exit(r ? 1 : 0);
        }
        int st; waitpid(p, &st, 0);
        long k = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET);
        char *b = malloc(k + 1); k = read(fd, b, k); b[k > 0 ? k : 0] = 0; close(fd);
        printf("{\"rc\":%d,\"sig\":%d,\"cfg\":%s}\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, k > 0 ? b : "null");
        free(b);
    }
    return 0;
}
