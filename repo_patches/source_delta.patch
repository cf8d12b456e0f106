From 355185282104a23e707a1057bb6370dce2e834aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 01/48] fix: initialise plugin configuration pointers before
 loading configuration

WSS_config_free frees subprotocols_config and extensions_config, which were
left uninitialised when the configuration has no (or an empty) plugin list.
---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 59effd9..d48dac8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -58,6 +58,8 @@ int main(int argc, char *argv[]) {
     config.subprotocols_length  = 0;
     config.extensions           = NULL;
     config.extensions_length    = 0;
+    config.subprotocols_config  = NULL;
+    config.extensions_config    = NULL;
     config.favicon              = NULL;
     config.origins              = NULL;
     config.origins_length       = 0;
-- 
2.43.0


From d1f0e4b8ad1c6cf96bfce43f8b129e7b64073687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 02/48] fix: join the HTTP thread once and do not write a
 pointer into an int

The HTTP server thread was joined twice (undefined behaviour), and pthread_join
stored a pointer-sized value into an int.
---
 src/server.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index 0cdca9d..259321f 100644
--- a/src/server.c
+++ b/src/server.c
@@ -383,6 +383,7 @@ static int WSS_server_free(wss_server_t *server) {
  */
 int WSS_server_start(wss_config_t *config) {
     int err;
+    void *thread_ret = NULL;
     struct rlimit limits;
     struct sigaction sa;
     int ret = EXIT_SUCCESS;
@@ -611,7 +612,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Joining server threads");
 
-    pthread_join(cleanup_thread_id, (void **) &err);
+    pthread_join(cleanup_thread_id, &thread_ret);
+    err = (int)(intptr_t)thread_ret;
     if ( unlikely(WSS_SUCCESS != err) ) {
         WSS_log_error("Cleanup thread returned with error: %s", strerror(err));
         WSS_server_set_state(HALT_ERROR);
@@ -619,7 +621,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Cleanup thread has shutdown");
 
-    pthread_join(http->thread_id, (void **) &err);
+    pthread_join(http->thread_id, &thread_ret);
+    err = (int)(intptr_t)thread_ret;
     if ( unlikely(WSS_SUCCESS != err) ) {
         WSS_log_error("HTTP Server thread returned with error: %s", strerror(err));
         WSS_server_set_state(HALT_ERROR);
@@ -628,7 +631,8 @@ int WSS_server_start(wss_config_t *config) {
     WSS_log_trace("HTTP server thread has shutdown");
 
     if (ssl) {
-        pthread_join(https->thread_id, (void **) &err);
+        pthread_join(https->thread_id, &thread_ret);
+        err = (int)(intptr_t)thread_ret;
         if ( unlikely(WSS_SUCCESS != err) ) {
             WSS_log_error("HTTPS Server thread returned with error: %s", strerror(err));
             WSS_server_set_state(HALT_ERROR);
@@ -637,8 +641,6 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
-    pthread_join(http->thread_id, (void **) &err);
-
     if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 575fe9f44bb28e89b424943a3611a5549d199c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 03/48] fix: do not overflow the buffer holding the Cython init
 name of a plugin

---
 src/extensions.c   | 2 +-
 src/subprotocols.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 456760f..a93bc38 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -140,7 +140,7 @@ void WSS_load_extensions(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        sprintf(pyname, "PyInit_%.*s", (int)name_length, name);
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
diff --git a/src/subprotocols.c b/src/subprotocols.c
index f4dfc96..bef6a00 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -130,7 +130,7 @@ void WSS_load_subprotocols(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
+        sprintf(pyname, "PyInit_%.*s", (int)name_length, name);
         if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
             proto->pyinit(); 
         }
-- 
2.43.0


From ea1ba2164ba6ec859372bd24bd6fe554098667d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 04/48] fix: never hand out a worker record of the ring buffer
 that is in use

---
 src/ringbuf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index be583d5..9676aa5 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -196,7 +196,7 @@ register_worker(ringbuf_t *rbuf, unsigned registration_type)
 	}
 
 	/* Register this worker-record. */
-	return w;
+	return acquired ? w : NULL;
 }
 
 /*
-- 
2.43.0


From 32d4a2bf61c17d771c62061b9e60075a1ed26633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 05/48] fix: keep sessions alive while used and never wait for
 another session when sending

Sending to a client waited for the lock of the receiving session while holding
the lock of the sending one (deadlock), the session was used after having been
released, onClose was called twice (once with the session table locked), and the
cleanup thread wrote frames in between those of the workers.
---
 include/message.h |  12 ++++
 include/session.h |  14 ++++
 src/message.c     | 100 ++++++++++++++++++----------
 src/server.c      | 162 ++++++++++++++++++----------------------------
 src/session.c     |  43 +++++++++++-
 src/ssl.c         |  29 +++++----
 src/worker.c      | 105 ++++++++++++++++++------------
 7 files changed, 276 insertions(+), 189 deletions(-)

diff --git a/include/message.h b/include/message.h
index 1eada2b..a077d30 100644
--- a/include/message.h
+++ b/include/message.h
@@ -17,6 +17,18 @@ typedef struct {
     bool framed;
 } wss_message_t;
 
+/**
+ * Writes the messages that have been put into the ringbuffer of a session, unless
+ * another thread is holding the lock of the session, in which case that thread
+ * does so after having released the lock. The caller must hold a job on the
+ * session.
+ *
+ * @param   server   [void *]    "The server structure"
+ * @param   session  [void *]    "The session structure"
+ * @return           [void]
+ */
+void WSS_message_flush(void *server, void *session);
+
 void WSS_message_send_frames(void *server, void *session, wss_frame_t **frames, size_t frames_count);
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length);
diff --git a/include/session.h b/include/session.h
index 3055e46..a3c78c8 100644
--- a/include/session.h
+++ b/include/session.h
@@ -97,6 +97,10 @@ typedef struct {
     size_t frames_length;
     // If not all data was written, store many bytes currently written
     unsigned int written;
+    // Messages put into the ringbuffer that no flush has picked up yet
+    unsigned int pending;
+    // Whether a worker is performing IO on the session and will rearm it
+    bool working;
     // Used for session hash table
     UT_hash_handle hh;
 } wss_session_t;
@@ -167,6 +171,16 @@ wss_error_t WSS_session_all(void (*callback)(wss_session_t *));
  */
 wss_session_t *WSS_session_find(int fd);
 
+/**
+ * Function that finds a session that is not disconnecting and increments its
+ * job counter, such that the session is kept alive until the counter is
+ * decremented again.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
+ */
+wss_session_t *WSS_session_acquire(int fd);
+
 /**
  * Function that increments the job counter atomically.
  *
diff --git a/src/message.c b/src/message.c
index 6e45c1d..da9dcb6 100644
--- a/src/message.c
+++ b/src/message.c
@@ -12,6 +12,54 @@
 
 #include <time.h>
 
+void WSS_message_flush(void *serv, void *sess) {
+    wss_session_state_t prev;
+    wss_server_t *server = (wss_server_t *)serv;
+    wss_session_t *session = (wss_session_t *)sess;
+
+    __atomic_thread_fence(__ATOMIC_SEQ_CST);
+
+    while ( __atomic_load_n(&session->pending, __ATOMIC_SEQ_CST) > 0 ) {
+        // Whoever holds the lock flushes after having released it. One must
+        // never wait for the lock here, as the caller might hold the lock of
+        // another session.
+        if ( pthread_mutex_trylock(&session->lock) != 0 ) {
+            return;
+        }
+
+        __atomic_store_n(&session->pending, 0, __ATOMIC_SEQ_CST);
+
+        prev = session->state;
+
+        if ( likely(! session->closing && (prev == IDLE || prev == READING)) ) {
+            if (! session->working) {
+                session->event = NONE;
+            }
+
+            session->state = WRITING;
+            WSS_write(server, session);
+            if (session->state == IDLE) {
+                session->state = prev;
+            }
+
+            // No worker is going to rearm the session
+            if (! session->working) {
+                if ( unlikely(session->closing || session->event == WRITE) ) {
+                    clock_gettime(CLOCK_MONOTONIC, &session->alive);
+                    WSS_poll_set_write(server, session->fd);
+                } else if ( unlikely(session->event == READ) ) {
+                    clock_gettime(CLOCK_MONOTONIC, &session->alive);
+                    WSS_poll_set_read(server, session->fd);
+                }
+            }
+        }
+
+        pthread_mutex_unlock(&session->lock);
+
+        __atomic_thread_fence(__ATOMIC_SEQ_CST);
+    }
+}
+
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
     ssize_t off;
@@ -19,7 +67,6 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     uint64_t out_length;
     wss_message_t *m;
     ringbuf_worker_t *w = NULL;
-    struct timespec tim;
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
@@ -40,6 +87,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
@@ -48,6 +97,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
     m->msg = out;
@@ -61,42 +112,19 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        WSS_session_jobs_dec(session);
+
         return;
     }
 
     session->messages[off] = m;
     ringbuf_produce(session->ringbuf, &w);
-    tim.tv_sec = 0;
-    tim.tv_nsec = 100000000;
-
-    do {
-        pthread_mutex_lock(&session->lock);
-
-        switch (session->state) {
-        case READING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case CLOSING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case CONNECTING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case WRITING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case IDLE:
-            session->state = WRITING;
-            WSS_write(server, session);
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        }
-    } while (1);
+
+    __atomic_add_fetch(&session->pending, 1, __ATOMIC_SEQ_CST);
+
+    WSS_message_flush(serv, sess);
+
+    WSS_session_jobs_dec(session);
 }
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length) {
@@ -106,12 +134,16 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     wss_frame_t **frames;
     wss_server_t *server = servers.http;
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_error("Unable to find session to send message to");
         return;
     }
 
-    WSS_session_jobs_inc(session);
+    if ( unlikely(! session->handshaked) ) {
+        WSS_log_error("Unable to send message to session that is not yet handshaked");
+        WSS_session_jobs_dec(session);
+        return;
+    }
 
     if (NULL != session->ssl && session->ssl_connected) {
         server = servers.https;
diff --git a/src/server.c b/src/server.c
index 259321f..7043ddc 100644
--- a/src/server.c
+++ b/src/server.c
@@ -39,63 +39,54 @@ wss_servers_t servers;
  */
 struct timespec now;
 
-static inline void write_control_frame(wss_frame_t *frame, wss_session_t *session) {
-    size_t j;
-    char *message;
-    size_t message_length;
-    int n = 0;
-    int fd = session->fd;
-
-    // Use extensions
-    for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
-        session->header->ws_extensions[j]->ext->outframes(
-                fd,
-                &frame,
-                1);
-
-        session->header->ws_extensions[j]->ext->outframe(
-                fd,
-                frame);
-    }
-
-    if (0 == (message_length = WSS_stringify_frame(frame, &message))) {
-        WSS_log_fatal("Unable to represent frame as bytes");
-        WSS_free_frame(frame);
+/**
+ * File descriptors of the sessions to be looked at by the cleanup thread
+ */
+static int *cleanup_fds = NULL;
+static size_t cleanup_fds_length = 0;
+static size_t cleanup_fds_capacity = 0;
+
+static void write_control_frame(wss_server_t *server, wss_frame_t *frame, wss_session_t *session) {
+    if ( unlikely(NULL == frame) ) {
         return;
     }
 
+    WSS_session_jobs_inc(session);
+    WSS_message_send_frames((void *)server, (void *)session, &frame, 1);
     WSS_free_frame(frame);
+}
 
-    if (session->ssl_connected) {
-        WSS_ssl_write(session, message, message_length);
-    } else {
-        size_t written = 0;
-        do {
-            n = write(fd, message+written, message_length-written);
-            if ( unlikely(n < 0) ) {
-                if ( likely(errno == EINTR) ) {
-                    errno = 0;
-                    n = 0;
-                    continue;
-                }
-                break;
-            }
-            written += n;
-        } while ( written < message_length );
+static void collect_session(wss_session_t *session) {
+    int *fds;
+
+    if (cleanup_fds_length == cleanup_fds_capacity) {
+        fds = realloc(cleanup_fds, (cleanup_fds_capacity+64)*sizeof(int));
+        if ( unlikely(NULL == fds) ) {
+            WSS_log_error("Unable to allocate list of sessions to clean up");
+            return;
+        }
+        cleanup_fds = fds;
+        cleanup_fds_capacity += 64;
     }
 
-    WSS_free((void **) &message);
+    cleanup_fds[cleanup_fds_length++] = session->fd;
 }
 
-static void cleanup_session(wss_session_t *session) {
-    wss_error_t err;
+static void cleanup_session(int fd) {
     wss_frame_t *frame;
     long unsigned int ms;
-    int fd = session->fd;
+    wss_session_t *session;
     wss_server_t *server = servers.http;
-    bool dc;
 
-    if (! session->handshaked) {
+    if ( NULL == (session = WSS_session_acquire(fd)) ) {
+        return;
+    }
+
+    pthread_mutex_lock(&session->lock);
+
+    if (! session->handshaked || session->closing) {
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
         return;
     }
 
@@ -103,65 +94,26 @@ static void cleanup_session(wss_session_t *session) {
         server = servers.https;
     }
 
+    clock_gettime(CLOCK_MONOTONIC, &now);
     ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
 
     WSS_log_info("Check timeout %d ms", ms);
 
     // Session timed out
     if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_session_is_disconnecting(session, &dc);
-        if (dc) {
-            return;
-        }
-
-        WSS_session_jobs_wait(session);
-
         WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
 
-        session->closing = true;
-        session->state = CLOSING;
-
-        if (! session->ssl_connected) {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
-        } else {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
-        }
-
-        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
-
-        if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-            WSS_log_trace("Informing subprotocol about session close");
-            session->header->ws_protocol->close(session->fd);
-        }
-
-        WSS_log_trace("Removing poll filedescriptor from eventlist");
-
-        WSS_poll_remove(server, fd);
-
         WSS_log_trace("Sending close frame", fd);
 
-        frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
+        write_control_frame(server, WSS_closing_frame(CLOSE_TRY_AGAIN, NULL), session);
 
-        write_control_frame(frame, session);
+        session->closing = true;
 
-        WSS_log_trace("Deleting client session");
+        pthread_mutex_unlock(&session->lock);
 
-        if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
-            switch (err) {
-                case WSS_SSL_SHUTDOWN_READ_ERROR:
-                        WSS_poll_set_read(server, fd);
-                    return;
-                case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                        WSS_poll_set_write(server, fd);
-                    return;
-                default:
-                    break;
-            }
-            WSS_log_error("Unable to delete client session, received error code: %d", err);
-            return;
-        }
+        WSS_disconnect(server, session);
 
-        WSS_log_info("Client with session %d disconnected", fd);
+        return;
 
     // Ping session to keep it alive
     } else if (server->config->timeout_pings > 0 ) {
@@ -173,16 +125,20 @@ static void cleanup_session(wss_session_t *session) {
             session->pong_length = 0;
         }
 
-        if (NULL == (session->pong = WSS_malloc(frame->applicationDataLength))) {
-            WSS_free_frame(frame);
-            return;
-        }
-        session->pong_length = frame->applicationDataLength;
+        if (NULL != (session->pong = WSS_malloc(frame->applicationDataLength))) {
+            session->pong_length = frame->applicationDataLength;
 
-        memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
+            memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
+        }
 
-        write_control_frame(frame, session);
+        write_control_frame(server, frame, session);
     }
+
+    pthread_mutex_unlock(&session->lock);
+
+    WSS_message_flush((void *)server, (void *)session);
+
+    WSS_session_jobs_dec(session);
 }
 
 /**
@@ -220,6 +176,7 @@ void WSS_server_set_max_fd(wss_server_t *server, int fd) {
  */
 void *WSS_cleanup() {
     int n;
+    size_t i;
     wss_error_t err;
     struct pollfd fds[1];
     wss_server_t *server = servers.http;
@@ -249,16 +206,25 @@ void *WSS_cleanup() {
         } else if ( likely(n == 0) ) {
             WSS_log_info("Pings clients and cleanup timedout ones");
             
-            clock_gettime(CLOCK_MONOTONIC, &now);
-            if ( unlikely(WSS_SUCCESS != (err = WSS_session_all(cleanup_session))) ) {
+            cleanup_fds_length = 0;
+            if ( unlikely(WSS_SUCCESS != (err = WSS_session_all(collect_session))) ) {
 #ifdef USE_RPMALLOC
                 rpmalloc_thread_finalize();
 #endif
                 pthread_exit( ((void *) &err) );
             }
+
+            for (i = 0; likely(i < cleanup_fds_length); i++) {
+                cleanup_session(cleanup_fds[i]);
+            }
         }
     }
 
+    free(cleanup_fds);
+    cleanup_fds = NULL;
+    cleanup_fds_length = 0;
+    cleanup_fds_capacity = 0;
+
     WSS_log_info("Cleanup thread shutting down");
 
 #ifdef USE_RPMALLOC
diff --git a/src/session.c b/src/session.c
index d3a1039..90130a0 100644
--- a/src/session.c
+++ b/src/session.c
@@ -121,6 +121,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     session->fd = fd;
     session->port = port;
     session->header = NULL;
+    session->state = CONNECTING;
 
     length = strlen(ip);
     if ( unlikely(NULL == (session->ip = (char *) WSS_malloc( (length+1)*sizeof(char)))) ) {
@@ -148,7 +149,6 @@ static wss_error_t session_delete(wss_session_t *session) {
     size_t j;
 
     if ( likely(NULL != session) ) {
-        pthread_mutex_unlock(&session->lock);
         if ( unlikely((err = pthread_mutex_destroy(&session->lock)) != 0) ) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
@@ -186,7 +186,9 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
+            if ( NULL != session->header->ws_protocol ) {
+                session->header->ws_protocol->close(session->fd);
+            }
 
             WSS_free_header(session->header);
         }
@@ -449,3 +451,40 @@ wss_session_t *WSS_session_find(int fd) {
 
     return session;
 }
+
+/**
+ * Function that finds a session that is not disconnecting and increments its
+ * job counter, such that the session is kept alive until the counter is
+ * decremented again.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
+ */
+wss_session_t *WSS_session_acquire(int fd) {
+    int err;
+    wss_session_t *session = NULL;
+
+    WSS_log_trace("Acquiring session");
+
+    if ( unlikely((err = pthread_rwlock_rdlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock: %s", strerror(err));
+        return NULL;
+    }
+
+    HASH_FIND_INT(sessions, &fd, session);
+
+    if ( likely(NULL != session) ) {
+        pthread_mutex_lock(&session->lock_disconnecting);
+        if ( unlikely(session->disconnecting) ) {
+            pthread_mutex_unlock(&session->lock_disconnecting);
+            session = NULL;
+        } else {
+            WSS_session_jobs_inc(session);
+            pthread_mutex_unlock(&session->lock_disconnecting);
+        }
+    }
+
+    pthread_rwlock_unlock(&lock);
+
+    return session;
+}
diff --git a/src/ssl.c b/src/ssl.c
index 8761990..545dad1 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -373,9 +373,16 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
     
         n = -2;
     } else
+
+    // The client will not be sending anything more.
+    if ( unlikely(err == SSL_ERROR_ZERO_RETURN) ) {
+        session->closing = true;
+
+        n = 0;
+    } else
         
     // Some error has occured.
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char msg[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
@@ -569,7 +576,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
-        WSS_disconnect(server, session);
+        session->closing = true;
         return;
     }
 
@@ -602,7 +609,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = SSL_new(server->ssl_ctx))) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -610,7 +617,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(SSL_set_fd(session->ssl, session->fd) != 1) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -625,7 +632,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = wolfSSL_new(server->ssl_ctx))) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -633,7 +640,7 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(wolfSSL_set_fd(session->ssl, session->fd) != 1) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
+        session->closing = true;
         return false;
     }
 
@@ -662,11 +669,8 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -691,11 +695,8 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
diff --git a/src/worker.c b/src/worker.c
index e98b6ac..ac886e6 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -392,19 +392,21 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The caller must hold a job on the session, which is given up by
+ * the call, and must not hold the lock of the session.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
  * @return          [void]
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
-    int i;
     wss_error_t err;
     bool dc;
 
-    // If we are already closing
+    // If we are already closing. The job of the caller is what keeps the
+    // session alive until this has been determined.
     WSS_session_is_disconnecting(session, &dc);
+    WSS_session_jobs_dec(session);
     if (dc) {
         return;
     }
@@ -418,6 +420,7 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
     if ( NULL != session->header && session->header->ws_protocol != NULL ) {
         WSS_log_trace("Informing subprotocol about session close");
         session->header->ws_protocol->close(session->fd);
+        session->header->ws_protocol = NULL;
     }
 
     WSS_log_trace("Removing poll filedescriptor from eventlist");
@@ -432,21 +435,7 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
         WSS_log_info("Session %d disconnected from ip: %s:%d using HTTPS request", session->fd, session->ip, session->port);
     }
 
-    for (i = 0; i < session->jobs; i++) {
-        pthread_mutex_unlock(&session->lock);
-    }
-
     if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
-        switch (err) {
-            case WSS_SSL_SHUTDOWN_READ_ERROR:
-                session->event = READ;
-                return;
-            case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                session->event = WRITE;
-                return;
-            default:
-                break;
-        }
         WSS_log_error("Unable to delete client session, received error code: %d", err);
         return;
     }
@@ -468,7 +457,8 @@ void WSS_connect(wss_server_t *server) {
     socklen_t client_size;
     wss_session_t *session;
     ringbuf_t *ringbuf;
-    size_t workers = server->config->pool_workers+1;
+    // Workers of both the HTTP and the HTTPS server, and the cleanup thread
+    size_t workers = 2*server->config->pool_workers+1;
 
     client_size	= sizeof(client);
     memset((char *) &client, '\0', sizeof(client));
@@ -505,6 +495,7 @@ void WSS_connect(wss_server_t *server) {
         ringbuf_get_sizes(0, workers, &ringbuf_obj_size, NULL);
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
+            pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
             return;
         }
@@ -512,6 +503,7 @@ void WSS_connect(wss_server_t *server) {
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
+            pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
             return;
         }
@@ -527,12 +519,15 @@ void WSS_connect(wss_server_t *server) {
         }
 
         if (NULL != server->ssl_ctx) {
-            if (! WSS_session_ssl(server, session)) {
-                WSS_free((void **)&ringbuf);
-                return;
+            if (WSS_session_ssl(server, session)) {
+                WSS_ssl_handshake(server, session);
             }
 
-            WSS_ssl_handshake(server, session);
+            if ( unlikely(session->closing) ) {
+                pthread_mutex_unlock(&session->lock);
+                WSS_disconnect(server, session);
+                continue;
+            }
         } else {
             session->state = IDLE;
 
@@ -544,8 +539,8 @@ void WSS_connect(wss_server_t *server) {
 
         }
 
-        WSS_session_jobs_dec(session);
         pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
     }
 }
 
@@ -873,6 +868,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_offset = 0;
     size_t starting_frame = 0;
     bool fragmented = false;
+    bool received = false;
     char *buffer;
 
     // If no initial header has been seen for the session, the websocket
@@ -955,6 +951,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
                 memcpy(payload+payload_length, buffer, n);
                 payload_length += n;
+                received = true;
                 memset(buffer, '\0', server->config->size_buffer);
 
         }
@@ -963,6 +960,23 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     // Release memory used for buffer
     WSS_free((void **) &buffer);
 
+    // The data might already have been read by another worker
+    if ( unlikely(! received) ) {
+        WSS_log_trace("No new data was available");
+
+        session->payload = payload;
+        session->payload_length = payload_length;
+        session->offset = offset;
+        session->frames = frames;
+        session->frames_length = frames_length;
+        if (payload_length == 0 && frames_length == 0) {
+            session->state = IDLE;
+        }
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_trace("Payload from client was read. Continues flow by parsing frames.");
 
     // Parse the payload into websocket frames
@@ -1437,23 +1451,28 @@ void WSS_work(void *args) {
         return;
     }
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_trace("Unable to find client with session %d", fd);
         return;
     }
 
-    WSS_log_trace("Incrementing session jobs");
-
-    WSS_session_jobs_inc(session);
     pthread_mutex_lock(&session->lock);
 
+    session->working = true;
     session->event = NONE;
 
     WSS_log_trace("Checking session state");
 
+    // No further IO is done once the session is closing, whatever it was in
+    // the middle of
+    if ( unlikely(session_state == CLOSING) ) {
+        WSS_log_trace("Handling close event");
+        session->closing = true;
+    }
+
     // We first check if session was in the middle of performing an IO task but
     // needed to wait for further IO
-    switch (session->state) {
+    if ( likely(! session->closing) ) switch (session->state) {
         case WRITING:
             clock_gettime(CLOCK_MONOTONIC, &now);
             ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
@@ -1470,14 +1489,12 @@ void WSS_work(void *args) {
             session->closing = true;
             break;
         case CONNECTING:
-            if (NULL != server->ssl_ctx) {
-                WSS_ssl_handshake(server, session);
-                WSS_session_jobs_dec(session);
-                pthread_mutex_unlock(&session->lock);
-                return;
+            // Event of an earlier client with the same filedescriptor
+            if ( unlikely(NULL == session->ssl) ) {
+                break;
             }
 
-            WSS_read(server, session);
+            WSS_ssl_handshake(server, session);
             break;
         case READING:
             clock_gettime(CLOCK_MONOTONIC, &now);
@@ -1499,10 +1516,6 @@ void WSS_work(void *args) {
                     session->event = READ;
                     WSS_write(server, session);
                     break;
-                case CLOSING:
-                    session->closing = true;
-                    WSS_log_trace("Handling close event");
-                    break;
                 case READING:
                     WSS_log_trace("Handling read event");
                     WSS_read(server, session);
@@ -1513,14 +1526,17 @@ void WSS_work(void *args) {
             }
     }
 
-    WSS_session_jobs_dec(session);
-    pthread_mutex_unlock(&session->lock);
+    session->working = false;
 
-    if (session->closing) {
+    if ( unlikely(session->closing) ) {
         session->event = NONE;
+        pthread_mutex_unlock(&session->lock);
         WSS_disconnect(server, session);
+        return;
     }
 
+    // Rearm while holding the lock, since another worker could take over the
+    // session as soon as it is released
     switch (session->event) {
         case WRITE: 
             clock_gettime(CLOCK_MONOTONIC, &session->alive);
@@ -1533,4 +1549,11 @@ void WSS_work(void *args) {
         case NONE: 
             break;
     }
+
+    pthread_mutex_unlock(&session->lock);
+
+    // Write what others have queued while the session was locked
+    WSS_message_flush((void *)server, (void *)session);
+
+    WSS_session_jobs_dec(session);
 }
-- 
2.43.0


From 7e656cac2d65f9cd13544c5e9bce78fb371e4687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 06/48] fix: accept empty and unpadded header values and
 repeated extension headers

---
 src/header.c | 79 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 31 deletions(-)

diff --git a/src/header.c b/src/header.c
index b739fd3..2355bd9 100644
--- a/src/header.c
+++ b/src/header.c
@@ -69,8 +69,21 @@ static inline char *trim(char* str)
     return str;
 }
 
+/**
+ * Returns the value of a header line without surrounding whitespace.
+ *
+ * @param   lineptr [char **]   "The strtok_r state after the name of the header has been read"
+ * @return          [char *]    "The value of the header, being empty if no value was given"
+ */
+static inline char *header_value(char **lineptr)
+{
+    char *value = trim(strtok_r(NULL, "", lineptr));
+
+    return NULL != value ? value : "";
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
@@ -229,7 +242,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     return HttpStatus_BadRequest;
                 }
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,34 +250,31 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = header_value(&lineptr);
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = header_value(&lineptr);
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
+                    sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
+                    while (NULL != sep) {
+                        if (NULL != (proto = WSS_find_subprotocol(sep))) {
+                            header->ws_protocol = proto;
+                            break;
                         }
+                        sep = trim(strtok_r(NULL, ",", &sepptr));
                     }
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
@@ -272,45 +282,46 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-                line = trim(strtok_r(NULL, "", &lineptr));
+                line = header_value(&lineptr);
                 line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
+                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+2)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
                     return HttpStatus_InternalServerError;
                 }
 
+                // Several headers are equivalent to a single comma separated one
                 memcpy(exts+extensions_length, line, line_length);
                 extensions_length += line_length;
+                exts[extensions_length] = ',';
+                extensions_length += 1;
+                exts[extensions_length] = '\0';
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = header_value(&lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
+                    sep = trim(strtok_r(header_value(&lineptr), ",", &sepptr));
+                    while (NULL != sep) {
+                        if (NULL != (proto = WSS_find_subprotocol(sep))) {
+                            header->ws_protocol = proto;
+                            break;
                         }
+                        sep = trim(strtok_r(NULL, ",", &sepptr));
                     }
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = header_value(&lineptr);
             }
         }
 
@@ -355,6 +366,10 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         while(NULL != sep) {
             in_use = false;
             sep = trim(strtok_r(sep, ";", &paramptr));
+            if ( unlikely(NULL == sep) ) {
+                sep = trim(strtok_r(NULL, ",", &sepptr));
+                continue;
+            }
 
             if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
                 WSS_log_error("Unable to allocate space for extension structure");
@@ -385,9 +400,11 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                         header->ws_extensions[header->ws_extensions_count]->name = name;
                         header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
                         header->ws_extensions_count += 1;
+                        name = NULL;
                     }
                 }
             }
+            WSS_free((void **) &name);
 
             sep = trim(strtok_r(NULL, ",", &sepptr));
         }
-- 
2.43.0


From ab26ef6ba6df68397aa01c967e7495f3c035058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 07/48] fix: make HTTP responses well-formed (501 header
 placement, no trailing NUL byte)

---
 src/worker.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index ac886e6..c378bcb 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -236,14 +236,14 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     }
 
     headers += strlen(HTTP_ICO_HEADERS)*sizeof(char)-10*sizeof(char);
-    headers += (log10(icon)+1);
+    headers += snprintf(NULL, 0, "%d", icon);
     headers += strlen(date)*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += strlen(etag)*sizeof(char);
     headers += strlen(modified)*sizeof(char);
 
-    length = line + headers + icon + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + icon;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         WSS_free((void **) &etag);
         WSS_free((void **) &ico);
         return NULL;
@@ -295,8 +295,8 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
@@ -361,21 +361,21 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     body += strlen(exp)*sizeof(char);
 
     if (code == HttpStatus_NotImplemented) {
-        support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support = snprintf(NULL, 0, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
     headers += strlen(date)*sizeof(char);
     headers += (log10(body)+1)*sizeof(char);
 
-    length = line + support + headers + body + 1;
-    if ( unlikely(NULL == (message = (char *) WSS_malloc(length*sizeof(char)))) ) {
+    length = line + support + headers + body;
+    if ( unlikely(NULL == (message = (char *) WSS_malloc((length+1)*sizeof(char)))) ) {
         return NULL;
     }
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
-- 
2.43.0


From ee4710964dad98692ae0e66f013c23d06d029113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 08/48] fix: do not use an uninitialised pointer when serving
 the favicon

---
 src/worker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index c378bcb..d40a32e 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -185,6 +185,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     wss_message_t *msg;
     size_t length;
     struct stat filestat;
+    char *hash;
     char sha1Key[SHA_DIGEST_LENGTH];
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
@@ -227,7 +228,8 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     }
 
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    hash = sha1Key;
+    WSS_sha1(ico, icon, &hash);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
-- 
2.43.0


From d2ef11fc00bc7b347eaf86cbc46ff95c76346c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 09/48] fix: wait for the complete opening handshake and answer
 it before anything else

A handshake split over several TCP segments was rejected, messages sent by a
subprotocol from onConnect were lost or preceded the handshake response,
extensions opened by a rejected handshake were never closed and the server
crashed if the default subprotocol was not loaded.
---
 src/worker.c | 48 +++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index d40a32e..5d503a8 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -616,6 +616,7 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
  */
 static void handshake(wss_server_t *server, wss_session_t *session) {
     int n;
+    size_t i;
     wss_header_t *header;
     wss_message_t *message;
     enum HttpStatus_Code code;
@@ -667,6 +668,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         switch (n) {
             // Wait for IO for either read or write on the filedescriptor
             case -2:
+                WSS_free((void **)&buffer);
+
                 session->header = header;
 
                 session->event = WRITE;
@@ -676,6 +679,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
             case -1:
                 WSS_log_trace("Rejecting HTTP request due to being unable to read from client");
 
+                WSS_free((void **)&buffer);
+
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
                 WSS_free_header(header);
 
@@ -706,6 +711,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
                     WSS_free_header(header);
+                    WSS_free((void **)&buffer);
 
                     if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
                         session->state = WRITING;
@@ -721,6 +727,17 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     WSS_free((void **)&buffer);
 
+    // Wait for further IO until the whole header has been received
+    if ( unlikely(NULL == header->content || (strlen(header->content) == header->length
+                    && NULL == strstr(header->content, "\r\n\r\n"))) ) {
+        WSS_log_trace("Header is not complete yet, will wait for more");
+
+        session->header = header;
+        session->event = READ;
+
+        return;
+    }
+
     WSS_log_debug("Client header: \n%s", header->content);
 
     WSS_log_trace("Starting parsing header received from client");
@@ -778,6 +795,14 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     // Create Upgrade HTTP header based on clients header
     code = WSS_upgrade_header(header, server->config, server->re);
+
+    // The echo protocol is used if none was chosen
+    if (code == HttpStatus_SwitchingProtocols && NULL == header->ws_protocol &&
+            NULL == WSS_find_subprotocol("echo")) {
+        WSS_log_error("No subprotocol available for client");
+        code = HttpStatus_InternalServerError;
+    }
+
     switch (code) {
         case HttpStatus_UpgradeRequired:
             WSS_log_trace("Rejecting HTTP request as the service requires use of the Websocket protocol.");
@@ -819,6 +844,11 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
             WSS_write(server, session);
         }
 
+        // Extensions were opened while the header was parsed
+        for (i = 0; i < header->ws_extensions_count; i++) {
+            header->ws_extensions[i]->ext->close(session->fd);
+        }
+
         WSS_free_header(header);
 
         return;
@@ -829,14 +859,22 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         header->ws_protocol = WSS_find_subprotocol("echo");
     }
 
-    // Notify websocket protocol of the connection
-    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
-
     // Set session as fully handshaked
-    session->handshaked = true;
     session->header = header;
 
-    if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
+    if ( unlikely(WSS_SUCCESS != write_internal(session, message)) ) {
+        session->closing = true;
+        return;
+    }
+
+    session->state = IDLE;
+    session->handshaked = true;
+
+    // Notify websocket protocol of the connection. As the handshake response
+    // already is in the ringbuffer, whatever is sent to the client follows it.
+    header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
+
+    if (session->state == IDLE) {
         session->state = WRITING;
         session->event = READ;
         WSS_write(server, session);
-- 
2.43.0


From f840f4b7867d5eab2354def23c3afe2b2ff547f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 10/48] fix: continuation opcode for fragments, bounded close
 reasons and no wrapping frame lengths

---
 src/frame.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..60fc9ad 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -317,9 +317,15 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
+        // The length is chosen by the client, hence the offset must not wrap
+        if ( unlikely(frame->applicationDataLength > SIZE_MAX - *offset) ) {
+            *offset = SIZE_MAX - frame->applicationDataLength;
+        }
+
         if ( likely(*offset+frame->applicationDataLength <= length) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
+                WSS_free((void **) &frame);
                 return NULL;
             }
 
@@ -483,6 +489,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
     wss_frame_t **frames;
     wss_close_t code;
     char *msg = message;
+    char reason[124];
 
     if ( unlikely(NULL == config) ) {
         *fs = NULL;
@@ -516,7 +523,19 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
             code = CLOSE_NORMAL;
         }
 
-        frame = WSS_closing_frame(code, msg);
+        // The reason is not necessarily NUL terminated and has to fit into the
+        // 125 bytes of a control frame.
+        if ( likely(NULL != message) ) {
+            message_length = MIN(message_length-(msg-message), sizeof(reason)-1);
+            memcpy(reason, msg, message_length);
+            reason[message_length] = '\0';
+            msg = reason;
+        }
+
+        if ( unlikely(NULL == (frame = WSS_closing_frame(code, msg))) ) {
+            WSS_free((void **)fs);
+            return 0;
+        }
         frames[0] = frame;
         return 1;
     }
@@ -534,7 +553,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From 2782d111ccb436b6958b08a0b2ec1b9274a76f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 11/48] fix: process complete messages and reject too large
 frames without waiting for unrelated data

---
 src/worker.c | 94 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 63 insertions(+), 31 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 5d503a8..2f49d82 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -589,19 +589,17 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
         n = WSS_ssl_read(server, session, buffer);
     } else {
         do {
+            errno = 0;
             n = read(session->fd, buffer, server->config->size_buffer);
-            if (n == -1) {
-                if ( unlikely(errno == EINTR) ) {
-                    errno = 0;
-                    continue;
-                } else if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
+            if (n == -1 && likely(errno != EINTR)) {
+                if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
                     WSS_log_error("Read failed: %s", strerror(errno));
                     session->closing = true;
                 } else {
                     n = 0;
                 }
             }
-        } while ( unlikely(0) );
+        } while ( unlikely(n == -1 && errno == EINTR) );
     }
 
     return n;
@@ -907,6 +905,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_length = 0;
     size_t msg_offset = 0;
     size_t starting_frame = 0;
+    size_t fragments = 0;
     bool fragmented = false;
     bool received = false;
     char *buffer;
@@ -939,6 +938,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     session->frames = NULL;
     session->frames_length = 0;
 
+    // Amount of frames received of an incomplete message
+    for (i = 0; unlikely(i < frames_length); i++) {
+        if ( likely(frames[i]->opcode <= BINARY_FRAME) ) {
+            fragments += 1;
+        }
+    }
+
     // If handshake has been made, we can read the websocket frames from
     // the connection
     do {
@@ -948,14 +954,24 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             // Wait for IO for either read or write on the filedescriptor
             case -2:
                 WSS_log_trace("Detected that server needs further IO to complete the reading");
+                WSS_free((void **) &buffer);
+
                 session->payload = payload;
                 session->payload_length = payload_length;
+                session->offset = offset;
+                session->frames = frames;
+                session->frames_length = frames_length;
 
                 session->event = WRITE;
 
                 return;
             // An error occured
             case -1:
+                for (i = 0; likely(i < frames_length); i++) {
+                    WSS_free_frame(frames[i]);
+                }
+                WSS_free((void **) &frames);
+                WSS_free((void **) &buffer);
                 WSS_free((void **) &payload);
 
                 frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
@@ -1030,20 +1046,23 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             return;
         }
 
-        // Check if we were forced to read beyond the payload to create a full frame
-        if ( unlikely(offset > payload_length) ) {
+        // Check if we were forced to read beyond the payload to create a full
+        // frame. There is no need to wait for the rest of a frame, that is too
+        // large, when its header is complete.
+        if ( unlikely(offset > payload_length) &&
+                likely(frame->payloadLength <= server->config->size_frame ||
+                    offset - frame->payloadLength > payload_length) ) {
             WSS_log_trace("Detected that data was missing in order to complete frame, will wait for more");
 
             WSS_free_frame(frame);
 
+            payload_length -= prev_offset;
+            memmove(payload, payload+prev_offset, payload_length);
             session->payload = payload;
             session->payload_length = payload_length;
-            session->offset = prev_offset;
-            session->frames = frames;
-            session->frames_length = frames_length;
-            session->event = READ;
+            payload = NULL;
 
-            return;
+            break;
         }
 
         // If no extension is negotiated, the rsv bits must not be used
@@ -1154,8 +1173,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         frames[frames_length] = frame;
         frames_length += 1;
 
-        // Check if frame count is exceeded
-        if ( unlikely(frames_length > server->config->max_frames) ) {
+        // Check if the amount of frames in the message is exceeded
+        if (frame->opcode == CONTINUATION_FRAME) {
+            fragments += 1;
+        } else if (frame->opcode == TEXT_FRAME || frame->opcode == BINARY_FRAME) {
+            fragments = 1;
+        }
+        if ( unlikely(fragments > server->config->max_frames) ) {
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
             frames[frames_length-1] = frame;
@@ -1252,20 +1276,28 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     }
 
     // If fragmented is still true, we did not receive the whole message, and
-    // we hence want to wait until we get the rest.
+    // we hence want to wait until we get the rest. What was received before the
+    // message does not have to wait.
     if ( unlikely(fragmented) ) {
         WSS_log_trace("Detected missing frames in fragmented message, will wait for further IO");
 
-        session->frames = frames;
-        session->frames_length = frames_length;
-        session->event = READ;
-
-        return;
+        session->frames_length = frames_length-starting_frame;
+        if ( unlikely(NULL == (session->frames = WSS_malloc(session->frames_length*sizeof(wss_frame_t *)))) ) {
+            WSS_log_error("Unable to allocate frames");
+            session->frames_length = 0;
+            session->closing = true;
+        } else {
+            memcpy(session->frames, frames+starting_frame, session->frames_length*sizeof(wss_frame_t *));
+            frames_length = starting_frame;
+        }
     }
 
     WSS_log_trace("Frames was validated");
     
-    session->state = IDLE;
+    // Keep on reading if only a part of a message was received
+    if ( likely(closing || (NULL == session->payload && NULL == session->frames)) ) {
+        session->state = IDLE;
+    }
 
     WSS_log_trace("Sending frames to receivers");
 
@@ -1360,12 +1392,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     }
 
-    if ( likely(frames_length > 0) ) {
-        for (i = 0; likely(i < frames_length); i++) {
-            WSS_free_frame(frames[i]);
-        }
-        WSS_free((void **) &frames);
+    for (i = 0; likely(i < frames_length); i++) {
+        WSS_free_frame(frames[i]);
     }
+    WSS_free((void **) &frames);
 
     if (! closing && session->event == NONE) {
         WSS_log_trace("Set epoll file descriptor to read mode after finishing read");
@@ -1396,7 +1426,9 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
         for (i = 0; likely(i < len); i++) {
             if ( unlikely(session->handshaked && closing) ) {
                 WSS_log_trace("No further messages are necessary as client connection is closing");
-                break;
+                WSS_message_free(session->messages[off+i]);
+                session->messages[off+i] = NULL;
+                continue;
             }
 
             bytes_sent = session->written;
@@ -1405,9 +1437,9 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
             message_length = message->length;
 
             while ( likely(bytes_sent < message_length) ) {
-                // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
+                // Check if message is a closing frame, part of it might have
+                // been sent earlier
+                if ( unlikely(message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME) ) {
                     closing = true;
                 }
 
-- 
2.43.0


From e0b1aacad2b17e404d8d93f0ce226c8a7c652bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:02 +0000
Subject: [PATCH 12/48] fix: permessage-deflate: validate offers, empty
 messages, big messages, failing and final blocks

---
 .../permessage-deflate/permessage-deflate.c   | 307 +++++++++---------
 1 file changed, 154 insertions(+), 153 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index dc4d66e..c4860ec 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -19,6 +19,7 @@
 #include "predict.h"
 
 #define MIN(a,b) ((a) < (b) ? (a) : (b))
+#define MAX(a,b) ((a) > (b) ? (a) : (b))
 
 #define EXT_CHUNK_SIZE                 "chunk_size"
 #define EXT_MEMORY_LEVEL               "memory_level"
@@ -29,6 +30,8 @@
 
 #define MAX_CHUNK_SIZE UINT_MAX
 #define MIN_CHUNK_SIZE 1
+// zlib emits flush markers over and over if less than 7 bytes are available
+#define MIN_DEFLATE_CHUNK_SIZE 16
 #define SERVER_MAX_MEM_LEVEL MAX_MEM_LEVEL
 #define SERVER_MIN_MEM_LEVEL 1
 #define SERVER_MAX_WINDOW_BITS 15
@@ -72,7 +75,7 @@ allocators allocs = {
 /**
  * A lock that ensures the hash table is used atomically
  */
-pthread_mutex_t lock;
+pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
 
 /**
  * Global hashtable of subprotocols
@@ -117,9 +120,42 @@ static inline char *trim(char* str)
     return str;
 }
 
-static void parse_param(const char *param, param_t *p) {
-    int bits, j;
-    char *sep, *sepptr;
+/**
+ * Parses a number of window bits. As stated in RFC7692 it is a decimal integer
+ * value without leading zeroes between 8 to 15 inclusive.
+ *
+ * @param   value   [char *]    "The value as string"
+ * @return          [int]       "The window bits or -1 if value is invalid"
+ */
+static int parse_bits(char *value)
+{
+    int bits;
+    char *end;
+
+    if ( unlikely(value[0] < '1' || value[0] > '9') ) {
+        return -1;
+    }
+
+    bits = strtol(value, &end, 10);
+    if ( unlikely(*end != '\0' || end-value > 2 || bits < CLIENT_MIN_WINDOW_BITS || bits > CLIENT_MAX_WINDOW_BITS) ) {
+        return -1;
+    }
+
+    return bits;
+}
+
+/**
+ * Parses the parameters of an offer. The offer is declined if it contains an
+ * unknown, an invalid or a repeated parameter.
+ *
+ * @param   param   [const char *]    "The parameters of the offer"
+ * @param   p       [param_t *]       "The structure to fill"
+ * @return          [bool]            "Whether the offer is acceptable"
+ */
+static bool parse_param(const char *param, param_t *p) {
+    int bits;
+    char *sep, *sepptr, *value;
+    bool snct = false, cnct = false, smwb = false, cmwb = false;
     size_t params_length = strlen(param);
     char buffer[params_length+1];
 
@@ -132,55 +168,57 @@ static void parse_param(const char *param, param_t *p) {
     p->server_max_window_bits = default_server_window_bits;
     p->client_max_window_bits = 0;
 
-    sep = trim(strtok_r(buffer, ";", &sepptr));
-    while ( likely(NULL != sep) ) {
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, sep, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' && sep[j] != '\0' ) {
-                j++;
-            }
+    for (sep = strtok_r(buffer, ";", &sepptr); likely(NULL != sep); sep = strtok_r(NULL, ";", &sepptr)) {
+        if ( likely(NULL != (value = strchr(sep, '='))) ) {
+            *value = '\0';
+            value = trim(value+1);
+        }
+        sep = trim(sep);
 
-            if (sep[j] != '\0') {
-                j++;
-                bits = strtol(sep+j, NULL, 10);
+        if ( unlikely(sep[0] == '\0' && NULL == value) ) {
+            continue;
+        }
 
-                p->client_max_window_bits = MIN(bits, CLIENT_MAX_WINDOW_BITS);
+        if ( strcmp(EXT_CLIENT_MAX_WINDOW_BITS, sep) == 0 && ! cmwb ) {
+            cmwb = true;
+
+            if (NULL != value) {
+                if ( unlikely(-1 == (bits = parse_bits(value))) ) {
+                    return false;
+                }
+                p->client_max_window_bits = bits;
             } else {
                 // Default
                 p->client_max_window_bits = default_client_window_bits;
             }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, sep, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' ) {
-                j++;
-            }
+        } else if ( strcmp(EXT_SERVER_MAX_WINDOW_BITS, sep) == 0 && ! smwb && NULL != value ) {
+            smwb = true;
 
-            j++;
-            bits = strtol(sep+j, NULL, 10);
-
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (bits == SERVER_MIN_WINDOW_BITS) {
-                bits++;
+            // zlib does not support a window of 8 bits when compressing, and a
+            // larger one than what was asked for is not allowed
+            if ( unlikely(-1 == (bits = parse_bits(value)) || bits == SERVER_MIN_WINDOW_BITS) ) {
+                return false;
             }
-
-            p->server_max_window_bits = MIN(bits, SERVER_MAX_WINDOW_BITS);
-        } else if ( strncmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)) == 0) {
+            p->server_max_window_bits = bits;
+        } else if ( strcmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep) == 0 && ! cnct && NULL == value ) {
+            cnct = true;
             p->client_no_context_takeover = true;
-        } else if ( strncmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)) == 0) {
+        } else if ( strcmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep) == 0 && ! snct && NULL == value ) {
+            snct = true;
             p->server_no_context_takeover = true;
+        } else {
+            return false;
         }
-
-        sep = trim(strtok_r(NULL, ";", &sepptr));
     }
+
+    return true;
 }
 
-static char * negotiate(char *param, wss_comp_t *comp) {
+static char * negotiate(wss_comp_t *comp) {
     size_t snct_length = 0, cnct_length = 0, cmwb_length = 0, smwb_length = 0, accepted_length = 0, written = 0;
     char *accepted = NULL;
     param_t *p = &comp->params;
 
-    parse_param(param, p);
-
     if (p->server_no_context_takeover) {
         // server_no_contect_takeover
         snct_length = strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)+1;
@@ -303,6 +341,7 @@ void onInit(char *config) {
 
     err = regexec(&re, buffer, nmatch, matches, 0);
     if ( unlikely(err != 0) ) {
+        regfree(&re);
         return;
     }
 
@@ -375,8 +414,6 @@ void onInit(char *config) {
     }
 
     regfree(&re);
-
-    pthread_mutex_init(&lock, NULL);
 }
 
 /**
@@ -404,129 +441,58 @@ void setAllocators(WSS_malloc_t extmalloc, WSS_realloc_t extrealloc, WSS_free_t
  * @return 	            [void]
  */
 void onOpen(int fd, char *param, char **accepted, bool *valid) {
-    int err, j;
-    long int val;
-    size_t i;
-    regex_t re;
-    size_t nmatch = 7;
-    regmatch_t matches[nmatch];
     wss_comp_t *comp;
-    const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits(\\s*=\\s*[0-9]+)?))*\\s*;?\\s*)*$";
 
-    if ( NULL == param ) {
-        if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-            *valid = false;
-            return;
-        }
+    *accepted = NULL;
+    *valid = false;
 
-        if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-            *valid = false;
-            return;
-        }
+    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
+        return;
+    }
+    memset(comp, '\0', sizeof(wss_comp_t));
 
-        comp->fd = fd;
-        comp->params.client_max_window_bits = default_client_window_bits;
+    comp->fd = fd;
+
+    if ( NULL == param ) {
+        // Nothing is said about the window bits of the client, hence it uses a
+        // 32768 byte sliding window.
+        comp->params.client_max_window_bits = 0;
         comp->params.server_max_window_bits = default_server_window_bits;
         comp->params.client_no_context_takeover = default_client_no_context_takeover;
         comp->params.server_no_context_takeover = default_server_no_context_takeover;
-
-        if ( unlikely(! init_comp(comp)) ) {
+    } else {
+        if ( unlikely(! parse_param(param, &comp->params)) ) {
             allocs.free(comp);
-            *valid = false;
             return;
         }
 
-        HASH_ADD_INT(compressors, fd, comp);
-
-        pthread_mutex_unlock(&lock);
-
-        *valid = true;
-        return;
-    }
-    size_t params_length = strlen(param);
-    char buffer[params_length+1];
-
-    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED)) != 0) ) {
-        *valid = false;
-        return;
-    } 
-
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, param, params_length);
-
-    err = regexec(&re, buffer, nmatch, matches, 0);
-    if ( unlikely(err != 0) ) {
-        *valid = false;
-        return;
-    }
-
-    for (i = 3; likely(i < nmatch-1); i++) {
-        if (matches[i].rm_so == -1) {
-            continue;
-        }
-
-        buffer[matches[i].rm_eo] = '\0';
-
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while (buffer[j] != '=' && buffer[j] != '\0') {
-                j++;
-            }
-
-            if (buffer[j] != '\0') {
-                j++;
-                val = strtol(buffer+j, NULL, 10);
-                if ( val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
-                    *valid = false;
-                    return;
-                }
-            }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while (buffer[j] != '=') {
-                j++;
-            }
-
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if ( val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
-                *valid = false;
-                return;
-            }
+        if ( unlikely(NULL == (*accepted = negotiate(comp))) ) {
+            allocs.free(comp);
+            return;
         }
     }
 
-    regfree(&re);
-
-    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-        *valid = false;
-        return;
-    }
-
-    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-        *valid = false;
+    if ( unlikely(! init_comp(comp)) ) {
+        allocs.free(*accepted);
+        *accepted = NULL;
+        allocs.free(comp);
         return;
     }
 
-    comp->fd = fd;
-    comp->params.client_max_window_bits = default_client_window_bits;
-    comp->params.server_max_window_bits = default_server_window_bits;
-    comp->params.client_no_context_takeover = default_client_no_context_takeover;
-    comp->params.server_no_context_takeover = default_server_no_context_takeover;
-
-    *accepted = negotiate(param, comp);
-
-    if ( unlikely(! init_comp(comp)) ) {
+    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
+        (void)inflateEnd(&comp->decompressor);
+        (void)deflateEnd(&comp->compressor);
+        allocs.free(*accepted);
+        *accepted = NULL;
         allocs.free(comp);
-        *valid = false;
         return;
     }
 
     HASH_ADD_INT(compressors, fd, comp);
 
-    *valid = true;
-
     pthread_mutex_unlock(&lock);
+
+    *valid = true;
 }
 
 /**
@@ -549,14 +515,17 @@ void inFrame(int fd, wss_frame_t *frame) {
  */
 void inFrames(int fd, wss_frame_t **frames, size_t len) {
     size_t j, size;
+    char *payload, *temp;
     char *message = NULL;
     size_t payload_length = 0;
     wss_comp_t *comp = NULL;
     size_t current_length = 0;
     size_t message_length = 0;
     int flush_mask = Z_SYNC_FLUSH;
+    unsigned char window[1 << CLIENT_MAX_WINDOW_BITS];
+    unsigned int window_length;
 
-    if (! frames[0]->rsv1) {
+    if (! frames[0]->rsv1 || frames[0]->opcode >= 0x8) {
         return;
     }
 
@@ -577,7 +546,9 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     }
     payload_length += 4;
 
-    char payload[payload_length+1];
+    if ( unlikely(NULL == (payload = allocs.malloc(payload_length+1))) ) {
+        return;
+    }
     payload[payload_length] = '\0';
 
     for (j = 0; likely(j < len); j++) {
@@ -594,27 +565,43 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
         flush_mask = Z_FULL_FLUSH;
     }
 
-    // Decompress data
+    // Decompress data. If it fails the rsv1 bit is left set, such that the
+    // message is not mistaken for an uncompressed one
     do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
+        if ( unlikely(NULL == (temp = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
             allocs.free(message);
+            allocs.free(payload);
             return; 
         }
+        message = temp;
         memset(message+message_length, '\0', default_chunk_size+1); 
 
         comp->decompressor.avail_out = default_chunk_size;
         comp->decompressor.next_out = (unsigned char *)message+message_length;
         switch (inflate(&comp->decompressor, flush_mask)) {
             case Z_OK:
-            case Z_STREAM_END:
             case Z_BUF_ERROR:
                 break;
+            case Z_STREAM_END:
+                // A final block was used, further blocks may refer to the data
+                // before it
+                if ( unlikely(Z_OK != inflateGetDictionary(&comp->decompressor, window, &window_length) ||
+                        Z_OK != inflateReset(&comp->decompressor) ||
+                        Z_OK != inflateSetDictionary(&comp->decompressor, window, window_length)) ) {
+                    allocs.free(message);
+                    allocs.free(payload);
+                    return;
+                }
+                break;
             default:
                 allocs.free(message);
+                allocs.free(payload);
                 return;
         }
         message_length += default_chunk_size - comp->decompressor.avail_out;
-    } while ( comp->decompressor.avail_out == 0 );
+    } while ( comp->decompressor.avail_out == 0 || comp->decompressor.avail_in > 0 );
+
+    allocs.free(payload);
 
     // unset rsv1 bit
     frames[0]->rsv1 = false;
@@ -629,11 +616,12 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
             size = message_length-current_length;
         }
 
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
+        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size+1))) ) {
             allocs.free(message);
             return;
         }
         memcpy(frames[j]->payload, message+current_length, size);
+        frames[j]->payload[size] = '\0';
         current_length += size;
         frames[j]->extensionDataLength = 0;
         frames[j]->applicationDataLength = size;
@@ -663,7 +651,9 @@ void outFrame(int fd, wss_frame_t *frame) {
  */
 void outFrames(int fd, wss_frame_t **frames, size_t len) {
     size_t j, size;
+    char *payload, *temp;
     char *message = NULL;
+    size_t chunk_size = MAX(default_chunk_size, MIN_DEFLATE_CHUNK_SIZE);
     size_t payload_length = 0;
     size_t current_length = 0;
     size_t message_length = 0;
@@ -690,7 +680,9 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         payload_length += frames[j]->payloadLength; 
     }
 
-    char payload[payload_length+1];
+    if ( unlikely(NULL == (payload = allocs.malloc(payload_length+1))) ) {
+        return;
+    }
     payload[payload_length] = '\0';
 
     for (j = 0; likely(j < len); j++) {
@@ -708,13 +700,15 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
     comp->compressor.next_in = (unsigned char *)payload;
 
     do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
+        if ( unlikely(NULL == (temp = allocs.realloc(message, (message_length+chunk_size+2)*sizeof(char)))) ) {
             allocs.free(message);
+            allocs.free(payload);
             return; 
         }
-        memset(message+message_length, '\0', default_chunk_size+2); 
+        message = temp;
+        memset(message+message_length, '\0', chunk_size+2); 
 
-        comp->compressor.avail_out = default_chunk_size;
+        comp->compressor.avail_out = chunk_size;
         comp->compressor.next_out = (unsigned char *)message+message_length;
         switch (deflate(&comp->compressor, flush_mask)) {
             case Z_OK:
@@ -723,22 +717,25 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
                 break;
             default:
                 allocs.free(message);
+                allocs.free(payload);
                 return;
         }
-        message_length += default_chunk_size - comp->compressor.avail_out;
+        message_length += chunk_size - comp->compressor.avail_out;
     } while ( comp->compressor.avail_out == 0 );
 
     // https://github.com/madler/zlib/issues/149
     if (comp->params.server_no_context_takeover) {
         flush_mask = Z_FULL_FLUSH;
 
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
+        if ( unlikely(NULL == (temp = allocs.realloc(message, (message_length+chunk_size+2)*sizeof(char)))) ) {
             allocs.free(message);
+            allocs.free(payload);
             return; 
         }
-        memset(message+message_length, '\0', default_chunk_size+2); 
+        message = temp;
+        memset(message+message_length, '\0', chunk_size+2); 
 
-        comp->compressor.avail_out = default_chunk_size;
+        comp->compressor.avail_out = chunk_size;
         comp->compressor.next_out = (unsigned char *)message+message_length;
         switch (deflate(&comp->compressor, flush_mask)) {
             case Z_OK:
@@ -747,11 +744,14 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
                 break;
             default:
                 allocs.free(message);
+                allocs.free(payload);
                 return;
         }
-        message_length += default_chunk_size - comp->compressor.avail_out;
+        message_length += chunk_size - comp->compressor.avail_out;
     }
 
+    allocs.free(payload);
+
     if ( unlikely(message_length < 5 || memcmp(message+message_length-4, "\x00\x00\xff\xff", 4) != 0) ) {
         message[message_length] = '\x00';
         message_length++;
@@ -774,11 +774,12 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
             size = message_length-current_length;
         }
 
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
+        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size+1))) ) {
             allocs.free(message);
             return;
         }
         memcpy(frames[j]->payload, message+current_length, size);
+        frames[j]->payload[size] = '\0';
         current_length += size;
         frames[j]->extensionDataLength = 0;
         frames[j]->applicationDataLength = size;
-- 
2.43.0


From cb4e7958126acde1a73fd605acd9084366da50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:57 +0000
Subject: [PATCH 13/48] fix: retry when the threadpool is full instead of
 losing the event

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index b914dac..3455798 100644
--- a/src/event.c
+++ b/src/event.c
@@ -137,7 +137,7 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
                     return WSS_THREADPOOL_ERROR;
             }
         }
-    } while (0);
+    } while ( unlikely(err != 0) );
 
     return WSS_SUCCESS;
 }
-- 
2.43.0


From f6a90a50ec4fa4da5a597f245baa826cf52c5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 14/48] fix: close on rsv bits no extension handled, queue
 messages in the order they were transformed, release frames

---
 include/session.h |  3 +++
 src/header.c      |  2 ++
 src/message.c     |  9 +++++++++
 src/session.c     | 18 +++++++++++++++++-
 src/worker.c      | 16 ++++++++++++++--
 5 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/session.h b/include/session.h
index a3c78c8..e0e165a 100644
--- a/include/session.h
+++ b/include/session.h
@@ -59,6 +59,9 @@ typedef struct {
     pthread_mutex_t lock_disconnecting;
     // Lock that ensures only one thread can perform IO at a time
     pthread_mutex_t lock;
+    // Lock that ensures messages are queued in the order they went through the
+    // extensions. No other lock is taken while holding it
+    pthread_mutex_t lock_send;
     // Attributes for the lock
     pthread_mutexattr_t lock_attr;
     // Jobs to be performed
diff --git a/src/header.c b/src/header.c
index 2355bd9..d1847f8 100644
--- a/src/header.c
+++ b/src/header.c
@@ -385,6 +385,8 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
 
                 if ( likely(! in_use) ) {
+                    accepted = NULL;
+                    valid = false;
                     ext->open(fd, trim(paramptr), &accepted, &valid); 
                     if ( likely(valid) ) {
                         if ( unlikely(NULL == (header->ws_extensions = WSS_realloc((void **) &header->ws_extensions, header->ws_extensions_count*sizeof(wss_ext_t *), (header->ws_extensions_count+1)*sizeof(wss_ext_t *)))) ) {
diff --git a/src/message.c b/src/message.c
index da9dcb6..043c83d 100644
--- a/src/message.c
+++ b/src/message.c
@@ -70,6 +70,10 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    // Messages have to be queued in the order they went through the extensions,
+    // as these might keep state between the messages
+    pthread_mutex_lock(&session->lock_send);
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -87,6 +91,7 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        pthread_mutex_unlock(&session->lock_send);
         WSS_session_jobs_dec(session);
 
         return;
@@ -95,6 +100,7 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
         WSS_log_error("Unable to allocate message structure");
 
+        pthread_mutex_unlock(&session->lock_send);
         WSS_free((void **) &out);
 
         WSS_session_jobs_dec(session);
@@ -110,6 +116,7 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
         WSS_log_error("Failed to acquire space in ringbuffer");
 
+        pthread_mutex_unlock(&session->lock_send);
         WSS_message_free(m);
 
         WSS_session_jobs_dec(session);
@@ -120,6 +127,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     session->messages[off] = m;
     ringbuf_produce(session->ringbuf, &w);
 
+    pthread_mutex_unlock(&session->lock_send);
+
     __atomic_add_fetch(&session->pending, 1, __ATOMIC_SEQ_CST);
 
     WSS_message_flush(serv, sess);
diff --git a/src/session.c b/src/session.c
index 90130a0..8825653 100644
--- a/src/session.c
+++ b/src/session.c
@@ -118,6 +118,17 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         return NULL;
     }
 
+    if ( unlikely((err = pthread_mutex_init(&session->lock_send, NULL)) != 0) ) {
+        WSS_log_error("Unable to initialize session send lock: %s", strerror(err));
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     session->fd = fd;
     session->port = port;
     session->header = NULL;
@@ -129,6 +140,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         pthread_mutex_destroy(&session->lock);
         pthread_mutex_destroy(&session->lock_jobs);
         pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutex_destroy(&session->lock_send);
         pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
         pthread_rwlock_unlock(&lock);
@@ -165,6 +177,10 @@ static wss_error_t session_delete(wss_session_t *session) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
 
+        if ( unlikely((err = pthread_mutex_destroy(&session->lock_send)) != 0) ) {
+            err = WSS_SESSION_LOCK_DESTROY_ERROR;
+        }
+
         WSS_log_trace("Free ip string");
         WSS_free((void **) &session->ip);
 
@@ -176,7 +192,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
diff --git a/src/worker.c b/src/worker.c
index 2f49d82..2e385e1 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1358,14 +1358,26 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_debug("Unmasked message (%d bytes): %s\n", msg_length, msg);
 
+            // An extension unsets the rsv bits it has handled
+            code = 0;
+            for (j = starting_frame; likely(j <= i); j++) {
+                if ( unlikely(frames[j]->rsv1 || frames[j]->rsv2 || frames[j]->rsv3) ) {
+                    WSS_log_trace("Protocol Error: rsv bits that no extension was able to handle");
+                    code = CLOSE_PROTOCOL;
+                }
+            }
+
             // Check utf8 for text frames
-            if ( unlikely(frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length)) ) {
+            if ( unlikely(code == 0 && frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length)) ) {
                 WSS_log_trace("UTF8 Error: the text was not UTF8 encoded correctly");
+                code = CLOSE_UTF8;
+            }
 
+            if ( unlikely(code != 0) ) {
                 for (j = starting_frame; likely(j < frames_length); j++) {
                     WSS_free_frame(frames[j]);
                 }
-                frames[starting_frame] = WSS_closing_frame(CLOSE_UTF8, NULL);
+                frames[starting_frame] = WSS_closing_frame(code, NULL);
                 frames_length = starting_frame+1;
                 i = starting_frame;
                 len = 1;
-- 
2.43.0


From 1eebcccfea4e1bc2d9c38e497e77d5043b87db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 15/48] fix: keep accepting connections after an aborted or
 interrupted accept

---
 src/worker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 2e385e1..e5eda14 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -472,6 +472,11 @@ void WSS_connect(wss_server_t *server) {
                 break;
             }
 
+            // Says nothing about the remaining connections
+            if ( likely(EINTR == errno || ECONNABORTED == errno) ) {
+                continue;
+            }
+
             WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
-- 
2.43.0


From 4ec56235a80b4b7db9155d55e92d64ca133b67ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 16/48] fix: initialise the cookies of a header and end
 extensions opened by a favicon request

---
 src/worker.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index e5eda14..720a434 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -646,6 +646,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         header->version             = NULL;
         header->path                = NULL;
         header->host                = NULL;
+        header->cookies             = NULL;
         header->payload             = NULL;
         header->length              = 0;
         header->ws_version          = 0;
@@ -764,6 +765,11 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     // Serve favicon
     if (strlen(header->path) == 12 && strncmp(header->path, "/favicon.ico", 12) == 0) {
+        // Extensions were opened while the header was parsed
+        for (i = 0; i < header->ws_extensions_count; i++) {
+            header->ws_extensions[i]->ext->close(session->fd);
+        }
+
         message = favicon_response(header, code, server->config);
         if (NULL != message) {
             WSS_free_header(header);
-- 
2.43.0


From 483eebe05ca7684c854acfcedb31fe41579e04d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 17/48] fix: do not answer with the unsupported HTTP version of
 the client

---
 src/header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/header.c b/src/header.c
index d1847f8..70700ae 100644
--- a/src/header.c
+++ b/src/header.c
@@ -196,6 +196,8 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
     if ( unlikely(strinarray(header->version, versions,
                 sizeof(versions)/sizeof(versions[0])) != 0) ) {
         WSS_log_trace("HTTP version that the client is using is unknown.");
+        // The response must not be labelled with it
+        header->version = NULL;
         return HttpStatus_HTTPVersionNotSupported;
     }
 
-- 
2.43.0


From 6c150776d1c09491f57b47396a459aa428e43523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 18/48] fix: a late disconnect event closed the next client
 with the same file descriptor

A disconnect event waiting in the queue of the pool while the session it
was meant for is closed by another worker was applied to whichever client
got the file descriptor next.
---
 src/worker.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 720a434..030d488 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -7,6 +7,7 @@
 #include <math.h> 				/* log10 */
 #include <time.h>
 #include <locale.h>
+#include <poll.h>               /* poll */
 
 #include <sys/types.h>          /* socket, setsockopt, accept, send, recv */
 #include <sys/stat.h> 			/* stat */
@@ -37,6 +38,10 @@
 #include "predict.h"
 #include "ssl.h"
 
+#ifndef POLLRDHUP
+#define POLLRDHUP  0x2000
+#endif
+
 /**
  * Function that generates a handshake response, used to authorize a websocket
  * session.
@@ -1532,6 +1537,7 @@ void WSS_work(void *args) {
     wss_session_t *session;
     long unsigned int ms;
     struct timespec now;
+    struct pollfd disconnected;
     wss_thread_args_t *arguments = (wss_thread_args_t *) args;
     wss_server_t *server = (wss_server_t *) arguments->server;
     wss_session_state_t session_state = arguments->state;
@@ -1551,6 +1557,19 @@ void WSS_work(void *args) {
         return;
     }
 
+    // A disconnect event that has been waiting in the queue could concern an
+    // earlier client with the same filedescriptor
+    if ( unlikely(session_state == CLOSING) ) {
+        disconnected.fd = fd;
+        disconnected.events = POLLRDHUP;
+        disconnected.revents = 0;
+        if ( unlikely(0 == poll(&disconnected, 1, 0)) ) {
+            WSS_log_trace("Session %d is not disconnected", fd);
+            WSS_session_jobs_dec(session);
+            return;
+        }
+    }
+
     pthread_mutex_lock(&session->lock);
 
     session->working = true;
-- 
2.43.0


From 1e8fbc477645aa0683fba86567c1930cfd1b962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 19/48] fix: SIGINT received while starting was forgotten

The state HALTING set by the signal handler was overwritten with RUNNING,
and further signals found the server halting already.
---
 src/server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 7043ddc..99faf13 100644
--- a/src/server.c
+++ b/src/server.c
@@ -494,7 +494,12 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Setting to running state");
 
-    WSS_server_set_state(RUNNING);
+    // A signal received while starting has already asked the server to halt
+    pthread_mutex_lock(&state.lock);
+    if ( likely(STARTING == state.state) ) {
+        state.state = RUNNING;
+    }
+    pthread_mutex_unlock(&state.lock);
 
     WSS_log_trace("Creating HTTP Instance");
 
-- 
2.43.0


From a5bdbf8c71ae0710d466f4e960292dce4377bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 20/48] fix: accepting several pending connections overflowed
 the stack

The server socket is an IPv6 socket, but the address of the client was
stored in an IPv4 address structure, which the second accept overflowed as
the length was not reset. The address given to the subprotocol was always
0.0.0.0.
---
 src/worker.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 030d488..3a80b56 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -459,7 +459,9 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
  */
 void WSS_connect(wss_server_t *server) {
     int client_fd;
-    struct sockaddr_in client;
+    // The server socket is an IPv6 socket
+    struct sockaddr_in6 client;
+    char ip[INET6_ADDRSTRLEN];
     size_t ringbuf_obj_size;
     socklen_t client_size;
     wss_session_t *session;
@@ -467,10 +469,10 @@ void WSS_connect(wss_server_t *server) {
     // Workers of both the HTTP and the HTTPS server, and the cleanup thread
     size_t workers = 2*server->config->pool_workers+1;
 
-    client_size	= sizeof(client);
-    memset((char *) &client, '\0', sizeof(client));
-
     while (1) {
+        client_size	= sizeof(client);
+        memset((char *) &client, '\0', sizeof(client));
+
         if ( (client_fd = accept(server->fd, (struct sockaddr *) &client,
                         &client_size)) < 0 ) {
             if ( likely(EAGAIN == errno || EWOULDBLOCK == errno) ) {
@@ -492,8 +494,16 @@ void WSS_connect(wss_server_t *server) {
 
         WSS_log_trace("Client filedescriptor was set to non-blocking");
 
+        // Show IPv4 clients with their IPv4 address
+        memset(ip, '\0', INET6_ADDRSTRLEN);
+        if ( likely(IN6_IS_ADDR_V4MAPPED(&client.sin6_addr)) ) {
+            inet_ntop(AF_INET, &client.sin6_addr.s6_addr[12], ip, INET6_ADDRSTRLEN);
+        } else {
+            inet_ntop(AF_INET6, &client.sin6_addr, ip, INET6_ADDRSTRLEN);
+        }
+
         if ( unlikely(NULL == (session = WSS_session_add(client_fd,
-                        inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+                        ip, ntohs(client.sin6_port)))) ) {
             continue;
         }
 
-- 
2.43.0


From 83a756e4a9a2716cff2865dba0cb7d38f70e11f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 21/48] fix: acquiring space in the ring buffer failed although
 it was not full

A producer that was overtaken between reading 'next' and 'written' compared
offsets of different times, and the message was dropped.
---
 src/ringbuf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index 9676aa5..462aba0 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -267,7 +267,7 @@ ringbuf_acquire(ringbuf_t *rbuf, ringbuf_worker_t **pw, size_t len)
 
 	do {
 		ringbuf_off_t written;
-
+retry:
 		/*
 		 * Get the stable 'next' offset.  Save the observed 'next'
 		 * value (i.e. the 'seen' offset), but mark the value as
@@ -289,6 +289,13 @@ ringbuf_acquire(ringbuf_t *rbuf, ringbuf_worker_t **pw, size_t len)
 		target = next + len;
 		written = rbuf->written;
 		if (__predict_false(next < written && target >= written)) {
+			/*
+			 * The offsets only tell that the buffer is full, if
+			 * 'next' did not change before 'written' was read.
+			 */
+			if (rbuf->next != seen)
+				goto retry;
+
 			/* The producer must wait. */
 			w->seen_off = RBUF_OFF_MAX;
 			if (w->registered == temp_registered) {
@@ -314,6 +321,9 @@ ringbuf_acquire(ringbuf_t *rbuf, ringbuf_worker_t **pw, size_t len)
 			 */
 			target = exceed ? (WRAP_LOCK_BIT | len) : 0;
 			if ((target & RBUF_OFF_MASK) >= written) {
+				if (rbuf->next != seen)
+					goto retry;
+
 				w->seen_off = RBUF_OFF_MAX;
 				if (w->registered == temp_registered) {
 					*pw = NULL;
-- 
2.43.0


From 64e5b7cd29a0ffc6a5c532bd3c6827fec057e2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 22/48] fix: a second threadpool_destroy returned with the pool
 locked

---
 src/pool.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..59d346f 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -231,6 +231,7 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
     do {
         /* Already shutting down */
         if (pool->shutdown) {
+            pthread_mutex_unlock(&(pool->lock));
             err = threadpool_shutdown;
             break;
         }
-- 
2.43.0


From b97668c136796752f284e76802c96b16df920e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 23/48] fix: pings and pongs of the application are one frame
 of at most 125 bytes

---
 src/frame.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index 60fc9ad..beac5ea 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -503,6 +503,16 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
 
     frames_count = MAX(1, (size_t)ceil((double)message_length/(double)config->size_frame));
 
+    // Control frames are never fragmented and carry at most 125 bytes
+    if ( unlikely(opcode == PING_FRAME || opcode == PONG_FRAME) ) {
+        if ( unlikely(message_length > 125) ) {
+            WSS_log_error("Control frames cannot carry more than 125 bytes");
+            *fs = NULL;
+            return 0;
+        }
+        frames_count = 1;
+    }
+
     if ( unlikely(NULL == (*fs = WSS_malloc(frames_count*sizeof(wss_frame_t *)))) ) {
         WSS_log_error("Unable to allocate closing frame");
         *fs = NULL;
@@ -556,7 +566,10 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
-        frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
+        frame->applicationDataLength = message_length-(config->size_frame*i);
+        if (i+1 < frames_count) {
+            frame->applicationDataLength = config->size_frame;
+        }
         if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength+1))) ) {
             WSS_log_error("Unable to allocate frame application data");
             for (j = 0; j < i; j++) {
-- 
2.43.0


From 8f3d2a63aa6830ea01f71ce942b003eb515acf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 24/48] fix: long close reasons are not cut inside a character

---
 src/frame.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index beac5ea..fa5aa7a 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -536,7 +536,14 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         // The reason is not necessarily NUL terminated and has to fit into the
         // 125 bytes of a control frame.
         if ( likely(NULL != message) ) {
-            message_length = MIN(message_length-(msg-message), sizeof(reason)-1);
+            message_length -= msg-message;
+            if ( unlikely(message_length > sizeof(reason)-1) ) {
+                // Do not cut the reason inside an UTF-8 character
+                message_length = sizeof(reason)-1;
+                for (i = 0; i < 3 && (msg[message_length] & 0xC0) == 0x80; i++) {
+                    message_length--;
+                }
+            }
             memcpy(reason, msg, message_length);
             reason[message_length] = '\0';
             msg = reason;
-- 
2.43.0


From 313441abbb2851c8e8e8dcec44bfecc3efb326ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 25/48] fix: creating a ping frame crashed when out of memory

---
 src/frame.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/frame.c b/src/frame.c
index fa5aa7a..f2699de 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -44,6 +44,11 @@
  */
 static char *random_bytes(int length) {
     char *res = WSS_malloc(length);
+
+    if ( unlikely(NULL == res) ) {
+        return NULL;
+    }
+
     /* Seed number for rand() */
     srand((unsigned int) time(0) + getpid());
 
-- 
2.43.0


From f64778045aa7386ac8d8148bf1e79c81e7c620da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 26/48] fix: a message that cannot be framed crashed the
 extensions

---
 src/message.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 043c83d..9e8bcce 100644
--- a/src/message.c
+++ b/src/message.c
@@ -160,7 +160,11 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
 
     WSS_log_trace("Creating frames");
 
-    frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames);
+    if ( unlikely(0 == (frames_count = WSS_create_frames(server->config, opcode, message, message_length, &frames))) ) {
+        WSS_log_error("Unable to create frames");
+        WSS_session_jobs_dec(session);
+        return;
+    }
 
     WSS_message_send_frames(server, session, frames, frames_count);
 
-- 
2.43.0


From f0a31bad0e9d286ceaccc4e18ad741393b423a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 27/48] fix: refuse a request for the limit it exceeds, and
 none within all limits

A request whose target, header and body are each within their limits could be
refused as the bound on the whole request did not account for the request line
and the line endings, and an oversized target or header was answered with
413 instead of 414 or 431.
---
 include/worker.h |  1 +
 src/worker.c     | 31 +++++++++++--------------------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/include/worker.h b/include/worker.h
index 8443cfd..90c404c 100644
--- a/include/worker.h
+++ b/include/worker.h
@@ -19,6 +19,7 @@
 
 #define MAGIC_WEBSOCKET_KEY         "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
 #define GMT_FORMAT_LENGTH           30
+#define REQUEST_LINE_LENGTH         64
 #define HTTP_STATUS_LINE            "%s %d %s\r\n"
 #define HTTP_ICO_HEADERS            "Content-Type: image/x-icon\r\n"\
                                     "Content-Length: %d\r\n"\
diff --git a/src/worker.c b/src/worker.c
index 3a80b56..eeecb65 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -639,6 +639,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     wss_message_t *message;
     enum HttpStatus_Code code;
     char *buffer;
+    bool exceeded = false;
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_fatal("Unable to allocate buffer");
@@ -722,33 +723,23 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 header->length += n;
                 memset(buffer, '\0', server->config->size_buffer);
 
-                // Check if payload from client is too large for the server to handle.
-                // If so write error back to the client
-                if ( unlikely(header->length > (server->config->size_header+server->config->size_uri+server->config->size_payload)) ) {
-                    WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
-
-                    message = http_response(header, HttpStatus_PayloadTooLarge,
-                            "The given payload is too large for the server to handle");
-                    WSS_free_header(header);
-                    WSS_free((void **)&buffer);
-
-                    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                        session->state = WRITING;
-                        session->event = READ;
-                        WSS_write(server, session);
-                    }
-
-                    return;
+                // No request within the limits can be larger than this (besides
+                // what is limited it has a request line and line endings), which
+                // limit is exceeded is found out when parsing it.
+                if ( unlikely(header->length > server->config->size_uri+3*server->config->size_header+
+                            server->config->size_payload+REQUEST_LINE_LENGTH) ) {
+                    WSS_log_trace("HTTP request is too large for the server to handle");
+                    exceeded = true;
                 }
                 break;
         }
-    } while ( likely(n != 0) );
+    } while ( likely(n != 0 && ! exceeded) );
 
     WSS_free((void **)&buffer);
 
     // Wait for further IO until the whole header has been received
-    if ( unlikely(NULL == header->content || (strlen(header->content) == header->length
-                    && NULL == strstr(header->content, "\r\n\r\n"))) ) {
+    if ( unlikely(! exceeded && (NULL == header->content || (strlen(header->content) == header->length
+                    && NULL == strstr(header->content, "\r\n\r\n")))) ) {
         WSS_log_trace("Header is not complete yet, will wait for more");
 
         session->header = header;
-- 
2.43.0


From d2761458486b91ed503c1a9fd5771dfbe12b09cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 28/48] fix: refuse a fragment too many when its header is
 there, and count fragments per message

The payload of a fragment beyond the limit was awaited first, and a stray
continuation frame after a whole message was counted as a part of it.
---
 src/worker.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index eeecb65..3b3ea6c 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1065,9 +1065,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
         // Check if we were forced to read beyond the payload to create a full
         // frame. There is no need to wait for the rest of a frame, that is too
-        // large, when its header is complete.
+        // large or one too many of its message, when its header is complete.
         if ( unlikely(offset > payload_length) &&
-                likely(frame->payloadLength <= server->config->size_frame ||
+                likely((frame->payloadLength <= server->config->size_frame &&
+                        (frame->opcode != CONTINUATION_FRAME || fragments < server->config->max_frames)) ||
                     offset - frame->payloadLength > payload_length) ) {
             WSS_log_trace("Detected that data was missing in order to complete frame, will wait for more");
 
@@ -1201,6 +1202,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
             frames[frames_length-1] = frame;
         }
+        if (frame->fin && frame->opcode <= BINARY_FRAME) {
+            fragments = 0;
+        }
 
         // Close
         if ( unlikely(frame->opcode == CLOSE_FRAME) ) {
-- 
2.43.0


From 5337c34b768039f16269dab02e76807e81a1e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 29/48] fix: end connections that stay without a handshake
 longer than the client timeout

Clients that connected but never sent a (complete) request were kept forever,
though the client timeout is documented to disconnect inactive clients.
---
 src/server.c  | 13 ++++++++-----
 src/session.c |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index 99faf13..b4b528c 100644
--- a/src/server.c
+++ b/src/server.c
@@ -84,13 +84,13 @@ static void cleanup_session(int fd) {
 
     pthread_mutex_lock(&session->lock);
 
-    if (! session->handshaked || session->closing) {
+    if (session->closing) {
         pthread_mutex_unlock(&session->lock);
         WSS_session_jobs_dec(session);
         return;
     }
 
-    if (NULL != session->ssl && session->ssl_connected) {
+    if (NULL != session->ssl) {
         server = servers.https;
     }
 
@@ -103,9 +103,12 @@ static void cleanup_session(int fd) {
     if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
         WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
 
-        WSS_log_trace("Sending close frame", fd);
+        // Frames mean nothing to a client, that is not done with its handshake
+        if ( likely(session->handshaked) ) {
+            WSS_log_trace("Sending close frame", fd);
 
-        write_control_frame(server, WSS_closing_frame(CLOSE_TRY_AGAIN, NULL), session);
+            write_control_frame(server, WSS_closing_frame(CLOSE_TRY_AGAIN, NULL), session);
+        }
 
         session->closing = true;
 
@@ -116,7 +119,7 @@ static void cleanup_session(int fd) {
         return;
 
     // Ping session to keep it alive
-    } else if (server->config->timeout_pings > 0 ) {
+    } else if (session->handshaked && server->config->timeout_pings > 0 ) {
         WSS_log_info("Pinging session %d", fd);
 
         frame = WSS_ping_frame();
diff --git a/src/session.c b/src/session.c
index 8825653..468484e 100644
--- a/src/session.c
+++ b/src/session.c
@@ -133,6 +133,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     session->port = port;
     session->header = NULL;
     session->state = CONNECTING;
+    clock_gettime(CLOCK_MONOTONIC, &session->alive);
 
     length = strlen(ip);
     if ( unlikely(NULL == (session->ip = (char *) WSS_malloc( (length+1)*sizeof(char)))) ) {
-- 
2.43.0


From aed8d9b1da5c1f87dabb73a4216088be7d13c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 30/48] fix: refuse compressed messages that end in the midst
 of a block

Inflating the message together with the omitted tail has to end with a
complete block. Otherwise the part of the message that could be inflated was
handed to the application, and what followed on the connection was inflated
from the midst of that block.
---
 extensions/permessage-deflate/permessage-deflate.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index c4860ec..7e4064e 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -522,6 +522,7 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     size_t current_length = 0;
     size_t message_length = 0;
     int flush_mask = Z_SYNC_FLUSH;
+    bool complete = false;
     unsigned char window[1 << CLIENT_MAX_WINDOW_BITS];
     unsigned int window_length;
 
@@ -580,9 +581,14 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
         comp->decompressor.next_out = (unsigned char *)message+message_length;
         switch (inflate(&comp->decompressor, flush_mask)) {
             case Z_OK:
+                // Whether all of the data forms complete blocks
+                complete = (comp->decompressor.data_type == 128);
+                break;
             case Z_BUF_ERROR:
                 break;
             case Z_STREAM_END:
+                complete = true;
+
                 // A final block was used, further blocks may refer to the data
                 // before it
                 if ( unlikely(Z_OK != inflateGetDictionary(&comp->decompressor, window, &window_length) ||
@@ -603,6 +609,12 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
 
     allocs.free(payload);
 
+    // A message that stops in the midst of a block is invalid
+    if ( unlikely(! complete) ) {
+        allocs.free(message);
+        return;
+    }
+
     // unset rsv1 bit
     frames[0]->rsv1 = false;
     current_length = 0;
-- 
2.43.0


From 77ae40c244526f81e108d5d0767784203de5c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 31/48] fix: do not free a string of the configuration twice

When a file with hosts is refused before the ports are added to them,
WSS_config_free took a string of the JSON document for the block of the names
with ports and freed it, followed by freeing the whole document. The names
are now kept in the block of the list itself.
---
 src/config.c | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/src/config.c b/src/config.c
index d7d3938..0207062 100644
--- a/src/config.c
+++ b/src/config.c
@@ -35,23 +35,21 @@ static wss_error_t config_add_port_to_hosts(wss_config_t *config) {
         ports++;
     }
 
-    if ( unlikely(NULL == (config->hosts = (char **)WSS_realloc(
-                    (void **)&config->hosts, hosts_length*sizeof(char *), hosts_length*(ports+1)*sizeof(char *)))) ) {
-        WSS_log_error("Unable to allocate new hosts");
-        WSS_config_free(config);
-        return WSS_MEMORY_ERROR;
-    }
-    config->hosts_length = hosts_length*(ports+1);
-
     for (i = 0; likely(i < hosts_length); i++) {
         size += strlen(config->hosts[i]);
     }
 
-    if ( unlikely(NULL == (extra = WSS_malloc((hosts_length*digits + hosts_length*ports*2 + size*ports)*sizeof(char)))) ) {
-        WSS_log_error("Unable to allocate extra");
+    // The names with the ports are kept behind the pointers, hence they are
+    // freed together with those
+    if ( unlikely(NULL == (config->hosts = (char **)WSS_realloc(
+                    (void **)&config->hosts, hosts_length*sizeof(char *), hosts_length*(ports+1)*sizeof(char *)
+                    + (hosts_length*digits + hosts_length*ports*2 + size*ports)*sizeof(char)))) ) {
+        WSS_log_error("Unable to allocate new hosts");
         WSS_config_free(config);
         return WSS_MEMORY_ERROR;
     }
+    config->hosts_length = hosts_length*(ports+1);
+    extra = (char *)(config->hosts+config->hosts_length);
 
     if ( likely(config->port_http > 0) ) {
         for (i = 0; likely(i < hosts_length); i++) {
@@ -595,23 +593,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
  * @return 			[wss_error_t]       "The error status"
  */
 wss_error_t WSS_config_free(wss_config_t *config) {
-    unsigned int amount = 1;
-
     if ( likely(NULL != config) ) {
-        if ( likely(config->port_http > 0) ) {
-            amount++;
-        }
-
-        if ( likely(config->port_https > 0) ) {
-            amount++;
-        }
-
-        if ( likely(amount > 1) ) {
-            if ( NULL != config->hosts ) {
-                WSS_free((void **)&config->hosts[(config->hosts_length/amount)*(amount-1)]);
-            }
-        }
-
         if ( likely(NULL != config->data) ) {
             json_value_free_ex(&settings, config->data);
             config->data = NULL;
-- 
2.43.0


From 2cd0141afba72028cc804e48568b8e44e98449b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 32/48] fix: compare the keys of the configuration as a whole

A key that merely starts with hosts, origins, queries or setup was taken for
that setting and replaced what was written for it.
---
 src/config.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config.c b/src/config.c
index 0207062..9649fbd 100644
--- a/src/config.c
+++ b/src/config.c
@@ -128,7 +128,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                 value = config->data->u.object.values[i].value;
                 name = config->data->u.object.values[i].name;
 
-                if ( strncmp(name, "hosts", 5) == 0 ) {
+                if ( strcmp(name, "hosts") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -156,7 +156,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->hosts_length = length;
                     }
-                } else if ( strncmp(name, "origins", 7) == 0 ) {
+                } else if ( strcmp(name, "origins") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -184,7 +184,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->origins_length = length;
                     }
-                } else if ( strncmp(name, "paths", 7) == 0 ) {
+                } else if ( strcmp(name, "paths") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -212,7 +212,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->paths_length = length;
                     }
-                } else if ( strncmp(name, "queries", 7) == 0 ) {
+                } else if ( strcmp(name, "queries") == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
@@ -240,7 +240,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                         config->queries_length = length;
                     }
-                } else if ( strncmp(name, "setup", 5) == 0 && likely(value->type == json_object) ) {
+                } else if ( strcmp(name, "setup") == 0 && likely(value->type == json_object) ) {
                     if ( (val = json_value_find(value, "subprotocols")) != NULL ) {
                         if ( val->type == json_array) {
                             length = val->u.array.length;
-- 
2.43.0


From 27c5c26f715a06b493957189bd9789cec9adc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 33/48] fix: only look for a setting in the object it belongs
 to

The search for a key descended into the values of other keys, so that an
equally named key nested in one of these was used instead, if it came first.
---
 src/config.c | 101 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 39 deletions(-)

diff --git a/src/config.c b/src/config.c
index 9649fbd..2b39808 100644
--- a/src/config.c
+++ b/src/config.c
@@ -91,6 +91,29 @@ static void WSS_config_release (void * ptr, void * user_data)
    WSS_free(&ptr);
 }
 
+/**
+ * Finds the value of a key of a JSON object
+ *
+ * @param   object  [json_value *]      "The JSON object"
+ * @param   key     [const char *]      "The key to look for"
+ * @return 			[json_value *]      "The value or NULL if the object does not have the key"
+ */
+static json_value *config_find(json_value *object, const char *key) {
+    unsigned int i;
+
+    if ( unlikely(object->type != json_object) ) {
+        return NULL;
+    }
+
+    for (i = 0; likely(i < object->u.object.length); i++) {
+        if ( strcmp(object->u.object.values[i].name, key) == 0 ) {
+            return object->u.object.values[i].value;
+        }
+    }
+
+    return NULL;
+}
+
 /**
  * Loads configuration from JSON file
  *
@@ -241,7 +264,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         config->queries_length = length;
                     }
                 } else if ( strcmp(name, "setup") == 0 && likely(value->type == json_object) ) {
-                    if ( (val = json_value_find(value, "subprotocols")) != NULL ) {
+                    if ( (val = config_find(value, "subprotocols")) != NULL ) {
                         if ( val->type == json_array) {
                             length = val->u.array.length;
 
@@ -260,7 +283,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
                                 for (j = 0; likely(j < length); j++) {
                                     if ( likely(val->u.array.values[j]->type == json_object) ) {
-                                        if ( (temp = json_value_find(val->u.array.values[j], "file")) != NULL ) {
+                                        if ( (temp = config_find(val->u.array.values[j], "file")) != NULL ) {
                                             if ( temp->type == json_string ) {
                                                 config->subprotocols[j] =
                                                     (char *) temp->u.string.ptr;
@@ -272,7 +295,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                                             }
                                         }
 
-                                        if ( (temp = json_value_find(val->u.array.values[j], "config")) != NULL ) {
+                                        if ( (temp = config_find(val->u.array.values[j], "config")) != NULL ) {
                                             if ( temp->type == json_string ) {
                                                 config->subprotocols_config[j] =
                                                     (char *) temp->u.string.ptr;
@@ -295,7 +318,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                     }
 
-                    if ( (val = json_value_find(value, "extensions")) != NULL ) {
+                    if ( (val = config_find(value, "extensions")) != NULL ) {
                         if ( likely(val->type == json_array) ) {
                             length = val->u.array.length;
 
@@ -314,7 +337,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
                                 for (j = 0; likely(j < length); j++) {
                                     if ( likely(val->u.array.values[j]->type == json_object) ) {
-                                        if ( (temp = json_value_find(val->u.array.values[j], "file")) != NULL ) {
+                                        if ( (temp = config_find(val->u.array.values[j], "file")) != NULL ) {
                                             if ( likely(temp->type == json_string) ) {
                                                 config->extensions[j] =
                                                     (char *) temp->u.string.ptr;
@@ -326,7 +349,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                                             }
                                         }
 
-                                        if ( (temp = json_value_find(val->u.array.values[j], "config")) != NULL ) {
+                                        if ( (temp = config_find(val->u.array.values[j], "config")) != NULL ) {
                                             if ( likely(temp->type == json_string) ) {
                                                 config->extensions_config[j] =
                                                     (char *) temp->u.string.ptr;
@@ -349,121 +372,121 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                     }
 
-                    if ( (val = json_value_find(value, "favicon")) != NULL ) {
+                    if ( (val = config_find(value, "favicon")) != NULL ) {
                         if ( likely(val->type == json_string) ) {
                             config->favicon = (char *)val->u.string.ptr;
                         }
                     }
 
-                    if ( (val = json_value_find(value, "log_level")) != NULL ) {
+                    if ( (val = config_find(value, "log_level")) != NULL ) {
                         if ( likely(val->type == json_integer) ) {
                             config->log = (unsigned int)val->u.integer;
                         }
                     }
 
-                    if ( (val = json_value_find(value, "timeouts")) != NULL ) {
+                    if ( (val = config_find(value, "timeouts")) != NULL ) {
                         if ( likely(val->type == json_object) ) {
                             // Getting poll timeout 
-                            temp = json_value_find(val, "poll");
+                            temp = config_find(val, "poll");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->timeout_poll = temp->u.integer;
                             }
 
                             // Getting read timeout 
-                            temp = json_value_find(val, "read");
+                            temp = config_find(val, "read");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->timeout_read = temp->u.integer;
                             }
 
                             // Getting write timeout 
-                            temp = json_value_find(val, "write");
+                            temp = config_find(val, "write");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->timeout_write = temp->u.integer;
                             }
 
                             // Getting client timeout 
-                            temp = json_value_find(val, "client");
+                            temp = config_find(val, "client");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->timeout_client = temp->u.integer;
                             }
 
                             // Getting amount of client pings 
-                            temp = json_value_find(val, "pings");
+                            temp = config_find(val, "pings");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->timeout_pings = temp->u.integer;
                             }
                         }
                     }
 
-                    if ( (val = json_value_find(value, "ssl")) != NULL ) {
+                    if ( (val = config_find(value, "ssl")) != NULL ) {
                         if ( likely(val->type == json_object) ) {
                             // Getting SSL key path
-                            temp = json_value_find(val, "key");
+                            temp = config_find(val, "key");
                             if ( temp != NULL && likely(temp->type == json_string) ) {
                                 config->ssl_key = (char *)temp->u.string.ptr;
                             }
 
                             // Getting SSL cert path
-                            temp = json_value_find(val, "cert");
+                            temp = config_find(val, "cert");
                             if ( temp != NULL && likely(temp->type == json_string) ) {
                                 config->ssl_cert = (char *)temp->u.string.ptr;
                             }
 
                             // Getting SSL CA cert path
-                            temp = json_value_find(val, "ca_file");
+                            temp = config_find(val, "ca_file");
                             if ( temp != NULL && likely(temp->type == json_string) ) {
                                 config->ssl_ca_file = (char *)temp->u.string.ptr;
                             }
 
                             // Getting SSL CA cert path
-                            temp = json_value_find(val, "ca_path");
+                            temp = config_find(val, "ca_path");
                             if ( temp != NULL && likely(temp->type == json_string) ) {
                                 config->ssl_ca_path = (char *)temp->u.string.ptr;
                             }
 
                             // Getting whether SSL should use compression 
-                            temp = json_value_find(val, "compression");
+                            temp = config_find(val, "compression");
                             if ( temp != NULL && likely(temp->type == json_boolean) ) {
                                 config->ssl_compression = temp->u.boolean;
                             }
 
                             // Getting whether peer certificate is required
-                            temp = json_value_find(val, "peer_cert");
+                            temp = config_find(val, "peer_cert");
                             if ( temp != NULL && likely(temp->type == json_boolean) ) {
                                 config->ssl_peer_cert = temp->u.boolean;
                             }
 
                             // Getting diffie helman parameters to use
-                            temp = json_value_find(val, "dhparam");
+                            temp = config_find(val, "dhparam");
                             if ( temp != NULL && likely(temp->type == json_string) ) {
                                 config->ssl_dhparam = (char *)temp->u.string.ptr;
                             }
 
                             // Getting list of ciphers to use for SSL
-                            temp = json_value_find(val, "cipher_list");
+                            temp = config_find(val, "cipher_list");
                             if ( temp != NULL && likely(temp->type == json_string) ) {
                                 config->ssl_cipher_list = (char *)temp->u.string.ptr;
                             }
 
                             // Getting suites of ciphers to use for TLS 1.3 
-                            temp = json_value_find(val, "cipher_suites");
+                            temp = config_find(val, "cipher_suites");
                             if ( temp != NULL && likely(temp->type == json_string) ) {
                                 config->ssl_cipher_suites = (char *)temp->u.string.ptr;
                             }
                         }
                     }
 
-                    if ( (val = json_value_find(value, "port")) != NULL ) {
+                    if ( (val = config_find(value, "port")) != NULL ) {
                         if ( likely(val->type == json_object) ) {
                             // Getting HTTP port
-                            temp = json_value_find(val, "http");
+                            temp = config_find(val, "http");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->port_http =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting HTTPS port
-                            temp = json_value_find(val, "https");
+                            temp = config_find(val, "https");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->port_https =
                                     (unsigned int)temp->u.integer;
@@ -471,59 +494,59 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                     }
 
-                    if ( (val = json_value_find(value, "size")) != NULL ) {
+                    if ( (val = config_find(value, "size")) != NULL ) {
                         if ( likely(val->type == json_object) ) {
                             // Getting buffer size
-                            temp = json_value_find(val, "buffer");
+                            temp = config_find(val, "buffer");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->size_buffer =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting thread size
-                            temp = json_value_find(val, "thread");
+                            temp = config_find(val, "thread");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->size_thread =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting uri size
-                            temp = json_value_find(val, "uri");
+                            temp = config_find(val, "uri");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->size_uri =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting header size
-                            temp = json_value_find(val, "header");
+                            temp = config_find(val, "header");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->size_header =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting ringbuffer size
-                            temp = json_value_find(val, "ringbuffer");
+                            temp = config_find(val, "ringbuffer");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->size_ringbuffer =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting payload size
-                            temp = json_value_find(val, "payload");
+                            temp = config_find(val, "payload");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->size_payload =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting frame payload size
-                            temp = json_value_find(val, "frame");
+                            temp = config_find(val, "frame");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->size_frame =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting max frame count for fragmented messages
-                            temp = json_value_find(val, "fragmented");
+                            temp = config_find(val, "fragmented");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->max_frames =
                                     (unsigned int)temp->u.integer;
@@ -531,17 +554,17 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         }
                     }
 
-                    if ( (val = json_value_find(value, "pool")) != NULL ) {
+                    if ( (val = config_find(value, "pool")) != NULL ) {
                         if ( likely(val->type == json_object) ) {
                             // Getting amount of workers
-                            temp = json_value_find(val, "workers");
+                            temp = config_find(val, "workers");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->pool_workers =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting amount of retries
-                            temp = json_value_find(val, "retries");
+                            temp = config_find(val, "retries");
                             if ( temp != NULL && likely(temp->type == json_integer) ) {
                                 config->pool_retries =
                                     (unsigned int)temp->u.integer;
-- 
2.43.0


From 62881f4595099e1c07a54f201984bd121619db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:20 +0000
Subject: [PATCH 34/48] fix: ignore settings that are out of range

Numbers that do not fit into a setting were truncated to something else, e.g.
a size of 4294967296 to 0, and ports above 65535 were taken modulo 65536.
---
 src/config.c | 59 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/config.c b/src/config.c
index 2b39808..727f734 100644
--- a/src/config.c
+++ b/src/config.c
@@ -2,6 +2,8 @@
 #include <stdlib.h> 			/* abs, free */
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen,
                                    strtok, strtok_r */
+#include <stdint.h>             /* int64_t, UINT16_MAX */
+#include <limits.h>             /* INT_MIN, INT_MAX, LONG_MIN, LONG_MAX, UINT_MAX */
 #include <math.h> 				/* floor, log10, abs */
 
 #include "config.h"
@@ -114,6 +116,27 @@ static json_value *config_find(json_value *object, const char *key) {
     return NULL;
 }
 
+/**
+ * Checks whether a JSON value is an integer that a setting is able to have
+ *
+ * @param   value   [json_value *]      "The JSON value or NULL"
+ * @param   min     [int64_t]           "The smallest value of the setting"
+ * @param   max     [int64_t]           "The largest value of the setting"
+ * @return 			[bool]              "Whether the value can be used"
+ */
+static bool config_integer(json_value *value, int64_t min, int64_t max) {
+    if ( NULL == value || unlikely(value->type != json_integer) ) {
+        return false;
+    }
+
+    if ( unlikely(value->u.integer < min || value->u.integer > max) ) {
+        WSS_log_error("Ignoring a setting that is out of range: %lld", (long long)value->u.integer);
+        return false;
+    }
+
+    return true;
+}
+
 /**
  * Loads configuration from JSON file
  *
@@ -379,7 +402,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                     }
 
                     if ( (val = config_find(value, "log_level")) != NULL ) {
-                        if ( likely(val->type == json_integer) ) {
+                        if ( config_integer(val, 0, UINT_MAX) ) {
                             config->log = (unsigned int)val->u.integer;
                         }
                     }
@@ -388,31 +411,31 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         if ( likely(val->type == json_object) ) {
                             // Getting poll timeout 
                             temp = config_find(val, "poll");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, INT_MIN, INT_MAX) ) {
                                 config->timeout_poll = temp->u.integer;
                             }
 
                             // Getting read timeout 
                             temp = config_find(val, "read");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, INT_MIN, INT_MAX) ) {
                                 config->timeout_read = temp->u.integer;
                             }
 
                             // Getting write timeout 
                             temp = config_find(val, "write");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, INT_MIN, INT_MAX) ) {
                                 config->timeout_write = temp->u.integer;
                             }
 
                             // Getting client timeout 
                             temp = config_find(val, "client");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, LONG_MIN, LONG_MAX) ) {
                                 config->timeout_client = temp->u.integer;
                             }
 
                             // Getting amount of client pings 
                             temp = config_find(val, "pings");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->timeout_pings = temp->u.integer;
                             }
                         }
@@ -480,14 +503,14 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         if ( likely(val->type == json_object) ) {
                             // Getting HTTP port
                             temp = config_find(val, "http");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT16_MAX) ) {
                                 config->port_http =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting HTTPS port
                             temp = config_find(val, "https");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT16_MAX) ) {
                                 config->port_https =
                                     (unsigned int)temp->u.integer;
                             }
@@ -498,56 +521,56 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         if ( likely(val->type == json_object) ) {
                             // Getting buffer size
                             temp = config_find(val, "buffer");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->size_buffer =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting thread size
                             temp = config_find(val, "thread");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->size_thread =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting uri size
                             temp = config_find(val, "uri");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->size_uri =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting header size
                             temp = config_find(val, "header");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->size_header =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting ringbuffer size
                             temp = config_find(val, "ringbuffer");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->size_ringbuffer =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting payload size
                             temp = config_find(val, "payload");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->size_payload =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting frame payload size
                             temp = config_find(val, "frame");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->size_frame =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting max frame count for fragmented messages
                             temp = config_find(val, "fragmented");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->max_frames =
                                     (unsigned int)temp->u.integer;
                             }
@@ -558,14 +581,14 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         if ( likely(val->type == json_object) ) {
                             // Getting amount of workers
                             temp = config_find(val, "workers");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->pool_workers =
                                     (unsigned int)temp->u.integer;
                             }
 
                             // Getting amount of retries
                             temp = config_find(val, "retries");
-                            if ( temp != NULL && likely(temp->type == json_integer) ) {
+                            if ( config_integer(temp, 0, UINT_MAX) ) {
                                 config->pool_retries =
                                     (unsigned int)temp->u.integer;
                             }
-- 
2.43.0


From 48514d6b6c1e47adafaa651bec706a0ea22930e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 35/48] fix: do not free the stack when a favicon cannot be
 read

---
 src/str.c    | 12 ++++++++++--
 src/worker.c |  3 +++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 5dfa0a2..5c0e4ae 100644
--- a/src/str.c
+++ b/src/str.c
@@ -1,4 +1,5 @@
 #include <errno.h> 				/* errno */
+#include <limits.h> 			/* LONG_MAX */
 #include <stdio.h> 				/* printf, fflush, fprintf, fopen, fclose */
 #include <stdlib.h>				/* atoi, malloc, free, realloc, calloc */
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen,
@@ -94,7 +95,14 @@ size_t strload(char *path, char **str) {
         return 0;
     }
 
+    // A directory can be opened, but has no content and no proper size
     size = ftell(file);
+    if ( unlikely(size < 0 || size == LONG_MAX) ) {
+        WSS_log_error("Unable to get the size of the file");
+        fclose(file);
+        *str = NULL;
+        return 0;
+    }
 
     if ( unlikely(fseek(file, 0, SEEK_SET)) ) {
         WSS_log_error("Unable to seek back to the start of file: %s", strerror(errno));
@@ -114,14 +122,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
diff --git a/src/worker.c b/src/worker.c
index 3b3ea6c..551127b 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -228,6 +228,9 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         setlocale(LC_ALL, savedlocale);
 
         icon = strload(config->favicon, &ico);
+        if ( unlikely(NULL == ico) ) {
+            return NULL;
+        }
     } else {
         return NULL;
     }
-- 
2.43.0


From a63cbd89b363575490595eb87f81057d17c53459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:37 +0000
Subject: [PATCH 36/48] fix: do not log an unset string when the configuration
 cannot be loaded

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 727f734..6c39bf0 100644
--- a/src/config.c
+++ b/src/config.c
@@ -157,7 +157,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
     config->length = strload(path, &config->string);
     if ( unlikely(NULL == config->string) ) {
-        WSS_log_error("Unable to load JSON file: %s", error);
+        WSS_log_error("Unable to load JSON file: %s", path);
         WSS_config_free(config);
         return WSS_CONFIG_LOAD_ERROR;
     }
-- 
2.43.0


From 039817a5f4116c4c736ab9358345d2d47d474455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 37/48] fix: decode escaped characters beyond U+1FFFF in the
 configuration

---
 src/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.c b/src/json.c
index 94dfd07..f4a55c6 100644
--- a/src/json.c
+++ b/src/json.c
@@ -328,7 +328,7 @@ if ((uchar & 0xF800) == 0xD800) {
                         uc_b2 = (uc_b3 << 4) | uc_b4;
                         uchar2 = (uc_b1 << 8) | uc_b2;
 
-                        uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
+                        uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                     }
 
                     if (sizeof (json_char) >= sizeof (json_uchar) || (uchar <= 0x7F))
-- 
2.43.0


From fcdf16cee990cd21c57962035e4343f0188dd5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:07 +0000
Subject: [PATCH 38/48] fix: refuse numbers in the configuration that overflow

---
 src/json.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json.c b/src/json.c
index f4a55c6..ed1c35e 100644
--- a/src/json.c
+++ b/src/json.c
@@ -36,6 +36,7 @@
 
 const struct _json_value json_value_none;
 
+#include <stdint.h>
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
@@ -767,6 +768,11 @@ if ((uchar & 0xF800) == 0xD800) {
                         continue;
                      }
 
+                     if (top->u.integer > (INT64_MAX - (b - '0')) / 10)
+                     {  sprintf (error, "%u:%u: Number is too large", line_and_col);
+                        goto e_failed;
+                     }
+
                      top->u.integer = (top->u.integer * 10) + (b - '0');
                      continue;
                   }
-- 
2.43.0


From 84e494a334ed0b979844eaef2a29a714ddf707e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 39/48] fix: refuse pings and pongs with reserved bits also
 when extensions are used

---
 src/worker.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 551127b..5a55105 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1086,8 +1086,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             break;
         }
 
-        // If no extension is negotiated, the rsv bits must not be used
-        if ( unlikely(NULL == session->header->ws_extensions && (frame->rsv1 || frame->rsv2 || frame->rsv3)) ) {
+        // If no extension is negotiated, the rsv bits must not be used. No
+        // extension gets to see a ping or pong with its bits.
+        if ( unlikely((NULL == session->header->ws_extensions || frame->opcode == PING_FRAME || frame->opcode == PONG_FRAME) && (frame->rsv1 || frame->rsv2 || frame->rsv3)) ) {
             WSS_log_trace("Protocol Error: rsv bits must not be set without using extensions");
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_PROTOCOL, NULL);
-- 
2.43.0


From b47cd77ff3fa1249f82e849a116b4078fc020095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 40/48] fix: apply extensions to what arrives in the reverse
 order of the handshake

---
 src/worker.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 5a55105..a676263 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1341,8 +1341,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_trace("Applying %d extensions on input", session->header->ws_extensions_count);
 
-            // Apply extensions to collection of frames (message)
-            for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
+            // Apply extensions to collection of frames (message). The client
+            // applied them in the order of the handshake, hence they have to be
+            // undone in the reverse order.
+            for (j = session->header->ws_extensions_count; likely(j-- > 0);) {
                 // Apply extension perframe
                 for (k = 0; likely(k < len); k++) {
                     session->header->ws_extensions[j]->ext->inframe(
-- 
2.43.0


From ea0ceb140d0c2324a36f287f33b41731fa20da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 41/48] fix: do not send null characters behind the handshake
 answer when extensions are accepted

---
 src/worker.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index a676263..73aa609 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -92,11 +92,10 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
         for (j = 0; likely(j < header->ws_extensions_count); j++) {
             headers += (strlen(header->ws_extensions[j]->name))*sizeof(char);
             if ( likely(NULL != header->ws_extensions[j]->accepted) ) {
-                headers += strlen(header->ws_extensions[j]->accepted)*sizeof(char);
+                headers += (strlen(header->ws_extensions[j]->accepted)+1)*sizeof(char);
             }
-            headers += 2*sizeof(char);
         }
-        headers += (header->ws_extensions_count)*sizeof(char);
+        headers += (header->ws_extensions_count+1)*sizeof(char);
     }
     
     if ( NULL != header->ws_protocol ) {
-- 
2.43.0


From ea4b441c7a03d805b293bb642fc71790e8e15ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 42/48] fix: free the offered extensions when the header is
 refused after them

---
 src/header.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header.c b/src/header.c
index 70700ae..4af1b3a 100644
--- a/src/header.c
+++ b/src/header.c
@@ -229,6 +229,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
         if ( unlikely(header_size > config->size_header) ) {
             WSS_log_trace("Header size received is too large.");
+            WSS_free((void **)&exts);
             return HttpStatus_RequestHeaderFieldsTooLarge;
         }
 
@@ -241,6 +242,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 // The |Sec-WebSocket-Version| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_version != 0) ) {
                     WSS_log_trace("Sec-WebSocket-Version must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
 
@@ -282,6 +284,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
                 if ( unlikely(header->ws_key != NULL) ) {
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
+                    WSS_free((void **)&exts);
                     return HttpStatus_BadRequest;
                 }
                 header->ws_key = header_value(&lineptr);
@@ -333,6 +336,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
             if ( unlikely(strlen(tokenptr) > config->size_payload) ) {
                 WSS_log_trace("Payload size received is too large.");
+                WSS_free((void **)&exts);
                 return HttpStatus_PayloadTooLarge;
             }
 
@@ -346,6 +350,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 tokenptr++;
             } else if ( unlikely(tokenptr[0] != '\0') ) {
                 WSS_log_trace("Line shall always end with newline character");
+                WSS_free((void **)&exts);
                 return HttpStatus_BadRequest;
             }
         }
@@ -360,6 +365,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
 
     if ( !double_clrf ) {
         WSS_log_trace("Double CLRF required to distinguish between header and body");
+        WSS_free((void **)&exts);
         return HttpStatus_BadRequest;
     }
 
-- 
2.43.0


From da9d9e65b15f883346ef5e971d6dd48580b8e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:56 +0000
Subject: [PATCH 43/48] fix: do not retry registering a descriptor because of
 an earlier interrupted call

---
 src/event.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/event.c b/src/event.c
index 3455798..d3264bd 100644
--- a/src/event.c
+++ b/src/event.c
@@ -516,6 +516,8 @@ static inline wss_error_t WSS_poll_add(int poll_fd, int fd, uint32_t events) {
     WSS_log_trace("Modifying filedescriptor on epoll eventlist");
 
     do {
+        errno = 0;
+
         memset(&event, 0, sizeof(event));
 
         event.events = events;
@@ -695,6 +697,8 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
     WSS_log_trace("Removing session %d from epoll events", fd);
 
     do {
+        errno = 0;
+
         memset(&event, 0, sizeof(event));
 
         event.events = EPOLLIN | EPOLLOUT;
-- 
2.43.0


From d4d8b0be03baa1830a46ee91eeecef91183388d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:13 +0000
Subject: [PATCH 44/48] fix: parse what was read before TLS had to wait for a
 write

---
 include/session.h | 2 ++
 src/worker.c      | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/session.h b/include/session.h
index e0e165a..c4d2883 100644
--- a/include/session.h
+++ b/include/session.h
@@ -98,6 +98,8 @@ typedef struct {
     wss_frame_t **frames;
     // The size of the temporarily frames
     size_t frames_length;
+    // Whether data was read, that no frames have been parsed from yet
+    bool received;
     // If not all data was written, store many bytes currently written
     unsigned int written;
     // Messages put into the ringbuffer that no flush has picked up yet
diff --git a/src/worker.c b/src/worker.c
index 73aa609..633b54a 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -926,7 +926,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t starting_frame = 0;
     size_t fragments = 0;
     bool fragmented = false;
-    bool received = false;
+    bool received;
     char *buffer;
 
     // If no initial header has been seen for the session, the websocket
@@ -951,6 +951,8 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     offset = session->offset;
     frames = session->frames;
     frames_length = session->frames_length;
+    received = session->received;
+    session->received = false;
     session->payload = NULL;
     session->payload_length = 0;
     session->offset = 0;
@@ -980,6 +982,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 session->offset = offset;
                 session->frames = frames;
                 session->frames_length = frames_length;
+                session->received = received;
 
                 session->event = WRITE;
 
-- 
2.43.0


From 1eca5131f69be6482eb28ef307302625e03ec872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 45/48] fix: compare the options of the Upgrade and Connection
 headers as a whole

---
 src/header.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/header.c b/src/header.c
index 4af1b3a..cfca924 100644
--- a/src/header.c
+++ b/src/header.c
@@ -82,6 +82,37 @@ static inline char *header_value(char **lineptr)
     return NULL != value ? value : "";
 }
 
+/**
+ * Determines whether a comma separated list has some option.
+ *
+ * @param   list    [const char *]    "The value of the header"
+ * @param   option  [const char *]    "The option to look for"
+ * @return          [bool]            "Whether the option is one of the list, regardless of its case"
+ */
+static inline bool lists_option(const char *list, const char *option)
+{
+    size_t length, end;
+
+    while ( likely(*list != '\0') ) {
+        for (length = strcspn(list, ","); length > 0 && isspace(*list); --length) {
+            ++list;
+        }
+
+        for (end = length; end > 0 && isspace(list[end-1]); --end) {}
+
+        if ( likely(end == strlen(option) && strncasecmp(option, list, end) == 0) ) {
+            return true;
+        }
+
+        list += length;
+        if (*list == ',') {
+            ++list;
+        }
+    }
+
+    return false;
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
     int version = strtol(v, (char **) NULL, 10);
 
@@ -495,8 +526,7 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
 
     WSS_log_trace("Validating upgrade header");
 
-    if ( unlikely(NULL == header->ws_upgrade || strlen(header->ws_upgrade) < strlen(WEBSOCKET_STRING) ||
-            strncasecmp(WEBSOCKET_STRING, header->ws_upgrade, strlen(WEBSOCKET_STRING)) != 0) || (header->ws_type <= HIXIE76 && strncasecmp(WEBSOCKET_UPPERCASE_STRING, header->ws_upgrade, strlen(WEBSOCKET_UPPERCASE_STRING)) != 0) ) {
+    if ( unlikely(NULL == header->ws_upgrade || ! lists_option(header->ws_upgrade, WEBSOCKET_STRING)) ) {
         WSS_log_trace("Invalid upgrade header value");
         return HttpStatus_UpgradeRequired;
     }
@@ -515,7 +545,7 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
     }
 
     do {
-        if ( likely(strncasecmp(UPGRADE_STRING, sep, strlen(UPGRADE_STRING)) == 0) ) {
+        if ( likely(strlen(sep) == strlen(UPGRADE_STRING) && strncasecmp(UPGRADE_STRING, sep, strlen(UPGRADE_STRING)) == 0) ) {
             break;
         }
 
-- 
2.43.0


From 196e3976711e0443796eba9d59bb891e0d70c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 46/48] fix: take a WebSocket version for a supported one only
 if it is that number

---
 src/header.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/header.c b/src/header.c
index cfca924..4788cd0 100644
--- a/src/header.c
+++ b/src/header.c
@@ -114,7 +114,13 @@ static inline bool lists_option(const char *list, const char *option)
 }
 
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(v, (char **) NULL, 10);
+    char *end;
+    long version = strtol(v, &end, 10);
+
+    // A version is nothing but a number without leading zeros
+    if ( unlikely(! isdigit(v[0]) || v[0] == '0' || *end != '\0') ) {
+        return;
+    }
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
-- 
2.43.0


From b12b6be6abd86ed1485cd09cbdbea305da0b6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:24 +0000
Subject: [PATCH 47/48] fix: refuse keys that are not padded or go on behind
 the padding

---
 include/header.h | 1 +
 src/header.c     | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/header.h b/include/header.h
index 0abb787..ab0a215 100644
--- a/include/header.h
+++ b/include/header.h
@@ -18,6 +18,7 @@
 #define COOKIE_STRING "Cookie"
 #define HOST_STRING "Host"
 #define SEC_WEBSOCKET_KEY_LENGTH 16
+#define SEC_WEBSOCKET_KEY_ENCODED_LENGTH 24
 #define SEC_WEBSOCKET_VERSION "Sec-WebSocket-Version"
 #define SEC_WEBSOCKET_PROTOCOL "Sec-WebSocket-Protocol"
 #define SEC_WEBSOCKET_KEY "Sec-WebSocket-Key"
diff --git a/src/header.c b/src/header.c
index 4788cd0..f63f812 100644
--- a/src/header.c
+++ b/src/header.c
@@ -593,6 +593,13 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
         return HttpStatus_UpgradeRequired;
     }
 
+    // The decoder stops at the padding, which has to be complete and the end
+    key_length = strlen(header->ws_key);
+    if ( unlikely(key_length != SEC_WEBSOCKET_KEY_ENCODED_LENGTH || strcmp(header->ws_key+key_length-2, "==") != 0) ) {
+        WSS_log_trace("Invalid websocket key");
+        return HttpStatus_UpgradeRequired;
+    }
+
     key = b64_decode_ex(header->ws_key, strlen(header->ws_key), &key_length);
     if ( unlikely(NULL == key || key_length != SEC_WEBSOCKET_KEY_LENGTH) ) {
         WSS_log_trace("Invalid websocket key");
-- 
2.43.0


From b07f9bc3ecf100f5bc09d99af0bfdd8552644903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:56 +0000
Subject: [PATCH 48/48] fix: refuse request lines that go on behind the version

---
 src/header.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/header.c b/src/header.c
index f63f812..156a57e 100644
--- a/src/header.c
+++ b/src/header.c
@@ -230,6 +230,13 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         return HttpStatus_BadRequest;
     }
 
+    if ( unlikely(NULL != strtok_r(NULL, " ", &lineptr)) ) {
+        WSS_log_trace("The version should be the last part of the request line");
+        // The response must not be labelled with it
+        header->version = NULL;
+        return HttpStatus_BadRequest;
+    }
+
     if ( unlikely(strinarray(header->version, versions,
                 sizeof(versions)/sizeof(versions[0])) != 0) ) {
         WSS_log_trace("HTTP version that the client is using is unknown.");
-- 
2.43.0

