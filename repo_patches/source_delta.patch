From 88875c90d6a27eebf7dfcc6fb2be5d8fb6bf5486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 01/28] fix: timer: a timer set again before a queued
 expiration is read must not abort the process

timer_set() from a callback resets the expirations of a timer that is already
collected in the current batch of events; its read then returns EAGAIN.
---
 src/reactor/timer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index a141b88..96c9702 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -28,7 +28,8 @@ static void timer_callback(reactor_event *event)
     assert(n == sizeof expirations);
     total += expirations;
   }
-  assert(total);
+  if (!total)
+    return;
   reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
 }
 
-- 
2.43.0


From 792823d792676a761c85af5e3a3ddf2859536f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 02/28] fix: event: deliver every signal raised before the loop
 reads the event

With a semaphore eventfd each read takes one signal, but an edge triggered
descriptor is reported only once for all of them, so the rest were stuck until
the next signal. Watch the descriptor level triggered.
---
 src/reactor/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/event.c b/src/reactor/event.c
index c66e6e1..f9785cb 100644
--- a/src/reactor/event.c
+++ b/src/reactor/event.c
@@ -33,7 +33,7 @@ void event_open(event *event)
 
   fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);
   assert(fd != -1);
-  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 int event_is_open(event *event)
-- 
2.43.0


From 3ab61c56e6035b984df6b262721ecf09dc61babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 03/28] fix: core: a stop signal that arrives just before the
 loop waits must end the loop

The signal handler only cleared the active flag. When the signal arrived after
the loop had tested the flag but before epoll_wait() blocked, the wait was not
interrupted and the loop stayed blocked until the next unrelated event.
---
 src/reactor/core.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/reactor/core.c b/src/reactor/core.c
index 439b892..f4ff7f1 100644
--- a/src/reactor/core.c
+++ b/src/reactor/core.c
@@ -7,6 +7,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <sys/epoll.h>
+#include <sys/eventfd.h>
 
 #include "reactor.h"
 #include "core.h"
@@ -33,6 +34,7 @@ void reactor_handler_destruct(reactor_handler *handler)
 struct reactor
 {
   int                 epoll_fd;
+  int                 wakeup_fd;
   int                 active;
   size_t              descriptors;
   uint64_t            time;
@@ -40,11 +42,17 @@ struct reactor
   struct epoll_event *event_end;
 };
 
-static __thread reactor reactor_core = {0};
+static __thread reactor reactor_core = {.wakeup_fd = -1};
 
 static void reactor_signal(__attribute__((unused)) int arg)
 {
+  int saved_errno = errno;
+
+  /* the signal may arrive when the loop is about to wait, so make sure the wait ends */
   reactor_abort();
+  if (reactor_core.wakeup_fd >= 0)
+    (void) !write(reactor_core.wakeup_fd, (uint64_t[]) {1}, sizeof (uint64_t));
+  errno = saved_errno;
 }
 
 uint64_t reactor_now(void)
@@ -61,9 +69,16 @@ uint64_t reactor_now(void)
 
 void reactor_construct(void)
 {
-  reactor_core = (reactor) {.active = 1};
+  int e;
+
+  reactor_core = (reactor) {.active = 1, .wakeup_fd = -1};
   reactor_core.epoll_fd = epoll_create1(EPOLL_CLOEXEC);
   assert(reactor_core.epoll_fd != -1);
+  reactor_core.wakeup_fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
+  assert(reactor_core.wakeup_fd != -1);
+  e = epoll_ctl(reactor_core.epoll_fd, EPOLL_CTL_ADD, reactor_core.wakeup_fd,
+                (struct epoll_event[]) {{.events = EPOLLIN | EPOLLET, .data.ptr = &reactor_handler_default}});
+  assert(e == 0);
   signal(SIGTERM, reactor_signal);
   signal(SIGINT, reactor_signal);
   signal(SIGPIPE, SIG_IGN);
@@ -71,8 +86,11 @@ void reactor_construct(void)
 
 void reactor_destruct(void)
 {
-  int e;
+  int e, wakeup_fd = reactor_core.wakeup_fd;
 
+  reactor_core.wakeup_fd = -1;
+  e = close(wakeup_fd);
+  assert(e == 0);
   e = close(reactor_core.epoll_fd);
   assert(e == 0);
 }
-- 
2.43.0


From e3ed671cecc83cad07981a1073c522f90ce7df28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:08 +0000
Subject: [PATCH 04/28] fix: async: wait for the worker thread before its
 object and event are released

---
 src/reactor/async.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/reactor/async.c b/src/reactor/async.c
index 0ee4cb7..fc4a669 100644
--- a/src/reactor/async.c
+++ b/src/reactor/async.c
@@ -8,8 +8,7 @@ static void *async_thread(void *arg)
   async *async = arg;
 
   reactor_dispatch(&async->handler, ASYNC_CALL, 0);
-  if (event_is_open(&async->event))
-      event_signal(&async->event);
+  event_signal(&async->event);
   return NULL;
 }
 
@@ -18,6 +17,7 @@ static void async_callback(reactor_event *event)
   async *async = event->state;
 
   assert(event->type == EVENT_SIGNAL);
+  (void) pthread_join(async->thread, NULL);
   async->thread = 0;
   async_cancel(async);
   reactor_dispatch(&async->handler, ASYNC_DONE, 0);
@@ -39,12 +39,9 @@ void async_destruct(async *async)
 void async_call(async *async)
 {
   int e;
-  pthread_attr_t attr;
 
   event_open(&async->event);
-  pthread_attr_init(&attr);
-  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
-  e = pthread_create(&async->thread, &attr, async_thread, async);
+  e = pthread_create(&async->thread, NULL, async_thread, async);
   assert(e == 0);
 }
 
@@ -52,11 +49,13 @@ void async_cancel(async *async)
 {
   if (event_is_open(&async->event))
   {
-    event_close(&async->event);
+    /* the thread uses both the object and the event, so it has to be gone before they are released */
     if (async->thread)
     {
       (void) pthread_cancel(async->thread);
+      (void) pthread_join(async->thread, NULL);
       async->thread = 0;
     }
+    event_close(&async->event);
   }
 }
-- 
2.43.0


From b7d20fdc42b2b300c14e5dcd1cf8c0f07782a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 05/28] fix: stream: a write to a connection that is gone must
 not abort the process

---
 src/reactor/stream.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 48d24bc..e11e714 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -55,10 +55,7 @@ static void stream_socket_write(stream *stream)
   {
     n = write(descriptor_fd(&stream->descriptor), data + total, size - total);
     if (n == -1)
-    {
-      assert(errno == EAGAIN);
       break;
-    }
     total += n;
   }
   buffer_erase(&stream->output, 0, total);
-- 
2.43.0


From 142ee109a8f621d2960e59af8d98a915bf40ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 06/28] fix: stream: forget the TLS session when a stream is
 closed

---
 src/reactor/stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index e11e714..ca0bfa4 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -243,6 +243,8 @@ void stream_close(stream *stream)
   if (stream_ssl_activated)
     SSL_free(stream->ssl);
 
+  stream->ssl = NULL;
+  stream->ssl_state = 0;
   stream->notify = 0;
   descriptor_close(&stream->descriptor);
   buffer_clear(&stream->input);
-- 
2.43.0


From 9cbe11632cf43643a71c3e3d8b5ac71027f45a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 07/28] fix: stream: flush all queued output of an encrypted
 stream, not only one record

---
 src/reactor/stream.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index ca0bfa4..928279b 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -135,9 +135,13 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
-  n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-  if (n > 0)
-    buffer_erase(&stream->output, 0, n);
+  do
+  {
+    /* without output the call still drives the handshake */
+    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    if (n > 0)
+      buffer_erase(&stream->output, 0, n);
+  } while (n > 0 && buffer_size(&stream->output));
   stream->ssl_state = SSL_get_error(stream->ssl, n);
 }
 
-- 
2.43.0


From 45d3d5feeb5046e73adbbc6968c0fc8d986df507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:59 +0000
Subject: [PATCH 08/28] fix: stream: an encrypted client stream starts its
 handshake without waiting for output

---
 src/reactor/stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 928279b..318dbb3 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -187,7 +187,11 @@ static void stream_ssl_open(stream *stream, int fd, SSL_CTX *ssl_ctx)
   if (SSL_is_server(stream->ssl))
     SSL_set_accept_state(stream->ssl);
   else
+  {
     SSL_set_connect_state(stream->ssl);
+    /* a client has to speak first, also when it has no output yet */
+    stream->ssl_state = SSL_ERROR_WANT_WRITE;
+  }
   SSL_set_mode(stream->ssl, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
   descriptor_construct(&stream->descriptor, stream_ssl_callback, stream);
   descriptor_open(&stream->descriptor, fd, stream_ssl_mask(stream));
-- 
2.43.0


From a537faa81ecfa560d0b34750c1d38886291bf76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 09/28] fix: server: a connection whose output has drained must
 not be closed

---
 src/reactor/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c185fd3..42f8d70 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -107,6 +107,8 @@ static void server_request_callback(reactor_event *event)
   case STREAM_READ:
     server_request_update(request);
     break;
+  case STREAM_WRITE:
+    break;
   default:
   case STREAM_CLOSE:
     server_close(request);
-- 
2.43.0


From ffe1aa2dd64b2e4ab79961ffbdaebf3b1eba47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:00 +0000
Subject: [PATCH 10/28] fix: server: shutting down closes every connection, and
 only once

---
 src/reactor/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 42f8d70..befbeea 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -225,7 +225,7 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
-    server_release(request);
+    server_close(request);
     request = next;
   }
 
-- 
2.43.0


From caf5c47066f66d69a8bbcd893921527862229e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:00 +0000
Subject: [PATCH 11/28] fix: server: an error of one incoming connection must
 not keep the others from being accepted

---
 src/reactor/server.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index befbeea..f0a0334 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -4,6 +4,7 @@
 #include <stdarg.h>
 #include <string.h>
 #include <assert.h>
+#include <errno.h>
 #include <sys/socket.h>
 
 #include <openssl/ssl.h>
@@ -122,6 +123,29 @@ static void server_timer_callback(reactor_event *event)
   server_date_update();
 }
 
+/* an error that only concerns the incoming connection, or an interruption, does not end the accept loop */
+
+static int server_accept_retry(void)
+{
+  switch (errno)
+  {
+  case EINTR:
+  case ECONNABORTED:
+  case EPERM:
+  case EPROTO:
+  case ENOPROTOOPT:
+  case EOPNOTSUPP:
+  case ENETDOWN:
+  case ENETUNREACH:
+  case EHOSTDOWN:
+  case EHOSTUNREACH:
+  case ENONET:
+    return 1;
+  default:
+    return 0;
+  }
+}
+
 /* plain socket routines */
 
 static void server_socket_accept(server *server, int fd)
@@ -143,6 +167,8 @@ static void server_socket_descriptor_callback(reactor_event *event)
   while (1)
   {
     fd = accept4(descriptor_fd(&server->descriptor), NULL, NULL, SOCK_NONBLOCK);
+    if (fd == -1 && server_accept_retry())
+      continue;
     if (fd == -1)
       break;
     server_socket_accept(server, fd);
@@ -177,6 +203,8 @@ static void server_ssl_descriptor_callback(reactor_event *event)
   while (1)
   {
     fd = accept4(descriptor_fd(&server->descriptor), NULL, NULL, SOCK_NONBLOCK);
+    if (fd == -1 && server_accept_retry())
+      continue;
     if (fd == -1)
       break;
     server_ssl_accept(server, fd);
-- 
2.43.0


From 458addfcd341a07b873d0dabf7b5c43461c2f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:00 +0000
Subject: [PATCH 12/28] fix: server: responses carry a current date from the
 first one and without a listening socket

---
 src/reactor/server.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index f0a0334..83fcf28 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -24,11 +24,7 @@ static __thread int server_ssl_activated = 0;
 /* server date */
 
 static __thread char server_date_string[30];
-
-static data server_date(void)
-{
-  return data_construct(server_date_string, 29);
-}
+static __thread time_t server_date_time;
 
 static void server_date_update(void)
 {
@@ -42,6 +38,15 @@ static void server_date_update(void)
   (void) strftime(server_date_string, sizeof server_date_string, "---, %d --- %Y %H:%M:%S GMT", &tm);
   memcpy(server_date_string, days[tm.tm_wday], 3);
   memcpy(server_date_string + 8, months[tm.tm_mon], 3);
+  server_date_time = t;
+}
+
+static data server_date(void)
+{
+  /* there may have been no timer expiration yet, or there is no timer at all */
+  if (time(NULL) != server_date_time)
+    server_date_update();
+  return data_construct(server_date_string, 29);
 }
 
 /* common routines */
-- 
2.43.0


From 975c334f9df33ee8dc7d5c826a07616314dedcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 13/28] fix: server: a request that is held when its server
 goes away must not refer to the server

---
 src/reactor/server.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 83fcf28..ce186dd 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -20,6 +20,7 @@
 #include "server.h"
 
 static __thread int server_ssl_activated = 0;
+static __thread list server_requests_held;
 
 /* server date */
 
@@ -252,14 +253,17 @@ void server_open(server *server, int fd, SSL_CTX *ssl_ctx)
 
 void server_shutdown(server *server)
 {
-  server_request *request, *next;
+  server_request *request;
+
+  if (!server_requests_held.next)
+    list_construct(&server_requests_held);
 
-  request = list_front(&server->requests);
-  while (request != list_end(&server->requests))
+  while (!list_empty(&server->requests))
   {
-    next = list_next(request);
+    /* a request that is still held outlives the server, and must not stay linked to it */
+    request = list_front(&server->requests);
+    list_splice(list_end(&server_requests_held), request);
     server_close(request);
-    request = next;
   }
 
   timer_clear(&server->timer);
-- 
2.43.0


From 013119bd98d255263bd3f7802a39368687dc633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:22 +0000
Subject: [PATCH 14/28] fix: http: spaces at the end of incomplete input must
 not be searched beyond it

---
 src/picohttpparser/picohttpparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 74ccc3e..77bd596 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -355,10 +355,12 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     ADVANCE_TOKEN(*method, *method_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     ADVANCE_TOKEN(*path, *path_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     if (*method_len == 0 || *path_len == 0) {
         *ret = -1;
@@ -422,6 +424,7 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     }
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     /* parse status code, we want at least [:digit:][:digit:][:digit:]<other char> to try to parse */
     if (buf_end - buf < 4) {
-- 
2.43.0


From a8eab393a67cda60c1a0c3dc70a71f942480528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 15/28] fix: server: a connection is closed after a malformed
 request only when its responses have left

---
 src/reactor/server.c | 19 ++++++++++++++++++-
 src/reactor/server.h |  1 +
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index ce186dd..c168c4a 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -52,6 +52,19 @@ static data server_date(void)
 
 /* common routines */
 
+static void server_request_finish(server_request *request)
+{
+  if (!buffer_size(&request->stream.output))
+  {
+    server_close(request);
+    return;
+  }
+
+  /* the connection has not accepted all responses yet, close it when it has */
+  request->state = SERVER_REQUEST_CLOSING;
+  stream_notify(&request->stream);
+}
+
 static void server_request_read(server_request *request)
 {
   ssize_t n;
@@ -112,9 +125,13 @@ static void server_request_callback(reactor_event *event)
   switch (event->type)
   {
   case STREAM_READ:
+    if (request->state == SERVER_REQUEST_CLOSING)
+      stream_consume(&request->stream, request->stream.input.size);
     server_request_update(request);
     break;
   case STREAM_WRITE:
+    if (request->state == SERVER_REQUEST_CLOSING)
+      server_request_finish(request);
     break;
   default:
   case STREAM_CLOSE:
@@ -340,7 +357,7 @@ void server_bad_request(server_request *request)
   {
     http_write_response(&request->stream, data_string("400 Bad Request"), server_date(), data_null(), data_null());
     stream_flush(&request->stream);
-    server_close(request);
+    server_request_finish(request);
   }
   server_release(request);
 }
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 68d11ed..098bab3 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -15,6 +15,7 @@ enum server_state
   SERVER_REQUEST_NEED_MORE_DATA,
   SERVER_REQUEST_READ,
   SERVER_REQUEST_HANDLING,
+  SERVER_REQUEST_CLOSING,
   SERVER_REQUEST_CLOSED
 };
 
-- 
2.43.0


From 84faf37744a15a357bde4a220c10d4e0e72c5dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 16/28] fix: net: a failing socket or listen call is reported
 and does not abort the process

---
 src/reactor/net.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 4849c5d..9cddd63 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -27,24 +27,21 @@ int net_socket(struct addrinfo *addrinfo)
   if (!addrinfo)
     return -1;
   fd = socket(addrinfo->ai_family, addrinfo->ai_socktype | SOCK_NONBLOCK, addrinfo->ai_protocol);
-  if (addrinfo->ai_flags & AI_PASSIVE)
+  if (fd != -1 && addrinfo->ai_flags & AI_PASSIVE)
   {
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (int[]) {1}, sizeof(int));
     e = bind(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
+    if (e == 0)
+      e = listen(fd, INT_MAX);
     if (e == -1)
     {
       e = close(fd);
       assert(e == 0);
       fd = -1;
     }
-    else
-    {
-      e = listen(fd, INT_MAX);
-      assert(e == 0);
-    }
   }
-  else
+  else if (fd != -1)
     (void) connect(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
 
   freeaddrinfo(addrinfo);
-- 
2.43.0


From d22a5c2600ab3b5c4a478918b641d1a315208890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 17/28] fix: string: writing a string continues after a short
 write

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 4c09f92..b204333 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -220,7 +220,7 @@ void string_write(string s, int fd)
   {
     n = write(fd, s + offset, string_size(s) - offset);
     assert(n > 0);
-    offset -= n;
+    offset += n;
   }
 }
 
-- 
2.43.0


From 9e93b1b904395696494d999adb35fffb8efda3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 18/28] fix: string: saving a string leaves nothing of the
 previous contents of the file

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index b204333..30472e3 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -228,7 +228,7 @@ int string_save(string s, const char *path)
 {
   int fd;
 
-  fd = open(path, O_WRONLY);
+  fd = open(path, O_WRONLY | O_TRUNC);
   if (fd == -1)
     return -1;
 
-- 
2.43.0


From 2b6513e8f53ccd36f11ef893cb5d978cb1b08b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 19/28] fix: notify: an overflow of the change queue must not
 abort the process

---
 src/reactor/notify.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index d33feff..a8e3d85 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -42,10 +42,13 @@ static void notify_callback(reactor_event *event)
     {
       inotify_event = (struct inotify_event *) p;
       e = list_front(&notify->entries);
-      while (e->id != inotify_event->wd)
-      {
+      while (e != list_end(&notify->entries) && e->id != inotify_event->wd)
         e = list_next(e);
-        assert(e != list_end(&notify->entries));
+      if (e == list_end(&notify->entries))
+      {
+        /* not about a watch, the queue has overflowed */
+        notify->errors++;
+        continue;
       }
       notify_event = (struct notify_event) {.mask = inotify_event->mask, .id = e->id,
         .name = inotify_event->len ? inotify_event->name : "", .path = e->path};
-- 
2.43.0


From facd00282aed71f18cefefc712a00362b42e9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 20/28] fix: notify: clearing ends delivery and forgets the
 watches

---
 src/reactor/notify.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index a8e3d85..06e22bc 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -72,6 +72,12 @@ void notify_construct(notify *notify, reactor_callback *callback, void *state)
 void notify_clear(notify *notify)
 {
   descriptor_close(&notify->descriptor);
+  list_clear(&notify->entries, notify_release_entry);
+  if (notify->cancel)
+  {
+    *(notify->cancel) = 1;
+    notify->cancel = NULL;
+  }
 }
 
 int notify_watch(notify *notify, char *path, uint32_t mask)
@@ -100,9 +106,4 @@ void notify_destruct(notify *notify)
 {
   notify_clear(notify);
   list_destruct(&notify->entries, notify_release_entry);
-  if (notify->cancel)
-  {
-    *(notify->cancel) = 1;
-    notify->cancel = NULL;
-  }
 }
-- 
2.43.0


From 930581520387fc6937aa1141ebbc20d47279858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:58 +0000
Subject: [PATCH 21/28] fix: server: a request answered later must stay
 readable until then

---
 src/reactor/server.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 src/reactor/server.h |  1 +
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c168c4a..7232b75 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -1,6 +1,7 @@
 #define _GNU_SOURCE
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <stdarg.h>
 #include <string.h>
 #include <assert.h>
@@ -52,6 +53,37 @@ static data server_date(void)
 
 /* common routines */
 
+static data server_request_move(server_request *request, data data, const char *origin)
+{
+  return data.base ? data_construct(request->head + ((const char *) data.base - origin), data.size) : data;
+}
+
+static void server_request_forget(server_request *request)
+{
+  free(request->head);
+  request->head = NULL;
+}
+
+static void server_request_keep(server_request *request)
+{
+  const char *origin = data_base(request->method);
+  size_t i, size = (const char *) data_base(request->data) - origin;
+
+  /* the request is to be answered later, and has to stay readable when the stream input it was parsed from is gone */
+  server_request_forget(request);
+  request->head = malloc(size);
+  if (!request->head)
+    abort();
+  memcpy(request->head, origin, size);
+  request->method = server_request_move(request, request->method, origin);
+  request->target = server_request_move(request, request->target, origin);
+  for (i = 0; i < request->fields_count; i++)
+  {
+    request->fields[i].name = server_request_move(request, request->fields[i].name, origin);
+    request->fields[i].value = server_request_move(request, request->fields[i].value, origin);
+  }
+}
+
 static void server_request_finish(server_request *request)
 {
   if (!buffer_size(&request->stream.output))
@@ -83,7 +115,7 @@ static void server_request_read(server_request *request)
     request->state = SERVER_REQUEST_NEED_MORE_DATA;
     break;
   case -1:
-    request->state = SERVER_REQUEST_HANDLING;
+    request->state = SERVER_REQUEST_CLOSING;
     server_hold(request);
     server_bad_request(request);
     break;
@@ -108,6 +140,9 @@ static void server_request_update(server_request *request)
   while (request->state == SERVER_REQUEST_READ)
     server_request_read(request);
 
+  if (request->state == SERVER_REQUEST_HANDLING)
+    server_request_keep(request);
+
   if (request->state != SERVER_REQUEST_CLOSED)
   {
     stream_consume(&request->stream, request->stream.input.size - request->data.size);
@@ -303,6 +338,8 @@ void server_close(server_request *request)
 {
   if (request->state != SERVER_REQUEST_CLOSED)
   {
+    if (request->state == SERVER_REQUEST_HANDLING && request->event_triggered)
+      server_request_keep(request);
     stream_close(&request->stream);
     request->state = SERVER_REQUEST_CLOSED;
     server_release(request);
@@ -321,6 +358,7 @@ void server_release(server_request *request)
     return;
 
   stream_destruct(&request->stream);
+  server_request_forget(request);
   list_erase(request, NULL);
 }
 
@@ -329,6 +367,7 @@ void server_respond(server_request *request, data status, data type, data body)
   if (request->state != SERVER_REQUEST_CLOSED)
   {
     http_write_response(&request->stream, status, server_date(), type, body);
+    server_request_forget(request);
     if (request->event_triggered)
       request->state = SERVER_REQUEST_READ;
     else
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 098bab3..950038a 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -44,6 +44,7 @@ struct server_request
   data                target;
   http_field          fields[16];
   size_t              fields_count;
+  char               *head;
 };
 
 void server_construct(server *, reactor_callback *, void *);
-- 
2.43.0


From e3709d4b3781029a4bd6dda6a509b949c71ef18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:21 +0000
Subject: [PATCH 22/28] fix: http: size the response head for the given date

---
 src/reactor/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 1fb7124..385f0dc 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -111,7 +111,7 @@ void http_write_response(stream *stream, data status, data date, data type, data
   utility_u32_sprint(data_size(body), storage + size);
   length = data_construct(storage, size);
 
-  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 37 +
+  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 6 + data_size(date) + 2 +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
                       (18 + data_size(length)) + 2 + data_size(body));
   pointer_push(&p, data_string("HTTP/1.1 "));
-- 
2.43.0


From 32313922958df6335b4c3de38841ca4dd5a9062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 23/28] fix: http: the content length of bodies of 4 GiB and
 more

---
 src/reactor/http.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 385f0dc..74b4435 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -56,13 +56,12 @@ ssize_t http_read_request_data(data buffer, data *method, data *target, http_fie
 
 void http_write_request(stream *stream, data method, data target, data host, data type, data body)
 {
-  char storage[16];
+  char storage[24];
   size_t size;
   data length;
   pointer p;
 
-  size = utility_u32_len(data_size(body));
-  utility_u32_sprint(data_size(body), storage + size);
+  size = snprintf(storage, sizeof storage, "%zu", data_size(body));
   length = data_construct(storage, size);
 
   p = stream_allocate(stream,
@@ -102,13 +101,12 @@ ssize_t http_read_response(stream *stream, int *status_code, data *status, http_
 
 void http_write_response(stream *stream, data status, data date, data type, data body)
 {
-  char storage[16];
+  char storage[24];
   size_t size;
   data length;
   pointer p;
 
-  size = utility_u32_len(data_size(body));
-  utility_u32_sprint(data_size(body), storage + size);
+  size = snprintf(storage, sizeof storage, "%zu", data_size(body));
   length = data_construct(storage, size);
 
   p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 6 + data_size(date) + 2 +
-- 
2.43.0


From 6d6ed5e499fb9996373c85d2b3cc5aede62de273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 24/28] fix: stream: flushing a stream that is not open aborted
 the process

---
 src/reactor/stream.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 318dbb3..cdc32c3 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -284,6 +284,10 @@ void *stream_allocate(stream *stream, size_t size)
 
 void stream_flush(stream *stream)
 {
+  /* output written to a stream that is not open waits for it to be opened */
+  if (!descriptor_is_open(&stream->descriptor))
+    return;
+
   if (stream->ssl)
   {
     stream_ssl_flush(stream);
-- 
2.43.0


From 31edab20c9ba8586696bb4ab6f775c56a8e1239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 25/28] fix: string: freeing a string that had been emptied
 left its memory

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 30472e3..3a7b579 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -35,7 +35,7 @@ string string_null(void)
 
 void string_free(string s)
 {
-  if (!string_equal(s, string_null()))
+  if (s != string_null())
     free(string_header(s));
 }
 
-- 
2.43.0


From 13f8c231c057b7bc52ab4e920c8229be82f52e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 26/28] fix: resolver: the protocol asked for was ignored

---
 src/reactor/net.c      | 7 ++++++-
 src/reactor/net.h      | 1 +
 src/reactor/resolver.c | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 9cddd63..a5d7b12 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -8,7 +8,12 @@
 
 struct addrinfo *net_resolve(char *host, char *serv, int family, int type, int flags)
 {
-  struct addrinfo *addrinfo = NULL, hints = {.ai_family = family, .ai_socktype = type, .ai_flags = flags};
+  return net_resolve_protocol(host, serv, family, type, 0, flags);
+}
+
+struct addrinfo *net_resolve_protocol(char *host, char *serv, int family, int type, int protocol, int flags)
+{
+  struct addrinfo *addrinfo = NULL, hints = {.ai_family = family, .ai_socktype = type, .ai_protocol = protocol, .ai_flags = flags};
   int e;
 
   e = getaddrinfo(host, serv, &hints, &addrinfo);
diff --git a/src/reactor/net.h b/src/reactor/net.h
index 51daac4..f203a12 100644
--- a/src/reactor/net.h
+++ b/src/reactor/net.h
@@ -7,6 +7,7 @@
 #include "reactor.h"
 
 struct addrinfo *net_resolve(char *, char *, int, int, int);
+struct addrinfo *net_resolve_protocol(char *, char *, int, int, int, int);
 int              net_socket(struct addrinfo *);
 SSL_CTX         *net_ssl_server_context(char *, char *);
 
diff --git a/src/reactor/resolver.c b/src/reactor/resolver.c
index 131b4cd..5b92952 100644
--- a/src/reactor/resolver.c
+++ b/src/reactor/resolver.c
@@ -10,7 +10,7 @@ static void resolver_callback(reactor_event *event)
   switch (event->type)
   {
   case ASYNC_CALL:
-    resolver->addrinfo = net_resolve(resolver->host, resolver->service, resolver->family, resolver->type, resolver->flags);
+    resolver->addrinfo = net_resolve_protocol(resolver->host, resolver->service, resolver->family, resolver->type, resolver->protocol, resolver->flags);
     break;
   default:
   case ASYNC_DONE:
-- 
2.43.0


From 0ca16c8638c8d0ad44ed012704e0a5cc94acd6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 27/28] fix: server: connections left in the queue when
 descriptors ran out were not accepted later

---
 src/reactor/server.c | 11 +++++++++++
 src/reactor/server.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 7232b75..454875e 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -177,8 +177,13 @@ static void server_request_callback(reactor_event *event)
 
 static void server_timer_callback(reactor_event *event)
 {
+  server *server = event->state;
+
   assert(event->type == TIMER_EXPIRATION);
   server_date_update();
+  /* connections left in the queue when descriptors or memory ran out are not reported again */
+  if (server->accept_pending)
+    reactor_dispatch(&server->descriptor.handler, DESCRIPTOR_READ, 0);
 }
 
 /* an error that only concerns the incoming connection, or an interruption, does not end the accept loop */
@@ -228,7 +233,10 @@ static void server_socket_descriptor_callback(reactor_event *event)
     if (fd == -1 && server_accept_retry())
       continue;
     if (fd == -1)
+    {
+      server->accept_pending = errno != EAGAIN;
       break;
+    }
     server_socket_accept(server, fd);
   }
 }
@@ -264,7 +272,10 @@ static void server_ssl_descriptor_callback(reactor_event *event)
     if (fd == -1 && server_accept_retry())
       continue;
     if (fd == -1)
+    {
+      server->accept_pending = errno != EAGAIN;
       break;
+    }
     server_ssl_accept(server, fd);
   }
 }
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 950038a..760f1f0 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -30,6 +30,7 @@ struct server
   timer               timer;
   SSL_CTX            *ssl_ctx;
   list                requests;
+  int                 accept_pending;
 };
 
 struct server_request
-- 
2.43.0


From 7f3ab52e1c3d660fb11967f0a4412c9e577214a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:32 +0000
Subject: [PATCH 28/28] fix: server: a server opened again without encryption
 kept the context of the time before

---
 src/reactor/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 454875e..7ba22bc 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -307,6 +307,7 @@ void server_destruct(server *server)
 
 void server_open(server *server, int fd, SSL_CTX *ssl_ctx)
 {
+  server->ssl_ctx = ssl_ctx;
   if (ssl_ctx)
     server_ssl_open(server, fd, ssl_ctx);
   else
-- 
2.43.0

