From cf44d659bd46c2eaa3391a22a40468fd02dd21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 01/52] fix: don't forget a partially read packet when writing
 to the same client

Finishing a write always set the connection's state to WANT_HEADER, so a
packet arriving in more than one segment was lost (and the stream
misframed) whenever the server sent that client anything in between.
---
 pktserv/pktserv.c   |  6 ++++--
 pktserv/pktsocket.c | 12 +++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index f4c657d..29a6d7b 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -337,9 +337,11 @@ pollfd_state_machine(struct pollfd* pollfd)
                     if (ok2read) {
                         pktsocket_read(cbuf);
                         if (cbuf->state == COMPLETE_PACKET && g_pktserv_cb.dispatch) {
-                            g_pktserv_cb.dispatch(cbuf->fd, cbuf->rbuf->data);
-                            _msgbuf_free(cbuf->rbuf);
+                            /* this packet is no longer in progress */
+                            msgbuf_t *rbuf = cbuf->rbuf;
                             cbuf->rbuf = NULL;
+                            g_pktserv_cb.dispatch(cbuf->fd, rbuf->data);
+                            _msgbuf_free(rbuf);
                             /* ready for the next packet */
                             cbuf->state = WANT_HEADER;
                         }
diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 53be7a1..91e0626 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -46,6 +46,13 @@
 #define VALID_PACKET_HEADER(hdr)     1
 
 
+/* has the header of a packet been read, but not yet all of its body? */
+static int packet_in_progress(cbuf_t *cbuf)
+{
+    return cbuf->rbuf != NULL && cbuf->rbuf->len > 0;
+}
+
+
 /* accept and initialize a new client connection */
 
 /* 
@@ -370,6 +377,9 @@ int pktsocket_write(cbuf_t* cbuf)
              cbuf->fd, cbuf->wlist_size);
     }
 
-    cbuf->state = WANT_HEADER;
+    /* everything's written. if we're in the middle of reading a packet, go
+     * back to that, otherwise wait for the next one.
+     */
+    cbuf->state = packet_in_progress(cbuf) ? WANT_READ : WANT_HEADER;
     return 0;
 }
-- 
2.43.0


From f2061a00549c273d323d9b2d426e57b5ac25fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 02/52] fix: don't spin forever on a client that stops reading

With output pending on a socket that isn't writable, the state machine
looped without making progress as soon as that client sent anything, which
hung the whole server. The same happened when pktsocket_write() gave up
after too many retries, since its return value was ignored.
---
 pktserv/pktserv.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 29a6d7b..e9d015d 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -307,17 +307,22 @@ pollfd_state_machine(struct pollfd* pollfd)
                 return;
 
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if (readable || writeable)
-                    pktsocket_write(cbuf);
+                if ((readable || writeable) && pktsocket_write(cbuf) < 0) {
+                    cbuf->state = WANT_DISCONNECT;
+                }
                 return;
 
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
-                if (writeable) {
-                    pktsocket_write(cbuf);
+                if (!writeable) {
+                    /* nothing to do until the client takes some data */
+                    return;
+                }
+                if (pktsocket_write(cbuf) < 0) {
+                    cbuf->state = WANT_DISCONNECT;
                 }
-                if (readable && (cbuf->state == WANT_READ || cbuf->state == WANT_HEADER)) {
-                    /* pktsocket_write() may have set this to BLOCKED */
-                    cbuf->disp = OK;
+                if (cbuf->state == WANT_WRITE) {
+                    /* only part of it went out */
+                    return;
                 }
                 break;
 
@@ -457,7 +462,6 @@ update_pollfd_events(void)
                 /* Freshly accepted: the state machine must run
                  * immediately so the server can send the protocol
                  * banner before the client sends anything. */
-            case WANT_WRITE:
             case WANT_SSL_WRITE:
             case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
@@ -467,6 +471,11 @@ update_pollfd_events(void)
                  * the remote side has gone quiet. */
                 events |= POLLOUT;
                 break;
+            case WANT_WRITE:
+                /* We don't read from a client that has output pending, so
+                 * don't let its input wake us up. */
+                events = POLLOUT;
+                break;
             default:
                 break;
         }
-- 
2.43.0


From 53f0dba59092ae0caef9334c76807fc2e6c13568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 03/52] fix: close the socket of a client lost through
 POLLHUP/POLLERR

A connection that went away with a reset was reported as lost but never
closed: its descriptor leaked, poll() returned at once from then on, and
the lost_client callback ran again on every pass. Also start new pollset
entries without stale revents.
---
 pktserv/pktserv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index e9d015d..0ccb3cb 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -208,6 +208,7 @@ add_pollfd(int fd)
      * data to write; leaving it on all the time causes poll() to
      * return immediately on idle connections → 100 % CPU. */
     g_pollset[i].events = POLLIN;
+    g_pollset[i].revents = 0;
     return 0;
 }
 
@@ -254,6 +255,11 @@ pollfd_state_machine(struct pollfd* pollfd)
 
     cbuf = &cbufs[pollfd->fd];
 
+    /* already gone (a leftover entry from earlier in this pass) */
+    if (cbuf->state == DISCONNECTED) {
+        return;
+    }
+
     /* if we have an exception, disconnect 'em */
     if ( (pollfd->revents & POLLERR) ||
          (pollfd->revents & POLLHUP) ||
@@ -269,6 +275,7 @@ pollfd_state_machine(struct pollfd* pollfd)
             g_pktserv_cb.lost_client(cbuf->fd);
         }
         handle_disconnect(cbuf);
+        handle_raw_disconnect(cbuf);
         return;
     }
 
-- 
2.43.0


From 293f4161b6c27ea2833361cc1448725194be0d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:38 +0000
Subject: [PATCH 04/52] fix: honor a disconnect requested while handling a
 packet

The state was reset to WANT_HEADER (or WANT_WRITE) after dispatching, which
discarded a pktserv_disconnect() made by the handler for its own client.
---
 pktserv/pktserv.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 0ccb3cb..637c6e2 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -352,14 +352,17 @@ pollfd_state_machine(struct pollfd* pollfd)
                             /* this packet is no longer in progress */
                             msgbuf_t *rbuf = cbuf->rbuf;
                             cbuf->rbuf = NULL;
+                            /* ready for the next packet, unless handling
+                             * this one leaves us in another state.
+                             */
+                            cbuf->state = WANT_HEADER;
                             g_pktserv_cb.dispatch(cbuf->fd, rbuf->data);
                             _msgbuf_free(rbuf);
-                            /* ready for the next packet */
-                            cbuf->state = WANT_HEADER;
                         }
                     }
                 }
-                if (!TAILQ_EMPTY(&(cbuf->wlist))) {
+                if (!TAILQ_EMPTY(&(cbuf->wlist)) &&
+                    (cbuf->state == WANT_HEADER || cbuf->state == WANT_READ)) {
                     /* cycle back to want write if there's stuff left */
                     cbuf->state = WANT_WRITE;
                 }
-- 
2.43.0


From a2ee51e573ad306d6a05415161f45a07c6117566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:07 +0000
Subject: [PATCH 05/52] fix: reassemble packets from TLS records of any size

A packet whose header and body came in different TLS records was never
handled, and could leave the connection in a state that made the server
spin forever; a second packet in the same record waited for more network
data, since poll() can't see what the SSL layer has already read. Tell
header and body apart by the read buffer rather than the state, handle a
retried read like any other one, and carry on while data is pending.
---
 pktserv/pktserv.c   | 40 +++++++++++++++++++---------------------
 pktserv/pktsocket.c |  2 +-
 pktserv/sslsocket.c | 15 +++++++++++++++
 pktserv/sslsocket.h |  3 +++
 4 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 637c6e2..7c33f39 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -308,17 +308,7 @@ pollfd_state_machine(struct pollfd* pollfd)
                     sslsocket_accept(cbuf);
                 return;
 
-            case WANT_SSL_READ:     /* need to retry the SSL read */
-                if (readable || writeable)
-                    pktsocket_read(cbuf);
-                return;
-
             case WANT_SSL_WRITE:    /* need to retry the SSL write */
-                if ((readable || writeable) && pktsocket_write(cbuf) < 0) {
-                    cbuf->state = WANT_DISCONNECT;
-                }
-                return;
-
             case WANT_WRITE:        /* we have pending writes. This can be a new SSL write. */
                 if (!writeable) {
                     /* nothing to do until the client takes some data */
@@ -327,7 +317,7 @@ pollfd_state_machine(struct pollfd* pollfd)
                 if (pktsocket_write(cbuf) < 0) {
                     cbuf->state = WANT_DISCONNECT;
                 }
-                if (cbuf->state == WANT_WRITE) {
+                if (cbuf->state == WANT_WRITE || cbuf->state == WANT_SSL_WRITE) {
                     /* only part of it went out */
                     return;
                 }
@@ -339,9 +329,10 @@ pollfd_state_machine(struct pollfd* pollfd)
                 }
                 // fallthrough
 
+            case WANT_SSL_READ:     /* need to retry the SSL read */
             case WANT_HEADER:       /* need to read a new packet header */
             case WANT_READ:         /* in the middle of a read. read more network data. */
-                if (readable) {
+                if (readable || sslsocket_pending(cbuf)) {
                     int ok2read = 1;
                     if (g_pktserv_cb.ok2read) {
                         ok2read = g_pktserv_cb.ok2read(cbuf->fd);
@@ -359,6 +350,13 @@ pollfd_state_machine(struct pollfd* pollfd)
                             g_pktserv_cb.dispatch(cbuf->fd, rbuf->data);
                             _msgbuf_free(rbuf);
                         }
+                        if (sslsocket_pending(cbuf) &&
+                            (cbuf->state == WANT_HEADER || cbuf->state == WANT_READ)) {
+                            /* poll() won't wake us up for the rest of this
+                             * SSL record, so carry on with it now.
+                             */
+                            break;
+                        }
                     }
                 }
                 if (!TAILQ_EMPTY(&(cbuf->wlist)) &&
@@ -472,7 +470,6 @@ update_pollfd_events(void)
                 /* Freshly accepted: the state machine must run
                  * immediately so the server can send the protocol
                  * banner before the client sends anything. */
-            case WANT_SSL_WRITE:
             case WANT_SSL_ACCEPT:
                 /* These states need write-readiness notification. */
             case WANT_DISCONNECT:
@@ -482,6 +479,7 @@ update_pollfd_events(void)
                 events |= POLLOUT;
                 break;
             case WANT_WRITE:
+            case WANT_SSL_WRITE:
                 /* We don't read from a client that has output pending, so
                  * don't let its input wake us up. */
                 events = POLLOUT;
@@ -523,15 +521,15 @@ pktserv_run(void)
 
         update_pollfd_events();
         ret = poll(g_pollset, g_pollsetsize, poll_timeout); // millisec
-        if (ret < 0) {
-            if (errno == EINTR)
-                ret = 0;
-            else
-                vmdb(MSG_ERR, "%s: %s", __FUNCTION__, strerror(errno));
-        }
-
-        if (ret > 0) {
+        if (ret >= 0) {
+            /* do this even if poll() has nothing for us: there may be data
+             * waiting in the SSL layer.
+             */
             handle_pollfds();
+        } else if (errno == EINTR) {
+            ret = 0;
+        } else {
+            vmdb(MSG_ERR, "%s: %s", __FUNCTION__, strerror(errno));
         }
 
         if (ret >= 0 || loopcount%10==0 ) {
diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 91e0626..7dc29f4 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -160,7 +160,7 @@ int pktsocket_read(cbuf_t *cbuf)
     size_t remain;
 
     /* try to read the header unless we've already done that */
-    if (cbuf->state == WANT_HEADER) {
+    if (!packet_in_progress(cbuf)) {
 
         /* set up our packet buffer */
         if ( (cbuf->rbuf = _msgbuf_alloc(cbuf->rbuf, MAX_PKT_LEN)) == NULL) {
diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 62d2aa2..48b4b8a 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -46,6 +46,11 @@ int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len)
     return -1;
 }
 
+int sslsocket_pending(cbuf_t *cbuf)
+{
+    return 0;
+}
+
 
 #else /* HAVE_SSL */
 
@@ -327,4 +332,14 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 
 }
 
+
+/*
+ * Has the SSL layer already taken data off the socket that we haven't read
+ * yet? poll() doesn't know about this data.
+ */
+int sslsocket_pending(cbuf_t *cbuf)
+{
+    return cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0;
+}
+
 #endif
diff --git a/pktserv/sslsocket.h b/pktserv/sslsocket.h
index 3d9ce3f..e1828df 100644
--- a/pktserv/sslsocket.h
+++ b/pktserv/sslsocket.h
@@ -21,3 +21,6 @@ int sslsocket_accept(cbuf_t *cbuf);
 int sslsocket_read(cbuf_t *cbuf, void* buf, size_t len);
 int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len);
 
+/* is there data waiting in the SSL layer that poll() won't tell us about? */
+int sslsocket_pending(cbuf_t *cbuf);
+
-- 
2.43.0


From ea75d93def717ea162314ceb66d0d1961715ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:37 +0000
Subject: [PATCH 06/52] fix: drop TLS clients that send an empty packet, like
 cleartext ones

A zero length byte ended a cleartext connection at once, but left a TLS
connection waiting for a read of no bytes.
---
 pktserv/pktsocket.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 7dc29f4..2cb6643 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -211,6 +211,14 @@ int pktsocket_read(cbuf_t *cbuf)
         cbuf->rbuf->pos++;
         cbuf->newmsg = 0;
 
+        /* there has to be at least a type byte */
+        if (cbuf->rbuf->len <= PACKET_HEADER_LEN) {
+            vmdb(MSG_ERR, "fd%d%s: sent an empty packet.", cbuf->fd,
+                 cbuf->is_ssl ? " (SSL)" : "");
+            cbuf->state = WANT_DISCONNECT;
+            return -1;
+        }
+
         /*
          * this is in case you've configured the server with
          * the cbuf buffer size less than the maximum allowed
-- 
2.43.0


From 8d7291b4c13abcdf284b8322ae5ff9e2e2a886fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:39 +0000
Subject: [PATCH 07/52] fix: leave room for the terminator in getword()

---
 server/strutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/strutil.c b/server/strutil.c
index a0083fd..d6c7700 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -224,7 +224,7 @@ char *getword(char *s)
 {
     static char word[64];
     char *w = word;
-    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < 64))
+    while (*s != ' ' && *s != '\t' && *s != '\0' && ((w - word) < (int)sizeof(word) - 1))
         *w++ = *s++;
     *w = '\0';
     return(word);
-- 
2.43.0


From 1795ce13e430f24d3694094024b73356d98a4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 08/52] fix: don't let packets see the fields of earlier
 packets

A command or login with fewer fields than its handler looks at used
pointers into an already freed packet buffer, and a packet with more than
MAX_FIELDS fields wrote past the end of the fields array.
---
 server/strutil.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/strutil.c b/server/strutil.c
index d6c7700..297e76c 100644
--- a/server/strutil.c
+++ b/server/strutil.c
@@ -248,12 +248,19 @@ char *get_tail(char *s)
  */
 
 char *fields[MAX_FIELDS];
+static char nofield[1] = "";
 
 int split(char *s)
 {
     char *p = s;
-    int i = 0;
+    int i;
 
+    /* fields that aren't there are empty, rather than whatever was there in
+     * the last packet */
+    for (i = 1; i < MAX_FIELDS; i++)
+        fields[i] = nofield;
+
+    i = 0;
     fields[i] = s;
     for(;;) {
 
@@ -268,7 +275,7 @@ int split(char *s)
          * is all cleaned up, we just stop at the MAX_FIELDS
          * which is only slightly better.
          */
-        if ( i > MAX_FIELDS )
+        if ( i >= MAX_FIELDS )
             return (MAX_FIELDS);
 
         /* find delim or EOS */
-- 
2.43.0


From 673fe5bdca62a64cdfa55902a86c3e8b52bc9331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 09/52] fix: don't write the target group of a forced move into
 a freed packet

The idle boot and the group 1 spam boot copied the new group's name over
whatever fields[1] last pointed to, which usually is freed memory.
---
 server/ipcf.c | 3 ++-
 server/msgs.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/ipcf.c b/server/ipcf.c
index 5c475c6..bcc9606 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -236,6 +236,7 @@ void s_didpoll(int n)
             if ( strcasecmp (u_tab[i].group, IDLE_GROUP) != 0
                  && g_tab[gi].idleboot > 0 ) {
                 const char    *bootmsg = IDLE_BOOT_MSG;
+                char newgroup[] = IDLE_GROUP;
 
                 if ( g_tab[gi].idleboot_msg[0] != '\0' )
                     bootmsg = g_tab[gi].idleboot_msg;
@@ -300,7 +301,7 @@ void s_didpoll(int n)
                     }
 
                     /* fake an s_change to group IDLE_GROUP */
-                    strcpy (fields[1], IDLE_GROUP);
+                    fields[1] = newgroup;
                     is_booting = 1;
                     s_change(i, 2);
                     is_booting = 0;
diff --git a/server/msgs.c b/server/msgs.c
index 01838e4..3b1bd6a 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -212,6 +212,7 @@ void openmsg(int n, char *pkt)
                 if ( u_recv_count[n] > 2 )
                 {
                     extern int is_booting;
+                    char newgroup[] = "ICB";
 
                     /* tell 'em it happened. */
                     sendstatus(n, "Boot", "No spamming in group 1.");
@@ -219,7 +220,7 @@ void openmsg(int n, char *pkt)
                             u_tab[n].nickname);
                     s_status_group(1,1,n, "Boot", mbuf);
                     /* fake an s_change to group ICB */
-                    strcpy (fields[1], "ICB");
+                    fields[1] = newgroup;
                     is_booting = 1;
                     s_change(n, 2);
                     is_booting = 0;
-- 
2.43.0


From 35d78c0b96da2c9d07cb932bc2438f62b00fc3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 10/52] fix: terminate text that fills its packet

filtertext() doesn't terminate its result when the text is as long as the
buffer, so long messages were sent with whatever followed on the stack.
---
 server/send.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/server/send.c b/server/send.c
index ab12279..98858e3 100644
--- a/server/send.c
+++ b/server/send.c
@@ -29,11 +29,18 @@ extern char * getremotename(int socketfd);
 char packetbuffer[MAX_PKT_LEN]; /* packet buffer */
 
 
+/* filter src into the size bytes at dest, always leaving it terminated */
+static void filterfield(const char *src, char *dest, size_t size)
+{
+    filtertext(src, dest, size - 1);
+    dest[size - 1] = '\0';
+}
+
 /* send an error message to the client */
 void senderror(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA];
-    filtertext(message, msgbuf, MAX_PKT_DATA);
+    filterfield(message, msgbuf, MAX_PKT_DATA);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s",
             ICB_M_ERROR, msgbuf);
     doSend(-1, to);
@@ -46,8 +53,8 @@ void sendperson(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterfield(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     char one[255], two[MAX_NICKLEN+1];
     snprintf(one, 255, "%s@%s", u_tab[from].loginid, u_tab[from].nodeid);
@@ -74,8 +81,8 @@ void sendopen(int from, int to, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterfield(u_tab[from].nickname, nickbuf, MAX_NICKLEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_OPEN, nickbuf, msgbuf);
@@ -107,8 +114,8 @@ void sendstatus(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterfield(status, statusbuf, MAX_STATUS_LEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_STATUS, statusbuf, msgbuf);
@@ -120,7 +127,7 @@ void send_cmdend(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-4];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-4);
+    filterfield(message, msgbuf, MAX_PKT_DATA-4);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001\001%s", 
              ICB_M_CMDOUT, "ec", msgbuf);
     doSend(-1, to);
@@ -131,7 +138,7 @@ void sends_cmdout(int to, const char *message)
 {
     char msgbuf[MAX_PKT_DATA-3];
 
-    filtertext(message, msgbuf, MAX_PKT_DATA-3);
+    filterfield(message, msgbuf, MAX_PKT_DATA-3);
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_CMDOUT, "co", msgbuf);
     doSend(-1, to);
@@ -146,8 +153,8 @@ void send_person_stored(int to, const char* fromNick, const char *message)
     char nickbuf[MAX_NICKLEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_NICKLEN-1];
 
-    filtertext(fromNick, nickbuf, MAX_NICKLEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
+    filterfield(fromNick, nickbuf, MAX_NICKLEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_NICKLEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s",
             ICB_M_PERSONAL, nickbuf, msgbuf);
@@ -241,8 +248,8 @@ void sendimport(int to, const char *status, const char *message)
     char statusbuf[MAX_STATUS_LEN+1];
     char msgbuf[MAX_PKT_DATA-MAX_STATUS_LEN-1];
 
-    filtertext(status, statusbuf, MAX_STATUS_LEN+1);
-    filtertext(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
+    filterfield(status, statusbuf, MAX_STATUS_LEN+1);
+    filterfield(message, msgbuf, MAX_PKT_DATA-MAX_STATUS_LEN-1);
 
     snprintf(&packetbuffer[1], MAX_PKT_LEN-1, "%c%s\001%s", 
              ICB_M_IMPORTANT, statusbuf, msgbuf);
-- 
2.43.0


From 3c228776844df7a4dd2f7c0e04144688923fffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 11/52] fix: check a new user's nickname for duplicates after
 filtering it

Logging in as "a b" while "a_b" was signed on gave two users the same
nickname.
---
 server/msgs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 3b1bd6a..d028925 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -381,6 +381,9 @@ int loginmsg(int n, char *pkt)
     {
         /* regular login */
 
+        /* get rid of nasty characters in the nickname */
+        filternickname(fields[1]);
+
         /* make sure the nickname hasn't already been taken */
         if (find_user(fields[1]) >= 0)
         {
@@ -507,9 +510,6 @@ int loginmsg(int n, char *pkt)
             mdb(MSG_ERR, mbuf);
         }
 
-        /* get rid of nasty characters in the nickname */
-        filternickname(fields[1]);
-
         /* fill in what we can */
         fill_user_entry(n, fields[0], cp, fields[1],
                         fields[4], "", "", LOGIN_FALSE, 0, 0, perms);
-- 
2.43.0


From ba355c8c1b7a0cc9855c56466cdc836b0b8728f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 12/52] fix: don't let a client use the server's own slot

The connection with descriptor MAX_USERS - 1 shared its entry with the
built in Server user: it overwrote its host name, and could issue commands
as it without logging in.
---
 server/send.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/send.c b/server/send.c
index 98858e3..ca8e69d 100644
--- a/server/send.c
+++ b/server/send.c
@@ -197,9 +197,10 @@ void s_new_user(int n, int secure)
 {
     char *cp;
 
-    /* Check bounds: file descriptor must be < MAX_USERS to use as array index */
-    if (n < 0 || n >= MAX_USERS) {
-        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_USERS - 1);
+    /* Check bounds: the file descriptor is the user's index, and the last
+     * one is the server's own */
+    if (n < 0 || n >= MAX_REAL_USERS) {
+        vmdb(MSG_ERR, "s_new_user: invalid file descriptor %d (must be 0-%d), closing connection", n, MAX_REAL_USERS - 1);
         pktserv_disconnect(n);
         return;
     }
-- 
2.43.0


From c19b491e02c819ad11c2f83ecf72e40988436300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:00 +0000
Subject: [PATCH 13/52] fix: forget and disconnect clients whose login failed

A login that failed late (no such user to join, a group that can't be
entered) left a nickname or half a user behind, and one that failed early
was never disconnected.
---
 server/dispatch.c |  3 +++
 server/ipcf.c     | 23 ++++++++++++-----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/server/dispatch.c b/server/dispatch.c
index 346f4de..696c6a3 100644
--- a/server/dispatch.c
+++ b/server/dispatch.c
@@ -11,6 +11,7 @@
 #include "send.h"
 #include "msgs.h"
 #include "mdb.h"
+#include "ipcf.h"
 
 /* dispatch()
  *
@@ -35,6 +36,8 @@ void dispatch(int n, char *pkt)
         if(loginmsg(n, ++pkt) < 0) {
             /* login failed.  dump them */
             sendexit(n);
+            /* forget whatever we got to know about them already */
+            s_lost_user(n);
             /*
              * we set S_kill since we want to make sure
              * error msgs reach them before the disconnect
diff --git a/server/ipcf.c b/server/ipcf.c
index bcc9606..2dfe224 100644
--- a/server/ipcf.c
+++ b/server/ipcf.c
@@ -75,13 +75,12 @@ void s_didpoll(int n)
         }
 
         for(i=0;i<MAX_REAL_USERS;i++) {
-            if ( u_tab[i].login > LOGIN_FALSE ) {
-                if (S_kill[i] > 0) {
-                    sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
-                    mdb(MSG_INFO, mbuf);
+            if (S_kill[i] > 0) {
+                sprintf(mbuf, "[KILL] killing %d (%d)", i, S_kill[i]);
+                mdb(MSG_INFO, mbuf);
+                if ( u_tab[i].login > LOGIN_FALSE )
                     server_stats.drops++;
-                    pktserv_disconnect(i);
-                }
+                pktserv_disconnect(i);
             }
         }
 
@@ -381,12 +380,13 @@ int s_lost_user(int n)         /* n = fd of that user */
     ucaseit(one);
     strcpy(three, u_tab[n].nickname);
     ucaseit(three);
-    for (j = 0; j < MAX_USERS; j++) {
+    /* (those who didn't make it into a group never signed on) */
+    ogi = find_group(t_grp);
+    for (j = 0; ogi >= 0 && j < MAX_USERS; j++) {
         if ((n != j) && (u_tab[j].login > LOGIN_FALSE)) {
             if ((nlmatch(three, *u_tab[j].n_notifies) ||
                  nlmatch(one, *u_tab[j].s_notifies)) &&
-                (g_tab[find_group(u_tab[n].group)].visibility != 
-                 SUPERSECRET)) {
+                (g_tab[ogi].visibility != SUPERSECRET)) {
                 /* ignore warning about 'one' being possibly truncated
                  * when copying into 'two'.
                  */
@@ -409,12 +409,13 @@ int s_lost_user(int n)         /* n = fd of that user */
     /* note: they may be moderator of a group they are NOT in */
 
     ogi = find_group(t_grp);
-    if (ogi < 0) return -1;
 
     /* check if there are any users left in present group */
     num_left = count_users_in_group(t_grp);
 
-    if ( num_left > 0) {
+    if (ogi < 0) {
+        /* they weren't in any */
+    } else if ( num_left > 0) {
         /* tell remaining group members user left */
         TheTime = time(NULL);
         if (is_killed > 0)
-- 
2.43.0


From 2d23d78d71a69e04a018e3410598298f2f25df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 14/52] fix: leave room for the terminator of an idle-boot
 message

---
 server/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/server.h b/server/server.h
index 21b89bd..079cebb 100644
--- a/server/server.h
+++ b/server/server.h
@@ -99,7 +99,7 @@ typedef struct {
     int	size;		/* how many people are allowed */
     int	idleboot;	/* how idle people can be before booted */
 #define	IDLEBOOT_MSG_LEN	(79-15-MAX_NICKLEN+2)
-    char	idleboot_msg[IDLEBOOT_MSG_LEN];
+    char	idleboot_msg[IDLEBOOT_MSG_LEN + 1];
     /* max length of the message so it'll fit on
      * one line. 79=line length,
      * 15=strlen([=Idle-Boot=] )
-- 
2.43.0


From 7cd2e41e52d44ba59f49690df15c6bf352e5723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 15/52] fix: keep the who listing inside its buffers

---
 server/s_who.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/server/s_who.c b/server/s_who.c
index 3ae839a..0670965 100644
--- a/server/s_who.c
+++ b/server/s_who.c
@@ -77,7 +77,7 @@ void pgm_long(int n, int which)
     int gpmod;
     int num_users;
     char cp[5];
-    char status[8];
+    char status[12];    /* "(nr,aw,ssl)" */
     int nr = 0, aw = 0, sec=0;
     int user_list[MAX_REAL_USERS];
     int i, j;
@@ -104,7 +104,7 @@ void pgm_long(int n, int which)
                            u_tab[user_list[i]].t_group)
 #endif
                         i++;
-                for (j = (users + 1); j > i; j--)
+                for (j = users; j > i; j--)
                     user_list[j] = user_list[j - 1];
                 user_list[i] = user;
             }
@@ -181,7 +181,7 @@ void print_group_title(int n)
 void print_group_header(int n, int grp)
 {
     char GroupName[MAX_GROUPLEN + 3];
-    char TheMod[MAX_NICKLEN + 7];
+    char TheMod[MAX_NICKLEN + 16];
     int mod;
     char TheTopic[MAX_TOPICLEN + 1];
     char Options[20];
@@ -312,7 +312,7 @@ void doAll(int n, int flags)
                 while ((i < groups) && (strcasecmp(g_tab[group].name,
                                                    g_tab[group_list[i]].name) > 0))
                     i++;
-                for (j = (groups + 1); j > i; j--)
+                for (j = groups; j > i; j--)
                     group_list[j] = group_list[j - 1];
                 group_list[i] = group;
             }
-- 
2.43.0


From d5f1202fe6cd4305b2125141a4f17501b416dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 16/52] fix: don't overflow the file name of a news entry

---
 server/s_news.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/s_news.c b/server/s_news.c
index 5cf0af6..0e63a30 100644
--- a/server/s_news.c
+++ b/server/s_news.c
@@ -62,8 +62,9 @@ int s_news(int n, int argc)
         if (first == 0)
             sendstatus(n, "News", "No news.");
     } else {
-        sprintf(fname, "news.%s", fields[1]);
-        if ((news_fd = open(fname, O_RDONLY)) >= 0) {
+        if (snprintf(fname, sizeof(fname), "news.%s", fields[1])
+                < (int) sizeof(fname) &&
+            (news_fd = open(fname, O_RDONLY)) >= 0) {
             sends_cmdout(n, "--------------------------------------");
             memset(tbuf, 0, 255);
             while ((j = read(news_fd, &c, 1)) > 0) {
-- 
2.43.0


From 6404f55afd2573355eb1aface4ec5df3f11a3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:13 +0000
Subject: [PATCH 17/52] fix: don't use talk list entries after deleting them

---
 server/s_group.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 7879d54..d18fe2f 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -2130,17 +2130,20 @@ fields[1] is nickname of person to invite
                     int        count,
                             i;
                     char    *cp;
+                    char    name[MAX_PKT_DATA+1];
 
                     nl = g_tab[gi].n_talk;
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
+                        /* talk_delete() frees the entry */
                         cp = nlget (nl);
-                        if (cp && *cp) {
-                            if ( talk_delete (cp, gi) > 0
+                        snprintf (name, sizeof (name), "%s", cp ? cp : "");
+                        if (*name) {
+                            if ( talk_delete (name, gi) > 0
                                  && quiet == 0 )
                             {
-                                sprintf (mbuf, "%s removed from talk list", cp);
+                                sprintf (mbuf, "%s removed from talk list", name);
                                 sendstatus (n, "FYI", mbuf);
                             }
                         }
@@ -2150,13 +2153,15 @@ fields[1] is nickname of person to invite
                     count = nlcount(*nl);
                     for ( i = 0; i < count; i++)
                     {
+                        /* talk_delete() frees the entry */
                         cp = nlget (nl);
-                        if (cp && *cp) {
-                            if ( talk_delete (cp, gi) > 0
+                        snprintf (name, sizeof (name), "%s", cp ? cp : "");
+                        if (*name) {
+                            if ( talk_delete (name, gi) > 0
                                  && quiet == 0 )
                             {
                                 sprintf (mbuf,
-                                         "%s removed from registered talk list", cp);
+                                         "%s removed from registered talk list", name);
                                 sendstatus (n, "FYI", mbuf);
                             }
                         }
-- 
2.43.0


From 43495564d538397348160aa2a014f47194924670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:13 +0000
Subject: [PATCH 18/52] fix: don't use an away message as a format string

---
 server/s_person.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server/s_person.c b/server/s_person.c
index d7f03e3..dd28c38 100644
--- a/server/s_person.c
+++ b/server/s_person.c
@@ -122,8 +122,7 @@ void away_handle (int src, int dest)
                          t->tm_hour > 11 ? "pm" : "am",
                          u_tab[dest].awaymsg);
 
-                snprintf(mbuf, MAX_PKT_DATA, tbuf, u_tab[dest].nickname);
-                sends_cmdout(dest, mbuf);
+                sends_cmdout(dest, tbuf);
             }
         }
     }
-- 
2.43.0


From 7ef99e2fd1f574394bc0ed3e374639cbe52a57cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:13 +0000
Subject: [PATCH 19/52] fix: don't read past an unterminated character class

---
 server/wildmat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server/wildmat.c b/server/wildmat.c
index 99367b0..96ec30f 100644
--- a/server/wildmat.c
+++ b/server/wildmat.c
@@ -98,9 +98,12 @@ DoMatch(char *text, char *p)
                         matched = TRUE;
                 for (last = *p; *++p && *p != ']'; last = *p)
                     /* This next line requires a good C compiler. */
-                    if (*p == '-' && p[1] != ']'
+                    if (*p == '-' && p[1] != ']' && p[1] != '\0'
                         ? *text <= *++p && *text >= last : *text == *p)
                         matched = TRUE;
+                if (*p == '\0')
+                    /* Unterminated character class. */
+                    return ABORT;
                 if (matched == reverse)
                     return FALSE;
                 continue;
-- 
2.43.0


From e647719e6044ac63a6490fd1e46d5f32160eab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 20/52] fix: don't name the moderator of a controlled group
 that has none

---
 server/msgs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index d028925..57331ad 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -259,10 +259,13 @@ void openmsg(int n, char *pkt)
             {
                 senderror (n,
                            "You do not have permission to send open messages in this group.");
-                sprintf (mbuf,
-                         "Use \"/m %s may i talk?\" to request permission.",
-                         u_tab[g_tab[gi].mod].nickname);
-                sendstatus (n, "INFO", mbuf);
+                if (g_tab[gi].mod >= 0)
+                {
+                    sprintf (mbuf,
+                             "Use \"/m %s may i talk?\" to request permission.",
+                             u_tab[g_tab[gi].mod].nickname);
+                    sendstatus (n, "INFO", mbuf);
+                }
             }
             else if (count_users_in_group(g_tab[gi].name) < 2)
                 senderror(n,
-- 
2.43.0


From 479d193e13f3d214c1857641fd886375deafcdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 21/52] fix: don't let /exclude bypass the talk list of a
 controlled group

---
 server/s_group.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index d18fe2f..5b24be8 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -1864,6 +1864,15 @@ int s_exclude(int n, int argc)
                 senderror (n, "Open messages not permitted in quiet groups.");
                 return 0;
             }
+            if (gi != -1 && g_tab[gi].control == CONTROLLED &&
+                g_tab[gi].mod != n &&
+                nlpresent (u_tab[n].nickname, *g_tab[gi].n_talk) == 0 &&
+                (strlen (u_tab[n].realname) == 0 ||
+                 nlpresent (u_tab[n].nickname, *g_tab[gi].nr_talk) == 0)) {
+                senderror (n,
+                           "You do not have permission to send open messages in this group.");
+                return 0;
+            }
 
             strcpy(my_group, u_tab[n].group);
             sprintf(one, "%s@%s", u_tab[n].loginid, u_tab[n].nodeid);
-- 
2.43.0


From b133dd120dd83668b7cdcf85d2fc8787251b4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 22/52] fix: keep whois output inside its buffers

---
 server/access.c | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/server/access.c b/server/access.c
index db81a41..ecb1eec 100644
--- a/server/access.c
+++ b/server/access.c
@@ -546,7 +546,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
 {
     char           line[255];
     char           temp[255];
-    char           nickstr[MAX_NICKLEN+1];
+    char           nickstr[MAX_NICKLEN+1] = "";
     char           *value;
     int            retval;
     int            count = 0;
@@ -583,14 +583,14 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             while (strlen(line) < 36)
                 strcat(line, " ");
             strcat(line, "Address:   ");
-            strncat(line, value, sizeof(line)-1);
+            strncat(line, value, sizeof(line)-strlen(line)-1);
             sends_cmdout(forWhom, line);
 
             sprintf(line, "Phone Number: ");
             if (!icbdb_get (theNick, "phone", ICBDB_STRING, &value))
                 strcat(line, "(None)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-strlen(line)-1);
 
             while (strlen(line) < 36)
                 strcat(line, " ");
@@ -599,7 +599,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             if (!icbdb_get (theNick, "realname", ICBDB_STRING, &value))
                 strcat(line, "(None)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-strlen(line)-1);
 
             sends_cmdout(forWhom, line);
 
@@ -607,7 +607,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             if (!icbdb_get (theNick, "signon", ICBDB_STRING, &value))
                 strcat(line, "(unknown)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-strlen(line)-1);
 
             while (strlen(line) < 36)
                 strcat(line, " ");
@@ -616,21 +616,21 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
             if (!icbdb_get (theNick, "signoff", ICBDB_STRING, &value))
                 strcat(line, "(unknown)");
             else
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-strlen(line)-1);
 
             sends_cmdout(forWhom, line);
 
             if (icbdb_get (theNick, "email", ICBDB_STRING, &value))
             {
                 strcpy(line, "E-mail addr:  ");
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-strlen(line)-1);
                 sends_cmdout(forWhom, line);
             }
 
             if (icbdb_get (theNick, "www", ICBDB_STRING, &value))
             {
                 strcpy(line, "WWW:  ");
-                strncat(line, value, sizeof(line)-1);
+                strncat(line, value, sizeof(line)-strlen(line)-1);
                 sends_cmdout(forWhom, line);
             }
 
@@ -647,7 +647,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                         sends_cmdout(forWhom, temp);
                         strcpy(temp, "  ");
                     }
-                    else
+                    else if (strlen(temp) < sizeof(temp) - 1)
                         strncat(temp, s, 1);
 
                     s++;
@@ -667,8 +667,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                     if (*p == '\n')
                     {
                         *p++ = '\0';
-                        strcpy(temp, "Text: ");
-                        strcat(temp, s);
+                        snprintf(temp, sizeof(temp), "Text: %s", s);
                         sends_cmdout(forWhom, temp);
                         count = 0;
                         lastw = p;
@@ -690,8 +689,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                             tmp2 = *p;
                             *(p - 1) = '-';
                             *p = '\0';
-                            strcpy(temp, "Text: ");
-                            strcat(temp, s);
+                            snprintf(temp, sizeof(temp), "Text: %s", s);
                             sends_cmdout(forWhom, temp);
                             *(p - 1) = tmp1;
                             *p = tmp2;
@@ -703,8 +701,7 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                             /* break at last space char */
                             tmp1 = *lastw;
                             *lastw = '\0';
-                            strcpy(temp, "Text: ");
-                            strcat(temp, s);
+                            snprintf(temp, sizeof(temp), "Text: %s", s);
                             sends_cmdout(forWhom, temp);
                             *lastw = tmp1;
                             p = lastw + 1;
@@ -722,10 +719,10 @@ int nicklookup(int forWhom, const char *theNick, DBM *openDb)
                 }
 
                 if (count > 0)
-                    strcpy(temp, "Text: ");
-
-                strcat(temp, s);
-                sends_cmdout(forWhom, temp);
+                {
+                    snprintf(temp, sizeof(temp), "Text: %s", s);
+                    sends_cmdout(forWhom, temp);
+                }
             }
         }
         else
-- 
2.43.0


From 9cc77086eae7359f45ad49e8f8de79495c372c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 23/52] fix: don't overflow the buffer for database values

---
 server/icbdb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/icbdb.c b/server/icbdb.c
index 0009b60..c1cc88f 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -127,6 +127,8 @@ icbdb_get (const char *category, const char *attribute, icbdb_type type,
               data.dsize, data.dptr);
 
         if (value != NULL) {
+            if (data.dsize > (int) sizeof (databuf) - 1)
+                data.dsize = sizeof (databuf) - 1;
             bcopy (data.dptr, databuf, data.dsize);
             databuf[data.dsize] = '\0';
 
-- 
2.43.0


From 5e7068d4410ea27bfd20a71b094fddc6aaaff1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 24/52] fix: add to the first empty slot of a list, not to slot
 0

---
 server/icbdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/icbdb.c b/server/icbdb.c
index c1cc88f..b209265 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -325,7 +325,7 @@ icbdb_list_find (const char *category, const char *attribute, icbdb_type type, v
             {
                 if (*first_empty == -1)
                 {
-                    *first_empty = 0;
+                    *first_empty = *index;
                 }
             }
 
-- 
2.43.0


From 2be6741f5711ec5957cddbcd5d7eff4cffc0d49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:05 +0000
Subject: [PATCH 25/52] fix: don't store records that make the database
 unreadable

---
 server/icb_dbm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 0bedf2b..4bb45ac 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -376,6 +376,11 @@ int dbm_store(DBM *db, datum key, datum content, int flags)
 {
     if (!db || !key.dptr) return -1;
     if (!content.dptr && content.dsize > 0) return -1;
+    if (key.dsize < 0 || (unsigned)key.dsize > ICB_DBM_MAX_RECSIZE ||
+        content.dsize < 0 || (unsigned)content.dsize > ICB_DBM_MAX_RECSIZE) {
+        errno = EINVAL;        /* load_file() would refuse the whole file */
+        return -1;
+    }
 
     entry_t *e = ht_find(db, key.dptr, key.dsize, NULL, NULL);
     if (e) {
-- 
2.43.0


From 4eb2df041fa49544cdc4680b6aff945bf7a3dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:05 +0000
Subject: [PATCH 26/52] fix: write the user database to disk

---
 server/dbm.h     |  1 +
 server/icb_dbm.c |  5 +++++
 server/icbdb.c   | 12 ++++++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/server/dbm.h b/server/dbm.h
index aaf90c5..ba4bb97 100644
--- a/server/dbm.h
+++ b/server/dbm.h
@@ -38,6 +38,7 @@ typedef struct icb_dbm DBM;
 
 /* ---- public API ---- */
 DBM  *dbm_open(const char *file, int flags, int mode);
+int   dbm_sync(DBM *db);    /* flush without closing; 0 if on disk */
 void  dbm_close(DBM *db);
 datum dbm_fetch(DBM *db, datum key);
 int   dbm_store(DBM *db, datum key, datum content, int flags);
diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 4bb45ac..69a13c2 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -329,6 +329,11 @@ DBM *dbm_open(const char *file, int flags, int mode)
     return db;
 }
 
+int dbm_sync(DBM *db)
+{
+    return db ? flush_file(db) : -1;
+}
+
 void dbm_close(DBM *db)
 {
     if (!db) return;
diff --git a/server/icbdb.c b/server/icbdb.c
index b209265..2185715 100644
--- a/server/icbdb.c
+++ b/server/icbdb.c
@@ -62,11 +62,19 @@ icbdb_open (void)
 void
 icbdb_close (void)
 {
-    if (--open_count > 0 || !icbdb_multiuser)
+    if (--open_count > 0)
     {
         return;
     }
 
+    if (!icbdb_multiuser)
+    {
+        /* keep it open, but don't lose the changes if we exit */
+        if (db != NULL && dbm_sync (db) < 0)
+            vmdb (MSG_ERR, "User Database Sync: %s", strerror(errno));
+        return;
+    }
+
     if (db != NULL)
     {
         dbm_close (db);
@@ -75,7 +83,7 @@ icbdb_close (void)
     db = NULL;
 }
 
-#define ICBDB_OPEN()    if (icbdb_open() == 0) return (0)
+#define ICBDB_OPEN()    if (icbdb_open() == 0) { icbdb_close (); return (0); }
 
 #define ICBDB_DONE(r)    icbdb_close (); return (r)
 
-- 
2.43.0


From c5230cd34bc133b9f8a645c4adebfcc2762f0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:39 +0000
Subject: [PATCH 27/52] fix: free the records of a database that fails to load

---
 server/icb_dbm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/server/icb_dbm.c b/server/icb_dbm.c
index 69a13c2..be38397 100644
--- a/server/icb_dbm.c
+++ b/server/icb_dbm.c
@@ -319,6 +319,14 @@ DBM *dbm_open(const char *file, int flags, int mode)
     if (load_file(db) < 0) {
         int save_errno = errno;
         /* Free everything we allocated */
+        for (unsigned i = 0; i < db->nbuckets; i++) {
+            entry_t *e = db->buckets[i];
+            while (e) {
+                entry_t *next = e->next;
+                entry_free(e);
+                e = next;
+            }
+        }
         free(db->buckets);
         free(db->path);
         free(db);
-- 
2.43.0


From 1d683427a0380ab7294b2b5fd8b01b4d27659dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 28/52] fix: don't report a random address for the server's own
 nickname

---
 server/s_info.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server/s_info.c b/server/s_info.c
index 1927c90..5a19d58 100644
--- a/server/s_info.c
+++ b/server/s_info.c
@@ -52,10 +52,10 @@ int s_info(int n, int argc)
             idle = time(NULL) - u_tab[TheirIndex].t_recv;
 
             aw = (strlen(u_tab[TheirIndex].awaymsg) > 0);
-            getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size);
 
             /* Get numeric IP address string (works for both IPv4 and IPv6) */
-            if (getnameinfo((struct sockaddr *)&rs, rs_size,
+            if (getpeername(TheirIndex, (struct sockaddr*)&rs, &rs_size) != 0 ||
+                getnameinfo((struct sockaddr *)&rs, rs_size,
                             addrstr, sizeof(addrstr), NULL, 0,
                             NI_NUMERICHOST) != 0) {
                 snprintf(addrstr, sizeof(addrstr), "(unknown)");
-- 
2.43.0


From fb05ac4b15aad8ad3c616f8eeeb7d23a0fabb54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 29/52] fix: don't log the freed fields of an earlier packet
 before login

Messages and commands sent before login aren't split into fields, so the log
line printed whatever an earlier (and freed) packet had left in fields[0].
---
 server/msgs.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 57331ad..497253d 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -276,7 +276,7 @@ void openmsg(int n, char *pkt)
         }
     } else {
         vmdb(MSG_INFO, "%d: cannot send open messages until logged in (%s)",
-             n, fields[0]);
+             n, pkt);
     }
 }
 
@@ -925,10 +925,8 @@ void cmdmsg(int n, char *pkt)
     } 
     else 
     {
-        sprintf (mbuf,
-                 "%d: cannot issue command until logged in (%s)",
-                 n, fields[0]);
-        mdb(MSG_INFO, mbuf);
+        vmdb(MSG_INFO, "%d: cannot issue command until logged in (%s)",
+             n, pkt);
     }
 }
 
-- 
2.43.0


From 3c41b30d208d1dfafe48b1d95f523cfc5870026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 30/52] fix: deliver the last packets to a client that is
 disconnected

With a zero linger time close() resets the connection and throws away what the
kernel hasn't sent yet, such as the reason a login was refused.
---
 pktserv/pktsocket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index 2cb6643..bae8de7 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -98,8 +98,8 @@ int pktsocket_accept(cbuf_t *listen_cbuf)
              strerror(errno));
     }
 
-    /* don't allow broken connections to linger */
-    nolinger.l_onoff = 1;
+    /* don't wait for broken connections, but do deliver what we sent last */
+    nolinger.l_onoff = 0;
     nolinger.l_linger = 0;
     if (setsockopt(ns, SOL_SOCKET, SO_LINGER,
                    (char *)&nolinger, sizeof(nolinger)) < 0) {
-- 
2.43.0


From a55366ab122c4c852c12924fa08b852947245e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:20 +0000
Subject: [PATCH 31/52] fix: disconnect TLS clients after an error even if
 errno says EWOULDBLOCK

When a TLS connection fails, OpenSSL tries to send an alert; if that write
would block, the error was taken for an incomplete read and the server span
on the dead connection forever.
---
 pktserv/pktsocket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pktserv/pktsocket.c b/pktserv/pktsocket.c
index bae8de7..95438cb 100644
--- a/pktserv/pktsocket.c
+++ b/pktserv/pktsocket.c
@@ -177,7 +177,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
         /* did we get an error or a partial read? */
         if (result < 0) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete read - sslsocket_read() will never return this. */
                 return 0;
             }
@@ -250,7 +250,7 @@ int pktsocket_read(cbuf_t *cbuf)
 
     /* did we get an error? */
     if (result < 0) {
-        if (errno == EWOULDBLOCK) {
+        if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
             /* incomplete read - read_ssl() will never return this. */
             cbuf->state = WANT_READ;
             return 0;
@@ -345,7 +345,7 @@ int pktsocket_write(cbuf_t* cbuf)
 
         /* did we have an error? */
         if ( result < 0 ) {
-            if (errno == EWOULDBLOCK) {
+            if (!cbuf->is_ssl && errno == EWOULDBLOCK) {
                 /* incomplete write - write_ssl() will never return this. */
                 cbuf->state = WANT_WRITE;
                 cbuf->retries++;
-- 
2.43.0


From 3b91835d0f41c18b890e64f432bfa8705ca25593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:54 +0000
Subject: [PATCH 32/52] fix: don't look up the group of a user who is still
 logging in

Logging in with one's own nickname as the group to join ("@nick") indexed
the group table with -1.
---
 server/msgs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/msgs.c b/server/msgs.c
index 497253d..ff4d3da 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -547,9 +547,11 @@ int loginmsg(int n, char *pkt)
             {
                 int    g = find_group(u_tab[target_user].group);
 
-                if ( ((g_tab[g].visibility == SUPERSECRET)
+                /* somebody who's still logging in isn't in a group yet */
+                if ( g < 0 ||
+                     (((g_tab[g].visibility == SUPERSECRET)
                       || (g_tab[g].visibility == SECRET))
-                     && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN)))
+                     && (strncmp("ADMIN", u_tab[n].nickname, MAX_NICKLEN))))
                 {
                     senderror (n,
                                "User not found or is in a secret or invisible group.");
-- 
2.43.0


From f895a6b18ba5d2b079e9e940d9f950a02b44b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:59 +0000
Subject: [PATCH 33/52] fix: support tools keep bytes that are not valid UTF-8

Values may hold any bytes; replacing them with U+FFFD damaged records the
tool had not been asked to touch.
---
 support/icbdb.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/support/icbdb.py b/support/icbdb.py
index de3c29a..5f193b5 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -10,12 +10,21 @@ The magic bytes are b'IDB\\x01'.
 
 import os
 import struct
+import sys
 import tempfile
 
 MAGIC = b'IDB\x01'
 HDR_SIZE = 8
 ENTRY_HDR_SIZE = 8
 
+# Values may contain any bytes, not just valid UTF-8; keep them as they are,
+# in the database and on the way in and out of the tools.
+ENC_ERRORS = "surrogateescape"
+
+for _stream in (sys.stdin, sys.stdout):
+    if hasattr(_stream, "reconfigure"):
+        _stream.reconfigure(encoding="utf-8", errors=ENC_ERRORS)
+
 
 class IcbDb:
     """Read/write access to an ICB .db file.
@@ -101,8 +110,8 @@ class IcbDb:
                 if len(rec_hdr) < ENTRY_HDR_SIZE:
                     raise ValueError(f"Truncated entry header in {self.path}")
                 klen, vlen = struct.unpack("<II", rec_hdr)
-                key = f.read(klen).decode("utf-8", errors="replace")
-                val = f.read(vlen).decode("utf-8", errors="replace")
+                key = f.read(klen).decode("utf-8", errors=ENC_ERRORS)
+                val = f.read(vlen).decode("utf-8", errors=ENC_ERRORS)
                 self._data[key] = val
 
     def flush(self):
@@ -119,8 +128,8 @@ class IcbDb:
                 f.write(struct.pack("<I", len(self._data)))
                 # Entries
                 for key, val in self._data.items():
-                    kb = key.encode("utf-8")
-                    vb = val.encode("utf-8")
+                    kb = key.encode("utf-8", errors=ENC_ERRORS)
+                    vb = val.encode("utf-8", errors=ENC_ERRORS)
                     f.write(struct.pack("<II", len(kb), len(vb)))
                     f.write(kb)
                     f.write(vb)
-- 
2.43.0


From 4f3d22350e22e408e3a9cfdd0aecf757b42bfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:59 +0000
Subject: [PATCH 34/52] fix: support tools refuse a database truncated inside
 an entry

The short value was accepted and then written back.
---
 support/icbdb.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/icbdb.py b/support/icbdb.py
index 5f193b5..1ab5435 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -110,8 +110,12 @@ class IcbDb:
                 if len(rec_hdr) < ENTRY_HDR_SIZE:
                     raise ValueError(f"Truncated entry header in {self.path}")
                 klen, vlen = struct.unpack("<II", rec_hdr)
-                key = f.read(klen).decode("utf-8", errors=ENC_ERRORS)
-                val = f.read(vlen).decode("utf-8", errors=ENC_ERRORS)
+                key = f.read(klen)
+                val = f.read(vlen)
+                if len(key) < klen or len(val) < vlen:
+                    raise ValueError(f"Truncated entry in {self.path}")
+                key = key.decode("utf-8", errors=ENC_ERRORS)
+                val = val.decode("utf-8", errors=ENC_ERRORS)
                 self._data[key] = val
 
     def flush(self):
-- 
2.43.0


From 26e92332f76e982016d9af4908fee4e00ad6dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:59 +0000
Subject: [PATCH 35/52] fix: escape line breaks in exported records

A value with a newline came back as several records on import, so a user
could inject records through a profile field.
---
 support/dbexport.py | 8 +++++++-
 support/dbimport.py | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/support/dbexport.py b/support/dbexport.py
index faf8764..0aee831 100755
--- a/support/dbexport.py
+++ b/support/dbexport.py
@@ -8,6 +8,9 @@
 ## primary use is when migrating from one machine to another which
 ## has a different binary format for its dbm files so you can't just
 ## copy them over.
+##
+## a record is one line; line breaks and backslashes within it are
+## written as \n, \r and \\.
 ###
 
 import sys
@@ -16,11 +19,14 @@ import os
 sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
 from icbdb import IcbDb
 
+def escape(s):
+    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r")
+
 def main():
     dbpath = sys.argv[1] if len(sys.argv) > 1 else "./icbdb"
     with IcbDb(dbpath) as db:
         for key, val in db.items():
-            print(f"{key}|{val}")
+            print(escape(f"{key}|{val}"))
 
 if __name__ == "__main__":
     main()
diff --git a/support/dbimport.py b/support/dbimport.py
index 8694482..872e063 100755
--- a/support/dbimport.py
+++ b/support/dbimport.py
@@ -7,12 +7,17 @@
 ## it's not hammered on since it's only been used once
 ###
 
+import re
 import sys
 import os
 
 sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
 from icbdb import IcbDb
 
+def unescape(s):
+    return re.sub(r"\\([nr\\])",
+                  lambda m: {"n": "\n", "r": "\r", "\\": "\\"}[m.group(1)], s)
+
 def main():
     dbpath = sys.argv[1] if len(sys.argv) > 1 else "./icbdb"
     with IcbDb(dbpath) as db:
@@ -20,8 +25,8 @@ def main():
             line = line.rstrip("\n")
             sep = line.find("|")
             if sep >= 0:
-                key = line[:sep]
-                val = line[sep + 1:]
+                key = unescape(line[:sep])
+                val = unescape(line[sep + 1:])
                 print(f"{key}={val}")
                 db[key] = val
 
-- 
2.43.0


From 19e021c4de808b2a0b690078cdc20c6bfd52d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:59 +0000
Subject: [PATCH 36/52] fix: dbm2icbdb: read all kinds of dbm, keep bytes, read
 before replacing

firstkey() exists only for gdbm; and when source and destination name the
same file, the source was deleted before it was read.
---
 support/dbm2icbdb.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/support/dbm2icbdb.py b/support/dbm2icbdb.py
index fa65cc7..77a505b 100755
--- a/support/dbm2icbdb.py
+++ b/support/dbm2icbdb.py
@@ -26,7 +26,7 @@ import os
 import sys
 
 sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
-from icbdb import IcbDb
+from icbdb import ENC_ERRORS, IcbDb
 
 
 def migrate(src_path, dst_path, verbose=False):
@@ -40,20 +40,25 @@ def migrate(src_path, dst_path, verbose=False):
         print(f"Error opening legacy database '{src_path}': {e}", file=sys.stderr)
         sys.exit(1)
 
+    # Not all kinds of dbm have firstkey() and nextkey().
+    records = [(key, legacy_db[key]) for key in legacy_db.keys()]
+    legacy_db.close()
+
+    # The old database may well be the very file we are going to write, so
+    # it goes only now that we have read it.
+    if os.path.exists(dst_path + ".db"):
+        os.unlink(dst_path + ".db")
+
     with IcbDb(dst_path) as new_db:
-        key = legacy_db.firstkey()
-        while key is not None:
-            val = legacy_db[key]
+        for key, val in records:
             # Legacy databases store bytes; decode to str
-            key_str = key.decode("utf-8", errors="replace")
-            val_str = val.decode("utf-8", errors="replace")
+            key_str = key.decode("utf-8", errors=ENC_ERRORS)
+            val_str = val.decode("utf-8", errors=ENC_ERRORS)
             new_db[key_str] = val_str
             if verbose:
                 print(f"  {key_str} = {val_str}")
             count += 1
-            key = legacy_db.nextkey(key)
 
-    legacy_db.close()
     return count
 
 
@@ -81,7 +86,6 @@ def main():
         if not yn or yn[0].lower() != "y":
             print("Aborted.", file=sys.stderr)
             sys.exit(1)
-        os.unlink(dst_file)
 
     print(f"Migrating '{args.source}' -> '{dst_file}' ...")
     count = migrate(args.source, dst, verbose=args.verbose)
-- 
2.43.0


From 9909c2f4c08e10771921ff7fb18f863d328fe974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:59 +0000
Subject: [PATCH 37/52] fix: nickprune: spare server and admin however they are
 capitalised

The server stores the nickname as "Server".
---
 support/nickprune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/support/nickprune.py b/support/nickprune.py
index f8af541..0909b4d 100755
--- a/support/nickprune.py
+++ b/support/nickprune.py
@@ -80,7 +80,7 @@ def main():
 
         for nick_key in nicks_to_check:
             nick_val = db.get(nick_key, "")
-            if nick_val in ("server", "admin"):
+            if nick_val.lower() in ("server", "admin"):
                 continue
 
             rootkey = nick_key[:-5]  # strip ".nick"
-- 
2.43.0


From f17f66ed1c01255d49c81f2ed2af1dff274ebb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:24 +0000
Subject: [PATCH 38/52] fix: hold signals back while the server is busy

The handlers for SIGHUP, SIGTERM, SIGINT, SIGUSR1 and SIGUSR2 log, allocate
and close things. One arriving while the server was converting a time made
the server wait for a lock it already held, for ever.
---
 pktserv/pktserv.c | 11 +++++++++++
 server/main.c     | 14 ++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 7c33f39..4e1140e 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -506,6 +506,10 @@ pktserv_run(void)
     int ret;
     long loopcount = 0;
     int poll_timeout;
+    int poll_errno;
+    sigset_t none, held;
+
+    sigemptyset(&none);
 
     if (POLL_TIMEOUT < 0) 
         poll_timeout = 0;
@@ -520,7 +524,14 @@ pktserv_run(void)
         loopcount++;
 
         update_pollfd_events();
+
+        /* this is the one place where signals may come in */
+        sigprocmask(SIG_SETMASK, &none, &held);
         ret = poll(g_pollset, g_pollsetsize, poll_timeout); // millisec
+        poll_errno = errno;
+        sigprocmask(SIG_SETMASK, &held, NULL);
+        errno = poll_errno;
+
         if (ret >= 0) {
             /* do this even if poll() has nothing for us: there may be data
              * waiting in the SSL layer.
diff --git a/server/main.c b/server/main.c
index f6ac6c6..4d4543d 100644
--- a/server/main.c
+++ b/server/main.c
@@ -42,6 +42,20 @@
 
 void trapsignals(void)
 {
+    sigset_t set;
+
+    /* The handlers below log, allocate and close things, none of which may
+     * be done in the middle of the very same thing. Hold the signals back;
+     * pktserv_run() lets them in while it waits for something to happen.
+     */
+    sigemptyset(&set);
+    sigaddset(&set, SIGHUP);
+    sigaddset(&set, SIGTERM);
+    sigaddset(&set, SIGINT);
+    sigaddset(&set, SIGUSR1);
+    sigaddset(&set, SIGUSR2);
+    sigprocmask(SIG_BLOCK, &set, NULL);
+
     /* cycle the logs on a restart signal */
     signal(SIGHUP, icbcyclelogs);
 
-- 
2.43.0


From 7c5bbc311c510fe237109e25e865e1da0cb2d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:19 +0000
Subject: [PATCH 39/52] fix: do not spin while a client's TLS handshake is
 outstanding

A connection in the TLS handshake was always polled for writability, so
that one whose client had sent nothing (or part of its hello) yet woke
the server up all the time. Ask the TLS layer what it is waiting for.
---
 pktserv/pktserv.c   |  8 ++++++--
 pktserv/sslsocket.c | 10 ++++++++++
 pktserv/sslsocket.h |  3 +++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 4e1140e..4ee43f6 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -470,14 +470,18 @@ update_pollfd_events(void)
                 /* Freshly accepted: the state machine must run
                  * immediately so the server can send the protocol
                  * banner before the client sends anything. */
-            case WANT_SSL_ACCEPT:
-                /* These states need write-readiness notification. */
             case WANT_DISCONNECT:
             case WANT_RAW_DISCONNECT:
                 /* Disconnects should be processed promptly even if
                  * the remote side has gone quiet. */
                 events |= POLLOUT;
                 break;
+            case WANT_SSL_ACCEPT:
+                /* Usually it's the client's turn in the handshake. */
+                if (sslsocket_wants_write(cbuf)) {
+                    events |= POLLOUT;
+                }
+                break;
             case WANT_WRITE:
             case WANT_SSL_WRITE:
                 /* We don't read from a client that has output pending, so
diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 48b4b8a..4b9f63d 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -51,6 +51,11 @@ int sslsocket_pending(cbuf_t *cbuf)
     return 0;
 }
 
+int sslsocket_wants_write(cbuf_t *cbuf)
+{
+    return 0;
+}
+
 
 #else /* HAVE_SSL */
 
@@ -342,4 +347,9 @@ int sslsocket_pending(cbuf_t *cbuf)
     return cbuf->ssl_con != NULL && SSL_pending(cbuf->ssl_con) > 0;
 }
 
+int sslsocket_wants_write(cbuf_t *cbuf)
+{
+    return cbuf->ssl_con != NULL && SSL_want_write(cbuf->ssl_con);
+}
+
 #endif
diff --git a/pktserv/sslsocket.h b/pktserv/sslsocket.h
index e1828df..409b6f7 100644
--- a/pktserv/sslsocket.h
+++ b/pktserv/sslsocket.h
@@ -24,3 +24,6 @@ int sslsocket_write(cbuf_t *cbuf, void* buf, size_t len);
 /* is there data waiting in the SSL layer that poll() won't tell us about? */
 int sslsocket_pending(cbuf_t *cbuf);
 
+/* is the SSL layer waiting to write something? */
+int sslsocket_wants_write(cbuf_t *cbuf);
+
-- 
2.43.0


From feb90afc7e59e5cf321683c9fe9cdc35e96239a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:19 +0000
Subject: [PATCH 40/52] fix: do not spin while input of a slow user may not be
 read yet

Such input stayed in the poll set, so the server used all the processor
until the second was over.
---
 pktserv/pktserv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pktserv/pktserv.c b/pktserv/pktserv.c
index 4ee43f6..9679953 100644
--- a/pktserv/pktserv.c
+++ b/pktserv/pktserv.c
@@ -489,6 +489,10 @@ update_pollfd_events(void)
                 events = POLLOUT;
                 break;
             default:
+                /* Don't let input we may not read yet wake us up. */
+                if (g_pktserv_cb.ok2read && !g_pktserv_cb.ok2read(fd)) {
+                    events = 0;
+                }
                 break;
         }
 
-- 
2.43.0


From 168a257e9751b4e3724310502cab60346e46ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:19 +0000
Subject: [PATCH 41/52] fix: release the entries when emptying a group's
 invitation lists

nlinit() on a list that has entries leaks them.
---
 server/s_group.c | 56 ++++++++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index 5b24be8..b4278ef 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -338,14 +338,14 @@ if failure, message given and return is -1
             }
 
             /* initialize the invitation list */
-            nlinit(g_tab[ngi].n_invites, MAX_INVITES);
-            nlinit(g_tab[ngi].nr_invites, MAX_INVITES);
-            nlinit(g_tab[ngi].s_invites, MAX_INVITES);
-            nlinit(g_tab[ngi].sr_invites, MAX_INVITES);
-            nlinit(g_tab[ngi].n_bars, MAX_INVITES);
-            nlinit(g_tab[ngi].n_nr_bars, MAX_INVITES);
-            nlinit(g_tab[ngi].s_bars, MAX_INVITES);
-            nlinit(g_tab[ngi].s_nr_bars, MAX_INVITES);
+            nlclear(g_tab[ngi].n_invites);
+            nlclear(g_tab[ngi].nr_invites);
+            nlclear(g_tab[ngi].s_invites);
+            nlclear(g_tab[ngi].sr_invites);
+            nlclear(g_tab[ngi].n_bars);
+            nlclear(g_tab[ngi].n_nr_bars);
+            nlclear(g_tab[ngi].s_bars);
+            nlclear(g_tab[ngi].s_nr_bars);
         }
 
         /* if we get here, the destination group exists */
@@ -1374,10 +1374,10 @@ visible.
                     {
                         case SET_RESTRICT:
                             g_tab[gi].control = RESTRICTED;
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             cp = "Group is now restricted.";
 
                             for (i=0; i<MAX_USERS; i++)
@@ -1405,20 +1405,20 @@ visible.
 
                         case SET_MODERATE:
                             g_tab[gi].control = MODERATED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now moderated.";
                             break;
 
 
                         case SET_CONTROL:
                             g_tab[gi].control = CONTROLLED;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
                             cp = "Group is now controlled.";
                             break;
 
@@ -1651,14 +1651,14 @@ visible.
 
                         case SET_PUBLIC:
                             g_tab[gi].control = PUBLIC;
-                            nlinit(g_tab[gi].n_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].nr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].s_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].sr_invites, MAX_INVITES);
-                            nlinit(g_tab[gi].n_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].n_nr_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_bars, MAX_INVITES);
-                            nlinit(g_tab[gi].s_nr_bars, MAX_INVITES);
+                            nlclear(g_tab[gi].n_invites);
+                            nlclear(g_tab[gi].nr_invites);
+                            nlclear(g_tab[gi].s_invites);
+                            nlclear(g_tab[gi].sr_invites);
+                            nlclear(g_tab[gi].n_bars);
+                            nlclear(g_tab[gi].n_nr_bars);
+                            nlclear(g_tab[gi].s_bars);
+                            nlclear(g_tab[gi].s_nr_bars);
                             /* cp = "Group is now public."; */
                             sprintf (cp2, "%s made group public.", 
                                      u_tab[n].nickname);
-- 
2.43.0


From 8751197e1f12362ccec059631f04e65b45a6fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 42/52] fix: clear OpenSSL's error queue before each TLS
 operation

Errors left over from one client's failed handshake made SSL_get_error
report a fatal error for the next client whose read or write was merely
incomplete, so a malformed hello disconnected other users.
---
 pktserv/sslsocket.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pktserv/sslsocket.c b/pktserv/sslsocket.c
index 4b9f63d..9ca6356 100644
--- a/pktserv/sslsocket.c
+++ b/pktserv/sslsocket.c
@@ -99,6 +99,10 @@ int sslsocket_accept(cbuf_t *cbuf)
         SSL_set_fd(cbuf->ssl_con, cbuf->fd);
     }
 
+    /* SSL_get_error() looks at the error queue, which other connections may
+     * have left something in.
+     */
+    ERR_clear_error();
     result = SSL_accept(cbuf->ssl_con);
     if (result == 1) {
         vmdb(MSG_INFO,
@@ -187,6 +191,7 @@ int sslsocket_read(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_read(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
@@ -269,6 +274,7 @@ int sslsocket_write(cbuf_t *cbuf, void *buf, size_t nbytes)
 {
     int result, ssl_error;
 
+    ERR_clear_error();
     result = SSL_write(cbuf->ssl_con, buf, nbytes);
     if (result > 0) {
         /* successful write, but we need to check to see if we need to
-- 
2.43.0


From c74ee0f551e05dc7377cb175623e72a32658d8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 43/52] fix: forget a departed user's slot as the last one
 answered with an away message

A newcomer who got the slot of a user that was just answered did not get
the away message.
---
 server/users.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/users.c b/server/users.c
index 1c5569a..f42bbcb 100644
--- a/server/users.c
+++ b/server/users.c
@@ -58,6 +58,7 @@ void clear_user_item(int n)
     /* clear out anyone that has this slot:
      *   a) listed as their last priv msg
      *   b) as a pending pong request
+     *   c) as the last one their away message went to
      */
     for ( i = 0; i < MAX_USERS; i++ )
     {
@@ -69,6 +70,9 @@ void clear_user_item(int n)
             pong_req[i] = -1;
             timerclear (&ping_time[n]);
         }
+
+        if ( u_tab[i].lastaway == n )
+            u_tab[i].lastaway = -1;
     }
 }
 
-- 
2.43.0


From e72f2afbe5b261ecb4de7cb41da09cf3b25860ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:37 +0000
Subject: [PATCH 44/52] fix: reset the received-message count at login

A newcomer inherited the count of the previous user of its slot and could
be removed from group 1 at its first message.
---
 server/msgs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/msgs.c b/server/msgs.c
index ff4d3da..3d62409 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -569,6 +569,7 @@ int loginmsg(int n, char *pkt)
         u_tab[n].t_on = TheTime;
         u_tab[n].t_recv = TheTime;
         u_tab[n].t_sent = TheTime;
+        u_recv_count[n] = 0;
         nlclear(u_tab[n].pri_n_hushed);
         nlinit(u_tab[n].pri_n_hushed, MAX_HUSHED);
         nlclear(u_tab[n].pub_n_hushed);
-- 
2.43.0


From ef90b5098d23241fdac5da37be051c86f6c16d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 45/52] fix: recognise a returning moderator whatever the
 letter case of the nickname

---
 server/access.c | 2 +-
 server/msgs.c   | 2 +-
 server/s_user.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/server/access.c b/server/access.c
index ecb1eec..4336f76 100644
--- a/server/access.c
+++ b/server/access.c
@@ -506,7 +506,7 @@ int nickwrite(int forWhom, char *password, int verifyOnly, DBM *openDb)
             strcpy(u_tab[forWhom].password, password); /* jonl */
             for (i = 1; i < MAX_GROUPS; i++)
                 if ((g_tab[i].modtimeout > 0.0) &&
-                    (strcmp(g_tab[i].missingmod, 
+                    (strcasecmp(g_tab[i].missingmod, 
                             u_tab[forWhom].nickname)==0))
                 {
                     g_tab[i].modtimeout = 0;
diff --git a/server/msgs.c b/server/msgs.c
index 3d62409..2269394 100644
--- a/server/msgs.c
+++ b/server/msgs.c
@@ -641,7 +641,7 @@ int loginmsg(int n, char *pkt)
 
                 for (i = 1; i < MAX_GROUPS; i++)
                     if ((g_tab[i].modtimeout > 0.0) &&
-                        (strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0))
+                        (strcasecmp(g_tab[i].missingmod, u_tab[n].nickname)==0))
                     {
                         g_tab[i].modtimeout = 0;
                         g_tab[i].mod = n;
diff --git a/server/s_user.c b/server/s_user.c
index e49ce50..8e66473 100644
--- a/server/s_user.c
+++ b/server/s_user.c
@@ -344,7 +344,7 @@ int s_name(int n, int argc)
             nickwritetime(n, 0, NULL);
             for (i = 1; i < MAX_GROUPS; i++)
                 if ((g_tab[i].modtimeout > 0.0) &&
-                    (strcmp(g_tab[i].missingmod, u_tab[n].nickname)==0)){
+                    (strcasecmp(g_tab[i].missingmod, u_tab[n].nickname)==0)){
                     g_tab[i].modtimeout = 0;
                     g_tab[i].mod = n;
                     memset(g_tab[i].missingmod, 0, MAX_NICKLEN);
-- 
2.43.0


From f623e904451f55d74f1287694e3dc1185eaba989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 46/52] fix: cancel and boot remove both kinds of invitation

---
 server/s_group.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server/s_group.c b/server/s_group.c
index b4278ef..4c7aa7b 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -99,8 +99,9 @@ fields[1] is nickname of person for cancel
 
         if (can_do)
         {
+            /* (they may be on both lists) */
             if ((mode == 0) &&
-                ((nldelete(g_tab[gi].n_invites,who) == 0) ||
+                ((nldelete(g_tab[gi].n_invites,who) == 0) |
                  (nldelete(g_tab[gi].nr_invites,who) == 0)))
             {
                 if (quiet == 0)
@@ -115,7 +116,7 @@ fields[1] is nickname of person for cancel
                 }
             }
             else if ((mode == 1) &&
-                     ((nldelete(g_tab[gi].s_invites,who) == 0) ||
+                     ((nldelete(g_tab[gi].s_invites,who) == 0) |
                       (nldelete(g_tab[gi].sr_invites,who) == 0)))
             {
                 if (quiet == 0)
@@ -964,7 +965,7 @@ fields[1] is nickname of person to boot
                 if (gi == destgi) {
                     /* send status to group */
                     if ((nldelete(g_tab[destgi].n_invites,
-                                  u_tab[dest].nickname) == 0) ||
+                                  u_tab[dest].nickname) == 0) |
                         (nldelete(g_tab[destgi].nr_invites,
                                   u_tab[dest].nickname) == 0)) {
                         sprintf(mbuf, "%s cancelled",
-- 
2.43.0


From 5a5fd5ed9afe8a003868e2b77887aa3dd1638d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 47/52] fix: passing or giving up moderation ends the place
 held for a departed moderator

---
 server/s_group.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/s_group.c b/server/s_group.c
index 4c7aa7b..32bb638 100644
--- a/server/s_group.c
+++ b/server/s_group.c
@@ -825,6 +825,8 @@ int s_pass(int n, int argc)
         if( strlen(fields[1]) == 0) {
             /* relinquish mod */
             g_tab[gi].mod = -1;
+            g_tab[gi].modtimeout = 0.0;
+            memset(g_tab[gi].missingmod, 0, MAX_NICKLEN+1);
 
             /* tell people */
             sprintf(mbuf, "%s just relinquished the mod.",
@@ -864,6 +866,8 @@ int s_pass(int n, int argc)
             if (dest >= 0) {
                 /* fix the mod-ship */
                 g_tab[gi].mod = dest;
+                g_tab[gi].modtimeout = 0.0;
+                memset(g_tab[gi].missingmod, 0, MAX_NICKLEN+1);
 
                 /* send message to dest.*/
                 sprintf(mbuf,
-- 
2.43.0


From 7d03e7904cc6d84b0c409c9e224005f18316b974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 48/52] fix: compare the operator password exactly

---
 server/access.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/access.c b/server/access.c
index 4336f76..0bb952d 100644
--- a/server/access.c
+++ b/server/access.c
@@ -79,7 +79,7 @@ int check_auth(int n)
     auth = 0;
     if (strcasecmp(u_tab[n].nickname, "ADMIN") == 0)
         auth++;
-    if (strcasecmp(u_tab[n].password, ADMIN_PWD) == 0)
+    if (strcmp(u_tab[n].password, ADMIN_PWD) == 0)
         auth++;
     sprintf(mbuf, "Checking authorization of %s: %s",
             u_tab[n].nickname, auth == 2 ? "yes" : "no");
-- 
2.43.0


From 985bd5cb94137889c571c370671d07c1fdc19b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:07 +0000
Subject: [PATCH 49/52] fix: a user who deletes the registration no longer
 counts as registered

---
 server/access.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/access.c b/server/access.c
index 0bb952d..832e742 100644
--- a/server/access.c
+++ b/server/access.c
@@ -150,6 +150,7 @@ int nickdelete(int forWhom, char *password, DBM *openDb)
         icbdb_delete (nick, key);
     }
 
+    memset(u_tab[forWhom].realname, 0, MAX_REALLEN + 1);
     sends_cmdout(forWhom, "Record Deleted");
     icbdb_close ();
     return 0;
-- 
2.43.0


From 5266cb0d9a13bd2f21a6b4e4d30dd891c81d5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:18 +0000
Subject: [PATCH 50/52] fix: dbm2icbdb: keep what is at the destination until
 the new database is written

A full disk cost the old database, or what the user had agreed to overwrite.
---
 support/dbm2icbdb.py |  9 +++------
 support/icbdb.py     | 11 +++++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/support/dbm2icbdb.py b/support/dbm2icbdb.py
index 77a505b..8e9a636 100755
--- a/support/dbm2icbdb.py
+++ b/support/dbm2icbdb.py
@@ -44,12 +44,9 @@ def migrate(src_path, dst_path, verbose=False):
     records = [(key, legacy_db[key]) for key in legacy_db.keys()]
     legacy_db.close()
 
-    # The old database may well be the very file we are going to write, so
-    # it goes only now that we have read it.
-    if os.path.exists(dst_path + ".db"):
-        os.unlink(dst_path + ".db")
-
-    with IcbDb(dst_path) as new_db:
+    # What is at the destination, which may well be the old database itself,
+    # goes only when the new one has been written.
+    with IcbDb(dst_path, replace=True) as new_db:
         for key, val in records:
             # Legacy databases store bytes; decode to str
             key_str = key.decode("utf-8", errors=ENC_ERRORS)
diff --git a/support/icbdb.py b/support/icbdb.py
index 1ab5435..7e5499a 100755
--- a/support/icbdb.py
+++ b/support/icbdb.py
@@ -37,12 +37,15 @@ class IcbDb:
                 print(key, val)
     """
 
-    def __init__(self, basepath):
-        """Open (or create) the database at *basepath*.db."""
+    def __init__(self, basepath, replace=False):
+        """Open (or create) the database at *basepath*.db. With *replace*,
+        start an empty one, which takes the place of whatever is there when
+        it is written."""
         self.path = basepath + ".db"
         self._data = {}    # key (str) -> value (str)
-        self._dirty = False
-        self._load()
+        self._dirty = replace
+        if not replace:
+            self._load()
 
     # ---- context-manager support -------------------------------------------
     def __enter__(self):
-- 
2.43.0


From 532c4bb2c656a34d52bee8293d044be94f69cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 51/52] fix: a log entry is one line, whatever a client sends

Log messages carry text chosen by clients (user names, commands that came
too early).  A newline in it started a line of its own, so that anybody
could write entries that looked like the server's.
---
 server/mdb.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/server/mdb.c b/server/mdb.c
index cde1fea..3b748e9 100644
--- a/server/mdb.c
+++ b/server/mdb.c
@@ -6,6 +6,7 @@
 
 #include "config.h"
 
+#include <ctype.h>
 #include <unistd.h>
 #ifdef HAVE_TIME_H
 #include <time.h>
@@ -37,6 +38,7 @@ void mdb(int level, const char *message)
     char tmp[BUFSIZ];
     time_t now;
     const char* msgtype = NULL;
+    size_t i, len;
 
     if ((level == MSG_ALL || level <= log_level) && icbd_log >= 0) {
         if (level > 0 && level <= num_msg_types)
@@ -46,9 +48,18 @@ void mdb(int level, const char *message)
 
         now = time(NULL);
         strftime(timebuf, 64, "%b %d %Y %H:%M:%S", localtime(&now));
-        snprintf(tmp, BUFSIZ, "%s %s %s: %s\n", 
+        snprintf(tmp, BUFSIZ-1, "%s %s %s: %s",
                  msgtype, timebuf, thishost, message);
 
+        /* an entry is one line, whatever a client put in its packet */
+        len = strlen(tmp);
+        if (len > 0 && tmp[len-1] == '\n')
+            len--;
+        for (i = 0; i < len; i++)
+            if (iscntrl((unsigned char)tmp[i]))
+                tmp[i] = ' ';
+        strcpy(tmp + len, "\n");
+
       	/* the "void"! ... is an obscure construct to get around the compiler
 	 * warning that we're not checking the return value. There's not
 	 * a whole lot we can do if we can't write at this point. */
-- 
2.43.0


From 30663b348b5512ca80ce429be0f5b3c78951db5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 52/52] fix: log: open the log only if it is not open

Raising the level from 0 opened the log once more when it was open already
(started at level 0, or reopened by a hangup), and leaked a descriptor.
---
 server/s_admin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/s_admin.c b/server/s_admin.c
index f2b8c2e..e19b305 100644
--- a/server/s_admin.c
+++ b/server/s_admin.c
@@ -42,7 +42,7 @@ int s_log(int n, int argc)
             if (new_level < 0)
                 new_level = 0;
 
-            if (new_level > 0 && log_level == 0) {
+            if (new_level > 0 && icbd_log < 0) {
                 icbopenlogs(0);
             } else if (new_level == 0 && log_level > 0) {
                 icbcloselogs(0);
-- 
2.43.0

