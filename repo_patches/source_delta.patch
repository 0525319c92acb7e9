From 3e01cadb7ec391b5a69d9c11bc33f6d56a36bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 01/40] fix: reset the idle worker list after the workers have
 stopped

A worker which was still serving a client when the proxy was closed put
itself back on the idle list after the list had been reset, leaving a
pointer to freed memory for the next proxy_shutdown or proxy_open.
---
 src/proxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..9bf74b9 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -861,9 +861,9 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
+	priv->idle_workers_head = NULL;
 
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
-- 
2.43.0


From b421533fe530c648fba1e2da78b891c0301a479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 02/40] fix: advance the buffer after a partial TCP send

The beginning of the buffer was sent again in place of the remainder.
---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..d77973c 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -596,7 +596,6 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = send(priv->fd, (const char *)buff, (socklen_t)buff_len,
 				   MSG_NOSIGNAL);
 
@@ -617,6 +616,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From 24c98f2653b507c88ef16dad9cb64fffe8221f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 03/40] fix: never reclaim a slot which is not in the idle pool

A slot is released by proxy_conn_finish before it is returned to the pool, so a
reconnecting client could be given a slot whose links were no longer (or not
yet) part of the list.
---
 src/proxy.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 9bf74b9..bb097f0 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -376,9 +376,13 @@ static void proxy_worker_func(struct worker_handle *wh)
 	pc = priv->clients_by_call[hash];
 	/* First, check for a reconnect */
 	while (pc != NULL) {
-		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
-		if (ret != -EBUSY)
-			break;
+		/* Only consider slots which are in the pool */
+		if (pc->prev_ptr != NULL) {
+			ret = proxy_conn_accept(pc, pw->conn_client,
+						pw->callsign, 1);
+			if (ret != -EBUSY)
+				break;
+		}
 		pc = pc->next_by_call;
 	}
 	/* Fall back on the oldest available slot */
@@ -400,6 +404,7 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_clients_tail_ptr = pc->prev_ptr;
 	else
 		pc->next->prev_ptr = pc->prev_ptr;
+	pc->prev_ptr = NULL;
 
 	/* Remove the slot from the hash map */
 	if (pc->prev_by_call_ptr != NULL) {
@@ -426,8 +431,8 @@ static void proxy_worker_func(struct worker_handle *wh)
 	proxy_conn_finish(pc);
 
 	/* Put the slot back in the pool */
-	pc->next = NULL;
 	mutex_lock(&priv->idle_clients_mutex);
+	pc->next = NULL;
 	pc->prev_ptr = priv->idle_clients_tail_ptr;
 	*priv->idle_clients_tail_ptr = pc;
 	priv->idle_clients_tail_ptr = &pc->next;
-- 
2.43.0


From 96478a97fdb0cf1f6c015b35a9344c32d5cf93f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 04/40] fix: drop clients which have not finished authorizing
 in proxy_drop

A client which connects but never authorizes kept proxy_close waiting forever.
---
 src/proxy.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index bb097f0..cb4524c 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -900,6 +900,16 @@ void proxy_drop(struct proxy_handle *ph)
 
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_drop(&priv->clients[i]);
+
+	/* Clients which are still being authorized don't have a slot yet */
+	for (i = 0; i < priv->num_clients; i++) {
+		struct proxy_worker *pw = &priv->client_workers[i];
+
+		mutex_lock_shared(&pw->mutex);
+		if (pw->conn_client != NULL)
+			conn_drop(pw->conn_client);
+		mutex_unlock_shared(&pw->mutex);
+	}
 }
 
 void proxy_shutdown(struct proxy_handle *ph)
-- 
2.43.0


From 71a87a520e2f5fb968fc663a6a1b3f14f91be012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 05/40] fix: finish the previous TCP connection before opening
 another

The previous connection's socket was leaked and its forwarder could close, or
report the closure of, the new connection.
---
 src/proxy_conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..eabf5f0 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -725,6 +725,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		return -EINVAL;
 	}
 
+	/* Finish any previous connection */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
-- 
2.43.0


From 0068b60d978904e6ae87eac367eafde0c9696020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 06/40] fix: send the TCP status before any data from the
 connection

---
 src/proxy_conn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index eabf5f0..de9bdfa 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -731,6 +731,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
+
+	/* Keep the forwarder from sending anything until the status is sent */
+	mutex_lock(&priv->mutex_client_send);
+
 	if (ret < 0) {
 		proxy_log(pc->ph, LOG_LEVEL_WARN,
 			  "Failed to open TCP connection for client '%s' (%d): %s\n",
@@ -754,8 +758,6 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		  "Sending TCP_STATUS message (%d) to client '%s'\n",
 		  ret, priv->callsign);
 
-	mutex_lock(&priv->mutex_client_send);
-
 	ret = conn_send(priv->conn_client, status_buf,
 			sizeof(*status_msg) + status_msg->size);
 
-- 
2.43.0


From 64fce24496bba4fc16e931d3be0b774ddd3d22f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 07/40] fix: account for the proxy name in the registration
 suffix buffer

---
 src/registration.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..05866f4 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -329,7 +329,8 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    (2 * DIGEST_LEN) +
 			    sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
-- 
2.43.0


From b70311bb5413e99e07009d4f0351a6af183fd519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 08/40] fix: don't keep a reference to the freed registration
 suffix

---
 src/registration.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index 05866f4..1c89343 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -327,8 +327,9 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->reg_name = conf->reg_name;
 	priv->reg_comment = conf->reg_comment;
 
-	if (priv->reg_suffix != NULL)
-		free((void *)priv->reg_suffix);
+	free((void *)priv->reg_suffix);
+	priv->reg_suffix = NULL;
+
 	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
 			    (2 * DIGEST_LEN) +
 			    sizeof(protocol_version) + 18);
-- 
2.43.0


From 6110b881a0e547842eaaf32f55a2c747aab1a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 09/40] fix: allow registration without a comment

---
 src/registration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/registration.c b/src/registration.c
index 1c89343..f64625c 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -325,7 +325,7 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ? "" : conf->reg_comment;
 
 	free((void *)priv->reg_suffix);
 	priv->reg_suffix = NULL;
-- 
2.43.0


From 28103042962d7e114192b4a341a9cbd514478a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 10/40] fix: set the timeout on the socket used for reception

The listening socket isn't used by an accepted connection.
---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index d77973c..d046ee5 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -700,7 +700,7 @@ int conn_set_timeout(struct conn_handle *conn, uint32_t msec)
 #endif
 
 	mutex_lock_shared(&priv->mutex);
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_RCVTIMEO,
+	ret = setsockopt(priv->fd, SOL_SOCKET, SO_RCVTIMEO,
 			 (const void *)&val, sizeof(val));
 	if (ret == SOCKET_ERROR)
 		ret = SOCK_ERRNO;
-- 
2.43.0


From 3f4ab3e16d7b4574157b965e651fed7aae0f163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 11/40] fix: don't wait forever for the registrar's response

An unresponsive registrar kept proxy_close from completing.
---
 src/registration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/registration.c b/src/registration.c
index f64625c..abe8868 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -65,6 +65,9 @@
 /*! Update (at least) every 10 minutes */
 #define UPDATE_INTERVAL 600000
 
+/*! Wait (at most) 10 seconds for a response */
+#define RESPONSE_TIMEOUT 10000
+
 /*!
  * @brief Possible statuses of a proxy server to report to registrar
  */
@@ -227,6 +230,10 @@ static int send_report(struct registration_service_handle *rs,
 	if (ret < 0)
 		goto registration_update_exit;
 
+	ret = conn_set_timeout(&conn, RESPONSE_TIMEOUT);
+	if (ret < 0)
+		goto registration_update_exit;
+
 	ret = conn_send(&conn, (uint8_t *)message_header, header_length);
 	if (ret < 0)
 		goto registration_update_exit;
-- 
2.43.0


From c6d9fca9850ae119ab86f8d5fbe735a1f744caae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 12/40] fix: start the registration service before updating it

After a restart, the service ignored the update and never reported.
---
 src/proxy.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index cb4524c..036cf6c 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1079,7 +1079,6 @@ int proxy_start(struct proxy_handle *ph)
 	priv->usable_clients = priv->num_clients;
 	mutex_unlock(&priv->usable_clients_mutex);
 
-	proxy_update_registration(ph);
 	ret = registration_service_start(&priv->reg_service, &ph->conf);
 	if (ret < 0) {
 		proxy_log(ph, LOG_LEVEL_FATAL,
@@ -1088,6 +1087,8 @@ int proxy_start(struct proxy_handle *ph)
 		goto proxy_start_exit;
 	}
 
+	proxy_update_registration(ph);
+
 	return 0;
 
 proxy_start_exit:
-- 
2.43.0


From 24d88ab862023425790c7ded55c0395763f8221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 13/40] fix: update the registrar after a failed authorization

Another update may have counted the worker as used while it was authorizing.
---
 src/proxy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 036cf6c..bb2b1ae 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -356,6 +356,8 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_workers_head = pw;
 		mutex_unlock(&priv->idle_workers_mutex);
 
+		proxy_update_registration(pw->ph);
+
 		return;
 	}
 
-- 
2.43.0


From 5ec62e944e069e698d3a9c22f481f10826aea022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 14/40] fix: post registration updates in the order they were
 computed

A stale count could otherwise overwrite a newer one.
---
 src/proxy.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index bb2b1ae..ca9e5d9 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1116,12 +1116,10 @@ void proxy_update_registration(struct proxy_handle *ph)
 	mutex_lock_shared(&priv->usable_clients_mutex);
 	slots_total = priv->usable_clients;
 	slots_used = priv->num_clients;
-	mutex_unlock_shared(&priv->usable_clients_mutex);
 
-	mutex_lock_shared(&priv->idle_workers_mutex);
+	mutex_lock(&priv->idle_workers_mutex);
 	for (pw = priv->idle_workers_head; pw != NULL; pw = pw->next)
 		slots_used--;
-	mutex_unlock_shared(&priv->idle_workers_mutex);
 
 	proxy_log(ph, LOG_LEVEL_DEBUG,
 		  "Sending update to registrar (%d/%d)\n",
@@ -1129,4 +1127,7 @@ void proxy_update_registration(struct proxy_handle *ph)
 
 	registration_service_update(&priv->reg_service, slots_used,
 				    slots_total);
+
+	mutex_unlock(&priv->idle_workers_mutex);
+	mutex_unlock_shared(&priv->usable_clients_mutex);
 }
-- 
2.43.0


From 640582622ea93954ec4e34b1464b1dc75b610d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 15/40] fix: restore the worker state if the thread couldn't be
 started

---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From b6018dfb4c98641ea6cd95ff1a7131f26b089691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 16/40] fix: clear the idle worker list if a worker can't be
 initialized

---
 src/proxy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index ca9e5d9..370b2fa 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -821,11 +821,11 @@ int proxy_open(struct proxy_handle *ph)
 	return 0;
 
 proxy_open_exit_later:
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
 proxy_open_exit_late:
+	priv->idle_workers_head = NULL;
 	priv->idle_clients_head = NULL;
 	priv->idle_clients_tail_ptr = NULL;
 	for (i = 0; i < priv->num_clients; i++)
-- 
2.43.0


From 0ccd9cbb8996d945008e2a7071b648f663dfebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 17/40] fix: report the error when proxy_conn_init fails

---
 src/proxy_conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index de9bdfa..756e3dc 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -989,7 +989,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From 07a6d86d6a05df72788d544039fc2d186c44157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 18/40] fix: close the socket if conn_listen fails

---
 src/conn.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d046ee5..3633fbf 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,34 +235,30 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 #ifdef __APPLE__
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 #endif
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
 			ret = SOCK_ERRNO;
-			goto conn_listen_free;
+			goto conn_listen_close;
 		}
 	}
 
@@ -272,6 +268,12 @@ int conn_listen(struct conn_handle *conn)
 
 	mutex_unlock(&priv->mutex);
 
+	goto conn_listen_free;
+
+conn_listen_close:
+	closesocket(priv->sock_fd);
+	priv->sock_fd = INVALID_SOCKET;
+
 conn_listen_free:
 	freeaddrinfo(res);
 
-- 
2.43.0


From a8f44eb711b583f4afba1d7986aaf678014fe977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 19/40] fix: close the socket if conn_connect can't configure
 it

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 3633fbf..c2a2b0f 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -400,7 +400,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -408,7 +408,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
-- 
2.43.0


From 3fdb8b0a62b19da04ba2e80363e84118ff803606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 20/40] fix: ignore empty UDP datagrams

An empty datagram was indistinguishable from the socket being shut down, so
any host on the network could stop the forwarding to a client.
---
 src/conn.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index c2a2b0f..ff46654 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -548,8 +548,6 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 	struct conn_priv *priv = conn->priv;
 	int ret;
 
-	priv->remote_addr_len = sizeof(priv->remote_addr);
-
 	mutex_lock_shared(&priv->mutex);
 
 	if (priv->fd == INVALID_SOCKET) {
@@ -558,9 +556,15 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 		goto conn_recv_any_exit;
 	}
 
-	ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
-		       (struct sockaddr *)&priv->remote_addr,
-		       &priv->remote_addr_len);
+	/* An empty datagram has a sender, but a shutdown does not */
+	do {
+		priv->remote_addr_len = sizeof(priv->remote_addr);
+
+		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
+			       (struct sockaddr *)&priv->remote_addr,
+			       &priv->remote_addr_len);
+	} while (ret == 0 && conn->type == CONN_TYPE_UDP &&
+		 priv->remote_addr_len > 0);
 
 	if (ret == 0) {
 		ret = -EPIPE;
-- 
2.43.0


From 2ec48fb8579dba34818477c3b95877bea4960e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 21/40] fix: convert the remote port to host byte order

---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index ff46654..6d47dc8 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -811,7 +811,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		inet_ntop(addr->sin_family, &addr->sin_addr.s_addr, dest, 46);
 		dest += strlen(dest);
 		dest[0] = ':';
-		conn_port_to_str(addr->sin_port, dest + 1);
+		conn_port_to_str(ntohs(addr->sin_port), dest + 1);
 		break;
 	case AF_INET6:
 		dest[0] = '[';
@@ -820,7 +820,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		dest += strlen(dest);
 		dest[0] = ']';
 		dest[1] = ':';
-		conn_port_to_str(addr6->sin6_port, dest + 2);
+		conn_port_to_str(ntohs(addr6->sin6_port), dest + 2);
 		break;
 	default:
 		strcpy(dest, "(unknown)");
-- 
2.43.0


From 883476815feb53f861a5d976794c816f18445798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 22/40] fix: check for allocation failure in
 get_password_response

---
 src/proxy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 370b2fa..51c6dff 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1032,6 +1032,9 @@ int get_password_response(uint32_t nonce, const char *password,
 	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
 	char *iter = (char *)pass_with_nonce;
 
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
 			*iter = *password - 32;
-- 
2.43.0


From 239962dccdaa4bff7c8e762a92b236bbf7a6f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 23/40] fix: don't close a partially initialized proxy

proxy_free requires all of the members to have been initialized.
---
 src/proxy.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index 51c6dff..297fc89 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -604,7 +604,17 @@ int proxy_init(struct proxy_handle *ph)
 	return 0;
 
 proxy_init_exit:
-	proxy_free(ph);
+	mutex_free(&priv->idle_workers_mutex);
+	mutex_free(&priv->idle_clients_mutex);
+	mutex_free(&priv->usable_clients_mutex);
+	registration_service_free(&priv->reg_service);
+	conn_free(&priv->conn_listen);
+	conf_free(&ph->conf);
+	log_free(&priv->log);
+	rand_free();
+
+	free(ph->priv);
+	ph->priv = NULL;
 
 	return ret;
 }
-- 
2.43.0


From 008af9e88c331bd36334881174789f4cef8c73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 24/40] fix: refuse to open without a password

The password was dereferenced while authorizing the first client.
---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 297fc89..0a1f772 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -671,6 +671,12 @@ int proxy_open(struct proxy_handle *ph)
 	int i;
 	int ret;
 
+	if (ph->conf.password == NULL) {
+		proxy_log(ph, LOG_LEVEL_FATAL,
+			  "A password must be specified\n");
+		return -EINVAL;
+	}
+
 	conn_port_to_str(ph->conf.port, priv->port_str);
 
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
-- 
2.43.0


From a91493ff9d1f206be2716db4124ffcd13c2d3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 25/40] fix: null-terminate the result of digest_to_str

---
 src/digest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/digest.c b/src/digest.c
index 978ee70..c73933c 100644
--- a/src/digest.c
+++ b/src/digest.c
@@ -137,6 +137,8 @@ void digest_to_str(const uint8_t md5[DIGEST_LEN],
 
 	for (i = 0; i < DIGEST_LEN; i++, result += 2)
 		digest_to_hex8_u(md5[i], result);
+
+	*result = '\0';
 }
 
 static uint8_t hex4_to_digest(char data)
-- 
2.43.0


From 64f58dadaef581c8ebd96a234b75fbadacdb8aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 26/40] fix: report failures to read the configuration file

A file which could not be read completely was accepted as if it ended early.
---
 src/conf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..0da8741 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -141,6 +141,9 @@ static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 			break;
 	}
 
+	if (temp == EOF && ferror(stream))
+		return -EIO;
+
 	(*lineptr)[so_far] = '\0';
 
 	return (int)so_far;
@@ -440,7 +443,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -452,7 +455,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From c75c6a876ea371c8ad88a9678205f5272bc662e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 27/40] fix: replace AdditionalExternalBindAddresses when given
 again

The previous addresses were leaked, and their number was added to the number of
new addresses.
---
 src/conf.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 0da8741..f74af25 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -381,14 +381,18 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
 
-			if (conf->bind_addr_ext_add != NULL)
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
+
 				free(conf->bind_addr_ext_add);
+			}
 
-			if (val_len == 0) {
-				conf->bind_addr_ext_add = NULL;
-				conf->bind_addr_ext_add_len = 0;
+			conf->bind_addr_ext_add = NULL;
+			conf->bind_addr_ext_add_len = 0;
+
+			if (val_len == 0)
 				break;
-			}
 
 			for (i = 1; i < val_len; i++)
 				if (val[i] == ',')
-- 
2.43.0


From 8974224bbeb7dc72f3d405afbbedcffb5945f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 28/40] fix: don't report addresses which couldn't be allocated

---
 src/conf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index f74af25..14bcc6f 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -403,8 +403,10 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			conf->bind_addr_ext_add = calloc(
 				conf->bind_addr_ext_add_len,
 				sizeof(*conf->bind_addr_ext_add));
-			if (conf->bind_addr_ext_add == NULL)
+			if (conf->bind_addr_ext_add == NULL) {
+				conf->bind_addr_ext_add_len = 0;
 				return -ENOMEM;
+			}
 
 			for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++) {
 				size_t k = j;
-- 
2.43.0


From de1111f3eeb75e6000212afa7139b5117eba47e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 29/40] fix: reject numbers which are out of range in the
 configuration

The values wrapped, so a different port was used without any indication.
---
 src/conf.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 14bcc6f..77e5aae 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -103,6 +103,19 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
  */
 static int conf_readline(char **lineptr, size_t *n, FILE *stream);
 
+/*!
+ * @brief Parse an unsigned decimal number
+ *
+ * @param[in] val Configuration value
+ * @param[in] val_len Length of val in characters
+ * @param[in] max Largest acceptable number
+ * @param[out] result Parsed number
+ *
+ * @returns 0 on success, negative ERRNO value on failure
+ */
+static int conf_parse_uint(const char *val, size_t val_len, uint32_t max,
+			   uint32_t *result);
+
 static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 {
 	size_t so_far = 0;
@@ -149,6 +162,29 @@ static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 	return (int)so_far;
 }
 
+static int conf_parse_uint(const char *val, size_t val_len, uint32_t max,
+			   uint32_t *result)
+{
+	uint64_t num = 0;
+	size_t i;
+
+	if (val_len == 0)
+		return -EINVAL;
+
+	for (i = 0; i < val_len; i++) {
+		if (val[i] < '0' || val[i] > '9')
+			return -EINVAL;
+
+		num = num * 10 + (uint64_t)(val[i] - '0');
+		if (num > max)
+			return -EINVAL;
+	}
+
+	*result = (uint32_t)num;
+
+	return 0;
+}
+
 static int conf_parse_line(const char *line, struct proxy_conf *conf,
 			   struct log_handle *log)
 {
@@ -201,18 +237,20 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			   const char *val, size_t val_len,
 			   struct proxy_conf *conf, struct log_handle *log)
 {
-	char dummy[2];
+	uint32_t num;
 
 	switch (key_len) {
 	case 4:
 		if (strncmp(key, "Port", key_len) == 0) {
-			if (sscanf(val, "%hu%1s", &conf->port, dummy) != 1) {
+			if (conf_parse_uint(val, val_len, UINT16_MAX, &num) != 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'Port': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->port = (uint16_t)num;
 		}
 
 		break;
@@ -333,13 +371,15 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		break;
 	case 17:
 		if (strncmp(key, "ConnectionTimeout", key_len) == 0) {
-			if (sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1) {
+			if (conf_parse_uint(val, val_len, UINT32_MAX, &num) != 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'ConnectionTimeout': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->connection_timeout = num;
 		}
 
 		break;
-- 
2.43.0


From 4b4901520f571fad73b4bc85e05da3d3e10b6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 30/40] fix: close the previous medium when the log is closed

The medium was overwritten before it was used to determine what to close.
---
 src/log.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..8bdb7ca 100644
--- a/src/log.c
+++ b/src/log.c
@@ -203,13 +203,14 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 		      const char *target)
 {
 	struct log_priv *priv = log->priv;
+	const enum LOG_MEDIUM old_medium = log->medium;
 	int ret = 0;
 
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
 		log->medium = LOG_MEDIUM_NONE;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
@@ -227,12 +228,15 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 				priv->medium_eventlog.handle = NULL;
 			}
 
+			break;
+		default:
 			break;
 		}
+
 		break;
 	case LOG_MEDIUM_STDOUT:
 		log->medium = LOG_MEDIUM_STDOUT;
-		switch (log->medium) {
+		switch (old_medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
 				fclose(priv->medium_file.fp);
-- 
2.43.0


From 3182b63343e240774362a35af75b3cf2ac193042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 31/40] fix: don't handle signals while a thread may hold a
 lock

The handler logs and takes locks. If the signal interrupted a thread which was
holding one of those, the daemon never terminated, and if it arrived before the
proxy was initialized, the daemon crashed. A signal which was handled while
the main thread wasn't waiting for a client also made the daemon report failure.

Receive the signals on a dedicated thread instead.
---
 src/CMakeLists.txt |  4 +++
 src/proxyd.c       | 79 ++++++++++++++++++++++++++++++++--------------
 2 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index b412ac1..894f3da 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -132,6 +132,10 @@ endif()
 
 target_link_libraries(openelpd PRIVATE openelp)
 
+if(UNIX)
+  target_link_libraries(openelpd PRIVATE pthread)
+endif()
+
 if(WIN32)
   target_link_libraries(openelp_service PRIVATE openelp)
 endif()
diff --git a/src/proxyd.c b/src/proxyd.c
index bf83790..6715593 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -54,6 +54,7 @@
 #  include <io.h>
 #  include <windows.h>
 #else
+#  include <pthread.h>
 #  include <signal.h>
 #  include <sys/stat.h>
 #endif
@@ -109,7 +110,10 @@ struct proxy_opts {
 static struct proxy_handle ph;
 
 /*! Program termination indicator */
-static uint8_t sentinel;
+static volatile uint8_t sentinel;
+
+/*! Indicator that the proxy is no longer accepting clients */
+static volatile uint8_t draining;
 
 #ifdef _WIN32
 /*!
@@ -122,13 +126,13 @@ static uint8_t sentinel;
 static BOOL WINAPI graceful_shutdown(DWORD ctrl_type);
 #else
 /*!
- * @brief Callback which is used to shut down the EchoLink proxy
+ * @brief Thread function which shuts down the EchoLink proxy upon a signal
+ *
+ * @param[in] ctx Set of signals to wait for
  *
- * @param[in] signum Signal number
- * @param[in] info Extra signal information
- * @param[in] ptr Signal handler context
+ * @returns Always returns NULL
  */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr);
+static void *graceful_shutdown(void *ctx);
 #endif
 
 /*!
@@ -181,18 +185,26 @@ static BOOL WINAPI graceful_shutdown(DWORD ctrl_type)
 	return FALSE;
 }
 #else
-/*! @TODO Make this async-signal-safe */
-static void graceful_shutdown(int signum, siginfo_t *info, void *ptr)
+static void *graceful_shutdown(void *ctx)
 {
-	proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
-	(void)info;
-	(void)ptr;
+	const sigset_t *sigset = ctx;
+	int signum;
 
-	if (signum == SIGTERM || signum == SIGINT)
-		sentinel = 1;
+	while (!sentinel) {
+		if (sigwait(sigset, &signum) != 0)
+			continue;
+
+		proxy_log(&ph, LOG_LEVEL_INFO, "Caught signal\n");
+
+		draining = 1;
+
+		if (signum == SIGTERM || signum == SIGINT)
+			sentinel = 1;
 
-	if (signum == SIGTERM || signum == SIGINT || signum == SIGUSR1)
 		proxy_shutdown(&ph);
+	}
+
+	return NULL;
 }
 #endif
 
@@ -201,14 +213,12 @@ int main(int argc, const char * const argv[])
 	struct proxy_opts opts;
 
 #ifndef _WIN32
-	struct sigaction sigact;
+	sigset_t sigset;
+	pthread_t sigthread;
 #endif
 	int ret;
 
 	memset(&opts, 0x0, sizeof(opts));
-#ifndef _WIN32
-	memset(&sigact, 0x0, sizeof(sigact));
-#endif
 	memset(&ph, 0x0, sizeof(ph));
 
 	parse_args(argc, argv, &opts);
@@ -221,13 +231,13 @@ int main(int argc, const char * const argv[])
 	}
 
 #ifndef _WIN32
-	/* Handle SIGINT/SIGTERM */
-	sigact.sa_sigaction = graceful_shutdown;
-	sigact.sa_flags |= SA_SIGINFO;
+	/* Handle SIGINT/SIGTERM/SIGUSR1 on a dedicated thread only */
+	sigemptyset(&sigset);
+	sigaddset(&sigset, SIGINT);
+	sigaddset(&sigset, SIGTERM);
+	sigaddset(&sigset, SIGUSR1);
 
-	sigaction(SIGINT, &sigact, NULL);
-	sigaction(SIGTERM, &sigact, NULL);
-	sigaction(SIGUSR1, &sigact, NULL);
+	pthread_sigmask(SIG_BLOCK, &sigset, NULL);
 #else
 	if (!SetConsoleCtrlHandler(graceful_shutdown, TRUE))
 		fprintf(stderr, "Failed to set signal handler (%d)\n",
@@ -381,6 +391,16 @@ int main(int argc, const char * const argv[])
 		goto proxyd_exit;
 	}
 
+#ifndef _WIN32
+	ret = -pthread_create(&sigthread, NULL, graceful_shutdown, &sigset);
+	if (ret < 0) {
+		proxy_log(&ph, LOG_LEVEL_FATAL,
+			  "Failed to start signal handling (%d): %s\n",
+			  -ret, strerror(-ret));
+		goto proxyd_exit;
+	}
+#endif
+
 	proxy_log(&ph, LOG_LEVEL_INFO, "Ready.\n");
 
 	/* Main dispatch loop */
@@ -389,6 +409,10 @@ int main(int argc, const char * const argv[])
 			  "Starting a processing run...\n");
 		ret = proxy_process(&ph);
 		if (ret < 0) {
+			/* The listening connection was shut down */
+			if (draining)
+				ret = -EINTR;
+
 			switch (ret) {
 			case -EINTR:
 				ret = 0;
@@ -414,6 +438,13 @@ int main(int argc, const char * const argv[])
 
 	proxy_log(&ph, LOG_LEVEL_INFO, "Shutting down...\n");
 
+#ifndef _WIN32
+	/* If there hasn't been a signal yet, there needs to be one */
+	if (!sentinel)
+		pthread_kill(sigthread, SIGTERM);
+	pthread_join(sigthread, NULL);
+#endif
+
 proxyd_exit:
 	proxy_free(&ph);
 
-- 
2.43.0


From bed54a73db8bbebd732d4b99ce5fcad39e81ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 32/40] fix: send the TCP close after all data when sending
 fails

When data can't be sent to the remote host, the forwarder may already have
received data which it sends to the client after the close message.
---
 src/proxy_conn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 756e3dc..26eb174 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -696,8 +696,11 @@ static int process_tcp_data_message(struct proxy_conn_handle *pc,
 		}
 	}
 
-	if (tcp_ret != 0)
+	if (tcp_ret != 0) {
+		/* The forwarder may still have data to deliver */
+		worker_wait_idle(&priv->worker_tcp);
 		send_tcp_close(pc);
+	}
 
 	return 0;
 }
-- 
2.43.0


From ff408fc39c83597670bddd4b87b4afec0cb8b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 33/40] fix: publish the connecting socket under the lock

---
 src/conn.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 6d47dc8..7112fbf 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -360,6 +360,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	struct addrinfo *res = NULL;
 	struct addrinfo *res_remote = NULL;
 	static const int yes = 1;
+	SOCKET fd;
 	int ret;
 
 	if (conn->type != CONN_TYPE_TCP)
@@ -389,14 +390,20 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 		goto conn_connect_free_early;
 	}
 
-	priv->sock_fd = socket(res->ai_family, res->ai_socktype,
-			       res->ai_protocol);
-	if (priv->sock_fd == INVALID_SOCKET) {
+	fd = socket(res->ai_family, res->ai_socktype, res->ai_protocol);
+	if (fd == INVALID_SOCKET) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free_early;
 	}
 
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
+	/* From here on, conn_shutdown may be used to cancel the connection */
+	mutex_lock(&priv->mutex);
+
+	priv->sock_fd = fd;
+
+	mutex_unlock(&priv->mutex);
+
+	ret = setsockopt(fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -404,7 +411,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 
 #ifdef __APPLE__
-	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
+	ret = setsockopt(fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -412,13 +419,13 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	}
 #endif
 
-	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
+	ret = bind(fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
 		goto conn_connect_free;
 	}
 
-	ret = connect(priv->sock_fd, res_remote->ai_addr,
+	ret = connect(fd, res_remote->ai_addr,
 		      (socklen_t)res_remote->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
@@ -437,12 +444,16 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 	return 0;
 
 conn_connect_free:
+	mutex_lock(&priv->mutex);
+
 	shutdown(priv->sock_fd, SHUT_RDWR);
 
 	closesocket(priv->sock_fd);
 
 	priv->sock_fd = INVALID_SOCKET;
 
+	mutex_unlock(&priv->mutex);
+
 conn_connect_free_early:
 	if (res_remote != NULL)
 		freeaddrinfo(res_remote);
-- 
2.43.0


From d0880a62975e847a2ede2fce5056938cb04324ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 34/40] fix: don't wait for the remote host when dropping a
 client

---
 src/proxy_conn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 26eb174..ace9b20 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -862,9 +862,13 @@ void proxy_conn_drop(struct proxy_conn_handle *pc)
 
 	mutex_lock_shared(&priv->mutex_client);
 
-	if (priv->conn_client != NULL)
+	if (priv->conn_client != NULL) {
 		conn_drop(priv->conn_client);
 
+		/* The client's worker may be waiting for the remote host */
+		conn_shutdown(&priv->conn_tcp);
+	}
+
 	mutex_unlock_shared(&priv->mutex_client);
 }
 
-- 
2.43.0


From 14a14cd177b80df09cdb25e884528a13799a06d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 35/40] fix: release the denied callsigns regex when opening
 fails

---
 src/proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/proxy.c b/src/proxy.c
index 0a1f772..51a7160 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -854,6 +854,12 @@ proxy_open_exit:
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From c8068f6a1c792021cc432f84941edd6bbcdc4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:32 +0000
Subject: [PATCH 36/40] fix: wait for shared holders after waiting on a
 condition

A condition wait returned with the lock although other threads held it
shared, so the caller's exclusive access was not exclusive.
---
 src/mutex_posix.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..24d9f04 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -231,8 +231,15 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 {
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
+	int ret;
+
+	ret = -pthread_cond_wait(&priv->cond, &mpriv->lock);
+
+	/* The lock is exclusive only when there are no shared holders */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	return ret;
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -249,6 +256,11 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+
+	/* The lock is exclusive only when there are no shared holders */
+	while (mpriv->readers > 0)
+		pthread_cond_wait(&mpriv->cond, &mpriv->lock);
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From 5899efc51a54796b47516ad98332459bd7f41df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:55 +0000
Subject: [PATCH 37/40] fix: keep the time stamp and message of a log line
 together

The time stamp and the message were written to the log file separately, so
lines logged by different threads at the same time could be mixed.
---
 src/log.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/log.c b/src/log.c
index 8bdb7ca..3438b8e 100644
--- a/src/log.c
+++ b/src/log.c
@@ -63,6 +63,8 @@
 #define OCH_STR2(x) OCH_STR1(x)
 
 #ifdef _WIN32
+#  define flockfile(fp) _lock_file(fp)
+#  define funlockfile(fp) _unlock_file(fp)
 #  define localtime_r(timep, result) (localtime_s(result, timep) == 0 ? result : NULL)
 #endif
 
@@ -405,10 +407,14 @@ void log_vprintf(struct log_handle *log, enum LOG_LEVEL lvl,
 			time(&epoch);
 			localtime_r(&epoch, &cal_time);
 			strftime(tstamp, 16, "%b %d %H:%M:%S", &cal_time);
+
+			/* Keep the time stamp and the message together */
+			flockfile(priv->medium_file.fp);
 			fprintf(priv->medium_file.fp, "%s : ", tstamp);
 
 			vfprintf(priv->medium_file.fp, fmt, args);
 			fflush(priv->medium_file.fp);
+			funlockfile(priv->medium_file.fp);
 		}
 
 		break;
-- 
2.43.0


From 2a1229835e642b9201923eb3b8c546f8fff21287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 38/40] fix: redirect the standard descriptors of the daemon to
 the null device

After closing them, the next sockets took their place, and everything that is
logged to the console (when neither a log file nor syslog is used or could be
opened) was written to the socket of a client or the network.
---
 src/proxyd.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/proxyd.c b/src/proxyd.c
index 6715593..e734dc1 100644
--- a/src/proxyd.c
+++ b/src/proxyd.c
@@ -54,6 +54,7 @@
 #  include <io.h>
 #  include <windows.h>
 #else
+#  include <fcntl.h>
 #  include <pthread.h>
 #  include <signal.h>
 #  include <sys/stat.h>
@@ -288,6 +289,7 @@ int main(int argc, const char * const argv[])
 	if (!opts.foreground) {
 		pid_t pid;
 		pid_t sid;
+		int nullfd;
 
 		pid = fork();
 
@@ -342,9 +344,21 @@ int main(int argc, const char * const argv[])
 			goto proxyd_exit;
 		}
 
-		close(STDIN_FILENO);
-		close(STDOUT_FILENO);
-		close(STDERR_FILENO);
+		/* Keep the standard descriptors from being used by sockets */
+		nullfd = open("/dev/null", O_RDWR);
+		if (nullfd < 0) {
+			ret = errno;
+			proxy_log(&ph, LOG_LEVEL_FATAL,
+				  "Failed to open null device (%d): %s\n",
+				  ret, strerror(ret));
+			goto proxyd_exit;
+		}
+
+		dup2(nullfd, STDIN_FILENO);
+		dup2(nullfd, STDOUT_FILENO);
+		dup2(nullfd, STDERR_FILENO);
+		if (nullfd > STDERR_FILENO)
+			close(nullfd);
 	} else
 #endif
 	{
-- 
2.43.0


From f4db5d34c9b289dd4be0f6648108947cd8682e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 39/40] fix: forget the number of clients when they cannot be
 allocated

proxy_close (and proxy_free) accessed the missing clients.
---
 src/proxy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 51a7160..f6a2fb6 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -682,8 +682,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
-		return -ENOMEM;
+	if (priv->clients == NULL) {
+		ret = -ENOMEM;
+		goto proxy_open_exit;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
-- 
2.43.0


From a3269d0257587eb952553431e3e55a112f4636f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 40/40] fix: connect to the IPv4 address of hosts which also
 have IPv6 addresses

---
 src/conn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 7112fbf..7dd0e37 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -381,7 +381,8 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 
 	memset(&hints, 0x0, sizeof(hints));
 
-	hints.ai_family = AF_UNSPEC;
+	/* The remote address is of use only if the socket can reach it */
+	hints.ai_family = res->ai_family;
 	hints.ai_socktype = SOCK_STREAM;
 
 	ret = getaddrinfo(addr, port, &hints, &res_remote);
-- 
2.43.0

