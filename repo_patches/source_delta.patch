From e4161854d753075c9d6dd1711431698db84c4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 01/38] fix: send only the remainder of a message after a short
 send

trySend() passed the full length again after send() accepted a part of the
message, which read beyond the buffer and never terminated correctly.
---
 src/core/network.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/network.c b/src/core/network.c
index 6c38e29..af3f8c9 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -368,7 +368,7 @@ static bool trySend(const void * buf, size_t len)
 	const char * end = ptr + len;
 
 	do {
-		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, len, 0);
+		ssize_t rc = SOCK_sendCancelable(sendsock, ptr, end - ptr, 0);
 		if (rc <= 0) {
 			/* report failure */
 #ifdef DEBUG
-- 
2.43.0


From f681991ff9b6d3054ed2b474f33da3c4f29254ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 02/38] fix: do not join a thread twice when stopping is
 deferred

A successful pthread_timedjoin_np() already releases the thread, joining it
again is undefined behaviour.
---
 src/util/component.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/component.c b/src/util/component.c
index 7094aba..8de55da 100644
--- a/src/util/component.c
+++ b/src/util/component.c
@@ -413,8 +413,9 @@ static bool stopThreaded(const struct ComponentLink * ci, bool deferred)
 					"joined", ci->comp->description);
 			return false;
 		}
-#endif
+#else
 		pthread_join(ci->thread, NULL);
+#endif
 	} else {
 		pthread_cancel(ci->thread);
 #if HAVE_PTHREAD_TIMEDJOIN_NP
-- 
2.43.0


From ef7f1971849ae72396de7e324891c297086f87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 03/38] fix: store every serial number assigned by the network
 before announcing it

A response which arrived too late for the request (i.e. on a later connection
or after the timeout), or which replaced the current serial number, was
announced upon the next login but never stored, so another serial number was
announced after the next restart.
---
 src/dump1090/req-serial.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dump1090/req-serial.c b/src/dump1090/req-serial.c
index be27808..33c4175 100644
--- a/src/dump1090/req-serial.c
+++ b/src/dump1090/req-serial.c
@@ -38,6 +38,8 @@ static pthread_cond_t serialReqCond = PTHREAD_COND_INITIALIZER;
 static bool hasSerial;
 /** Configuration: serial number */
 static uint32_t serialNumber;
+/** The current serial number was assigned by the network, but not stored yet */
+static bool unsaved;
 
 /** Configuration Descriptor */
 static const struct CFG_Section cfgDesc =
@@ -116,7 +118,9 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 					"failed");
 			}
 		}
+	}
 
+	if (unsaved) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Got a new serial number: %" PRId32,
 			(int32_t)serialNumber);
 
@@ -125,6 +129,7 @@ enum SERIAL_RETURN SERIAL_getSerial(uint32_t * serial)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "Could not write serial number, "
 				"refusing to work");
 		}
+		unsaved = false;
 	}
 	*serial = serialNumber;
 cleanup:
@@ -151,6 +156,7 @@ static void serialResponse(const uint8_t * payload)
 	pthread_mutex_lock(&serialMutex);
 	serialNumber = ENDEC_tou32(payload);
 	hasSerial = true;
+	unsaved = true;
 	pthread_cond_broadcast(&serialReqCond);
 	pthread_mutex_unlock(&serialMutex);
 }
-- 
2.43.0


From 97b629756e5e884da80950558c15489b0dbaa0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 04/38] fix: replace configuration files atomically and report
 failed writes

---
 src/util/cfgfile.c | 78 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 60 insertions(+), 18 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 2d60544..e24a703 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -955,24 +955,70 @@ static bool writeSections(FILE * file)
 	return true;
 }
 
+/** Open a temporary file in order to replace a configuration file.
+ * @param filename name of the configuration file to be replaced
+ * @param tmpname buffer for the name of the temporary file
+ * @param len size of the buffer
+ * @return opened file or NULL on failure
+ */
+static FILE * openReplacement(const char * filename, char * tmpname,
+	size_t len)
+{
+	int n = snprintf(tmpname, len, "%s.tmp", filename);
+	if (n < 0 || (size_t)n >= len) {
+		LOG_logf(LOG_LEVEL_ERROR, PFX, "Path '%s' is too long", filename);
+		return NULL;
+	}
+
+	FILE * file = fopen(tmpname, "w");
+	if (!file)
+		LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not open configuration file "
+			"'%s' for writing", tmpname);
+	return file;
+}
+
+/** Close a temporary file and replace the configuration file with it, if
+ * everything could be written. Otherwise, the old file is left untouched.
+ * @param file temporary file, as opened by openReplacement()
+ * @param filename name of the configuration file to be replaced
+ * @param tmpname name of the temporary file
+ * @param success true if everything was written to the temporary file
+ * @return true if the configuration file was replaced
+ */
+static bool closeReplacement(FILE * file, const char * filename,
+	const char * tmpname, bool success)
+{
+	if (ferror(file))
+		success = false;
+	/* buffered data are written on closing the file, this might fail, too */
+	if (fclose(file) != 0)
+		success = false;
+#ifdef _WIN32
+	if (success)
+		remove(filename);
+#endif
+	if (success && rename(tmpname, filename) != 0)
+		success = false;
+	if (!success) {
+		LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not write configuration file "
+			"'%s'", filename);
+		remove(tmpname);
+	}
+	return success;
+}
+
 /** Write all sections with their options into a configuration file.
  * @param filename configuration filename
  * @return true if writing succeeded
  */
 bool CFG_write(const char * filename)
 {
-	FILE * file = fopen(filename, "w");
-	if (!file) {
-		LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not write configuration file "
-			"'%s'", filename);
+	char tmpname[PATH_MAX];
+	FILE * file = openReplacement(filename, tmpname, sizeof tmpname);
+	if (!file)
 		return false;
-	}
-
-	bool rc = writeSections(file);
-
-	fclose(file);
 
-	return rc;
+	return closeReplacement(file, filename, tmpname, writeSections(file));
 }
 
 /** Write all options of a particular section into a configuration file.
@@ -982,17 +1028,13 @@ bool CFG_write(const char * filename)
  */
 bool CFG_writeSection(const char * filename, const struct CFG_Section * section)
 {
-	FILE * file = fopen(filename, "w");
-	if (!file) {
-		LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not open configuration file "
-			"'%s' for writing", filename);
+	char tmpname[PATH_MAX];
+	FILE * file = openReplacement(filename, tmpname, sizeof tmpname);
+	if (!file)
 		return false;
-	}
 
 	bool rc = fprintf(file, "[%s]\n", section->name) >= 0 &&
 		writeOptions(file, section);
 
-	fclose(file);
-
-	return rc;
+	return closeReplacement(file, filename, tmpname, rc);
 }
-- 
2.43.0


From 0681e528fa073a80d6a5b02845ae7677757984a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 05/38] fix: do not glue commands of two connections together

---
 src/core/network.c | 40 +++++++++++++---------------------------
 1 file changed, 13 insertions(+), 27 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index af3f8c9..76d7ff3 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -69,16 +69,6 @@ enum EMIT_BY {
 	EMIT_BY_SEND = TRANSIT_RECV
 };
 
-/** Action to be taken if sending/receiving fails -> it could be, that the
- * connection has already been reestablished. Try again in that case.
- */
-enum ACTION {
-	/** No action: just fail */
-	ACTION_NONE,
-	/** Retry */
-	ACTION_RETRY
-};
-
 /** Current connection state */
 static enum CONN_STATE connState;
 
@@ -99,7 +89,7 @@ static time_t onlineSince;
 
 static void mainloop();
 static sock_t tryConnect();
-static enum ACTION emitDisconnect(enum EMIT_BY by);
+static void emitDisconnect(enum EMIT_BY by);
 static bool trySend(const void * buf, size_t len);
 static void resetStats();
 
@@ -249,11 +239,9 @@ static inline void logDisconnect()
 /** Upon network failure: determine the actions to be taken, depending on
  * who has detected the failure and the current state
  * @param by failure was detected by sender or receiver
- * @return action to be taken by sender resp. receiver
  */
-static enum ACTION emitDisconnect(enum EMIT_BY by)
+static void emitDisconnect(enum EMIT_BY by)
 {
-	enum ACTION act;
 	CLEANUP_PUSH_LOCK(&mutex);
 
 	/* determine socket */
@@ -316,10 +304,7 @@ static enum ACTION emitDisconnect(enum EMIT_BY by)
 		*mysock = SOCK_INVALID;
 		transState = TRANSIT_NONE;
 	}
-	act = connState == CONN_STATE_CONNECTED ? ACTION_RETRY : ACTION_NONE;
 	CLEANUP_POP();
-
-	return act;
 }
 
 /** Wait for reconnection */
@@ -404,21 +389,22 @@ bool NET_send(const void * buf, size_t len)
 /** Receive some data from the socket.
  * @param buf buffer to receive into
  * @param len size of buffer
- * @return number of bytes received or 0 upon failure
+ * @return number of bytes received or 0 upon failure. In the latter case, the
+ *  connection was lost (even if it has been reestablished meanwhile), i.e.
+ *  subsequent data do not continue the data received so far.
  */
 ssize_t NET_receive(uint8_t * buf, size_t len)
 {
-	do {
-		ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
-		if (rc > 0) {
-			stats.bytesReceived += rc;
-			return rc;
-		}
+	ssize_t rc = SOCK_recvCancelable(recvsock, buf, len, 0);
+	if (rc > 0) {
+		stats.bytesReceived += rc;
+		return rc;
+	}
 #ifdef DEBUG
-		LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
-			rc == 0 ? "Connection lost" : strerror(errno));
+	LOG_logf(LOG_LEVEL_INFO, PFX, "could not receive: %s",
+		rc == 0 ? "Connection lost" : strerror(errno));
 #endif
-	} while (emitDisconnect(EMIT_BY_RECV) == ACTION_RETRY);
+	emitDisconnect(EMIT_BY_RECV);
 	return 0;
 }
 
-- 
2.43.0


From 78c30939877b3d6d01884f3f561b10264ef3f875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:51 +0000
Subject: [PATCH 06/38] fix: do not leak sockets when stopping while
 (re)connecting

---
 src/core/network.c          | 24 ++++++++++--------------
 src/util/net_common-posix.c | 17 +++++++++++++----
 2 files changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/core/network.c b/src/core/network.c
index 76d7ff3..f64437b 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -155,21 +155,16 @@ static bool checkCfg(const struct CFG_Section * sect)
 
 static void cleanupMain()
 {
-	if (connState == CONN_STATE_CONNECTED) {
-		switch (transState) {
-		case TRANSIT_NONE:
-		case TRANSIT_SEND:
-			SOCK_shutdown(recvsock, SHUT_RDWR);
-			SOCK_close(recvsock);
-			recvsock = SOCK_INVALID;
-			break;
-		case TRANSIT_RECV:
-			SOCK_shutdown(sendsock, SHUT_RDWR);
-			SOCK_close(sendsock);
-			sendsock = SOCK_INVALID;
-			break;
-		}
+	/* close the current connection and / or the stale socket, if any */
+	if (recvsock != SOCK_INVALID) {
+		SOCK_shutdown(recvsock, SHUT_RDWR);
+		SOCK_close(recvsock);
+	}
+	if (sendsock != SOCK_INVALID && sendsock != recvsock) {
+		SOCK_shutdown(sendsock, SHUT_RDWR);
+		SOCK_close(sendsock);
 	}
+	recvsock = sendsock = SOCK_INVALID;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
@@ -179,6 +174,7 @@ static void mainloop()
 {
 	connState = CONN_STATE_DISCONNECTED;
 	transState = TRANSIT_NONE;
+	recvsock = sendsock = SOCK_INVALID;
 
 	pthread_mutex_lock(&mutex);
 	CLEANUP_PUSH(&cleanupMain, NULL);
diff --git a/src/util/net_common-posix.c b/src/util/net_common-posix.c
index 69ab469..ea8c857 100644
--- a/src/util/net_common-posix.c
+++ b/src/util/net_common-posix.c
@@ -23,6 +23,8 @@ struct Hosts {
 	struct addrinfo * hosts;
 	/** Pointers into hosts, in random order */
 	struct addrinfo ** shuffled;
+	/** Socket to be connected */
+	sock_t sock;
 };
 
 /** Cleanup Routine
@@ -34,6 +36,8 @@ static void cleanup(struct Hosts * hosts)
 		if (hosts->hosts)
 			freeaddrinfo(hosts->hosts);
 		free(hosts->shuffled);
+		if (hosts->sock != SOCK_INVALID)
+			SOCK_close(hosts->sock);
 		free(hosts);
 	}
 }
@@ -56,6 +60,7 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 		LOG_errno(LOG_LEVEL_EMERG, prefix, "malloc failed");
 	hosts->hosts = NULL;
 	hosts->shuffled = NULL;
+	hosts->sock = SOCK_INVALID;
 
 	hints.ai_family = AF_UNSPEC;
 	hints.ai_socktype = SOCK_STREAM;
@@ -124,18 +129,22 @@ sock_t NETC_connect(const char * prefix, const char * hostName, uint16_t port)
 			PRIu16, hostName, ip, port);
 
 		/* create socket */
-		sock = SOCK_socket(host->ai_family, host->ai_socktype | SOCK_CLOEXEC,
+		hosts->sock = SOCK_socket(host->ai_family, host->ai_socktype | SOCK_CLOEXEC,
 			host->ai_protocol);
-		if (sock == SOCK_INVALID)
+		if (hosts->sock == SOCK_INVALID)
 			LOG_errnet(LOG_LEVEL_ERROR, prefix, "could not create socket");
 
 		/* connect socket */
-		rc = SOCK_connect(sock, addr, host->ai_addrlen);
+		rc = SOCK_connect(hosts->sock, addr, host->ai_addrlen);
 		if (rc == SOCK_ERROR) {
 			LOG_errnet(LOG_LEVEL_WARN, prefix, "Could not connect");
-			SOCK_close(sock);
+			SOCK_close(hosts->sock);
+			hosts->sock = SOCK_INVALID;
 		} else {
 			LOG_logf(LOG_LEVEL_INFO, prefix, "connected to '%s'", hostName);
+			/* hand the socket over to the caller */
+			sock = hosts->sock;
+			hosts->sock = SOCK_INVALID;
 			break;
 		}
 	}
-- 
2.43.0


From 1491e772ae69a2a86932b0db0261f3bc3bd70152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 07/38] fix: a failed position report must not take over the
 sender's connection

A thread other than the relay (GPS receiver, library user) that failed to
send reported the failure on behalf of the relay. After the reconnect the
relay went on without logging in again. It could also send a position on a
new connection before the device was identified. Other threads now only
send once the device is identified, and merely shut the socket down on
failure, so that the relay notices and logs in again.
---
 src/core/login.c   |  8 +++++--
 src/core/network.c | 53 +++++++++++++++++++++++++++++++++++++++-------
 src/core/network.h |  2 ++
 3 files changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/core/login.c b/src/core/login.c
index ea81b0d..5d71010 100644
--- a/src/core/login.c
+++ b/src/core/login.c
@@ -46,8 +46,12 @@ static bool sendUsername();
 bool LOGIN_login()
 {
 	/* send device id, serial number, username and the position */
-	bool rc = sendDeviceId() && sendSerial() && GPS_sendPosition() &&
-		sendUsername();
+	bool rc = sendDeviceId() && sendSerial();
+	if (rc) {
+		/* from now on, the position can be sent by others if deferred */
+		NET_setIdentified();
+		rc = GPS_sendPosition() && sendUsername();
+	}
 	if (!rc)
 		LOG_log(LOG_LEVEL_WARN, PFX, "Login failed");
 	return rc;
diff --git a/src/core/network.c b/src/core/network.c
index f64437b..c8138ea 100644
--- a/src/core/network.c
+++ b/src/core/network.c
@@ -40,6 +40,13 @@ static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
 /** Mutex for exclusive sending */
 static pthread_mutex_t sendMutex = PTHREAD_MUTEX_INITIALIZER;
 
+/** Is the current thread the sender, i.e. the one which waits for connections,
+ * logs in and handles connection failures detected while sending? */
+static __thread bool isSender;
+/** The sender has identified the device on the current connection, i.e. other
+ * threads may send as well (guarded by sendMutex) */
+static bool identified;
+
 /** Connection status */
 enum CONN_STATE {
 	/** Disconnected */
@@ -165,6 +172,7 @@ static void cleanupMain()
 		SOCK_close(sendsock);
 	}
 	recvsock = sendsock = SOCK_INVALID;
+	identified = false;
 	connState = CONN_STATE_SHUTDOWN;
 	pthread_mutex_unlock(&mutex);
 }
@@ -303,25 +311,48 @@ static void emitDisconnect(enum EMIT_BY by)
 	CLEANUP_POP();
 }
 
-/** Wait for reconnection */
+/** Wait for reconnection. The calling thread becomes the sender */
 void NET_waitConnected()
 {
+	isSender = true;
 	CLEANUP_PUSH_LOCK(&mutex);
 	while (connState != CONN_STATE_CONNECTED)
 		pthread_cond_wait(&cond, &mutex);
 	CLEANUP_POP();
 }
 
+/** The sender detected a failure (or wants to reconnect): from now on, nobody
+ * else may send until the sender has logged in again.
+ * @note sendMutex must be locked
+ */
+static void senderDisconnect()
+{
+	identified = false;
+	emitDisconnect(EMIT_BY_SEND);
+}
+
+/** Allow other threads to send on the current connection.
+ * Must only be called by the sender, after it has identified the device.
+ */
+void NET_setIdentified()
+{
+	pthread_mutex_lock(&sendMutex);
+	identified = true;
+	pthread_mutex_unlock(&sendMutex);
+}
+
 /** Force a reconnection to the network.
- * Must only be called by the thread which normally calls @NET_send.
+ * Must only be called by the sender.
  */
 void NET_forceDisconnect()
 {
-	emitDisconnect(EMIT_BY_SEND);
+	CLEANUP_PUSH_LOCK(&sendMutex);
+	senderDisconnect();
+	CLEANUP_POP();
 }
 
 /** Check if the network is still connected.
- * Must only be called by the thread which normally calls @NET_send.
+ * Must only be called by the sender.
  * @return true if the network is connected
  */
 bool NET_checkConnected()
@@ -331,7 +362,7 @@ bool NET_checkConnected()
 		transState == TRANSIT_SEND;
 	pthread_mutex_unlock(&mutex);
 	if (emit) {
-		emitDisconnect(EMIT_BY_SEND);
+		NET_forceDisconnect();
 		return false;
 	} else {
 		return true;
@@ -357,7 +388,12 @@ static bool trySend(const void * buf, size_t len)
 				rc == 0 || errno == EPIPE ? "Connection lost" :
 				strerror(errno));
 #endif
-			emitDisconnect(EMIT_BY_SEND);
+			if (isSender) {
+				senderDisconnect();
+			} else {
+				/* let the sender see the failure, it has to log in again */
+				SOCK_shutdown(sendsock, SHUT_RDWR);
+			}
 			return false;
 		}
 		ptr += rc;
@@ -371,13 +407,14 @@ static bool trySend(const void * buf, size_t len)
 /** Send some data through the socket.
  * @param buf buffer to be sent
  * @param len length of buffer
- * @return true if sending succeeded, false on network failure
+ * @return true if sending succeeded, false on network failure or if the
+ *  calling thread is not the sender and the device is not identified yet
  */
 bool NET_send(const void * buf, size_t len)
 {
 	bool rc;
 	CLEANUP_PUSH_LOCK(&sendMutex);
-	rc = trySend(buf, len);
+	rc = (isSender || identified) && trySend(buf, len);
 	CLEANUP_POP();
 	return rc;
 }
diff --git a/src/core/network.h b/src/core/network.h
index 882bc2a..ba9d319 100644
--- a/src/core/network.h
+++ b/src/core/network.h
@@ -25,6 +25,8 @@ extern const struct Component NET_comp;
 
 void NET_waitConnected();
 
+void NET_setIdentified();
+
 void NET_forceDisconnect();
 
 bool NET_checkConnected();
-- 
2.43.0


From 39eb396a2f8e2bb97be3a08060714123dba23865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 08/38] fix: a position sent at login is not owed any longer

A deferred position of an earlier connection was sent once more with the
next position update although the login had just sent it.
---
 src/core/gps.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/gps.c b/src/core/gps.c
index 40c79ba..2b55222 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -156,6 +156,7 @@ bool GPS_sendPosition()
 	} else {
 		/* we have a position: copy it and send it (without the mutex) */
 		memcpy(&pos, &position, sizeof pos);
+		needPosition = false;
 		pthread_mutex_unlock(&posMutex);
 
 		return sendPosition(&pos);
-- 
2.43.0


From 21a93bdf55d5d847e921af8b9d4fe575ecb31673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 09/38] fix: resetting the position must not forget that one is
 owed

If the GPS receiver (re)connected after the login, the first position was
never sent until the next login.
---
 src/core/gps.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/gps.c b/src/core/gps.c
index 2b55222..d91bd73 100644
--- a/src/core/gps.c
+++ b/src/core/gps.c
@@ -36,11 +36,11 @@ static void sendPositionIfAvail();
 
 static bool sendPosition(const struct GPS_Position * position);
 
-/** Reset current GPS position */
+/** Reset current GPS position. If a position is still owed, it will be sent as
+ * soon as there is a new one. */
 void GPS_reset()
 {
 	pthread_mutex_lock(&posMutex);
-	needPosition = false;
 	hasPosition = false;
 	hasFix = false;
 	pthread_mutex_unlock(&posMutex);
-- 
2.43.0


From e438295d21c0c2e9e4f6a13c20c484a477791e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 10/38] fix: invalidate the position when the GPS receiver is
 lost

It was only reset after the next successful connection, so logins in
between still reported the outdated position.
---
 src/trimble/trimble_recv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trimble/trimble_recv.c b/src/trimble/trimble_recv.c
index 29a4952..8548bfb 100644
--- a/src/trimble/trimble_recv.c
+++ b/src/trimble/trimble_recv.c
@@ -208,6 +208,9 @@ static void mainloop()
 			}
 		}
 
+		/* the position is outdated, even if there is no connection for long */
+		GPS_reset();
+
 		CLEANUP_POP();
 	}
 }
-- 
2.43.0


From 4ff8aca951e08f75e71b639adbdeb673cdbc6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 11/38] fix: close the socket used for getting the MAC address

---
 src/util/serial_eth.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/serial_eth.c b/src/util/serial_eth.c
index ad8006c..2cef022 100644
--- a/src/util/serial_eth.c
+++ b/src/util/serial_eth.c
@@ -74,6 +74,7 @@ static bool getMacBySocket(const char * dev, uint8_t mac[IFHWADDRLEN])
 	strncpy(ifr.ifr_name, dev, IFNAMSIZ);
 
 	int ret = NOC_call(ioctl, sock, SIOCGIFHWADDR, &ifr);
+	NOC_call(close, sock);
 
 	if (ret < 0) /* no such device */
 		return false;
-- 
2.43.0


From afa4b4bd92b51533777a6a0b082eba8dca29cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:20 +0000
Subject: [PATCH 12/38] fix: refuse to start without a serial number

The result of getting the serial number was compared as if it was a
boolean, so the radarcape daemon started, connected and aborted only when
it was about to announce the number.
---
 src/radarcape/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index f166c91..9a7d84f 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -151,7 +151,7 @@ int main(int argc, char * argv[])
 		return EXIT_SUCCESS;
 	}
 
-	if (!SERIAL_ETH_getSerial(NULL))
+	if (SERIAL_ETH_getSerial(NULL) != SERIAL_RETURN_SUCCESS)
 			LOG_log(LOG_LEVEL_EMERG, PFX, "No serial number configured");
 
 #ifdef STANDALONE
-- 
2.43.0


From 03fcae48cf4ba6cd5cf513fe9958809bf42a2a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 13/38] fix: wait for the FPGA to signal CONF_DONE instead of
 waiting while it does

---
 src/radarcape/fpga.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index f677ea1..6839275 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -212,7 +212,7 @@ static bool program()
 			continue;
 
 		uint32_t spin = TIMEOUT;
-		while (GPIO_read(fpga->confd) && spin--)
+		while (!GPIO_read(fpga->confd) && spin--)
 			usleep(50);
 		if (!GPIO_read(fpga->confd)) {
 			LOG_log(LOG_LEVEL_WARN, PFX, "could not program: CONF_DONE = 0"
-- 
2.43.0


From a2629a6577ebc8ceb4f2db9972f2b44f6162caff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 14/38] fix: a long FPGA file name overflowed the path buffer

---
 src/radarcape/fpga.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/radarcape/fpga.c b/src/radarcape/fpga.c
index 6839275..c0b1005 100644
--- a/src/radarcape/fpga.c
+++ b/src/radarcape/fpga.c
@@ -14,6 +14,7 @@
 #include <stdbool.h>
 #include <limits.h>
 #include <string.h>
+#include <stdio.h>
 #include <assert.h>
 #include "gpio.h"
 #include "fpga.h"
@@ -169,9 +170,12 @@ static bool program()
 	if (cfgFilename[0] == '/' && stat(cfgFilename, &st) == 0) {
 		strncpy(file, cfgFilename, sizeof file);
 	} else {
-		strncpy(file, FWDIR, sizeof file);
-		strncat(file, "/", strlen(file) - sizeof file);
-		strncat(file, cfgFilename, strlen(file) - sizeof file);
+		int len = snprintf(file, sizeof file, "%s/%s", FWDIR, cfgFilename);
+		if (len < 0 || (size_t)len >= sizeof file) {
+			LOG_logf(LOG_LEVEL_ERROR, PFX, "file name '%s' is too long",
+				cfgFilename);
+			return false;
+		}
 	}
 
 	/* open input file */
-- 
2.43.0


From 181ddb73fbf405fb047319f25ab9c23bb0cca8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 15/38] fix: serial lines were opened without their flags, so
 that every spawned program inherited them

---
 src/radarcape/uart.c             | 2 +-
 src/trimble/trimble_input_uart.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 75b2b74..7b40940 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -74,7 +74,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
diff --git a/src/trimble/trimble_input_uart.c b/src/trimble/trimble_input_uart.c
index 60044d4..feb36b8 100644
--- a/src/trimble/trimble_input_uart.c
+++ b/src/trimble/trimble_input_uart.c
@@ -78,7 +78,7 @@ static bool doConnect()
 	closeUart();
 
 	/* open uart */
-	fd = open(UART, O_RDWR, O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
+	fd = open(UART, O_RDWR | O_NONBLOCK | O_NOCTTY | O_CLOEXEC);
 	if (fd < 0) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "Could not open UART at '%s'", UART);
 		fd = -1;
-- 
2.43.0


From 4e44c4c2166958fcc0429662d39f1e5a0b8704ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 16/38] fix: after a failed upgrade the forked child went on as
 a second daemon

---
 src/radarcape/tb-misc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/radarcape/tb-misc.c b/src/radarcape/tb-misc.c
index 617cd8d..354575c 100644
--- a/src/radarcape/tb-misc.c
+++ b/src/radarcape/tb-misc.c
@@ -6,6 +6,7 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "tb-misc.h"
 #include "fpga.h"
 #include "util/proc.h"
@@ -70,6 +71,9 @@ void TB_upgradeDaemon(const uint8_t * payload)
 		PROC_execAndFinalize(argv2);
 #endif
 	}
+
+	/* this is the child: it must not continue as a copy of the daemon */
+	_Exit(EXIT_FAILURE);
 }
 #endif
 
-- 
2.43.0


From 57089f2c447a854c810e7db2f9abcc17b9660bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 17/38] fix: the result of a command which could not be forked
 was taken from an uninitialized variable

---
 src/util/proc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index 70e107c..7ccaf61 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -132,10 +132,15 @@ void PROC_forkAndExec(char * const argv[])
 bool PROC_execAndReturn(char * const argv[])
 {
 	pid_t pid = fork();
+	if (pid == -1) {
+		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
+		return false;
+	}
 	if (!pid)
 		PROC_execAndFinalize(argv);
 
 	int status;
-	waitpid(pid, &status, 0);
+	if (waitpid(pid, &status, 0) != pid)
+		return false;
 	return WIFEXITED(status) && WEXITSTATUS(status) == 0;
 }
-- 
2.43.0


From 0b17a96a147f1dde663762f5271afc2cbd867859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 18/38] fix: a forked child hung forever if another thread was
 logging at the time of the fork

---
 src/util/log.h       |  4 ++++
 src/util/log_stdio.c | 13 +++++++++++++
 src/util/proc.c      | 15 +++++++++++++--
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/util/log.h b/src/util/log.h
index f73d1f1..1313226 100644
--- a/src/util/log.h
+++ b/src/util/log.h
@@ -28,6 +28,10 @@ void LOG_log(enum LOG_LEVEL level, const char * prefix, const char * str);
 
 void LOG_flush();
 
+void LOG_lock();
+
+void LOG_unlock();
+
 __attribute__((format(printf, 3, 4)))
 void LOG_errno(enum LOG_LEVEL level, const char * prefix, const char * fmt,
 	...);
diff --git a/src/util/log_stdio.c b/src/util/log_stdio.c
index cec84c1..486a076 100644
--- a/src/util/log_stdio.c
+++ b/src/util/log_stdio.c
@@ -227,3 +227,16 @@ void LOG_flush()
 {
 	NOC_call(fflush, stdout);
 }
+
+/** Prevent other threads from logging, e.g. while this process is forked:
+ *  a thread which is not part of the child could never release the log. */
+void LOG_lock()
+{
+	pthread_mutex_lock(&stdioMutex);
+}
+
+/** Let other threads log again */
+void LOG_unlock()
+{
+	pthread_mutex_unlock(&stdioMutex);
+}
diff --git a/src/util/proc.c b/src/util/proc.c
index 7ccaf61..bdd3c6a 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -40,12 +40,23 @@ static void printCmdLine(char * const argv[])
 	LOG_logf(LOG_LEVEL_INFO, PFX, "Executing%s", buf);
 }
 
+/** Fork while no other thread is logging. Otherwise, the child could never log.
+ * @return result of fork()
+ */
+static pid_t forkProcess()
+{
+	LOG_lock();
+	pid_t pid = fork();
+	LOG_unlock();
+	return pid;
+}
+
 /** Fork from parent process.
  * @return true if this is child, false if its the parent (returns twice)
  */
 bool PROC_fork()
 {
-	pid_t childPid = fork();
+	pid_t childPid = forkProcess();
 	if (childPid == -1) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
 		return false;
@@ -131,7 +142,7 @@ void PROC_forkAndExec(char * const argv[])
  */
 bool PROC_execAndReturn(char * const argv[])
 {
-	pid_t pid = fork();
+	pid_t pid = forkProcess();
 	if (pid == -1) {
 		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
 		return false;
-- 
2.43.0


From ddc11e746928ce463624f39753c60b72e2fda666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 19/38] fix: every executed program left a zombie process
 behind

---
 src/util/proc.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/util/proc.c b/src/util/proc.c
index bdd3c6a..12339d7 100644
--- a/src/util/proc.c
+++ b/src/util/proc.c
@@ -51,7 +51,8 @@ static pid_t forkProcess()
 	return pid;
 }
 
-/** Fork from parent process.
+/** Fork from parent process. The child is adopted by init, so the parent does
+ *  not have to wait for it.
  * @return true if this is child, false if its the parent (returns twice)
  */
 bool PROC_fork()
@@ -61,8 +62,16 @@ bool PROC_fork()
 		LOG_errno(LOG_LEVEL_WARN, PFX, "fork failed");
 		return false;
 	} else if (childPid) { /* parent */
+		int status;
+		if (waitpid(childPid, &status, 0) == childPid &&
+			(!WIFEXITED(status) || WEXITSTATUS(status) != 0))
+			LOG_log(LOG_LEVEL_WARN, PFX, "fork failed");
 		return false;
-	} else { /* child */
+	} else { /* intermediate child: exits at once */
+		pid_t pid = forkProcess();
+		if (pid)
+			_Exit(pid == -1 ? EXIT_FAILURE : EXIT_SUCCESS);
+		/* child */
 		return true;
 	}
 }
-- 
2.43.0


From 13188c08b6b8ff5ff3c377e39aaadfc9ee56b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 20/38] fix: stopping while the receiver is being set up left
 its line open

---
 src/core/recv.c            | 4 ++--
 src/trimble/trimble_recv.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/recv.c b/src/core/recv.c
index 8ac86f6..5518fc7 100644
--- a/src/core/recv.c
+++ b/src/core/recv.c
@@ -45,10 +45,10 @@ static void mainloop()
 
 	CLEANUP_PUSH(&cleanup, &frame);
 	while (true) {
-		INPUT_connect();
-
 		CLEANUP_PUSH(&cleanupInput, NULL);
 
+		INPUT_connect();
+
 		FILTER_reset(); /* upon reconnection of the input: reset filter state */
 
 		frame = BUF_newFrame();
diff --git a/src/trimble/trimble_recv.c b/src/trimble/trimble_recv.c
index 8548bfb..99cd4fb 100644
--- a/src/trimble/trimble_recv.c
+++ b/src/trimble/trimble_recv.c
@@ -170,10 +170,10 @@ static void mainloop()
 	GPS_reset();
 
 	while (true) {
-		TRIMBLE_PARSER_connect();
-
 		CLEANUP_PUSH(&cleanupParser, NULL);
 
+		TRIMBLE_PARSER_connect();
+
 		GPS_reset();
 
 		while (true) {
-- 
2.43.0


From 95e10a9c2b561cf7c79ee018e267dc6613bef54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:30 +0000
Subject: [PATCH 21/38] fix: a filter command could be written to the closed or
 reused descriptor of the receiver

---
 src/radarcape/uart.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/uart.c b/src/radarcape/uart.c
index 7b40940..c8006e2 100644
--- a/src/radarcape/uart.c
+++ b/src/radarcape/uart.c
@@ -11,6 +11,7 @@
 #include <unistd.h>
 #include <errno.h>
 #include <stdbool.h>
+#include <pthread.h>
 #include "rc-input.h"
 #include "util/cfgfile.h"
 #include "util/util.h"
@@ -27,6 +28,9 @@ static const char PFX[] = "INPUT";
 
 /** file descriptor for UART */
 static int fd;
+/** Mutex: the UART is (re)opened and read by the receiver thread, but also
+ * written by others; they must not write to a closed (or reused) descriptor */
+static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
 /** poll set when waiting for data */
 static struct pollfd fds;
 
@@ -47,10 +51,12 @@ void RC_INPUT_init()
 /** Close connection */
 static void closeUart()
 {
+	pthread_mutex_lock(&mutex);
 	if (fd != -1) {
-		close(fd);
+		NOC_call(close, fd);
 		fd = -1;
 	}
+	pthread_mutex_unlock(&mutex);
 }
 
 /** Disconnect Radarcape input */
@@ -141,7 +147,9 @@ size_t RC_INPUT_read(uint8_t * buf, size_t bufLen)
  */
 size_t RC_INPUT_write(uint8_t * buf, size_t bufLen)
 {
-	ssize_t rc = write(fd, buf, bufLen);
+	pthread_mutex_lock(&mutex);
+	ssize_t rc = fd == -1 ? -1 : NOC_call(write, fd, buf, bufLen);
+	pthread_mutex_unlock(&mutex);
 	if (unlikely(rc <= 0))
 		return 0;
 	return rc;
-- 
2.43.0


From f016c2d4c67a90504c38ccb0cefa168a688d6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 22/38] fix: a filter command during the set-up of the receiver
 could be undone by an outdated setting

---
 src/radarcape/rc-parser.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/radarcape/rc-parser.c b/src/radarcape/rc-parser.c
index d881574..ddb4e97 100644
--- a/src/radarcape/rc-parser.c
+++ b/src/radarcape/rc-parser.c
@@ -10,6 +10,7 @@
 #include <stdbool.h>
 #include <inttypes.h>
 #include <unistd.h>
+#include <pthread.h>
 #include "rc-parser.h"
 #include "rc-input.h"
 #include "core/openskytypes.h"
@@ -98,6 +99,12 @@ enum DECODE_STATUS {
 	DECODE_STATUS_CONNFAIL
 };
 
+#if defined(INPUT_RADARCAPE_UART) || defined(CHECK)
+/** Mutex: the filter of the receiver is set upon connection and upon request
+ * by different threads, the most recent configuration must be sent last */
+static pthread_mutex_t filterMutex = PTHREAD_MUTEX_INITIALIZER;
+#endif
+
 /** Configuration: Forward error correction */
 static bool cfgFec;
 
@@ -123,6 +130,9 @@ static inline bool discardAndFill();
 static inline bool next(uint8_t * ch);
 static inline bool synchronize();
 static inline bool setOption(enum RADARCAPE_OPTION option);
+#if defined(INPUT_RADARCAPE_UART) || defined(CHECK)
+static bool setFrameFilter();
+#endif
 static inline enum DECODE_STATUS decode(uint8_t * buf, size_t len,
 	struct OPENSKY_RawFrame * raw);
 static void resetStats();
@@ -155,9 +165,7 @@ static bool configure()
 	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
 	/* setup ADSB */
 	return setOption(RADARCAPE_OPTION_OUTPUT_FORMAT_BIN) &&
-		setOption(filterCfg->extSquitter ?
-			RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
-			RADARCAPE_OPTION_FRAME_FILTER_ALL) &&
+		setFrameFilter() &&
 		setOption(RADARCAPE_OPTION_AVR_FORMAT_MLAT) &&
 		setOption(filterCfg->crc ?
 			RADARCAPE_OPTION_DF_11_17_18_CRC_ENABLED :
@@ -178,12 +186,27 @@ static bool configure()
 void INPUT_reconfigure()
 {
 #ifdef INPUT_RADARCAPE_UART
+	setFrameFilter();
+#endif
+}
+
+#if defined(INPUT_RADARCAPE_UART) || defined(CHECK)
+/** Set the frame filter of the receiver from the filter configuration
+ * @return true if the option could be set successfully
+ */
+static bool setFrameFilter()
+{
 	const struct FILTER_Configuration * filterCfg = FILTER_getConfiguration();
-	setOption(filterCfg->extSquitter ?
+	bool success;
+	pthread_mutex_lock(&filterMutex);
+	CLEANUP_PUSH(&CLEANUP_UNLOCK, &filterMutex);
+	success = setOption(filterCfg->extSquitter ?
 		RADARCAPE_OPTION_FRAME_FILTER_DF_11_17_18_ONLY :
 		RADARCAPE_OPTION_FRAME_FILTER_ALL);
-#endif
+	CLEANUP_POP();
+	return success;
 }
+#endif
 
 /** Set an option for the ADSB decoder.
  * @param option option to be set
-- 
2.43.0


From 00b0b49bcf0b00137a0689e088f3d7c3d8df40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 23/38] fix: the last character of a configuration file was
 lost if there was no final newline

---
 src/util/cfgfile.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index e24a703..7b923eb 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -356,6 +356,17 @@ static void err(enum LOG_LEVEL logLevel, const char * fmt, ...) {
 		fileName, bufferLine, buf);
 }
 
+/** Advance the parser behind the end of a line
+ * @param n end of line: newline or end-of-file
+ */
+static void advance(const char * n)
+{
+	if (n < bufferInput + bufferSize)
+		++n; /* skip newline */
+	bufferSize -= n - bufferInput;
+	bufferInput = n;
+}
+
 /** Parse a section name.
  * @return section state
  */
@@ -366,7 +377,7 @@ static enum SECTION_STATE parseSection()
 	/* get next newline or end-of-file */
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 
 	/* sanity checks */
 	if (!c || n < c) {
@@ -383,8 +394,7 @@ static enum SECTION_STATE parseSection()
 	const char * const buf = bufferInput + 1;
 
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advance(n);
 	++bufferLine;
 
 	/* search section: check if there is at least one section with that name */
@@ -411,10 +421,9 @@ static void skipComment()
 	/* search for next newline */
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 	/* advance parser */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advance(n);
 	++bufferLine;
 }
 
@@ -610,13 +619,12 @@ static bool parseOption()
 	const char * e = memchr(bufferInput, '=', bufferSize);
 	const char * n = memchr(bufferInput, '\n', bufferSize);
 	if (n == NULL)
-		n = bufferInput + bufferSize - 1;
+		n = bufferInput + bufferSize;
 
 	const char * key = bufferInput;
 
 	/* advance buffer */
-	bufferSize -= n + 1 - bufferInput;
-	bufferInput = n + 1;
+	advance(n);
 
 	/* sanity check */
 	if (unlikely(n < e)) {
-- 
2.43.0


From b1864e95d245d24b880ecda29d73c7254a8c3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 24/38] fix: a line without '=' at the end of a configuration
 file crashed the parser

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 7b923eb..3b02ee0 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -627,7 +627,7 @@ static bool parseOption()
 	advance(n);
 
 	/* sanity check */
-	if (unlikely(n < e)) {
+	if (unlikely(e == NULL || n < e)) {
 		err(LOG_LEVEL_ERROR, "'=' expected before end of line");
 		++bufferLine;
 		return false;
-- 
2.43.0


From 73dcfe034acbdb6dcc44af538106521d361d824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 25/38] fix: an empty option in a configuration file with CRLF
 line ends corrupted the memory

---
 src/util/cfgfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 3b02ee0..14bf898 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -647,7 +647,7 @@ static bool parseOption()
 		size_t valLen = n - value;
 
 		/* eliminate \r at the end of the value */
-		if (value[valLen - 1] == '\r')
+		if (valLen > 0 && value[valLen - 1] == '\r')
 			--valLen;
 
 		/* get option by section and key name */
-- 
2.43.0


From c652e20f0b89d24cc85e75b00767d39307d410d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 26/38] fix: options before a malformed section header were not
 corrected

---
 src/util/cfgfile.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 14bf898..bcbfc3b 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -145,9 +145,8 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
 
 	MMAP_close(map);
 
-	/* fix configuration */
-	if (success)
-		fix();
+	/* fix configuration, also that part which was read before an error */
+	fix();
 
 	return success;
 }
-- 
2.43.0


From 4c39176109c5a33fdbd2c2c5070eb75a8be70935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 27/38] fix: configuration files were ignored if the filesystem
 does not tell file types

---
 src/util/cfgfile.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index bcbfc3b..b5af760 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -159,7 +159,9 @@ bool CFG_readFile(const char * file, bool warnUnknownSection,
  */
 static int filterDirectory(const struct dirent * ent)
 {
-	if (ent->d_type != DT_REG && ent->d_type != DT_LNK)
+	/* some filesystems do not provide the type */
+	if (ent->d_type != DT_REG && ent->d_type != DT_LNK &&
+		ent->d_type != DT_UNKNOWN)
 		return 0;
 	char first = ent->d_name[0];
 	if (first < '0' || first > '9') /* does not begin with a number */
-- 
2.43.0


From 79c70a4a2e9a1c65627291c6a70eed7a4ebf2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 28/38] fix: the order of configuration files with the same
 number was undefined

---
 src/util/cfgfile.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index b5af760..4d975c4 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -179,14 +179,16 @@ static int filterDirectory(const struct dirent * ent)
 /** Compare callback for scandir: sort files by their prefix.
  * @param a directory entry (lhs)
  * @param b directory entry (rhs)
- * @return -1 if a < b, 0 if a = b, 1 if a > b where the real comparison
- *  is on the numbers preceding the filenames of a and b.
+ * @return < 0 if a < b, 0 if a = b, > 0 if a > b where the real comparison
+ *  is on the numbers preceding the filenames of a and b. Files with the same
+ *  number are sorted by their names.
  */
 static int compareDirectory(const struct dirent ** a, const struct dirent ** b)
 {
 	unsigned long int idx_a = strtoul((*a)->d_name, NULL, 10);
 	unsigned long int idx_b = strtoul((*b)->d_name, NULL, 10);
-	return idx_a < idx_b ? -1 : idx_a == idx_b ? 0 : 1;
+	return idx_a < idx_b ? -1 : idx_a > idx_b ? 1 :
+		strcmp((*a)->d_name, (*b)->d_name);
 }
 
 /** Read all files in a directory.
-- 
2.43.0


From df0125179a151eb53bce14af223361119c275e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 29/38] fix: a failure to save the configuration was reported
 as success

---
 src/radarcape/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/radarcape/main.c b/src/radarcape/main.c
index 9a7d84f..6fab8d7 100644
--- a/src/radarcape/main.c
+++ b/src/radarcape/main.c
@@ -145,10 +145,10 @@ int main(int argc, char * argv[])
 	if (savefile) {
 		LOG_logf(LOG_LEVEL_INFO, PFX, "Writing configuration file '%s'",
 			savefile);
-		CFG_write(savefile);
+		bool saved = CFG_write(savefile);
 		COMP_unregisterAll();
 		CFG_unregisterAll();
-		return EXIT_SUCCESS;
+		return saved ? EXIT_SUCCESS : EXIT_FAILURE;
 	}
 
 	if (SERIAL_ETH_getSerial(NULL) != SERIAL_RETURN_SUCCESS)
-- 
2.43.0


From 44ac9fa151b99c6874b6d10b2cbfe8005b8438e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 30/38] fix: buffer settings of 0 crashed the daemon or made it
 spin

---
 src/core/buffer.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index cbad706..0efaedb 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -186,6 +186,21 @@ static void cfgFix(const struct CFG_Section * sect)
 		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.staticBacklog was increased to 2");
 	}
 
+	if (cfg.dynBacklog < 1) {
+		cfg.dynBacklog = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.dynamicBacklog was increased to 1");
+	}
+
+	if (cfg.gcInterval < 1) {
+		cfg.gcInterval = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCInterval was increased to 1");
+	}
+
+	if (cfg.gcLevel < 1) {
+		cfg.gcLevel = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "BUFFER.GCLevel was increased to 1");
+	}
+
 	if (cfg.gc && !cfg.history) {
 		cfg.gc = false;
 		LOG_log(LOG_LEVEL_WARN, PFX, "Ignoring BUFFER.GC because "
-- 
2.43.0


From a190d44b50032237e9a1fc0f7a1d8607e0ef06be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 31/38] fix: a timeout of 0 flooded the network with keep-alive
 messages

---
 src/core/relay.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/relay.c b/src/core/relay.c
index 515440f..49afc39 100644
--- a/src/core/relay.c
+++ b/src/core/relay.c
@@ -10,20 +10,26 @@
 #include "network.h"
 #include "login.h"
 #include "beast.h"
+#include "util/log.h"
 #include "util/cfgfile.h"
 #include "util/threads.h"
 #include "util/util.h"
 
+/** Component: Prefix */
+static const char PFX[] = "RELAY";
+
 /** Configuration: timeout to wait for a new message in milliseconds.
  * This is also the keep-alive interval. */
 static uint32_t cfgTimeout;
 
+static void cfgFix(const struct CFG_Section * sect);
 static void mainloop();
 
 /** Configuration: Descriptor */
 static const struct CFG_Section cfg = {
 	.name = "NETWORK",
 	.n_opt = 1,
+	.fix = &cfgFix,
 	.options = {
 		{
 			.name = "Timeout",
@@ -42,6 +48,18 @@ const struct Component RELAY_comp = {
 	.dependencies = { &NET_comp, &BUF_comp, NULL }
 };
 
+/** Configuration: Fix configuration.
+ * @param sect should be &cfg
+ */
+static void cfgFix(const struct CFG_Section * sect)
+{
+	if (cfgTimeout < 1) {
+		cfgTimeout = 1500;
+		LOG_log(LOG_LEVEL_WARN, PFX, "NETWORK.timeout of 0 ignored, using "
+			"default");
+	}
+}
+
 /** Cleanup routine: put a frame back into the queue upon cancellation
  * @param frame pointer to frame
  */
-- 
2.43.0


From 793c24fd15d2d82c04e5e5ceed5ad09cd02aee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 32/38] fix: a statistics interval of 0 made the daemon spin

---
 src/util/statistics.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/util/statistics.c b/src/util/statistics.c
index da5770a..f020374 100644
--- a/src/util/statistics.c
+++ b/src/util/statistics.c
@@ -13,6 +13,7 @@
 #include "statistics.h"
 #include "cfgfile.h"
 #include "threads.h"
+#include "log.h"
 #include "core/buffer.h"
 #include "core/network.h"
 #include "core/filter.h"
@@ -31,12 +32,18 @@ struct Snapshot {
 static time_t start;
 static char startstr[26];
 
+/** Component: Prefix */
+static const char PFX[] = "STAT";
+
 static bool cfgEnabled;
 static uint32_t cfgInterval;
 
+static void cfgFix(const struct CFG_Section * sect);
+
 static const struct CFG_Section cfg = {
 	.name = "STATISTICS",
 	.n_opt = 2,
+	.fix = &cfgFix,
 	.options = {
 		{
 			.name = "Enabled",
@@ -67,6 +74,17 @@ const struct Component STAT_comp = {
 
 static void printStatistics(struct Snapshot * lastSnapshot);
 
+/** Configuration: Fix configuration.
+ * @param sect should be &cfg
+ */
+static void cfgFix(const struct CFG_Section * sect)
+{
+	if (cfgInterval < 1) {
+		cfgInterval = 1;
+		LOG_log(LOG_LEVEL_WARN, PFX, "STATISTICS.interval was increased to 1");
+	}
+}
+
 /** Initialize statistics.
  * \return always true
  */
-- 
2.43.0


From abffc6cc4c40d4e31037a339c6fd8cacba74a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 33/38] fix: programs started by the daemon could inherit the
 configuration file just being written

---
 src/util/cfgfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/cfgfile.c b/src/util/cfgfile.c
index 4d975c4..16d8172 100644
--- a/src/util/cfgfile.c
+++ b/src/util/cfgfile.c
@@ -981,7 +981,11 @@ static FILE * openReplacement(const char * filename, char * tmpname,
 		return NULL;
 	}
 
+#ifdef _WIN32
 	FILE * file = fopen(tmpname, "w");
+#else
+	FILE * file = fopen(tmpname, "we"); /* don't leak into child processes */
+#endif
 	if (!file)
 		LOG_errno(LOG_LEVEL_ERROR, PFX, "Could not open configuration file "
 			"'%s' for writing", tmpname);
-- 
2.43.0


From 09e41a5ff1565af475c29ae83d4033251527f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 34/38] fix: configuring the feeder library a second time ended
 the host process

LOGIN_setDeviceType() asserted that it is called only once, but
OpenSky::configure() is documented to set or change the configuration.
---
 src/core/login.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/login.c b/src/core/login.c
index 5d71010..40d41d3 100644
--- a/src/core/login.c
+++ b/src/core/login.c
@@ -57,12 +57,12 @@ bool LOGIN_login()
 	return rc;
 }
 
-/** Set device type. Must be called once, before trying to login
+/** Set device type. Must be called before trying to login. It can be changed
+ * later, which is used from the next login on.
  * @param type device type
  */
 void LOGIN_setDeviceType(enum OPENSKY_DEVICE_TYPE type)
 {
-	assert(deviceType == OPENSKY_DEVICE_TYPE_INVALID);
 	assert(type != OPENSKY_DEVICE_TYPE_INVALID);
 	deviceType = type;
 }
-- 
2.43.0


From ca15888e5c1ff441ff312f8daac61008e6b2d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 35/38] fix: the feeder libraries reported running although
 they could not be initialized or started

The results of COMP_initAll() and COMP_startAll() were ignored: a failed
initialization ran into an assertion with the first frame.
---
 src/gplib/opensky.cc         | 16 ++++++++++++----
 src/radarcape/lib/opensky.cc | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/gplib/opensky.cc b/src/gplib/opensky.cc
index 91c52f4..74faa93 100644
--- a/src/gplib/opensky.cc
+++ b/src/gplib/opensky.cc
@@ -53,6 +53,8 @@ namespace OpenSky {
 /** Component: Prefix */
 static const char PFX[] = "OpenSky";
 
+/** Library state: all components could be initialized */
+static bool initialized = false;
 /** Library state: configure called */
 static bool configured = false;
 /** Library state: currently feeding */
@@ -72,7 +74,7 @@ void init() {
 
 	COMP_setSilent(true);
 
-	COMP_initAll();
+	initialized = COMP_initAll();
 }
 
 void configure(OPENSKY_DEVICE_TYPE deviceType, uint32_t serialNumber) {
@@ -92,14 +94,20 @@ void enable() {
 		return;
 	}
 
+	if (unlikely(!initialized)) {
+		LOG_log(LOG_LEVEL_ERROR, PFX,
+				"Feeder could not be initialized, not enabling");
+		return;
+	}
+
 	FILTER_reset();
 	FILTER_setSynchronized(true);
 	GPS_resetNeedFlag();
 
 	BUF_flush();
-	COMP_startAll();
-
-	running = true;
+	running = COMP_startAll();
+	if (!running)
+		LOG_log(LOG_LEVEL_ERROR, PFX, "Feeder could not be started");
 }
 
 void disable() {
diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index f048306..fe288f0 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -51,6 +51,8 @@ namespace OpenSky {
 /** Component: Prefix */
 static const char PFX[] = "OpenSky";
 
+/** Library state: all components could be initialized */
+static bool initialized = false;
 /** Library state: configure called */
 static bool configured = false;
 /** Library state: currently feeding */
@@ -78,7 +80,7 @@ void init()
 
 	COMP_setSilent(true);
 
-	COMP_initAll();
+	initialized = COMP_initAll();
 }
 
 void configure()
@@ -100,15 +102,21 @@ void enable()
 		return;
 	}
 
+	if (unlikely(!initialized)) {
+		LOG_log(LOG_LEVEL_ERROR, PFX,
+				"Feeder could not be initialized, not enabling");
+		return;
+	}
+
 	FILTER_reset();
 	FILTER_setSynchronized(gpsTimeStatus != GpsTimeInvalid);
 	GPS_resetNeedFlag();
 
 
 	BUF_flush();
-	COMP_startAll();
-
-	running = true;
+	running = COMP_startAll();
+	if (!running)
+		LOG_log(LOG_LEVEL_ERROR, PFX, "Feeder could not be started");
 }
 
 void disable()
-- 
2.43.0


From 9cc301aa3c2b8116418cd74b3b0b079f06410e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:32 +0000
Subject: [PATCH 36/38] fix: enabling an already running feeder library dropped
 its queue

A second enable() flushed the queued frames, reset the filter's
synchronization state and forgot that a position was requested.
---
 src/gplib/opensky.cc         | 4 ++++
 src/radarcape/lib/opensky.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/gplib/opensky.cc b/src/gplib/opensky.cc
index 74faa93..dfb9c41 100644
--- a/src/gplib/opensky.cc
+++ b/src/gplib/opensky.cc
@@ -100,6 +100,10 @@ void enable() {
 		return;
 	}
 
+	/* already enabled: nothing to do, especially keep the queue */
+	if (running)
+		return;
+
 	FILTER_reset();
 	FILTER_setSynchronized(true);
 	GPS_resetNeedFlag();
diff --git a/src/radarcape/lib/opensky.cc b/src/radarcape/lib/opensky.cc
index fe288f0..cf52840 100644
--- a/src/radarcape/lib/opensky.cc
+++ b/src/radarcape/lib/opensky.cc
@@ -108,6 +108,10 @@ void enable()
 		return;
 	}
 
+	/* already enabled: nothing to do, especially keep the queue */
+	if (running)
+		return;
+
 	FILTER_reset();
 	FILTER_setSynchronized(gpsTimeStatus != GpsTimeInvalid);
 	GPS_resetNeedFlag();
-- 
2.43.0


From 74e3e523dd842d42ad0d45dc84eb20e30e43968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:33 +0000
Subject: [PATCH 37/38] fix: the watchdog program crashed if the GPIO
 controllers are not accessible

---
 src/radarcape/wd-main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/radarcape/wd-main.c b/src/radarcape/wd-main.c
index 1ffd6c4..b8fbba4 100644
--- a/src/radarcape/wd-main.c
+++ b/src/radarcape/wd-main.c
@@ -34,7 +34,8 @@ int main(int argc, char * argv[])
 	}
 
 	/* initialize GPIO subsystem */
-	GPIO_comp.onConstruct(NULL);
+	if (!GPIO_comp.onConstruct(NULL))
+		return EXIT_FAILURE;
 
 	/* drop privileges */
 	UTIL_dropPrivileges();
-- 
2.43.0


From 63e3cbcd01a2cc094d7c6f7b32ffb429963cf038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 38/38] fix: the statistics' maximum queue size missed frames
 which had been put back

---
 src/core/buffer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/buffer.c b/src/core/buffer.c
index 0efaedb..8f56c7d 100644
--- a/src/core/buffer.c
+++ b/src/core/buffer.c
@@ -495,6 +495,8 @@ void BUF_putFrame(const struct OPENSKY_RawFrame * frame)
 
 	pthread_mutex_lock(&mutex);
 	LIST_unshift(&queue, LIST_link(currentFrame, list));
+	if (unlikely(LIST_length(&queue) > stats.maxQueueSize))
+		stats.maxQueueSize = LIST_length(&queue);
 	currentFrame = NULL;
 	pthread_mutex_unlock(&mutex);
 }
-- 
2.43.0

