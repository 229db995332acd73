From 0442e4f64c68d46bfed2f88c223c2968526ad5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 01/46] fix: CEvent::addMessage could block forever on a full
 wake-up pipe while holding the lock

The write end was blocking and written under m_lock: once the pipe was full
(65536 undelivered messages, or 4096 with a small pipe) the poster slept with
the lock held and the loop could not take messages any more; a message handler
that posted from the loop thread dead-locked outright.
---
 src/CEvent.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 00fb1e6..27b93c2 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -84,6 +84,14 @@ namespace lce
             return -1;
         }
 
+        // the write end must not block: addMessage holds m_lock while it writes
+        iOpts = fcntl(m_iMsgFd[1], F_GETFL);
+        if (iOpts < 0 || fcntl(m_iMsgFd[1], F_SETFL, iOpts | O_NONBLOCK) < 0)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+            return -1;
+        }
+
         addFdEvent(m_iMsgFd[0], CEvent::EV_READ, NULL, NULL); // 自定义事件通知
 
         m_bInit = true;
@@ -256,10 +264,12 @@ namespace lce
         m_queMsgEvents.push(stMsgEvent);
 
         int iFlag = write(m_iMsgFd[1], "1", 1);
+        int iErrno = errno;
 
         ::pthread_mutex_unlock(&m_lock);
 
-        if (iFlag < 0)
+        // a full pipe already wakes the loop up, which then takes every queued message
+        if (iFlag < 0 && iErrno != EAGAIN)
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addMessage write error", __FILE__, __LINE__);
             return -1;
@@ -337,9 +347,11 @@ namespace lce
 
                             ::pthread_mutex_lock(&m_lock);
 
-                            int iFlag = read(m_iMsgFd[0], szBuf, 1);
+                            // there may be fewer wake-up bytes than messages, never the other way round
+                            if (read(m_iMsgFd[0], szBuf, 1) < 0)
+                                szBuf[0] = 0;
 
-                            if (!m_queMsgEvents.empty() && iFlag > 0)
+                            if (!m_queMsgEvents.empty())
                             {
                                 stMsgEvent = m_queMsgEvents.front();
                                 m_queMsgEvents.pop();
-- 
2.43.0


From bb752310139d32d4b0873a6a8b1a0745bedc4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 02/46] fix: CEvent::run passed timer distances of 2^31 ms and
 more to epoll_wait as negative timeouts

The loop then slept without bound; it also missed stop() until a far timer
expired. Wait at most EPOLL_WAIT_TIMEOUT, as without timers.
---
 src/CEvent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 27b93c2..df1abf5 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -321,7 +321,7 @@ namespace lce
                     else
                     {
                         if (it != m_setStTimeEvents.end() && (it->ddwMillSecs - ddwTimeNow) > 0)
-                            ddwExpire = it->ddwMillSecs - ddwTimeNow;
+                            ddwExpire = std::min<uint64_t>(it->ddwMillSecs - ddwTimeNow, EPOLL_WAIT_TIMEOUT);
                         break;
                     }
                 }
-- 
2.43.0


From e71d8f2d668ee5921e864b036ca461d145f914f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 03/46] fix: CEvent::addFdEvent kept the event type after a
 failed epoll_ctl

The next registration of the same descriptor number then used EPOLL_CTL_MOD on
an unregistered descriptor and failed for ever.
---
 src/CEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index df1abf5..92f08d7 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -111,7 +111,8 @@ namespace lce
 
         stEvent.events = 0;
 
-        int iOP = m_stFdEvents[iWatchFd].iEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
+        int iOldEventType = m_stFdEvents[iWatchFd].iEventType;
+        int iOP = iOldEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
 
         m_stFdEvents[iWatchFd].iEventType = m_stFdEvents[iWatchFd].iEventType | iEventType;
 
@@ -137,6 +138,7 @@ namespace lce
 
         if (epoll_ctl(m_stEPollState.iEPollFd, iOP, iWatchFd, &stEvent) == -1)
         {
+            m_stFdEvents[iWatchFd].iEventType = iOldEventType;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addFdEvent epoll_ctl error", __FILE__, __LINE__);
             return -1;
         }
-- 
2.43.0


From 99e3754cd87396291e72adb4f00ffca15ea45fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 04/46] fix: CEvent delivered events of a closed descriptor to
 the descriptor that reused its number

Events of one epoll_wait batch were dispatched by descriptor number only: when
a handler closed a descriptor and another one with the same number was
registered before the rest of the batch (or the EPOLLOUT half of the same
event) was handled, the new registration got the old event, e.g. a pending
connect was reported as established. Tag registrations with a sequence number.
---
 include/CEvent.h | 11 +++++++++++
 src/CEvent.cpp   | 27 ++++++++++++++++-----------
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 0801ab0..92b77a9 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -48,6 +48,7 @@ namespace lce
         typedef struct
         {
             int iEventType;
+            uint32_t dwSeq; // counts registrations, so that an event of an earlier one is recognised
             HandlerEvent onRead;
             HandlerEvent onWrite;
             void *pClientRData;
@@ -94,6 +95,16 @@ namespace lce
         const char *getErrorMsg() { return m_szErrMsg; }
 
     private:
+        static inline uint64_t makeEventKey(int iFd, uint32_t dwSeq)
+        {
+            return ((uint64_t)dwSeq << 32) | (uint32_t)iFd;
+        }
+
+        inline bool isCurrentEvent(int iFd, uint64_t ddwKey, int iEventType)
+        {
+            return makeEventKey(iFd, m_stFdEvents[iFd].dwSeq) == ddwKey && (m_stFdEvents[iFd].iEventType & iEventType) == iEventType;
+        }
+
         static inline uint64_t getMillSecsNow()
         {
             struct timeval stNow;
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 92f08d7..daa732d 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -58,6 +58,7 @@ namespace lce
         for (int i = 0; i < (int)dwMaxFdNum; i++)
         {
             m_stFdEvents[i].iEventType = EV_DONE;
+            m_stFdEvents[i].dwSeq = 0;
             m_stFdEvents[i].pClientRData = NULL;
             m_stFdEvents[i].pClientWData = NULL;
         }
@@ -121,8 +122,10 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        if (iOP == EPOLL_CTL_ADD)
+            m_stFdEvents[iWatchFd].dwSeq++;
+
+        stEvent.data.u64 = makeEventKey(iWatchFd, m_stFdEvents[iWatchFd].dwSeq);
 
         if (iEventType & EV_READ)
         {
@@ -168,8 +171,7 @@ namespace lce
         if (m_stFdEvents[iWatchFd].iEventType & EV_WRITE)
             stEvent.events |= EPOLLOUT;
 
-        stEvent.data.u64 = 0; /* avoid valgrind warning */
-        stEvent.data.fd = iWatchFd;
+        stEvent.data.u64 = makeEventKey(iWatchFd, m_stFdEvents[iWatchFd].dwSeq);
 
         if (m_stFdEvents[iWatchFd].iEventType != EV_DONE)
         {
@@ -333,12 +335,15 @@ namespace lce
 
             for (int i = 0; i < iEventNum; i++)
             {
+                // a handler may have closed this descriptor and opened another one with its number
+                uint64_t ddwKey = m_stEPollState.stEvents[i].data.u64;
+                int iFd = (int)(uint32_t)ddwKey;
 
                 if ((m_stEPollState.stEvents[i].events & EPOLLIN) ||
                     (m_stEPollState.stEvents[i].events & EPOLLERR) ||
                     (m_stEPollState.stEvents[i].events & EPOLLHUP))
                 {
-                    if (m_stEPollState.stEvents[i].data.fd == m_iMsgFd[0]) // 自定义事件
+                    if (iFd == m_iMsgFd[0]) // 自定义事件
                     {
                         char szBuf[1];
 
@@ -373,17 +378,17 @@ namespace lce
                     }
                     else
                     {
-                        StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
-                        if ((stFdEvent.iEventType & EV_READ) == EV_READ)
-                            stFdEvent.onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                        StFdEvent &stFdEvent = m_stFdEvents[iFd];
+                        if (isCurrentEvent(iFd, ddwKey, EV_READ))
+                            stFdEvent.onRead(iFd, stFdEvent.pClientRData);
                     }
                 }
                 if (m_stEPollState.stEvents[i].events & EPOLLOUT)
                 {
 
-                    StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
-                    if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE)
-                        stFdEvent.onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                    StFdEvent &stFdEvent = m_stFdEvents[iFd];
+                    if (isCurrentEvent(iFd, ddwKey, EV_WRITE))
+                        stFdEvent.onWrite(iFd, stFdEvent.pClientWData);
                 }
             }
         }
-- 
2.43.0


From 19d7d21f4e3684c5e2bb72e85090e678dda33629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 05/46] fix: writing to a connection the peer has reset killed
 the process with SIGPIPE

---
 src/CTcpConnector.cpp | 2 +-
 src/Utils.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 704beaf..93bbad4 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -131,7 +131,7 @@ namespace lce
 		setsockopt(m_iFd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
 		int iSendLen = -1;
-		iSendLen = ::send(m_iFd, pData, iSize, 0);
+		iSendLen = ::send(m_iFd, pData, iSize, MSG_NOSIGNAL);
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1f29a32..c41b093 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -58,7 +58,7 @@ namespace lce
 
     int Send(int iFd, const char *buf, int count)
     {
-        return ::send(iFd, buf, count, 0);
+        return ::send(iFd, buf, count, MSG_NOSIGNAL);
     }
 
     int CreateTcpSock()
-- 
2.43.0


From 349d34b54d5e52cf7a984c518d67d3835c5d0319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 06/46] fix: connection tables were indexed with descriptors
 beyond their size

Descriptors of 1.2 * dwMaxClient and more (other files, sockets or clients of
the process) wrote behind the end of the vector. Refuse them like clients
beyond the maximum.
---
 src/CCommMgr.cpp   |  9 ++++++++-
 src/CNetWorker.cpp | 13 +++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b7004de..861b59f 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -441,7 +441,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum > m_dwMaxClient)
+            if (m_dwClientNum > m_dwMaxClient || iClientSock >= (int)m_vecClients.size())
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
@@ -841,6 +841,13 @@ namespace lce
                 return -1;
             }
 
+            if (iFd >= (int)m_vecClients.size())
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many descriptors", __FILE__, __LINE__);
+                lce::Close(iFd);
+                return -1;
+            }
+
             m_vecClients[iFd].iSrvId = pstServerInfo->iSrvId;
 
             lce::SetReUseAddr(iFd);
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 730d9b5..1f2bb12 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -137,6 +137,14 @@ namespace lce
 				return -1;
 			}
 
+			if (pstClientInfo->iFd >= (int)m_vecClients.size())
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many descriptors", __FILE__, __LINE__);
+				lce::Close(pstClientInfo->iFd);
+				delete pstClientInfo;
+				return -1;
+			}
+
 			lce::SetReUseAddr(pstClientInfo->iFd);
 			lce::SetNoneBlock(pstClientInfo->iFd);
 
@@ -253,6 +261,11 @@ namespace lce
 	{
 		StClientInfo *pstClientInfo = (StClientInfo *)pData;
 
+		if (iFd >= (int)m_vecClients.size())
+		{
+			return -1;
+		}
+
 		if (!m_queConn.enque(pstClientInfo))
 		{
 			return -1;
-- 
2.43.0


From 30a85454ac4dd35540b62d6cde926022e7153738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 07/46] fix: CCommMgr applied writes and closes of a saved
 session to whoever reused its descriptor

A session names a connection by descriptor only. Once the connection has
ended and the kernel has given the descriptor to another client, writing to
or closing the saved session acted on that other client, and onTcpRead went
on using the buffer of a connection that a handler had closed. Connections
now carry an id that sessions are compared with.
---
 include/CCommMgr.h |  3 +++
 include/Define.h   |  2 ++
 src/CCommMgr.cpp   | 37 ++++++++++++++++++++++++++-----------
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 872ef40..fd36c5a 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -41,6 +41,7 @@ namespace lce
             }
             m_dwMaxClient = dwMaxClient;
             m_dwClientNum = 0;
+            m_ddwConnId = 0;
             m_vecClients.resize(dwMaxClient * MAGIC_FD_TIMES);
             return 0;
         }
@@ -95,6 +96,7 @@ namespace lce
         int close(int iFd);
         int write(int iFd);
         inline bool isClose(int iFd);
+        inline bool isClose(const StSession &stSession);
 
         CCommMgr() {}
         CCommMgr &operator=(const CCommMgr &);
@@ -109,6 +111,7 @@ namespace lce
         static CCommMgr *m_pInstance;
         uint32_t m_dwMaxClient;
         uint32_t m_dwClientNum;
+        uint64_t m_ddwConnId;
     };
 };
 
diff --git a/include/Define.h b/include/Define.h
index e2aa5a6..ca98e3f 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -16,6 +16,7 @@ namespace lce
 		void *pData;
 		struct sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId; // identifies the connection, its iFd may be reused; 0: not checked
 		int64_t getDelayTime()
 		{
 			uint64_t ddwCurTime = lce::GetTickCount();
@@ -98,6 +99,7 @@ namespace lce
 		CSocketBuf *pSocketSendBuf;
 		sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId;
 		~StClientInfo()
 		{
 			if (pSocketRecvBuf != NULL)
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 861b59f..fba5846 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -312,6 +312,7 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
@@ -362,8 +363,8 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                if (isClose(iFd))
-                    break;
+                if (isClose(stSession))
+                    return;
 
                 pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
             }
@@ -381,7 +382,7 @@ namespace lce
 
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onClose(stSession);
-            close(iFd);
+            close(stSession);
         }
         else
         {
@@ -390,7 +391,7 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onClose(stSession);
-                close(iFd);
+                close(stSession);
             }
             else if (errno == EAGAIN || errno == EINTR)
             {
@@ -457,6 +458,7 @@ namespace lce
             pstClientInfo->iSrvId = pstServerInfo->iSrvId;
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
+            pstClientInfo->ddwConnId = ++m_ddwConnId;
 
             m_dwClientNum++;
 
@@ -465,11 +467,12 @@ namespace lce
 
             stSession.iFd = iClientSock;
             stSession.stClientAddr = pstClientInfo->stClientAddr;
+            stSession.ddwConnId = pstClientInfo->ddwConnId;
 
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
 
-            if (isClose(iClientSock))
+            if (isClose(stSession))
                 continue;
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -504,13 +507,14 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (error == 0)
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-            if (!isClose(iFd))
+            if (!isClose(stSession))
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
@@ -523,14 +527,14 @@ namespace lce
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, false, pData);
-            close(iFd);
+            close(stSession);
         }
     }
 
     int CCommMgr::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
     {
 
-        if (isClose(stSession.iFd))
+        if (isClose(stSession))
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
             return -1;
@@ -710,6 +714,7 @@ namespace lce
         stSession.stClientAddr = pstClientInfo->stClientAddr;
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
@@ -771,8 +776,11 @@ namespace lce
 
     int CCommMgr::close(const StSession &stSession)
     {
-        int iFd = stSession.iFd;
-        return close(iFd);
+        if (isClose(stSession))
+        {
+            return 0;
+        }
+        return close(stSession.iFd);
     }
 
     int CCommMgr::close(int iFd)
@@ -814,6 +822,11 @@ namespace lce
         return (m_vecClients[iFd].iFd == 0);
     }
 
+    inline bool CCommMgr::isClose(const StSession &stSession)
+    {
+        return isClose(stSession.iFd) || (stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd].ddwConnId);
+    }
+
     int CCommMgr::connect(int iSrvId, const string &sIp, uint16_t wPort, void *pData)
     {
         if (iSrvId < 0 || iSrvId > (int)m_vecServers.size() - 1)
@@ -854,6 +867,7 @@ namespace lce
             lce::SetNoneBlock(iFd);
 
             m_vecClients[iFd].iFd = iFd;
+            m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
@@ -868,11 +882,12 @@ namespace lce
                 stSession.iFd = iFd;
                 stSession.iSvrId = pstServerInfo->iSrvId;
                 stSession.stClientAddr = m_vecClients[iFd].stClientAddr;
+                stSession.ddwConnId = m_vecClients[iFd].ddwConnId;
 
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
-- 
2.43.0


From 0be7f371bd1d0b5286ddc7e454ff5fe6cf88e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 08/46] fix: CNetWorker applied writes and closes of a saved
 session to whoever reused its descriptor

Same as for CCommMgr: connections get an id that sessions carry and are
compared with; onTcpRead also went on with a connection object its handler
had deleted.
---
 include/CNetWorker.h |  6 ++++++
 src/CNetWorker.cpp   | 36 ++++++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/CNetWorker.h b/include/CNetWorker.h
index b22e51f..12c6ec5 100755
--- a/include/CNetWorker.h
+++ b/include/CNetWorker.h
@@ -32,6 +32,7 @@ namespace lce
 		CNetWorker()
 		{
 			m_iEventFd = 0;
+			m_ddwConnId = 0;
 		}
 
 		virtual ~CNetWorker()
@@ -106,6 +107,10 @@ namespace lce
 		{
 			return (m_vecClients[iFd] == NULL);
 		}
+		inline bool isClose(const StSession &stSession)
+		{
+			return isClose(stSession.iFd) || (stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd]->ddwConnId);
+		}
 		int close(int iFd);
 		int write(int iFd);
 
@@ -123,6 +128,7 @@ namespace lce
 		map<uint32_t, StServerInfo *> m_mapServers;
 		CCircleQueue<StClientInfo *> m_queConn;
 		int m_iEventFd;
+		uint64_t m_ddwConnId;
 	};
 };
 
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 1f2bb12..0d81178 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -128,6 +128,7 @@ namespace lce
 			pstClientInfo->iFd = lce::CreateTcpSock();
 			pstClientInfo->pstServerInfo = pstServerInfo;
 			pstClientInfo->ddwBeginTime = lce::GetTickCount();
+			pstClientInfo->ddwConnId = ++m_ddwConnId;
 
 			if (pstClientInfo->iFd < 0)
 			{
@@ -162,15 +163,16 @@ namespace lce
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
-				return pstClientInfo->iFd;
+				return stSession.iFd;
 			}
 			else
 			{
@@ -229,12 +231,13 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (error == 0)
 		{
 			onConnect(stSession, true, pData);
 
-			if (!isClose(iFd))
+			if (!isClose(stSession))
 			{
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -248,7 +251,7 @@ namespace lce
 		else
 		{
 			onConnect(stSession, false, pData);
-			close(iFd);
+			close(stSession);
 		}
 	}
 
@@ -300,16 +303,18 @@ namespace lce
 			if (pstClientInfo != NULL)
 			{
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
+				pstClientInfo->ddwConnId = ++m_ddwConnId;
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
 				stSession.iFd = iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -325,6 +330,11 @@ namespace lce
 	void CNetWorker::onTcpRead(int iFd, void *pData)
 	{
 
+		if (isClose(iFd))
+		{
+			return;
+		}
+
 		StClientInfo *pstClientInfo = m_vecClients[iFd];
 
 		StSession stSession;
@@ -332,6 +342,7 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (pstClientInfo->pSocketRecvBuf == NULL)
 		{
@@ -376,8 +387,8 @@ namespace lce
 			while ((iWholePkgFlag = pstClientInfo->pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
 			{
 				onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-				if (isClose(iFd))
-					break;
+				if (isClose(stSession))
+					return;
 				pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
 			}
 			if (-2 == iWholePkgFlag) // �Ƿ����ݰ�
@@ -390,14 +401,14 @@ namespace lce
 		else if (iSize == 0)
 		{
 			onClose(stSession);
-			close(iFd);
+			close(stSession);
 		}
 		else
 		{
 			if (errno == 104) // Connection reset by peer
 			{
 				onClose(stSession);
-				close(iFd);
+				close(stSession);
 			}
 			else if (errno == EAGAIN || errno == EINTR) // ��������������IO��������������ر�����
 			{
@@ -415,6 +426,10 @@ namespace lce
 
 	int CNetWorker::close(const StSession &stSession)
 	{
+		if (isClose(stSession))
+		{
+			return 0;
+		}
 		return close(stSession.iFd);
 	}
 
@@ -433,7 +448,7 @@ namespace lce
 	int CNetWorker::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
 	{
 
-		if (isClose(stSession.iFd))
+		if (isClose(stSession))
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
 			return -1;
@@ -609,6 +624,7 @@ namespace lce
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		int iSendBufSize = pstClientInfo->pSocketSendBuf->getSize();
 
-- 
2.43.0


From ae6a44b5376958e5b1814d7183c842dc58cc8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 09/46] fix: CNetWorker reported accepted clients with the
 session of its own eventfd

onConnect got a session whose descriptor was the worker's eventfd, so that
writing or closing through it failed or hit another slot; a failing
registration closed that slot instead of the client. The client counter that
picks the worker was never initialised.
---
 include/CNetWorkerMgr.h | 1 +
 src/CNetWorker.cpp      | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 0ac2043..3a8034e 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -78,6 +78,7 @@ namespace lce
 		}
 
 		m_dwMaxClient = dwMaxClient;
+		m_dwClientNum = 0;
 		m_pErrHandler = NULL;
 
 		for (int i = 0; i < dwThreadNum; i++)
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 0d81178..cab538f 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -307,7 +307,7 @@ namespace lce
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
-				stSession.iFd = iFd;
+				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 				stSession.ddwConnId = pstClientInfo->ddwConnId;
@@ -319,7 +319,7 @@ namespace lce
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
-					close(iFd);
+					close(stSession);
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
 					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
 				}
-- 
2.43.0


From 70c5a4c60aba83cf008e508099d29fdf896a2c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 10/46] fix: a connection whose connect() completed at once was
 never read from

Neither CCommMgr nor CNetWorker registered such a descriptor for reading, so
the peer's data and its closing were never reported.
---
 src/CCommMgr.cpp   | 9 +++++++++
 src/CNetWorker.cpp | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index fba5846..7fab6e3 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -892,6 +892,15 @@ namespace lce
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
                 }
+
+                if (m_oCEvent.addFdEvent(iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), &m_vecClients[iFd]) != 0)
+                {
+                    close(stSession);
+                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error:%s", __FILE__, __LINE__, m_oCEvent.getErrorMsg());
+                    if (pstServerInfo->pProcessor != NULL)
+                        pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_SOCKET);
+                    return -1;
+                }
                 return iFd;
             }
             else
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index cab538f..2a0e72b 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -172,6 +172,14 @@ namespace lce
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
+
+				if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
+				{
+					close(stSession);
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
+					return -1;
+				}
 				return stSession.iFd;
 			}
 			else
-- 
2.43.0


From 719e67789e8bf8380fcb84bbfdbf0a33f4f47af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 11/46] fix: CCommMgr kept a connection it could not register
 with the event loop

An accepted descriptor was closed while its slot stayed in use and counted,
an outgoing one stayed open unread for ever.
---
 src/CCommMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 7fab6e3..adf744e 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -477,9 +477,9 @@ namespace lce
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
             {
+                close(stSession);
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
-                lce::Close(iClientSock);
                 continue;
             }
         }
@@ -518,6 +518,7 @@ namespace lce
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
+                    close(stSession);
                     if (pstServerInfo->pProcessor != NULL)
                         pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
                 }
-- 
2.43.0


From cc36c542b4e26201e24b10e5c07fd1ba2a40f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 12/46] fix: CCommMgr::rmSrv left the connections of the
 removed server behind

They kept pointing at the freed server description, as did onAccept and
onUdpRead when a handler removed the server they were working for, and the
datagram buffer stayed attached to a descriptor number that a TCP client
could get next.
---
 src/CCommMgr.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index adf744e..34226f2 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -273,6 +273,9 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
+                if (m_vecServers[stSession.iSvrId] == NULL) // removed by the handler
+                    return;
+
                 pstClientInfo->pSocketRecvBuf->reset();
                 break;
             }
@@ -450,6 +453,9 @@ namespace lce
                     pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_MAX_CLIENT);
 
                 lce::Close(iClientSock);
+
+                if (m_vecServers[stSession.iSvrId] == NULL) // removed by the handler
+                    return;
                 continue;
             }
 
@@ -472,6 +478,9 @@ namespace lce
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
 
+            if (m_vecServers[stSession.iSvrId] == NULL) // removed by the handler
+                return;
+
             if (isClose(stSession))
                 continue;
 
@@ -480,6 +489,9 @@ namespace lce
                 close(stSession);
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
+
+                if (m_vecServers[stSession.iSvrId] == NULL) // removed by the handler
+                    return;
                 continue;
             }
         }
@@ -1007,9 +1019,22 @@ namespace lce
             return -1;
         }
 
+        // its connections refer to pstServerInfo
+        for (size_t i = 0; i < m_vecClients.size(); i++)
+        {
+            if (m_vecClients[i].iFd != 0 && m_vecClients[i].iSrvId == iSrvId)
+                close(m_vecClients[i].iFd);
+        }
+
         if (pstServerInfo->iFd > 0)
         {
             m_oCEvent.delFdEvent(pstServerInfo->iFd, CEvent::EV_READ | CEvent::EV_WRITE);
+
+            if (pstServerInfo->iType == SRV_UDP)
+            {
+                delete m_vecClients[pstServerInfo->iFd].pSocketRecvBuf;
+                m_vecClients[pstServerInfo->iFd].pSocketRecvBuf = NULL;
+            }
             lce::Close(pstServerInfo->iFd);
         }
 
-- 
2.43.0


From df05329288ac11717ce6f5bb33e158a7487f0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 13/46] fix: CHttpPackageFilter looked for the header beyond
 the received bytes

The receive buffer is not terminated, so a header end, or a length, could be
found in whatever follows it; an incomplete header was only held back because
of what strstr() of a null pointer happened to give, and a negative or huge
Content-Length made a package of a wrong or negative size.
---
 include/CHttpPackageFilter.h | 97 ++++++++++++------------------------
 1 file changed, 32 insertions(+), 65 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 47f2f20..718a740 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,12 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <ctype.h>
+#include <limits.h>
+#include <stdlib.h>
+#include <string.h>
+#include "CPackageFilter.h"
+
 namespace lce
 {
 	class CHttpPackageFilter : public CPackageFilter
@@ -14,81 +20,42 @@ namespace lce
 		// return value: -2 invalid pkt, -1 pkt haven't received whole pkt, 0 normal
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
 		{
-			int iRe = -1;
-			const char *pFirstLine = ::strstr(pszData, "\r\n");
-			if (NULL != pFirstLine)
-			{
-				const char *pEnd = ::strstr(pszData, "\r\n\r\n") + sizeof("\r\n\r\n") - 1;
-				if (NULL != pEnd)
-				{
+			// pszData is not terminated: look at its iDataSize bytes only
+			const char *pEnd = find(pszData, iDataSize, "\r\n\r\n");
+			if (NULL == pEnd)
+				return -1;
 
-					bool bRecvData = false;
-					const char *pHTTP = ::strstr(pszData, "HTTP");
-					if (pHTTP == pszData)
-					{
-						bRecvData = true;
-					}
+			int iHeadLen = (int)(pEnd - pszData) + sizeof("\r\n\r\n") - 1;
+			long long llHTMLLen = iHeadLen;
 
-					int iHeadLen = (int)(pEnd - pszData);
-					int iHTMLLen = iHeadLen;
+			const char *pContentLenPos = find(pszData, iHeadLen, "Content-Length: ");
+			if (NULL != pContentLenPos)
+			{
+				pContentLenPos += sizeof("Content-Length: ") - 1;
+				pContentLenPos += strspn(pContentLenPos, " \t");
+				long long llContentLen = isspace(*pContentLenPos) ? 0 : strtoll(pContentLenPos, NULL, 10);
+				if (llContentLen < 0 || llContentLen > INT_MAX - iHeadLen)
+					return -2;
+				llHTMLLen += llContentLen;
+			}
 
-					if (bRecvData)
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
+			if (llHTMLLen > iDataSize)
+				return -1;
 
-							if (iHTMLLen <= iDataSize && iHTMLLen > iHeadLen)
-							{
-								iRealPkgLen = iPkgLen = iHTMLLen;
-								iRe = 0;
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
-					else
-					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
-						if (NULL != pContentLenPos)
-						{
-							if (pEnd > pContentLenPos)
-							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
-								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
-								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
-									iHTMLLen += iContentLen;
-								}
-							}
-						}
-						if (iHTMLLen <= iDataSize && iHTMLLen > 0)
-						{
-							iRealPkgLen = iPkgLen = iHTMLLen;
-							iRe = 0;
-						}
-					}
-				}
-			}
-			return iRe;
+			iRealPkgLen = iPkgLen = (int)llHTMLLen;
+			return 0;
 		}
 
 		const char *getRealPkgData(const char *pszData, const int iDataSize)
 		{
 			return pszData;
 		}
+
+	private:
+		static const char *find(const char *pszData, const int iDataSize, const char *pszWhat)
+		{
+			return (const char *)::memmem(pszData, iDataSize, pszWhat, strlen(pszWhat));
+		}
 	};
 
 };
-- 
2.43.0


From e3432ced596ab6621884ead1786ad99c74acef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 14/46] fix: CEvent::run waited too long after slow timer
 handlers

---
 src/CEvent.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index daa732d..3d4413d 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -324,8 +324,9 @@ namespace lce
                     }
                     else
                     {
-                        if (it != m_setStTimeEvents.end() && (it->ddwMillSecs - ddwTimeNow) > 0)
-                            ddwExpire = std::min<uint64_t>(it->ddwMillSecs - ddwTimeNow, EPOLL_WAIT_TIMEOUT);
+                        // the handlers called above may have taken a while
+                        ddwTimeNow = CEvent::getMillSecsNow();
+                        ddwExpire = it->ddwMillSecs > ddwTimeNow ? std::min<uint64_t>(it->ddwMillSecs - ddwTimeNow, EPOLL_WAIT_TIMEOUT) : 0;
                         break;
                     }
                 }
-- 
2.43.0


From aafe3f68744451ad9d508b139c094000081a8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 15/46] fix: CEvent fired a timer early when a handler before
 it ran across a clock set back

---
 src/CEvent.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 3d4413d..07c5c8a 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -321,6 +321,9 @@ namespace lce
                         m_setStTimeEvents.erase(it);
 
                         onTimer(iTimerId, pClientData);
+
+                        // if the clock was set back meanwhile, timers added since are not due yet
+                        ddwTimeNow = std::min(ddwTimeNow, CEvent::getMillSecsNow());
                     }
                     else
                     {
-- 
2.43.0


From d9d8e257b322d4594165c648145bec299428e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 16/46] fix: stopping a CTask pool cancelled threads that held
 its lock or were executing a task

---
 include/CTask.h | 21 ++++++++++-----------
 src/CTask.cpp   | 45 +++++++++++++++++++++++++++++++++++++++++----
 src/CThread.cpp | 10 ++++++++--
 3 files changed, 59 insertions(+), 17 deletions(-)

diff --git a/include/CTask.h b/include/CTask.h
index 1366d8b..f7713a7 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -45,30 +45,27 @@ namespace lce
 
             int run()
             {
-                while (!isStoped())
+                while (true)
                 {
                     STaskInfo stTaskInfo;
-                    bool bHaveTask = false;
 
                     pthread_mutex_lock(&m_pTask->m_lock);
 
-                    if (m_pTask->m_queTaskQueue.empty())
+                    while (m_pTask->m_queTaskQueue.empty() && !m_pTask->m_bStop)
                     {
                         pthread_cond_wait(&m_pTask->m_cond, &m_pTask->m_lock); // 线程睡眠等待
                     }
-                    else
+                    if (m_pTask->m_bStop)
                     {
-                        stTaskInfo = m_pTask->m_queTaskQueue.front();
-                        m_pTask->m_queTaskQueue.pop();
-                        bHaveTask = true;
+                        pthread_mutex_unlock(&m_pTask->m_lock);
+                        break;
                     }
+                    stTaskInfo = m_pTask->m_queTaskQueue.front();
+                    m_pTask->m_queTaskQueue.pop();
 
                     pthread_mutex_unlock(&m_pTask->m_lock);
 
-                    if (bHaveTask)
-                    {
-                        m_pTask->onWork(stTaskInfo.iTaskType, stTaskInfo.pData, m_iIndex);
-                    }
+                    m_pTask->onWork(stTaskInfo.iTaskType, stTaskInfo.pData, m_iIndex);
                 }
                 return 0;
             }
@@ -96,6 +93,8 @@ namespace lce
         queue<STaskInfo> m_queTaskQueue;
         char m_szErrMsg[1024];
         int m_iMaxSize;
+        bool m_bStop;               // guarded by m_lock
+        pthread_mutex_t m_joinLock; // only one caller may join the threads
     };
 
 };
diff --git a/src/CTask.cpp b/src/CTask.cpp
index bf5aa51..9dd6f60 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -8,6 +8,8 @@ namespace lce
         m_iMaxSize = iMaxSize;
         pthread_mutex_init(&m_lock, 0);
         pthread_cond_init(&m_cond, 0);
+        pthread_mutex_init(&m_joinLock, 0);
+        m_bStop = false;
 
         for (int i = 0; i < m_iThreadNum; i++)
         {
@@ -20,20 +22,53 @@ namespace lce
 
     int CTask::run()
     {
-        for (int i = 0; i < m_iThreadNum; i++)
+        pthread_mutex_lock(&m_lock);
+        bool bStoped = m_bStop;
+        pthread_mutex_unlock(&m_lock);
+
+        if (bStoped)
+        {
+            stop(); // the former threads may still be on their way out
+        }
+
+        pthread_mutex_lock(&m_lock);
+        m_bStop = false;
+        pthread_mutex_unlock(&m_lock);
+
+        for (size_t i = 0; i < m_vecTaskThreads.size(); i++)
         {
             m_vecTaskThreads[i]->start();
-            m_vecTaskThreads[i]->detach();
         }
         return 0;
     }
 
+    // Lets the tasks in progress finish and waits for the threads to end, unless called by one of them.
     int CTask::stop()
     {
-        for (int i = 0; i < m_iThreadNum; i++)
+        if (m_vecTaskThreads.empty())
+        {
+            return 0;
+        }
+
+        pthread_mutex_lock(&m_lock);
+        m_bStop = true;
+        pthread_mutex_unlock(&m_lock);
+        pthread_cond_broadcast(&m_cond);
+
+        for (size_t i = 0; i < m_vecTaskThreads.size(); i++)
+        {
+            if (m_vecTaskThreads[i]->getId() > 0 && pthread_equal(m_vecTaskThreads[i]->getId(), pthread_self()))
+            {
+                return 0;
+            }
+        }
+
+        pthread_mutex_lock(&m_joinLock);
+        for (size_t i = 0; i < m_vecTaskThreads.size(); i++)
         {
-            m_vecTaskThreads[i]->stop();
+            m_vecTaskThreads[i]->join();
         }
+        pthread_mutex_unlock(&m_joinLock);
         return 0;
     }
 
@@ -60,6 +95,8 @@ namespace lce
 
     CTask::~CTask()
     {
+        stop();
+        pthread_mutex_destroy(&m_joinLock);
         pthread_mutex_destroy(&m_lock);
         pthread_cond_destroy(&m_cond);
 
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 81950de..b3c13c4 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -25,12 +25,13 @@ namespace lce
         sigaddset(&signal_mask, SIGPIPE);
         pthread_sigmask(SIG_BLOCK, &signal_mask, NULL);
 
+        m_iStop = 0;
         if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
         {
+            m_iId = 0;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
             return -1;
         }
-        m_iStop = 0;
 
         return 0;
     }
@@ -49,7 +50,12 @@ namespace lce
     {
         if (m_iId > 0)
         {
-            return pthread_join(m_iId, NULL);
+            int iRet = pthread_join(m_iId, NULL);
+            if (iRet == 0)
+            {
+                m_iId = 0; // the id must not be used any more
+            }
+            return iRet;
         }
 
         return 0;
-- 
2.43.0


From ad49b979e0090f757a206494a11e5966868fa028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 17/46] fix: worker pools leaked refused requests, passed
 undecodable HTTP requests on and lost answers that could not be sent

---
 include/CAnyWorkerPool.h  | 11 +++++++++--
 include/CHttpWorkerPool.h | 16 +++++++++++++---
 include/CRawWorkerPool.h  | 11 +++++++++--
 3 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index afcc651..4bd7b76 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -42,13 +42,14 @@ namespace lce
     template <class T>
     CAnyWorkerPool<T>::~CAnyWorkerPool()
     {
+        stop(); // the threads use the workers
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
         }
     }
     template <class T>
-    CAnyWorkerPool<T>::CAnyWorkerPool()
+    CAnyWorkerPool<T>::CAnyWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
@@ -72,7 +73,11 @@ namespace lce
     void CAnyWorkerPool<T>::onMessage(int iMsgType, void *pData)
     {
         CAnyResponse *poResponse = (CAnyResponse *)pData;
-        CCommMgr::getInstance().write(poResponse->getSession(), poResponse->getWriter().data(), poResponse->getWriter().size(), poResponse->getCloseFlag());
+        if (CCommMgr::getInstance().write(poResponse->getSession(), poResponse->getWriter().data(), poResponse->getWriter().size(), poResponse->getCloseFlag()) < 0)
+        {
+            if (m_pErrHandler != NULL)
+                m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+        }
         delete poResponse;
         poResponse = NULL;
     }
@@ -96,6 +101,8 @@ namespace lce
 
             if (dispatch(0, poRequest) < 0)
             {
+                delete poRequest;
+                poRequest = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
             }
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index b09626e..f8f38bb 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -42,13 +42,14 @@ namespace lce
     template <class T>
     CHttpWorkerPool<T>::~CHttpWorkerPool()
     {
+        stop(); // the threads use the workers
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
         }
     }
     template <class T>
-    CHttpWorkerPool<T>::CHttpWorkerPool()
+    CHttpWorkerPool<T>::CHttpWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
@@ -72,7 +73,11 @@ namespace lce
     void CHttpWorkerPool<T>::onMessage(int iMsgType, void *pData)
     {
         CHttpResponse *poResponse = (CHttpResponse *)pData;
-        CCommMgr::getInstance().write(poResponse->getSession(), poResponse->getWriter().data(), poResponse->getWriter().size(), poResponse->getCloseFlag());
+        if (CCommMgr::getInstance().write(poResponse->getSession(), poResponse->getWriter().data(), poResponse->getWriter().size(), poResponse->getCloseFlag()) < 0)
+        {
+            if (m_pErrHandler != NULL)
+                m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+        }
         delete poResponse;
         poResponse = NULL;
     }
@@ -92,10 +97,15 @@ namespace lce
         {
             poRequest = new CHttpRequest;
             poRequest->setSession(stSession);
-            poRequest->getReader().setData(pszData, iSize);
+            if (!poRequest->getReader().setData(pszData, iSize))
+            {
+                throw runtime_error(poRequest->getReader().getErrMsg());
+            }
 
             if (dispatch(0, poRequest) < 0)
             {
+                delete poRequest;
+                poRequest = NULL;
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
             }
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 7792766..241a4bd 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -42,13 +42,14 @@ namespace lce
     template <class T>
     CRawWorkerPool<T>::~CRawWorkerPool()
     {
+        stop(); // the threads use the workers
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
         }
     }
     template <class T>
-    CRawWorkerPool<T>::CRawWorkerPool()
+    CRawWorkerPool<T>::CRawWorkerPool() : m_pErrHandler(NULL)
     {
     }
 
@@ -72,7 +73,11 @@ namespace lce
     void CRawWorkerPool<T>::onMessage(int iMsgType, void *pData)
     {
         CRawResponse *pstResponse = (CRawResponse *)pData;
-        CCommMgr::getInstance().write(pstResponse->getSession(), pstResponse->getWriter().data(), pstResponse->getWriter().size(), pstResponse->getCloseFlag());
+        if (CCommMgr::getInstance().write(pstResponse->getSession(), pstResponse->getWriter().data(), pstResponse->getWriter().size(), pstResponse->getCloseFlag()) < 0)
+        {
+            if (m_pErrHandler != NULL)
+                m_pErrHandler(CCommMgr::getInstance().getErrMsg());
+        }
         delete pstResponse;
         pstResponse = NULL;
     }
@@ -92,6 +97,8 @@ namespace lce
         pstRequest->getReader().assign(pszData, iSize);
         if (dispatch(0, pstRequest) < 0)
         {
+            delete pstRequest;
+            pstRequest = NULL;
             if (m_pErrHandler != NULL)
                 m_pErrHandler("task queue full");
         }
-- 
2.43.0


From 8445755d0aed8c1fead09d734ac6ef2c6f3e1060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 18/46] fix: decoding a binary package read beyond its end,
 allocated by untrusted counts and confused types of repeated keys

---
 include/CAnyValue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4cb503d..8bbae12 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1167,6 +1167,7 @@ namespace lce
             check(dwDecodePos + 4, dwDataSize);
             uint32_t dwSize = ntohl(*(uint32_t *)(pData + dwDecodePos));
             dwDecodePos += 4;
+            check(dwDecodePos + dwSize, dwDataSize); // every element takes at least one byte
             thisobj.m_value.vec->resize(dwSize);
 
             for (uint32_t i = 0; i < dwSize; ++i)
@@ -1796,6 +1797,7 @@ namespace lce
 
             };
             check(dwDecodePos + 1, dwDataSize);
+            clear(); // a repeated map key decodes into the same value again
             m_ucSubType = *(pData + dwDecodePos);
             dwDecodePos++;
 
@@ -2057,7 +2059,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decode(pData + dwPos, dwDataSize);
+            m_oAnyValues.decode(pData + dwPos, dwDataSize - dwPos);
         }
 
         void decodeJSON(const unsigned char *pData, const size_t dwDataSize)
@@ -2080,7 +2082,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize);
+            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize - dwPos);
         }
 
         const char *data()
-- 
2.43.0


From 19dafd17bdfb845b45fbe6aa502688513341d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 19/46] fix: a later write without close cancelled a pending
 close-after-write

write(..., bClose = true) whose data is still buffered promised to close once
everything was sent; any later write with bClose = false before that reset
the flag, and a write that drained the buffer inline ignored it.
---
 src/CCommMgr.cpp   | 9 ++++++---
 src/CNetWorker.cpp | 7 ++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 34226f2..0c4d4ec 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -465,6 +465,7 @@ namespace lce
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
             pstClientInfo->ddwConnId = ++m_ddwConnId;
+            pstClientInfo->bNeedClose = false;
 
             m_dwClientNum++;
 
@@ -557,7 +558,8 @@ namespace lce
 
         StServerInfo *pstServerInfo = m_vecServers[stSession.iSvrId];
 
-        pstClientInfo->bNeedClose = bClose;
+        if (bClose)
+            pstClientInfo->bNeedClose = true; // a later write does not take back the request to close
         int iSendBufSize = 0;
         int iSendSize = 0;
 
@@ -588,7 +590,7 @@ namespace lce
                 }
                 else
                 {
-                    if (bClose)
+                    if (pstClientInfo->bNeedClose)
                     {
                         close(stSession.iFd);
                     }
@@ -679,7 +681,7 @@ namespace lce
                     }
                     else
                     {
-                        if (bClose)
+                        if (pstClientInfo->bNeedClose)
                         {
                             close(stSession.iFd);
                         }
@@ -881,6 +883,7 @@ namespace lce
 
             m_vecClients[iFd].iFd = iFd;
             m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
+            m_vecClients[iFd].bNeedClose = false;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 2a0e72b..1d4cc09 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -466,7 +466,8 @@ namespace lce
 
 		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;
 
-		pstClientInfo->bNeedClose = bClose;
+		if (bClose)
+			pstClientInfo->bNeedClose = true; // a later write does not take back the request to close
 		int iSendBufSize = 0;
 		int iSendSize = 0;
 
@@ -495,7 +496,7 @@ namespace lce
 				}
 				else
 				{
-					if (bClose)
+					if (pstClientInfo->bNeedClose)
 					{
 						close(stSession.iFd);
 					}
@@ -584,7 +585,7 @@ namespace lce
 					}
 					else
 					{
-						if (bClose)
+						if (pstClientInfo->bNeedClose)
 						{
 							close(stSession.iFd);
 						}
-- 
2.43.0


From 7d0b69f21a91ab597c3d6caaa9b714f169e22021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 20/46] fix: CBlockQueue pop() corrupted its lock, timed pop
 ignored its timeout, front() named the wrong element

pop() unlocked the mutex after waiting and waited again without it; the timed
pop waited until the start of a second plus microseconds taken for nanoseconds,
and gave up when woken without an element; front() returned the element popped
last; clear() made room without waking blocked pushes.
---
 include/CBlockQueue.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 89199ad..966390e 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -38,6 +38,7 @@ namespace lce
             m_dwFront = -1;
             m_dwBack = -1;
             pthread_mutex_unlock(m_mutex);
+            pthread_cond_broadcast(m_cond);
         }
 
         ~CBlockQueue()
@@ -88,7 +89,7 @@ namespace lce
                 pthread_mutex_unlock(m_mutex);
                 return false;
             }
-            value = m_pData[m_dwFront];
+            value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
             pthread_mutex_unlock(m_mutex);
             return true;
         }
@@ -155,7 +156,6 @@ namespace lce
                 if (m_dwSize <= 0)
                 {
                     pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
                     continue;
                 }
                 else
@@ -177,16 +177,21 @@ namespace lce
             struct timespec t = {0, 0};
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
+            if (timeout < 0)
+                timeout = 0;
+            t.tv_sec = now.tv_sec + timeout / 1000;
+            t.tv_nsec = now.tv_usec * 1000L + (timeout % 1000) * 1000000L;
+            if (t.tv_nsec >= 1000000000L)
+            {
+                t.tv_sec++;
+                t.tv_nsec -= 1000000000L;
+            }
             pthread_mutex_lock(m_mutex);
-            if (m_dwSize <= 0)
+            while (m_dwSize <= 0)
             {
-                t.tv_sec = now.tv_sec + timeout / 1000;
-                t.tv_nsec = (timeout % 1000) * 1000;
+                // woken without an element, or another thread took it: wait on
                 if (0 != pthread_cond_timedwait(m_cond, m_mutex, &t))
-                {
-                    pthread_mutex_unlock(m_mutex);
-                    return false;
-                }
+                    break;
             }
 
             if (m_dwSize <= 0)
-- 
2.43.0


From c78ab2d3a5cb5c0662a147617ccf16c1d0dd7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 21/46] fix: CLruCache ignored its capacity and used freed
 memory after evicting every entry

The constructor always took 10000; evicting the last entry left the list head
pointing to it; a clock set back made entries expire at once; getSize() read
the map without the lock.
---
 include/CLruCache.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index b8e3d57..60f0fbb 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -37,7 +37,7 @@ namespace lce
 
         CLruCache(size_t dwMaxSize = 10000)
         {
-            m_dwMaxSize = 10000;
+            m_dwMaxSize = dwMaxSize;
             m_dwSize = 0;
             pstHead = NULL;
             pstTail = NULL;
@@ -48,7 +48,11 @@ namespace lce
             clearList();
         }
 
-        size_t getSize() { return m_mapCache.size(); }
+        size_t getSize()
+        {
+            CAutoLock lock(m_oMutex);
+            return m_mapCache.size();
+        }
         size_t getMaxSize() { return m_dwMaxSize; }
 
     private:
@@ -81,6 +85,8 @@ namespace lce
 
             if (pstTail != NULL)
                 pstTail->next = NULL;
+            else
+                pstHead = NULL;
 
             m_dwSize--;
 
@@ -198,7 +204,8 @@ namespace lce
                 if (it->second->dwExpireTime != 0)
                 {
                     uint32_t dwNow = time(0);
-                    if (dwNow - it->second->dwCTime > it->second->dwExpireTime)
+                    // the clock may have been set back since
+                    if (dwNow > it->second->dwCTime && dwNow - it->second->dwCTime > it->second->dwExpireTime)
                     {
                         removeFromList(it->second, true);
                         m_mapCache.erase(tKey);
-- 
2.43.0


From f3d17500da0ebe159ceaa3d062e64ac5e20629d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 22/46] fix: Condition's timed wait returned at once

The deadline was taken from the monotonic clock and given to a condition on the
realtime clock, and its nanoseconds could exceed a second.
---
 include/CLock.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/CLock.h b/include/CLock.h
index 4e13eb2..8b113f0 100644
--- a/include/CLock.h
+++ b/include/CLock.h
@@ -110,7 +110,15 @@ namespace lce
 		Condition &operator=(const Condition &);
 
 	public:
-		Condition() { ::pthread_cond_init(&m_sect, NULL); }
+		Condition()
+		{
+			// timed waits count on the monotonic clock
+			pthread_condattr_t attr;
+			::pthread_condattr_init(&attr);
+			::pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+			::pthread_cond_init(&m_sect, &attr);
+			::pthread_condattr_destroy(&attr);
+		}
 		~Condition() { ::pthread_cond_destroy(&m_sect); }
 		bool signal() { return 0 == ::pthread_cond_signal(&m_sect); }
 		bool broadcast() { return 0 == ::pthread_cond_broadcast(&m_sect); }
@@ -119,8 +127,15 @@ namespace lce
 		{
 			struct timespec tv;
 			clock_gettime(CLOCK_MONOTONIC, &tv);
+			if (iWaitTime < 0)
+				iWaitTime = 0;
 			tv.tv_sec += iWaitTime / 1000;
-			tv.tv_nsec += (iWaitTime % 1000) * 1000000;
+			tv.tv_nsec += (iWaitTime % 1000) * 1000000L;
+			if (tv.tv_nsec >= 1000000000L)
+			{
+				tv.tv_sec++;
+				tv.tv_nsec -= 1000000000L;
+			}
 
 			return 0 == ::pthread_cond_timedwait(&m_sect, &m.m_lock, &tv);
 		}
-- 
2.43.0


From c22809c2d952ae2bb22c4379f135e67277c3ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:43 +0000
Subject: [PATCH 23/46] fix: shared bitmaps and arrays wrote outside their
 slots, ignored the key on re-init, and served failed or half-made segments

---
 include/CBitMap.h   | 186 +++++++++++++++++++++++---------------------
 include/CShm.h      |   7 +-
 include/CShmArray.h |  23 ++++--
 3 files changed, 121 insertions(+), 95 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8c89402..0e4275b 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -21,22 +21,19 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = (dwBitmapSize + 7) / 8 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -57,15 +54,18 @@ namespace lce
 			else
 			{
 				m_pHead = (SHead *)m_oShm.getShmBuf();
+				if (m_pHead->dwShmSize == 0 && !bReadOnly)
+					m_pHead->dwShmSize = dwShmSize; // its creation did not complete
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
 		bool get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -82,7 +82,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f};
 			char cFlag = bVal ? 1 : 0;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -123,22 +123,19 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 2 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -159,15 +156,18 @@ namespace lce
 			else
 			{
 				m_pHead = (SHead *)m_oShm.getShmBuf();
+				if (m_pHead->dwShmSize == 0 && !bReadOnly)
+					m_pHead->dwShmSize = dwShmSize; // its creation did not complete
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -182,9 +182,9 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0x3;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -223,22 +223,19 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 3 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -259,21 +256,25 @@ namespace lce
 			else
 			{
 				m_pHead = (SHead *)m_oShm.getShmBuf();
+				if (m_pHead->dwShmSize == 0 && !bReadOnly)
+					m_pHead->dwShmSize = dwShmSize; // its creation did not complete
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) >> (dwIndex % 8 * 3);
-			dwTmpValue = dwTmpValue & 0x7;
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwTmpValue = (dwTmpValue >> (dwIndex % 8 * 3)) & 0x7;
 			return dwTmpValue;
 		}
 
@@ -281,9 +282,9 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x7;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -292,8 +293,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 3);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) |= dwFlag;				   //
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwTmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwTmpValue |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 3, &dwTmpValue, 3);
 
 			return true;
 		}
@@ -322,22 +326,19 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 4 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -358,15 +359,18 @@ namespace lce
 			else
 			{
 				m_pHead = (SHead *)m_oShm.getShmBuf();
+				if (m_pHead->dwShmSize == 0 && !bReadOnly)
+					m_pHead->dwShmSize = dwShmSize; // its creation did not complete
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -381,9 +385,9 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
-			unsigned long ucFlag = ucVal;
+			unsigned long ucFlag = ucVal & 0x0F;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -422,22 +426,19 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 5 + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -458,21 +459,25 @@ namespace lce
 			else
 			{
 				m_pHead = (SHead *)m_oShm.getShmBuf();
+				if (m_pHead->dwShmSize == 0 && !bReadOnly)
+					m_pHead->dwShmSize = dwShmSize; // its creation did not complete
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
 
-			uint64_t ui64TmpValue = *(int64_t *)(m_pDataPtr + (dwIndex / 8) * 5) >> (dwIndex % 8 * 5);
-			ui64TmpValue = ui64TmpValue & 0x1F;
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64TmpValue = (ui64TmpValue >> (dwIndex % 8 * 5)) & 0x1F;
 			return (int)ui64TmpValue;
 		}
 
@@ -480,9 +485,9 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
-			uint64_t ui64Flag = ucVal;
+			uint64_t ui64Flag = ucVal & 0x1F;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -491,8 +496,11 @@ namespace lce
 
 			ui64Flag = ui64Flag << (iIndexBitPos * 5);
 
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) |= ui64Flag;				  //
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64TmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			ui64TmpValue |= ui64Flag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 5, &ui64TmpValue, 5);
 
 			return true;
 		}
@@ -521,22 +529,19 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = ((dwBitmapSize + 7) / 8) * 6 + sizeof(SHead);
 
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -557,21 +562,25 @@ namespace lce
 			else
 			{
 				m_pHead = (SHead *)m_oShm.getShmBuf();
+				if (m_pHead->dwShmSize == 0 && !bReadOnly)
+					m_pHead->dwShmSize = dwShmSize; // its creation did not complete
 				m_pDataPtr = (char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) >> (dwIndex % 4 * 6);
-			dwTmpValue = dwTmpValue & 0x3F;
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwTmpValue = (dwTmpValue >> (dwIndex % 4 * 6)) & 0x3F;
 			return dwTmpValue;
 		}
 
@@ -579,9 +588,9 @@ namespace lce
 		{
 			int iIndexBitPos;
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
-			unsigned long dwFlag = ucVal;
+			unsigned long dwFlag = ucVal & 0x3F;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -590,8 +599,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 6);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) |= dwFlag;				   //
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwTmpValue &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwTmpValue |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 4) * 3, &dwTmpValue, 3);
 
 			return true;
 		}
@@ -619,22 +631,19 @@ namespace lce
 		};
 
 	public:
-		CBitmap() {}
+		CBitmap() : m_pHead(NULL), m_pDataPtr(NULL), m_dwMaxIndex(0) {}
 		~CBitmap() {}
 
 		bool init(const int iShmKey, const unsigned long dwBitmapSize, const bool bCreate = true, const bool bReadOnly = false)
 		{
 			size_type dwShmSize = dwBitmapSize + sizeof(SHead);
-			m_dwMaxIndex = dwBitmapSize;
+			m_dwMaxIndex = 0;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 			{
-				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
-				{
-					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-					return false;
-				}
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+				return false;
 			}
 
 			char *pShmBuf = reinterpret_cast<char *>(m_oShm.getShmBuf());
@@ -655,15 +664,18 @@ namespace lce
 			else
 			{
 				m_pHead = (SHead *)m_oShm.getShmBuf();
+				if (m_pHead->dwShmSize == 0 && !bReadOnly)
+					m_pHead->dwShmSize = dwShmSize; // its creation did not complete
 				m_pDataPtr = (unsigned char *)((char *)pShmBuf + sizeof(SHead));
 			}
 
+			m_dwMaxIndex = dwBitmapSize;
 			return true;
 		}
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -673,7 +685,7 @@ namespace lce
 
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
diff --git a/include/CShm.h b/include/CShm.h
index 9b55613..b3eefb1 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -40,8 +40,10 @@ namespace lce
 		inline bool attach()
 		{
 			m_bCreate = false;
+			detach();
 			if ((m_pShmBuf = (shmat(m_iShmID, NULL, 0))) == (char *)-1)
 			{
+				m_pShmBuf = NULL;
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat error:%s", strerror(errno));
 				return false;
 			}
@@ -108,6 +110,7 @@ namespace lce
 	bool CShm::create(const int iKey, const unsigned long dwSize, const bool bCreate /* =true  */, const bool bReadOnly /* = false*/)
 	{
 		m_bCreate = false;
+		detach();
 
 		int iFlag = 0666;
 		if (bCreate)
@@ -130,8 +133,10 @@ namespace lce
 			m_bCreate = true;
 		}
 
-		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
+		// whoever creates it has to write its head
+		if ((m_pShmBuf = (shmat(m_iShmID, NULL, (bReadOnly && !m_bCreate) ? SHM_RDONLY : 0))) == (char *)-1)
 		{
+			m_pShmBuf = NULL;
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat<m_iShmID=%d> error:%s", m_iShmID, strerror(errno));
 			return false;
 		}
diff --git a/include/CShmArray.h b/include/CShmArray.h
index e8faeaf..dab71ca 100644
--- a/include/CShmArray.h
+++ b/include/CShmArray.h
@@ -26,7 +26,7 @@ namespace lce
 
     public:
         CShmArray()
-            : m_pHead(NULL)
+            : m_pHead(NULL), m_pNodes(NULL)
         {
         }
         ~CShmArray()
@@ -91,13 +91,12 @@ namespace lce
     {
         size_type dwShmMaxSize = dwNodeSize * sizeof(value_type) + sizeof(SHead);
         // create shm
-        if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+        m_pHead = NULL;
+        m_pNodes = NULL;
+        if (!m_oShm.create(iShmKey, dwShmMaxSize, bCreate, bReadOnly))
         {
-            if (!m_oShm.create(iShmKey, dwShmMaxSize, bCreate, bReadOnly))
-            {
-                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
-                return false;
-            }
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
+            return false;
         }
 
         if (m_oShm.isCreate())
@@ -120,6 +119,16 @@ namespace lce
         else
         {
             m_pHead = (SHead *)m_oShm.getShmBuf();
+            if (m_pHead->pNodes == 0) // its creation did not complete
+            {
+                if (bReadOnly)
+                {
+                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm is not initialized.");
+                    return false;
+                }
+                m_pHead->dwNodeSize = dwNodeSize;
+                m_pHead->pNodes = (node_type *)(sizeof(SHead));
+            }
             m_pNodes = (node_type *)this->_getAddr(m_pHead->pNodes);
         }
 
-- 
2.43.0


From 5120ece5b5f592fd73415e1c34b9377917a3f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 24/46] fix: CFileLog reported failed writes as successful,
 never recovered from them, and could miss a day change

---
 src/CFileLog.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index ec3ecc3..bff4eab 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -25,10 +25,11 @@ namespace lce
 	bool CFileLog::shiftFiles()
 	{
 
-		if (m_sCurDate != getDate())
+		std::string sDate = getDate(); // the same one throughout: midnight may come in between
+		if (m_sCurDate != sDate)
 		{
-			m_sLogFilePath = m_sLogBasePath + "_" + getDate() + ".log";
-			m_sCurDate = getDate();
+			m_sLogFilePath = m_sLogBasePath + "_" + sDate + ".log";
+			m_sCurDate = sDate;
 			if (m_ofsOutFile.is_open())
 			{
 				m_ofsOutFile.close();
@@ -46,7 +47,7 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), m_uiLogFileNum - 1);
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
@@ -59,13 +60,13 @@ namespace lce
 			for (int i = m_uiLogFileNum - 2; i >= 0; i--)
 			{
 				if (i == 0)
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), sDate.c_str());
 				else
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), i);
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), i);
 
 				if (access(szLogFileName, F_OK) == 0)
 				{
-					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), getDate().c_str(), i + 1);
+					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), sDate.c_str(), i + 1);
 					if (rename(szLogFileName, szNewLogFileName) < 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "rename error:errno=%d.", errno);
@@ -119,6 +120,14 @@ namespace lce
 			m_ofsOutFile << std::endl;
 		}
 
+		if (m_ofsOutFile.fail())
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			m_ofsOutFile.close(); // opened again by the next write
+			m_ofsOutFile.clear();
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From 1a5ac80f4c1072fc14555e74eaea8aac5d8189db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:13 +0000
Subject: [PATCH 25/46] fix: CAsyncLog lost, split, reordered or repeated lines
 when its buffers filled, flushes met or the disk failed

---
 include/CAsyncLog.h |   7 ++-
 include/CFileLog.h  |   4 +-
 src/CAsyncLog.cpp   | 118 ++++++++++++++++++++++++++++++--------------
 3 files changed, 88 insertions(+), 41 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 3c7ad8c..16c266b 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -23,6 +23,7 @@ namespace lce
 	{
 
 	public:
+		CAsyncLog(void);
 		~CAsyncLog(void);
 
 		bool init(const std::string &sLogFilePath = "", int iLogSecs = 1, const unsigned long dwLogFileMaxSize = 1024 * 1024 * 10, const unsigned int uiLogFileNum = 5, const bool bShowCmd = false, const unsigned long dwBufSize = 1024 * 1024);
@@ -52,7 +53,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -63,7 +64,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
@@ -92,6 +93,8 @@ namespace lce
 		unsigned int m_uiLogFileNum;
 		bool m_bShowCmd;
 		lce::CMutex m_mutex;
+		lce::CMutex m_flushMutex;
+		volatile bool m_bExit;
 	};
 
 };
diff --git a/include/CFileLog.h b/include/CFileLog.h
index 96fdb73..212096a 100644
--- a/include/CFileLog.h
+++ b/include/CFileLog.h
@@ -66,7 +66,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -77,7 +77,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 413b4ec..5a883ba 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -3,8 +3,24 @@
 namespace lce
 {
 
+	CAsyncLog::CAsyncLog()
+	{
+		m_poWriteBuffer1 = NULL;
+		m_poWriteBuffer2 = NULL;
+		m_poCurWirteBuffer = NULL;
+		m_bExit = false;
+		m_ofsOutFile.rdbuf()->pubsetbuf(NULL, 0); // or what a failed write left would be written again by close()
+	}
+
 	CAsyncLog::~CAsyncLog()
 	{
+		m_bExit = true;
+		join();
+		if (m_poCurWirteBuffer != NULL)
+		{
+			flush();
+		}
+
 		if (m_ofsOutFile.is_open())
 		{
 			m_ofsOutFile.close();
@@ -35,18 +51,17 @@ namespace lce
 		m_iLogSecs = iLogSecs;
 		m_iCurWriteBufferFlag = 1;
 
-		start();
-
-		return true;
+		return start() == 0;
 	}
 
 	bool CAsyncLog::shiftFiles()
 	{
 
-		if (m_sCurDate != getDate())
+		std::string sDate = getDate(); // the same one throughout: midnight may come in between
+		if (m_sCurDate != sDate)
 		{
-			m_sLogFilePath = m_sLogBasePath + "_" + getDate() + ".log";
-			m_sCurDate = getDate();
+			m_sLogFilePath = m_sLogBasePath + "_" + sDate + ".log";
+			m_sCurDate = sDate;
 			if (m_ofsOutFile.is_open())
 			{
 				m_ofsOutFile.close();
@@ -65,7 +80,7 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), m_uiLogFileNum - 1);
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
@@ -78,13 +93,13 @@ namespace lce
 			for (int i = m_uiLogFileNum - 2; i >= 0; i--)
 			{
 				if (i == 0)
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), getDate().c_str());
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s.log", m_sLogBasePath.c_str(), sDate.c_str());
 				else
-					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), i);
+					snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), sDate.c_str(), i);
 
 				if (access(szLogFileName, F_OK) == 0)
 				{
-					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), getDate().c_str(), i + 1);
+					snprintf(szNewLogFileName, sizeof(szNewLogFileName), "%s_%s_%d.log", m_sLogBasePath.c_str(), sDate.c_str(), i + 1);
 					if (rename(szLogFileName, szNewLogFileName) < 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "rename error:errno=%d.", errno);
@@ -156,17 +171,25 @@ namespace lce
 
 		m_ofsOutFile.flush();
 
+		if (m_ofsOutFile.fail())
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			m_ofsOutFile.close(); // opened again by the next write
+			m_ofsOutFile.clear();
+			return false;
+		}
+
 		return true;
 	}
 
 	int CAsyncLog::run()
 	{
 		int iMillSecs = 0;
-		while (true)
+		while (!m_bExit)
 		{
 			usleep(100000);
 
-			if ((iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poCurWirteBuffer->full())
+			if ((iMillSecs >= m_iLogSecs * 1000 && m_poCurWirteBuffer->size() > 0) || m_poWriteBuffer1->full() || m_poWriteBuffer2->full())
 			{
 				flush();
 				iMillSecs = 0;
@@ -178,24 +201,38 @@ namespace lce
 
 	void CAsyncLog::flush()
 	{
-		if (m_iCurWriteBufferFlag == 1)
-		{
-			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer2;
-			m_mutex.unlock();
+		CAutoLock oFlushLock(m_flushMutex);
 
-			writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
-			m_poWriteBuffer1->reset();
-			m_iCurWriteBufferFlag = 2;
-		}
-		else if (m_iCurWriteBufferFlag == 2)
+		// m_iCurWriteBufferFlag is the buffer to flush first, the other one holds later lines if it is the current one
+		m_mutex.lock();
+		int iBuffers = (m_poCurWirteBuffer == (m_iCurWriteBufferFlag == 1 ? m_poWriteBuffer1 : m_poWriteBuffer2)) ? 1 : 2;
+		m_mutex.unlock();
+
+		for (; iBuffers > 0; iBuffers--)
 		{
-			m_mutex.lock();
-			m_poCurWirteBuffer = m_poWriteBuffer1;
-			m_mutex.unlock();
-			writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
-			m_poWriteBuffer2->reset();
-			m_iCurWriteBufferFlag = 1;
+			if (m_iCurWriteBufferFlag == 1)
+			{
+				m_mutex.lock();
+				m_poCurWirteBuffer = m_poWriteBuffer2;
+				m_mutex.unlock();
+
+				writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
+				m_mutex.lock();
+				m_poWriteBuffer1->reset();
+				m_iCurWriteBufferFlag = 2;
+				m_mutex.unlock();
+			}
+			else if (m_iCurWriteBufferFlag == 2)
+			{
+				m_mutex.lock();
+				m_poCurWirteBuffer = m_poWriteBuffer1;
+				m_mutex.unlock();
+				writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
+				m_mutex.lock();
+				m_poWriteBuffer2->reset();
+				m_iCurWriteBufferFlag = 1;
+				m_mutex.unlock();
+			}
 		}
 	}
 
@@ -211,25 +248,32 @@ namespace lce
 
 		CLogBuffer *pWriteBuffer = m_poCurWirteBuffer;
 
-		bool bFlag = pWriteBuffer->write(str.data(), str.size());
+		std::string sLine = str;
+		if (bEnd)
+		{
+			sLine += "\n";
+		}
+
+		bool bFlag = pWriteBuffer->write(sLine.data(), sLine.size());
 
+		// the other buffer is free only while this one is the next to be flushed, and later lines have to follow this one
 		if (!bFlag)
 		{
-			if (m_poCurWirteBuffer == m_poWriteBuffer1)
+			if (m_poCurWirteBuffer == m_poWriteBuffer1 && m_iCurWriteBufferFlag == 1)
 			{
-				bFlag = m_poWriteBuffer2->write(str.data(), str.size());
+				bFlag = m_poWriteBuffer2->write(sLine.data(), sLine.size());
 				pWriteBuffer = m_poWriteBuffer2;
 			}
-			else if (m_poCurWirteBuffer == m_poWriteBuffer2)
+			else if (m_poCurWirteBuffer == m_poWriteBuffer2 && m_iCurWriteBufferFlag == 2)
 			{
-				bFlag = m_poWriteBuffer1->write(str.data(), str.size());
+				bFlag = m_poWriteBuffer1->write(sLine.data(), sLine.size());
 				pWriteBuffer = m_poWriteBuffer1;
 			}
-		}
 
-		if (bEnd && bFlag)
-		{
-			pWriteBuffer->write("\n", 1);
+			if (bFlag)
+			{
+				m_poCurWirteBuffer = pWriteBuffer;
+			}
 		}
 
 		if (!bFlag)
-- 
2.43.0


From 98c567fe11a766ed2ef75b66621f66639b2d7d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:37 +0000
Subject: [PATCH 26/46] fix: CTcpConnector could not be used after an immediate
 connect, overflowed an fd_set and wrote on failed connects

connect() that completed at once left the object believing it was not
connected; descriptors of FD_SETSIZE and more overflowed the fd_set given to
select(); write() on an unconnected object ignored the result of connecting
and, before any connect(), used an uninitialised port and time limit.
---
 include/CTcpConnector.h |  3 ++-
 src/CTcpConnector.cpp   | 33 ++++++++++++++++++++-------------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/CTcpConnector.h b/include/CTcpConnector.h
index 64d8ffd..b19268f 100644
--- a/include/CTcpConnector.h
+++ b/include/CTcpConnector.h
@@ -10,8 +10,9 @@ namespace lce
 	{
 	public:
 		CTcpConnector()
-			: m_iFd(-1), m_bConnect(false)
+			: m_iFd(-1), m_bConnect(false), m_wSvrPort(0), m_dwTimeout(3000)
 		{
+			m_szErrMsg[0] = '\0';
 		}
 		~CTcpConnector()
 		{
diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 93bbad4..3aa4f11 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -7,6 +7,8 @@
 #include <string.h>
 #include <stdio.h>
 #include <fcntl.h>
+#include <poll.h>
+#include <limits.h>
 #include <unistd.h>
 
 namespace lce
@@ -57,6 +59,7 @@ namespace lce
 		{
 			flag &= ~O_NONBLOCK;
 			fcntl(m_iFd, F_SETFL, flag); // 设置阻塞
+			m_bConnect = true;
 			return true;
 		}
 
@@ -68,21 +71,16 @@ namespace lce
 		}
 		else
 		{
-			struct timeval tv;
-
-			tv.tv_sec = m_dwTimeout / 1000;
-			tv.tv_usec = (m_dwTimeout % 1000) * 1000;
-
-			fd_set set, rset;
-			FD_ZERO(&set);
-			FD_ZERO(&rset);
-			FD_SET(m_iFd, &set);
-			FD_SET(m_iFd, &rset);
-			ret = select(m_iFd + 1, &rset, &set, NULL, &tv);
+			// not select(): an fd_set has no room for descriptors of FD_SETSIZE and more
+			struct pollfd pfd;
+			pfd.fd = m_iFd;
+			pfd.events = POLLIN | POLLOUT;
+			pfd.revents = 0;
+			ret = poll(&pfd, 1, m_dwTimeout > INT_MAX ? INT_MAX : (m_dwTimeout < 0 ? 0 : (int)m_dwTimeout));
 
 			if (ret < 0)
 			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:select error(%d):%s.", errno, strerror(errno));
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:poll error(%d):%s.", errno, strerror(errno));
 				close();
 				return false;
 			}
@@ -122,7 +120,16 @@ namespace lce
 	{
 		if (!m_bConnect)
 		{
-			_imp_connect();
+			if (m_sSvrIp.empty())
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "no create Connect.");
+				return -1;
+			}
+
+			if (!_imp_connect())
+			{
+				return -1;
+			}
 		}
 
 		struct timeval tv;
-- 
2.43.0


From c47386848cb03e6338eabc776f27610ee847bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 27/46] fix: CCommMgr cut off UDP datagrams larger than the
 initial buffer

---
 src/CCommMgr.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 0c4d4ec..dd3fc5f 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -235,19 +235,19 @@ namespace lce
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
-            pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwInitRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
+            // a datagram is received whole or not at all, the buffer cannot grow for the rest of it
+            pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwMaxRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
         }
 
         int iSize = 0;
 
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
-        {
-            pstClientInfo->pSocketRecvBuf->addFreeBuf();
-        }
+        iSize = ::recvfrom(iFd, pstClientInfo->pSocketRecvBuf->getFreeBuf(), pstClientInfo->pSocketRecvBuf->getFreeSize(), MSG_TRUNC, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
 
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
+        stSession.stClientAddr = pstClientInfo->stClientAddr;
+
+        if (iSize > pstClientInfo->pSocketRecvBuf->getFreeSize())
         {
-            // print error no buf size
+            // the datagram is larger than the buffer and was cut off
             pstClientInfo->pSocketRecvBuf->reset();
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,socket buf no memory", __FILE__, __LINE__);
             if (pstServerInfo->pProcessor != NULL)
@@ -255,10 +255,6 @@ namespace lce
             return;
         }
 
-        iSize = ::recvfrom(iFd, pstClientInfo->pSocketRecvBuf->getFreeBuf(), pstClientInfo->pSocketRecvBuf->getFreeSize(), 0, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
-
-        stSession.stClientAddr = pstClientInfo->stClientAddr;
-
         if (iSize > 0)
         {
             pstClientInfo->pSocketRecvBuf->addData(iSize);
-- 
2.43.0


From 34380624c8dec48959df4e3ebaa767d9691dc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 28/46] fix: CUdpConnector crashed without a private address,
 leaked descriptors and reported failed writes as 0

---
 include/CUdpConnector.h |  5 +++--
 src/CUdpConnector.cpp   | 22 ++++++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/CUdpConnector.h b/include/CUdpConnector.h
index 3147f1c..5428514 100644
--- a/include/CUdpConnector.h
+++ b/include/CUdpConnector.h
@@ -12,8 +12,9 @@ namespace lce
 	{
 	public:
 		CUdpConnector()
-			: m_iFd(-1), m_bConnect(false)
+			: m_iFd(-1), m_bConnect(false), m_wSvrPort(0)
 		{
+			m_szErrMsg[0] = '\0';
 		}
 		~CUdpConnector()
 		{
@@ -28,7 +29,7 @@ namespace lce
 		const char *getErrMsg() const { return m_szErrMsg; }
 
 	private:
-		const char *getLocalIp();
+		std::string getLocalIp();
 
 	private:
 		CUdpConnector(const CUdpConnector &rhs);
diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 6b85fac..5ccdbba 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -14,9 +14,9 @@
 namespace lce
 {
 
-	const char *CUdpConnector::getLocalIp()
+	std::string CUdpConnector::getLocalIp()
 	{
-		static char ip[20] = {0};
+		char ip[INET_ADDRSTRLEN] = {0};
 		int i;
 		int s = socket(AF_INET, SOCK_DGRAM, 0);
 
@@ -34,7 +34,8 @@ namespace lce
 				continue;
 
 			//		memset(ip, 0, sizeof(ip));
-			strcpy(ip, inet_ntoa(sin->sin_addr));
+			if (NULL == inet_ntop(AF_INET, &sin->sin_addr, ip, sizeof(ip)))
+				continue;
 			if (0 == strncmp(ip, "172", 3) || 0 == strncmp(ip, "192", 3) || 0 == strncmp(ip, "10.", 3))
 			{
 				::close(s);
@@ -45,7 +46,7 @@ namespace lce
 		}
 
 		::close(s);
-		return NULL;
+		return "0.0.0.0"; // none found, let the system choose
 	}
 
 	bool CUdpConnector::connect(const std::string &sSvrIp, const unsigned short wSvrPort, const std::string &sLocalIp, const unsigned short wLocalIp)
@@ -53,6 +54,11 @@ namespace lce
 		m_sSvrIp = sSvrIp;
 		m_wSvrPort = wSvrPort;
 
+		if (m_iFd != INVALID_SOCKET)
+		{
+			close();
+		}
+
 		if ((m_iFd = socket(AF_INET, SOCK_DGRAM, 0)) == INVALID_SOCKET)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect: socket error(%d):%s.", errno, strerror(errno));
@@ -67,7 +73,7 @@ namespace lce
 		sockClentAddr.sin_family = AF_INET;
 		if (sLocalIp.empty())
 		{
-			sockClentAddr.sin_addr.s_addr = inet_addr(getLocalIp());
+			sockClentAddr.sin_addr.s_addr = inet_addr(getLocalIp().c_str());
 		}
 		else
 		{
@@ -105,7 +111,7 @@ namespace lce
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "sendto error:%s", strerror(errno));
-			return false;
+			return -1;
 		}
 
 		return iSendLen;
@@ -127,7 +133,7 @@ namespace lce
 		}
 		else if (n < 0)
 		{
-			if (EWOULDBLOCK == n)
+			if (EWOULDBLOCK == errno)
 			{
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Read recvfrom over time.");
 				iRe = -1;
@@ -168,7 +174,7 @@ namespace lce
 		else if (n < 0)
 		{
 			sBuf.clear();
-			if (EWOULDBLOCK == n)
+			if (EWOULDBLOCK == errno)
 			{
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Read recvfrom over time.");
 				iRe = -1;
-- 
2.43.0


From 3ffe646dae423351472d7bd0aaa536999c35029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 29/46] fix: CMySql keeps its state consistent when connections
 fail

A failed connect left the handle allocated and in use, a new connection
lost the selected database, a failed use() was selected later, an SQL error
closed the connection (and with it a transaction), a statement of a
transaction was repeated on a new connection, results of further statements
were left for the next query, and a lost result reused a broken connection.
---
 include/CMysql.h |   4 ++
 src/CMysql.cpp   | 157 ++++++++++++++++++++++++++++++++++-------------
 2 files changed, 117 insertions(+), 44 deletions(-)

diff --git a/include/CMysql.h b/include/CMysql.h
index 44a4b55..10d2554 100755
--- a/include/CMysql.h
+++ b/include/CMysql.h
@@ -69,6 +69,10 @@ namespace lce
         void Connect();
         void Close();
         void Select();
+        bool IsLost();
+        bool InTrans();
+        void CloseIfBroken();
+        void SkipResults(const string &sql);
 
     protected:
         MYSQL *_Mysql;
diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index ca3f86a..f8faac3 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -88,10 +88,10 @@ namespace lce
 
     void MySqlData::operator=(const MySqlData &right)
     {
+        right._data->RefAdd(); // first: right may be this very object
         if (_data)
             _data->RefSub();
         _data = right._data;
-        _data->RefAdd();
     }
 
     MySqlData::MySqlData(MySqlBasicData *data)
@@ -172,8 +172,17 @@ namespace lce
 
     void CMySql::use(const string &db)
     {
+        string oldName(_dbname);
         _dbname = db;
-        Select();
+        try
+        {
+            Select();
+        }
+        catch (mysql_exception &e)
+        {
+            _dbname = oldName; // what a failed use() names is not selected by the next connection
+            throw;
+        }
     }
 
     void CMySql::setConnectTime(int connectTime)
@@ -202,64 +211,64 @@ namespace lce
         Close();
         _charSet = cs;
         Connect();
-
-        if (_dbname.empty())
-            return;
-
-        if (mysql_select_db(_Mysql, _dbname.c_str()))
-        {
-            int ret_errno = mysql_errno(_Mysql);
-            Close();
-            if (ret_errno == 2013 || ret_errno == 2006)
-            {
-                Connect();
-            }
-
-            if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
-        }
     }
 
     MySqlData CMySql::query(const string &sql) throw(mysql_exception)
     {
+        if (!_bIsConn)
+            Connect();
+
+        bool bInTrans = InTrans();
         if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
         {
             string err(mysql_error(_Mysql) + string(":") + sql);
-            int ret_errno = mysql_errno(_Mysql);
-            Close();
-            if (ret_errno == 2013 || ret_errno == 2006)
+            if (bInTrans || !IsLost())
             {
-                Connect();
-                if (mysql_select_db(_Mysql, _dbname.c_str()))
-                    throw mysql_exception(string("CMySql::query: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
-                if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
-                    throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
+                CloseIfBroken();
+                throw mysql_exception(string("CMySql::query: ") + err);
             }
-            else
+            Close();
+            Connect();
+            if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
             {
-                throw mysql_exception(string("CMySql::query: ") + err);
+                string err2(mysql_error(_Mysql));
+                CloseIfBroken();
+                throw mysql_exception(string("CMySql::query: ") + err2 + "|" + err);
             }
         }
 
         MySqlBasicData *data = new MySqlBasicData();
         if (mysql_field_count(_Mysql) == 0)
         {
-            int inum = mysql_affected_rows(_Mysql);
+            my_ulonglong num = mysql_affected_rows(_Mysql);
             string err(sql);
-            if (inum < 0)
+            if (num == (my_ulonglong)-1)
             {
                 delete data;
                 throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
             }
-            data->affected_rows(inum);
-            return MySqlData(data);
+            data->affected_rows(num);
+            MySqlData result(data);
+            SkipResults(sql);
+            return result;
         }
         MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
         if (pstMySqlRes == NULL)
         {
-            string err(sql);
+            string err(mysql_error(_Mysql) + string("|") + sql);
             delete data;
-            throw mysql_exception(string("CMySql::query: mysql_store_result is null: ") + mysql_error(_Mysql) + "|" + err);
+            CloseIfBroken();
+            throw mysql_exception(string("CMySql::query: mysql_store_result is null: ") + err);
+        }
+        try
+        {
+            SkipResults(sql);
+        }
+        catch (mysql_exception &e)
+        {
+            delete data;
+            mysql_free_result(pstMySqlRes);
+            throw;
         }
 
         MYSQL_FIELD *field;
@@ -340,14 +349,28 @@ namespace lce
         {
             if (mysql_options(_Mysql, MYSQL_SET_CHARSET_NAME, _charSet.c_str()))
             {
-                throw mysql_exception(string("CMySql::Connect: mysql_options MYSQL_SET_CHARSET_NAME ") + _charSet + ":" + mysql_error(_Mysql));
+                string err(mysql_error(_Mysql));
+                mysql_close(_Mysql);
+                throw mysql_exception(string("CMySql::Connect: mysql_options MYSQL_SET_CHARSET_NAME ") + _charSet + ":" + err);
             }
         }
 
         if (mysql_real_connect(_Mysql, _host.c_str(), _user.c_str(), _pass.c_str(), NULL, _port, NULL, CLIENT_MULTI_STATEMENTS) == NULL)
-            throw mysql_exception(string("CMySql::Connect: mysql_real_connect to ") + _host + ":" + mysql_error(_Mysql));
+        {
+            string err(mysql_error(_Mysql));
+            mysql_close(_Mysql);
+            throw mysql_exception(string("CMySql::Connect: mysql_real_connect to ") + _host + ":" + err);
+        }
 
         _bIsConn = true;
+
+        // a new connection starts without a database
+        if (!_dbname.empty() && mysql_select_db(_Mysql, _dbname.c_str()))
+        {
+            string err(mysql_error(_Mysql));
+            Close();
+            throw mysql_exception(string("CMySql::Connect: mysql_select_db ") + _dbname + ":" + err);
+        }
     }
 
     void CMySql::Close()
@@ -358,25 +381,71 @@ namespace lce
         _bIsConn = false;
     }
 
+    bool CMySql::IsLost()
+    {
+        int ret_errno = mysql_errno(_Mysql);
+        return ret_errno == 2013 || ret_errno == 2006;
+    }
+
+    // an open transaction is lost with its connection: what belongs to it must not be repeated on another one
+    bool CMySql::InTrans()
+    {
+        return (_Mysql->server_status & SERVER_STATUS_IN_TRANS) != 0;
+    }
+
+    // after an error of the client library (2000 to 2999) the connection cannot be used any more, after one of the server it can
+    void CMySql::CloseIfBroken()
+    {
+        int ret_errno = mysql_errno(_Mysql);
+        if (ret_errno >= 2000 && ret_errno < 3000)
+            Close();
+    }
+
+    // reads the results of all further statements, or the next query would get them
+    void CMySql::SkipResults(const string &sql)
+    {
+        while (mysql_more_results(_Mysql))
+        {
+            if (mysql_next_result(_Mysql) > 0)
+            {
+                string err(mysql_error(_Mysql) + string(":") + sql);
+                CloseIfBroken();
+                throw mysql_exception(string("CMySql::query: ") + err);
+            }
+            MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
+            if (pstMySqlRes != NULL)
+                mysql_free_result(pstMySqlRes);
+            else if (mysql_errno(_Mysql) != 0)
+            {
+                string err(mysql_error(_Mysql) + string(":") + sql);
+                Close();
+                throw mysql_exception(string("CMySql::query: ") + err);
+            }
+        }
+    }
+
     void CMySql::Select()
     {
         if (!_bIsConn)
-            Connect();
+        {
+            Connect(); // selects the database
+            return;
+        }
 
         if (_dbname.empty())
             return;
 
+        bool bInTrans = InTrans();
         if (mysql_select_db(_Mysql, _dbname.c_str()))
         {
-            int ret_errno = mysql_errno(_Mysql);
-            Close();
-            if (ret_errno == 2013 || ret_errno == 2006)
+            string err(mysql_error(_Mysql));
+            if (bInTrans || !IsLost())
             {
-                Connect();
+                CloseIfBroken();
+                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + err);
             }
-
-            if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+            Close();
+            Connect();
         }
     }
 
-- 
2.43.0


From 08e81fd688f95e65a46397de254cfe3d3eca84e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 30/46] fix: CHttpWriter::begin kept the headers of the
 previous response

---
 src/CHttpWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1e06edd..fb315cc 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -106,6 +106,7 @@ namespace lce
 	void CHttpWriter::begin()
 	{
 		m_mapCookie.clear();
+		m_mapHead.clear();
 		m_sBodyContent.erase();
 		m_iStatusCode = 200;
 		m_sConnection = "Close";
-- 
2.43.0


From df90a0ce449549d8f4f2e1dcbdce79a44d0dc015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 31/46] fix: CHttpReader kept the uploaded files of the
 previous request

---
 include/CHttpReader.h | 1 +
 src/CHttpReader.cpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/CHttpReader.h b/include/CHttpReader.h
index 0e846db..4b76d2f 100755
--- a/include/CHttpReader.h
+++ b/include/CHttpReader.h
@@ -128,6 +128,7 @@ namespace lce
 			m_sHttpContent.clear();
 			m_sFile.clear();
 			m_sFileName.clear();
+			m_mapFiles.clear();
 		}
 
 	private:
diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b2a3235..015c053 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -171,6 +171,7 @@ namespace lce
 		m_sCookies.erase();
 		m_sValues.erase();
 		m_mapHeadInfo.clear();
+		m_mapFiles.clear();
 		m_sFile.clear();
 		m_sFileName.clear();
 	}
-- 
2.43.0


From 4995ade8852a9c2be7ab54bcd6a4fc7e0de6b102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 32/46] fix: GetGMTDate and GetTimeString returned other dates
 when several threads formatted dates

---
 include/Utils.h | 3 ++-
 src/Utils.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Utils.h b/include/Utils.h
index fc7b0fe..8f2cce8 100755
--- a/include/Utils.h
+++ b/include/Utils.h
@@ -84,7 +84,8 @@ namespace lce
 	{
 		time_t t = time(0);
 		char ch[64];
-		strftime(ch, sizeof(ch), "%Y-%m-%d %H:%M:%S", localtime(&t)); // 年-月-日 时-分-秒
+		struct tm stTm;
+		strftime(ch, sizeof(ch), "%Y-%m-%d %H:%M:%S", localtime_r(&t, &stTm)); // 年-月-日 时-分-秒
 		return ch;
 	}
 
diff --git a/src/Utils.cpp b/src/Utils.cpp
index c41b093..13f3781 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -200,7 +200,8 @@ namespace lce
     std::string GetGMTDate(const time_t &cur)
     {
         char buf[256];
-        struct tm *gt = gmtime(&cur);
+        struct tm stTm;
+        struct tm *gt = gmtime_r(&cur, &stTm);
         snprintf(buf, sizeof(buf), "%s, %02d %s %04d %02d:%02d:%02d GMT",
                  days[gt->tm_wday],
                  gt->tm_mday,
-- 
2.43.0


From d7e6c708e525cad0ed04c9533fc04890aa2a9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:31 +0000
Subject: [PATCH 33/46] fix: CConfig::loadConfig reported success after a read
 error

---
 src/CConfig.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 93ff6cf..fd9bcad 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -85,6 +85,12 @@ namespace lce
 			}
 		}
 
+		if (ifsConfig.bad())
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "errno=%d", errno);
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From 31ab59ad869752e9daadef807ca3586a7a2d61a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:46 +0000
Subject: [PATCH 34/46] fix: CAsyncLog stopped flushing after 24 days without
 lines

---
 src/CAsyncLog.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 5a883ba..3602df5 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -194,7 +194,10 @@ namespace lce
 				flush();
 				iMillSecs = 0;
 			}
-			iMillSecs += 100;
+			if (iMillSecs < m_iLogSecs * 1000) // it must not wrap when there is nothing to flush for weeks
+			{
+				iMillSecs += 100;
+			}
 		}
 		return 0;
 	}
-- 
2.43.0


From 981e9275168b652e0d0ddc6c4cc048166be34884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:36 +0000
Subject: [PATCH 35/46] fix: writing nothing failed at random and lost its
 request to close

---
 src/CCommMgr.cpp   | 4 ++--
 src/CNetWorker.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index dd3fc5f..a22d68b 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -563,7 +563,7 @@ namespace lce
         {
             iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-            if (iSendSize > 0)
+            if (iSendSize >= 0)
             {
                 if (iSendSize < iSize)
                 {
@@ -659,7 +659,7 @@ namespace lce
             else
             {
                 int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-                if (iSendSize > 0)
+                if (iSendSize >= 0)
                 {
                     if (iSendSize < iSize)
                     {
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 1d4cc09..6a10977 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -475,7 +475,7 @@ namespace lce
 		{
 			iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-			if (iSendSize > 0)
+			if (iSendSize >= 0)
 			{
 				if (iSendSize < iSize)
 				{
@@ -567,7 +567,7 @@ namespace lce
 			else
 			{
 				int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-				if (iSendSize > 0)
+				if (iSendSize >= 0)
 				{
 					if (iSendSize < iSize)
 					{
-- 
2.43.0


From 98ddff2fd1032e360e412bc83f33134eea6760b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:36 +0000
Subject: [PATCH 36/46] fix: handlers that keep sending messages starved
 timers, connections and stop()

---
 src/CEvent.cpp | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 07c5c8a..c73b331 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -349,35 +349,27 @@ namespace lce
                 {
                     if (iFd == m_iMsgFd[0]) // 自定义事件
                     {
-                        char szBuf[1];
+                        char szBuf[1024];
 
-                        while (true)
-                        {
-                            StMsgEvent stMsgEvent;
-                            bool bHaveMsg = false;
+                        ::pthread_mutex_lock(&m_lock);
 
-                            ::pthread_mutex_lock(&m_lock);
+                        // a message sent from now on leaves a wake-up byte again and is delivered in the next round, so that
+                        // handlers that go on sending messages do not keep timers and descriptors waiting
+                        while (read(m_iMsgFd[0], szBuf, sizeof(szBuf)) == (ssize_t)sizeof(szBuf))
+                        {
+                        }
+                        size_t dwMsgNum = m_queMsgEvents.size();
 
-                            // there may be fewer wake-up bytes than messages, never the other way round
-                            if (read(m_iMsgFd[0], szBuf, 1) < 0)
-                                szBuf[0] = 0;
+                        ::pthread_mutex_unlock(&m_lock);
 
-                            if (!m_queMsgEvents.empty())
-                            {
-                                stMsgEvent = m_queMsgEvents.front();
-                                m_queMsgEvents.pop();
-                                bHaveMsg = true;
-                            }
+                        for (; dwMsgNum > 0; dwMsgNum--)
+                        {
+                            ::pthread_mutex_lock(&m_lock);
+                            StMsgEvent stMsgEvent = m_queMsgEvents.front();
+                            m_queMsgEvents.pop();
                             ::pthread_mutex_unlock(&m_lock);
 
-                            if (bHaveMsg)
-                            {
-                                stMsgEvent.onMessage(stMsgEvent.iMsgType, stMsgEvent.pClientData);
-                            }
-                            else
-                            {
-                                break;
-                            }
+                            stMsgEvent.onMessage(stMsgEvent.iMsgType, stMsgEvent.pClientData);
                         }
                     }
                     else
-- 
2.43.0


From 7b91596d09505096a3f6bf3890099bcecf4df442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:55 +0000
Subject: [PATCH 37/46] fix: a signal handler changed the errno of the code it
 interrupted

CCommMgr::onSignal runs the application's onSignal wherever the signal happens
to arrive. What that calls may set errno, and a connect, read or write of the
loop that had just failed with EINPROGRESS or EAGAIN then saw another error and
gave up a healthy connection.
---
 src/CCommMgr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index a22d68b..45dfc37 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -978,11 +978,16 @@ namespace lce
 
     void CCommMgr::onSignal(int iSignal)
     {
+        // the code this signal interrupted may be about to look at errno
+        int iErrno = errno;
+
         map<int, CProcessor *>::iterator it = CCommMgr::getInstance().m_mapSigProcs.find(iSignal);
         if (it != CCommMgr::getInstance().m_mapSigProcs.end())
         {
             it->second->onSignal(iSignal);
         }
+
+        errno = iErrno;
     }
 
     int CCommMgr::sendMessage(int iMsgType, CProcessor *pProcessor, void *pData)
-- 
2.43.0


From 97aa1cd6033bcc0e246c59b8dcedc1252b3e74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:57 +0000
Subject: [PATCH 38/46] fix: signals were lost while a handler for another one
 was being registered

onSignal looks its processor up in a std::map, and a signal that arrived while
addSigHandler was inserting into that map - in the same thread or in another -
could miss its entry in the middle of the rebalancing. A table indexed by the
signal's number has no such moment.
---
 include/CCommMgr.h |  5 +++--
 src/CCommMgr.cpp   | 13 +++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index fd36c5a..f208a89 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -98,14 +98,15 @@ namespace lce
         inline bool isClose(int iFd);
         inline bool isClose(const StSession &stSession);
 
-        CCommMgr() {}
+        CCommMgr() : m_szSigProcs() {}
         CCommMgr &operator=(const CCommMgr &);
         CCommMgr(const CCommMgr &);
 
     private:
         vector<StServerInfo *> m_vecServers;
         vector<StClientInfo> m_vecClients;
-        map<int, CProcessor *> m_mapSigProcs;
+        // looked up by signal handlers, which may interrupt or run beside addSigHandler
+        CProcessor *volatile m_szSigProcs[NSIG];
         CEvent m_oCEvent;
         char m_szErrMsg[1024];
         static CCommMgr *m_pInstance;
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 45dfc37..0aaa5e2 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -970,7 +970,12 @@ namespace lce
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,errno:%d,error:%s", __FILE__, __LINE__, errno, "processor pointor is null");
             return -1;
         }
-        m_mapSigProcs[iSignal] = pProcessor;
+        if (iSignal <= 0 || iSignal >= NSIG)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,iSignal error", __FILE__, __LINE__);
+            return -1;
+        }
+        m_szSigProcs[iSignal] = pProcessor;
 
         signal(iSignal, CCommMgr::onSignal);
         return 0;
@@ -981,10 +986,10 @@ namespace lce
         // the code this signal interrupted may be about to look at errno
         int iErrno = errno;
 
-        map<int, CProcessor *>::iterator it = CCommMgr::getInstance().m_mapSigProcs.find(iSignal);
-        if (it != CCommMgr::getInstance().m_mapSigProcs.end())
+        CProcessor *pProcessor = CCommMgr::getInstance().m_szSigProcs[iSignal];
+        if (pProcessor != NULL)
         {
-            it->second->onSignal(iSignal);
+            pProcessor->onSignal(iSignal);
         }
 
         errno = iErrno;
-- 
2.43.0


From 405084cb224eba66228719d53fa5fbc6ddf497bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:15 +0000
Subject: [PATCH 39/46] fix: AnyHeader keeps all 64 bits of the user id and the
 client address

setUid/getUid converted a 64-bit value with htonl/ntohl and setClientIp/getClientIp a 32-bit one with htonll/ntohll, so the user id lost its upper half and the client address always became 0.
---
 include/CAnyPackage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index 41587ba..962bf54 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -51,11 +51,11 @@ namespace lce
         void setFormat(uint32_t dwFormat) { this->dwFormat = htonl(dwFormat); }
         uint32_t getFormat() { return ntohl(dwFormat); }
 
-        void setUid(uint64_t ddwUid) { this->ddwUid = htonl(ddwUid); }
-        uint64_t getUid() { return ntohl(ddwUid); }
+        void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
+        uint64_t getUid() { return ntohll(ddwUid); }
 
-        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
-        uint32_t getClientIp() { return ntohll(dwClientIp); }
+        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonl(dwClientIp); }
+        uint32_t getClientIp() { return ntohl(dwClientIp); }
 
         void setErrno(uint32_t dwErrno) { this->dwErrno = htonl(dwErrno); }
         uint32_t getErrno() { return ntohl(dwErrno); }
-- 
2.43.0


From 9fe4e2580efcdacc31e238ba8f0ad3b1cf1b9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:34 +0000
Subject: [PATCH 40/46] fix: CHttpPackageFilter took only the exact spelling
 'Content-Length: ' for the length

Header names are case insensitive and the blank after the colon is optional, so the body of a request with 'content-length: 5' or 'Content-Length:5' was taken for the next request; and 'X-Content-Length: 5' or a URI containing the text was taken for the length.
---
 include/CHttpPackageFilter.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 718a740..dc2b4e5 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -5,6 +5,7 @@
 #include <limits.h>
 #include <stdlib.h>
 #include <string.h>
+#include <strings.h>
 #include "CPackageFilter.h"
 
 namespace lce
@@ -28,15 +29,18 @@ namespace lce
 			int iHeadLen = (int)(pEnd - pszData) + sizeof("\r\n\r\n") - 1;
 			long long llHTMLLen = iHeadLen;
 
-			const char *pContentLenPos = find(pszData, iHeadLen, "Content-Length: ");
-			if (NULL != pContentLenPos)
+			// a header's name is in either case, what follows its colon may begin with blanks or not
+			for (const char *pLine = find(pszData, iHeadLen, "\r\n") + 2; pLine < pEnd; pLine = find(pLine, (int)(pEnd + 2 - pLine), "\r\n") + 2)
 			{
-				pContentLenPos += sizeof("Content-Length: ") - 1;
+				if (strncasecmp(pLine, "Content-Length:", sizeof("Content-Length:") - 1) != 0)
+					continue;
+				const char *pContentLenPos = pLine + sizeof("Content-Length:") - 1;
 				pContentLenPos += strspn(pContentLenPos, " \t");
 				long long llContentLen = isspace(*pContentLenPos) ? 0 : strtoll(pContentLenPos, NULL, 10);
 				if (llContentLen < 0 || llContentLen > INT_MAX - iHeadLen)
 					return -2;
 				llHTMLLen += llContentLen;
+				break;
 			}
 
 			if (llHTMLLen > iDataSize)
-- 
2.43.0


From 8070ec97e4a1e145984367f3cc6233911115f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:08 +0000
Subject: [PATCH 41/46] fix: CHttpWriter cut header lines at 1023 bytes

The end of the line was cut off as well, so that the next header became part of the value.
---
 src/CHttpWriter.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index fb315cc..9742df5 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,8 +27,7 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		snprintf(szTmp, sizeof(szTmp), "Connection: %s\r\n", m_sConnection.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
 		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
@@ -48,14 +47,12 @@ namespace lce
 
 		if (!m_sCacheControl.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "Cache-Control: %s\r\n", m_sCacheControl.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
 		if (!m_sETag.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "ETag: %s\r\n", m_sETag.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
@@ -75,8 +72,7 @@ namespace lce
 
 		for (MAP_HEAD::const_iterator it = m_mapHead.begin(); it != m_mapHead.end(); ++it)
 		{
-			snprintf(szTmp, sizeof(szTmp), "%s: %s\r\n", it->first.c_str(), it->second.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += it->first + ": " + it->second + "\r\n";
 		}
 
 		// set cookie
@@ -98,8 +94,7 @@ namespace lce
 		}
 
 		// html head end
-		snprintf(szTmp, sizeof(szTmp), "Content-Type: %s\r\n\r\n", m_sContentType.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
-- 
2.43.0


From 6843b40baa634d49ee124fc2e8a3535b3ce19d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:08 +0000
Subject: [PATCH 42/46] fix: CHttpReader changed multipart values and missed
 headers written 'Name:value'

Multipart parts were url-decoded although they are not encoded (which threw for a '%' at the end), empty parts got the line end that follows them, and the multipart body was parsed as url-encoded parameters as well, which invented parameters or threw. Headers without a blank after the colon were lost, and the multipart content type was recognised in one spelling only.
---
 src/CHttpReader.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 015c053..c546144 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -129,7 +129,7 @@ namespace lce
 			sLine = m_sHttpContent.substr(pos1, pos2 - pos1);
 			pos1 = pos2 + 2;
 
-			colonPos = sLine.find(": ");
+			colonPos = sLine.find(':');
 			sName = sLine.substr(0, colonPos);
 			if (sName.empty())
 			{
@@ -137,10 +137,12 @@ namespace lce
 				return false;
 			}
 
-			sValue = sLine.substr(colonPos + 2);
+			// what follows the colon may begin with blanks or not
+			string::size_type valuePos = colonPos == string::npos ? string::npos : sLine.find_first_not_of(" \t", colonPos + 1);
+			sValue = valuePos == string::npos ? string() : sLine.substr(valuePos);
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
-			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
+			if (sBoundary.empty() && toLower(sName.c_str()) == "content-type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
 			{
 				sBoundary = sValue.substr(BOUNDARY_STR.length());
 			}
@@ -151,13 +153,16 @@ namespace lce
 		}
 
 		this->parseCookies();
-		this->parseValues();
 
 		if (m_nCommand == POST && !sBoundary.empty())
 		{
 			sBoundary.insert(0, "--");
 			this->parsePostFormData(sBoundary, headEndPos);
 		}
+		else
+		{
+			this->parseValues();
+		}
 
 		return bOk;
 	}
@@ -435,11 +440,11 @@ namespace lce
 				break;
 			}
 			sValue = sNV.substr(pos + 4);
-			if (sValue.size() > 2)
+			if (sValue.size() >= 2)
 			{
 				sValue.erase(sValue.size() - 2);
 			}
-			m_mapValueList[sName] = FormUrlDecode(sValue);
+			m_mapValueList[sName] = sValue; // the parts of such a form are not url encoded
 			m_sFileName = getStrBetween(sNV, 0, "filename=\"", "\"", pos);
 			if (pos == string::npos || m_sFileName.empty())
 			{
@@ -458,7 +463,7 @@ namespace lce
 
 			it->second.sData = sNV.substr(pos + sFileType.size() + 4);
 
-			if (it->second.sData.size() > 2)
+			if (it->second.sData.size() >= 2)
 			{
 				it->second.sData.erase(it->second.sData.size() - 2);
 			}
-- 
2.43.0


From 23b611ed200bcfedcd2588ffcf0a879240bc7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:06 +0000
Subject: [PATCH 43/46] fix: integers of 20 characters lost their last digit in
 JSON and XML

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 8bbae12..b698495 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -828,14 +828,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24]; // a sign, 20 digits and the end
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24]; // a sign, 20 digits and the end
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
@@ -981,14 +981,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24]; // a sign, 20 digits and the end
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24]; // a sign, 20 digits and the end
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
-- 
2.43.0


From 0e77a48f94ed566cb402b76d7e2e5fdd8c5583d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:03 +0000
Subject: [PATCH 44/46] fix: CConfig missed indented sections and comments and
 took lines without '=' for entries

---
 src/CConfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index fd9bcad..8b59784 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -37,7 +37,7 @@ namespace lce
 			size_t i = 0;
 			for (i = 0; i < sLine.size(); i++)
 			{
-				if (sLine[i] != ' ' || sLine[i] != '\t')
+				if (sLine[i] != ' ' && sLine[i] != '\t')
 				{
 					break;
 				}
@@ -67,7 +67,7 @@ namespace lce
 			}
 			default:
 				size_t j = sLine.find('=', i);
-				if (j > i)
+				if (j != std::string::npos && j > i)
 				{
 					sName = sLine.substr(i, j - i);
 
-- 
2.43.0


From 75449ae89fe2a76b1dd577d10cc84dc54e116bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:03 +0000
Subject: [PATCH 45/46] fix: ~CThread cancelled a thread it had detached

---
 src/CThread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CThread.cpp b/src/CThread.cpp
index b3c13c4..838b46d 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -12,8 +12,8 @@ namespace lce
 
     CThread::~CThread()
     {
+        stop(); // first: a detached thread that has ended must not be cancelled
         detach();
-        stop();
     }
 
     int CThread::start()
-- 
2.43.0


From 127e0fb12669b077545fe19744b9dfaab8ad4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:03 +0000
Subject: [PATCH 46/46] fix: deeply nested data overflowed the stack of its
 reader

---
 include/CAnyValue.h | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index b698495..35027ba 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -891,6 +891,34 @@ namespace lce
         static std::vector<DECODE_FUNC> m_vecDecodeFuncs;
 
     private:
+        // values are read recursively: data nested too deep would overflow the stack
+        class CNesting
+        {
+        public:
+            CNesting()
+            {
+                if (depth() >= MAX_DEPTH)
+                {
+                    throw Error("data nested too deep.");
+                }
+                ++depth();
+            }
+            ~CNesting() { --depth(); }
+
+        private:
+            enum
+            {
+                MAX_DEPTH = 512
+            };
+            static int &depth()
+            {
+                static thread_local int iDepth = 0;
+                return iDepth;
+            }
+            CNesting(const CNesting &);
+            CNesting &operator=(const CNesting &);
+        };
+
         static void inline check(const size_t dwPos, const size_t sDataSize)
         {
             if (dwPos > sDataSize)
@@ -1390,6 +1418,7 @@ namespace lce
 
         static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CNesting oNesting;
             oValue.initAsVector();
 
             while (dwPos < iSize)
@@ -1509,6 +1538,7 @@ namespace lce
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            CNesting oNesting;
             oValue.initAsMap();
 
             while (dwPos < iSize)
@@ -1796,6 +1826,7 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            CNesting oNesting;
             check(dwDecodePos + 1, dwDataSize);
             clear(); // a repeated map key decodes into the same value again
             m_ucSubType = *(pData + dwDecodePos);
-- 
2.43.0

