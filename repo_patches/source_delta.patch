From 2e6d6b565115adab338003153a560931d52e1a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 01/13] fix: continue the XTS tweak across updates of SM4-XTS
 on x86_64

---
 crypto/sm4/src/crypt_sm4_x86_64.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crypto/sm4/src/crypt_sm4_x86_64.c b/crypto/sm4/src/crypt_sm4_x86_64.c
index b3dc78d..45bcdd7 100644
--- a/crypto/sm4/src/crypt_sm4_x86_64.c
+++ b/crypto/sm4/src/crypt_sm4_x86_64.c
@@ -45,6 +45,14 @@ void SM4_XTS_Calculate_Tweak(unsigned char *t, const unsigned int idx)
     }
 }
 
+/* Move the tweak behind the blocks that have been processed, so that the next update continues the data unit. */
+static void SM4_XTS_AdvanceTweak(uint8_t *tweak, uint32_t dataLen)
+{
+    for (uint32_t i = 0; i < dataLen / CRYPT_SM4_BLOCKSIZE; i++) {
+        SM4_XTS_Calculate_Tweak(tweak, 0);
+    }
+}
+
 static void SM4_XTS_Encrypt_Helper(uint32_t left, const uint32_t dataLen, uint8_t* t, uint8_t *x,
                                    const uint8_t* plain, uint8_t* cipher, const uint32_t* dataRk)
 {
@@ -246,7 +254,11 @@ int32_t CRYPT_SM4_XTS_Encrypt(CRYPT_SM4_Ctx *ctx, const uint8_t *in, uint8_t *ou
         return CRYPT_NULL_INPUT;
     }
 
-    return SM4_XTS_En(out, in, ctx->rk, iv, len);
+    int32_t ret = SM4_XTS_En(out, in, ctx->rk, iv, len);
+    if (ret == CRYPT_SUCCESS) {
+        SM4_XTS_AdvanceTweak(iv, len);
+    }
+    return ret;
 }
 
 int32_t CRYPT_SM4_XTS_Decrypt(CRYPT_SM4_Ctx *ctx, const uint8_t *in, uint8_t *out, uint32_t len, uint8_t *iv)
@@ -256,7 +268,11 @@ int32_t CRYPT_SM4_XTS_Decrypt(CRYPT_SM4_Ctx *ctx, const uint8_t *in, uint8_t *ou
         return CRYPT_NULL_INPUT;
     }
 
-    return SM4_XTS_De(out, in, ctx->rk, iv, len);
+    int32_t ret = SM4_XTS_De(out, in, ctx->rk, iv, len);
+    if (ret == CRYPT_SUCCESS) {
+        SM4_XTS_AdvanceTweak(iv, len);
+    }
+    return ret;
 }
 
 int32_t CRYPT_SM4_SetEncryptKey(CRYPT_SM4_Ctx *ctx, const uint8_t *key, uint32_t len)
-- 
2.43.0


From 56ee6d9e35e1a06d5e8855ae24ed7b5ec4e4d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 02/13] fix: retransmit the last DTLS flight until the 2MSL
 timer expires

---
 tls/cm/src/conn_read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tls/cm/src/conn_read.c b/tls/cm/src/conn_read.c
index 641fa2d..f772610 100644
--- a/tls/cm/src/conn_read.c
+++ b/tls/cm/src/conn_read.c
@@ -218,9 +218,10 @@ static int32_t RecvPostFinishPreprocess(TLS_Ctx *ctx)
         return HITLS_REC_NORMAL_RECV_UNEXPECT_MSG;
     }
 
-    if (HS_IsTimeout(ctx, &isTimeout) != HITLS_SUCCESS || isTimeout) {
+    /* The last flight is kept for retransmission until the 2MSL timer expires */
+    if (HS_Is2MslTimeout(ctx, &isTimeout) != HITLS_SUCCESS || isTimeout) {
         BSL_LOG_BINLOG_FIXLEN(BINLOG_ID16522, BSL_LOG_LEVEL_ERR, BSL_LOG_BINLOG_TYPE_RUN,
-            "HS_IsTimeout fail or timeout", 0, 0, 0, 0);
+            "HS_Is2MslTimeout fail or timeout", 0, 0, 0, 0);
         REC_RetransmitListClean(ctx->recCtx);
         return HITLS_REC_NORMAL_RECV_UNEXPECT_MSG;
     }
-- 
2.43.0


From bb68f74a1cd23f7472575900ca6619c99abe801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:08 +0000
Subject: [PATCH 03/13] fix: drop cached DTLS fragments of a message that
 arrives as a whole

---
 tls/handshake/reass/include/hs_reass.h |  8 ++++++++
 tls/handshake/reass/src/hs_reass.c     | 21 +++++++++++++++++----
 tls/handshake/recv/src/hs_state_recv.c |  2 ++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/tls/handshake/reass/include/hs_reass.h b/tls/handshake/reass/include/hs_reass.h
index 0c823f2..c229cce 100644
--- a/tls/handshake/reass/include/hs_reass.h
+++ b/tls/handshake/reass/include/hs_reass.h
@@ -39,6 +39,14 @@ extern "C" {
  */
 int32_t HS_ReassAppend(TLS_Ctx *ctx, HS_MsgInfo *msgInfo);
 
+/**
+ * @brief Discard the fragments cached for a message, because the message has been received as a whole.
+ *
+ * @param ctx [IN] TLS object
+ * @param sequence [IN] Sequence number of the message
+ */
+void HS_ReassRemove(TLS_Ctx *ctx, uint16_t sequence);
+
 /**
  * @brief Read the complete message of the expected sequence number.
  *
diff --git a/tls/handshake/reass/src/hs_reass.c b/tls/handshake/reass/src/hs_reass.c
index 715b614..2528d48 100644
--- a/tls/handshake/reass/src/hs_reass.c
+++ b/tls/handshake/reass/src/hs_reass.c
@@ -275,6 +275,22 @@ int32_t HS_ReassAppend(TLS_Ctx *ctx, HS_MsgInfo *msgInfo)
     return ReassembleMsg(ctx, msgInfo, node);
 }
 
+static void ReassNodeFree(HS_ReassQueue *node)
+{
+    BSL_LIST_REMOVE(&node->head);    /* Delete the node from the queue. */
+    BSL_SAL_FREE(node->reassBitMap); /* Release node content. */
+    BSL_SAL_FREE(node->msg);         /* Release node content. */
+    BSL_SAL_FREE(node);              /* Release the node. */
+}
+
+void HS_ReassRemove(TLS_Ctx *ctx, uint16_t sequence)
+{
+    HS_ReassQueue *node = GetReassNode(ctx->reassMsg, sequence);
+    if (node != NULL) {
+        ReassNodeFree(node);
+    }
+}
+
 int32_t HS_GetReassMsg(TLS_Ctx *ctx, HS_MsgInfo *msgInfo, uint32_t *len)
 {
     /* Check whether there are messages in the reassembly queue */
@@ -312,10 +328,7 @@ int32_t HS_GetReassMsg(TLS_Ctx *ctx, HS_MsgInfo *msgInfo, uint32_t *len)
     memcpy(ctx->hsCtx->msgBuf, node->msg, node->msgLen);
     msgInfo->rawMsg = ctx->hsCtx->msgBuf;
     *len = node->msgLen;             /* Set the message length. */
-    BSL_LIST_REMOVE(&node->head);        /* Delete the node from the queue. */
-    BSL_SAL_FREE(node->reassBitMap); /* Release node content. */
-    BSL_SAL_FREE(node->msg);         /* Release node content. */
-    BSL_SAL_FREE(node);              /* Release the node. */
+    ReassNodeFree(node);
 
     return HITLS_SUCCESS;
 }
diff --git a/tls/handshake/recv/src/hs_state_recv.c b/tls/handshake/recv/src/hs_state_recv.c
index 2f7f2ad..8f6055e 100644
--- a/tls/handshake/recv/src/hs_state_recv.c
+++ b/tls/handshake/recv/src/hs_state_recv.c
@@ -697,6 +697,8 @@ static int32_t DtlsGetCompleteHandshakeMsg(TLS_Ctx *ctx, HS_MsgInfo *hsMsgInfo,
     if (hsMsgInfo->fragmentLength != hsMsgInfo->length) {
         return HS_ReassAppend(ctx, hsMsgInfo);
     }
+    /* Fragments of this message may have been cached before, they are no longer needed. */
+    HS_ReassRemove(ctx, hsMsgInfo->sequence);
     *msgLen = recordMsgLen;
     return HITLS_SUCCESS;
 }
-- 
2.43.0


From 9bf28e446c80c13dac07517846b487af8a499afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 04/13] fix: do not restart the DTLS cookie exchange for a
 stray ClientHello fragment

---
 tls/handshake/reass/include/hs_reass.h | 12 +++++++++-
 tls/handshake/reass/src/hs_reass.c     | 31 +++++++++++++++++---------
 tls/handshake/recv/src/hs_state_recv.c | 12 +++++++++-
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/tls/handshake/reass/include/hs_reass.h b/tls/handshake/reass/include/hs_reass.h
index c229cce..b146462 100644
--- a/tls/handshake/reass/include/hs_reass.h
+++ b/tls/handshake/reass/include/hs_reass.h
@@ -40,13 +40,23 @@ extern "C" {
 int32_t HS_ReassAppend(TLS_Ctx *ctx, HS_MsgInfo *msgInfo);
 
 /**
- * @brief Discard the fragments cached for a message, because the message has been received as a whole.
+ * @brief Discard the fragments cached for a message that has been received and for the messages before it.
  *
  * @param ctx [IN] TLS object
  * @param sequence [IN] Sequence number of the message
  */
 void HS_ReassRemove(TLS_Ctx *ctx, uint16_t sequence);
 
+/**
+ * @brief Check whether all fragments of a message are cached.
+ *
+ * @param ctx [IN] TLS object
+ * @param sequence [IN] Sequence number of the message
+ *
+ * @retval true The message can be read.
+ */
+bool HS_ReassIsComplete(const TLS_Ctx *ctx, uint16_t sequence);
+
 /**
  * @brief Read the complete message of the expected sequence number.
  *
diff --git a/tls/handshake/reass/src/hs_reass.c b/tls/handshake/reass/src/hs_reass.c
index 2528d48..6f7c3b6 100644
--- a/tls/handshake/reass/src/hs_reass.c
+++ b/tls/handshake/reass/src/hs_reass.c
@@ -275,20 +275,29 @@ int32_t HS_ReassAppend(TLS_Ctx *ctx, HS_MsgInfo *msgInfo)
     return ReassembleMsg(ctx, msgInfo, node);
 }
 
-static void ReassNodeFree(HS_ReassQueue *node)
+void HS_ReassRemove(TLS_Ctx *ctx, uint16_t sequence)
 {
-    BSL_LIST_REMOVE(&node->head);    /* Delete the node from the queue. */
-    BSL_SAL_FREE(node->reassBitMap); /* Release node content. */
-    BSL_SAL_FREE(node->msg);         /* Release node content. */
-    BSL_SAL_FREE(node);              /* Release the node. */
+    if (ctx->reassMsg == NULL) {
+        return;
+    }
+    ListHead *node = NULL;
+    ListHead *tmpNode = NULL;
+    HS_ReassQueue *cur = NULL;
+    LIST_FOR_EACH_ITEM_SAFE(node, tmpNode, &ctx->reassMsg->head) {
+        cur = BSL_LIST_ENTRY(node, HS_ReassQueue, head);
+        if (cur->sequence <= sequence) {
+            BSL_LIST_REMOVE(&cur->head);    /* Delete the node from the queue. */
+            BSL_SAL_FREE(cur->reassBitMap); /* Release node content. */
+            BSL_SAL_FREE(cur->msg);         /* Release node content. */
+            BSL_SAL_FREE(cur);              /* Release the node. */
+        }
+    }
 }
 
-void HS_ReassRemove(TLS_Ctx *ctx, uint16_t sequence)
+bool HS_ReassIsComplete(const TLS_Ctx *ctx, uint16_t sequence)
 {
-    HS_ReassQueue *node = GetReassNode(ctx->reassMsg, sequence);
-    if (node != NULL) {
-        ReassNodeFree(node);
-    }
+    const HS_ReassQueue *node = GetReassNode(ctx->reassMsg, sequence);
+    return node != NULL && node->isReassComplete;
 }
 
 int32_t HS_GetReassMsg(TLS_Ctx *ctx, HS_MsgInfo *msgInfo, uint32_t *len)
@@ -328,7 +337,7 @@ int32_t HS_GetReassMsg(TLS_Ctx *ctx, HS_MsgInfo *msgInfo, uint32_t *len)
     memcpy(ctx->hsCtx->msgBuf, node->msg, node->msgLen);
     msgInfo->rawMsg = ctx->hsCtx->msgBuf;
     *len = node->msgLen;             /* Set the message length. */
-    ReassNodeFree(node);
+    HS_ReassRemove(ctx, node->sequence);
 
     return HITLS_SUCCESS;
 }
diff --git a/tls/handshake/recv/src/hs_state_recv.c b/tls/handshake/recv/src/hs_state_recv.c
index 8f6055e..adf0d83 100644
--- a/tls/handshake/recv/src/hs_state_recv.c
+++ b/tls/handshake/recv/src/hs_state_recv.c
@@ -684,8 +684,18 @@ static int32_t DtlsGetCompleteHandshakeMsg(TLS_Ctx *ctx, HS_MsgInfo *hsMsgInfo,
         }
         /* When the hello verify request is lost, handle a repeated initial ClientHello as the first one. */
         if (DtlsIsRepeatedInitialClientHello(ctx, hsMsgInfo)) {
+            if (hsMsgInfo->fragmentLength != hsMsgInfo->length) {
+                /* A stray fragment of the first ClientHello must not undo the cookie exchange. */
+                ret = HS_ReassAppend(ctx, hsMsgInfo);
+                if (ret != HITLS_SUCCESS || !HS_ReassIsComplete(ctx, hsMsgInfo->sequence)) {
+                    return ret;
+                }
+            }
             ctx->hsCtx->expectRecvSeq = 0;
             ctx->hsCtx->nextSendSeq = 0;
+            if (hsMsgInfo->fragmentLength != hsMsgInfo->length) {
+                return HITLS_SUCCESS; /* It is read from the reassembly queue next. */
+            }
         }
 
         /* SCTP messages are not out of order. Therefore, alert on out-of-order messages. */
@@ -697,7 +707,7 @@ static int32_t DtlsGetCompleteHandshakeMsg(TLS_Ctx *ctx, HS_MsgInfo *hsMsgInfo,
     if (hsMsgInfo->fragmentLength != hsMsgInfo->length) {
         return HS_ReassAppend(ctx, hsMsgInfo);
     }
-    /* Fragments of this message may have been cached before, they are no longer needed. */
+    /* Fragments of this message or earlier ones may have been cached before, they are no longer needed. */
     HS_ReassRemove(ctx, hsMsgInfo->sequence);
     *msgLen = recordMsgLen;
     return HITLS_SUCCESS;
-- 
2.43.0


From 6467471e02b50ad739a725ebe86b4a49101e2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:42 +0000
Subject: [PATCH 05/13] fix: forget the error of an earlier verification when a
 store context verifies again

---
 pki/x509_verify/src/hitls_x509_verify.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pki/x509_verify/src/hitls_x509_verify.c b/pki/x509_verify/src/hitls_x509_verify.c
index c000d9d..195b979 100644
--- a/pki/x509_verify/src/hitls_x509_verify.c
+++ b/pki/x509_verify/src/hitls_x509_verify.c
@@ -2555,6 +2555,10 @@ int32_t HITLS_X509_CertVerify(HITLS_X509_StoreCtx *storeCtx, HITLS_X509_List *ch
         return HITLS_X509_ERR_CERT_CHAIN_COUNT_IS0;
     }
 
+#ifdef HITLS_PKI_X509_VFY_CB
+    /* The error recorded by an earlier verification with this context says nothing about this one. */
+    storeCtx->error = HITLS_PKI_SUCCESS;
+#endif
     int32_t ret = X509_GetVerifyCertChain(storeCtx, chain, &storeCtx->certChain);
     if (ret != HITLS_PKI_SUCCESS) {
         return ret;
-- 
2.43.0


From e3aee925dcbc6e707069b2a9bae6488c7cdc51b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 06/13] fix: an empty label of a certificate name matches only
 an empty label

---
 pki/x509_common/src/hitls_x509_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pki/x509_common/src/hitls_x509_util.c b/pki/x509_common/src/hitls_x509_util.c
index 90c709e..78b4536 100644
--- a/pki/x509_common/src/hitls_x509_util.c
+++ b/pki/x509_common/src/hitls_x509_util.c
@@ -128,7 +128,7 @@ static int32_t MatchWithPartialWildcard(const char *pattern, const char *hostnam
             }
             labelCount++;
         } else {
-            if (pLen > 0 && BSL_SAL_StrcaseCmp(p, h) != 0) {
+            if (BSL_SAL_StrcaseCmp(p, h) != 0) {
                 return HITLS_X509_ERR_VFY_HOSTNAME_FAIL;
             }
         }
-- 
2.43.0


From 09b72aef190decd2f14e28d4dd7e8137b3afa47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:09 +0000
Subject: [PATCH 07/13] fix: keep the XMSS traversal state exportable towards
 the end of a tree

---
 crypto/hbs/xmss/src/xmss_bds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/hbs/xmss/src/xmss_bds.c b/crypto/hbs/xmss/src/xmss_bds.c
index b58a862..bf975d0 100644
--- a/crypto/hbs/xmss/src/xmss_bds.c
+++ b/crypto/hbs/xmss/src/xmss_bds.c
@@ -956,9 +956,9 @@ int32_t XmssBds_TreeRound(XmssBdsState *state, uint32_t leafIdx, uint32_t layer,
     for (uint32_t i = 0; i < restartCount; i++) {
         uint32_t startIdx = leafIdx + 1U + 3U * (1U << i);
         state->treehash[i].height = i;
-        state->treehash[i].nextIdx = startIdx;
-        state->treehash[i].stackUsage = 0;
         state->treehash[i].completed = (startIdx >= (1U << hp));
+        state->treehash[i].nextIdx = state->treehash[i].completed ? (1U << hp) : startIdx;
+        state->treehash[i].stackUsage = 0;
     }
 
     return CRYPT_SUCCESS;
-- 
2.43.0


From 3a0c3ce90e7174a5776c4e7aadd1392322a42e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:27 +0000
Subject: [PATCH 08/13] fix: do not take the record of a pending write for the
 handshake message to be sent

A write of application data that the transport had refused leaves its record
in the output buffer. A KeyUpdate (requested locally or by the peer) then
found the buffer occupied, sent that record and was considered sent itself:
the keys changed without the peer being told, and the repeated write sent the
data again.
---
 tls/app/src/app.c          |  8 +++++++-
 tls/record/src/rec_write.c | 17 ++++++++++++++++-
 tls/record/src/record.h    |  2 ++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/tls/app/src/app.c b/tls/app/src/app.c
index cac7d45..b326939 100644
--- a/tls/app/src/app.c
+++ b/tls/app/src/app.c
@@ -125,10 +125,15 @@ int32_t APP_Write(TLS_Ctx *ctx, uint8_t recordType, const uint8_t *data, uint32_
     }
 	*writeLen = 0;
 
-    ret = REC_Write(ctx, recordType, data, sendLen);
+    /* The data to be repeated may have been sent already, ahead of a handshake message */
+    if (!ctx->recCtx->isPendingDataSent) {
+        ret = REC_Write(ctx, recordType, data, sendLen);
+    }
     if (ret != HITLS_SUCCESS) {
         return RETURN_ERROR_NUMBER_PROCESS(ret, BINLOG_ID16274, "Write fail");
     }
+    /* If the flight cannot be transmitted yet, the write is repeated, but the record must not be written again */
+    ctx->recCtx->isPendingDataSent = (ctx->recCtx->pendingData != NULL);
 #ifdef HITLS_TLS_FEATURE_FLIGHT
     if (ctx->config.tlsConfig.isFlightTransmitEnable) {
         ret = REC_FlightTransmit(ctx);
@@ -141,5 +146,6 @@ int32_t APP_Write(TLS_Ctx *ctx, uint8_t recordType, const uint8_t *data, uint32_
     ctx->recCtx->pendingData = NULL;
     ctx->recCtx->pendingDataSize = 0;
     ctx->recCtx->pendingRecordType = 0;
+    ctx->recCtx->isPendingDataSent = false;
     return HITLS_SUCCESS;
 }
\ No newline at end of file
diff --git a/tls/record/src/rec_write.c b/tls/record/src/rec_write.c
index 3772fe1..5ef3003 100644
--- a/tls/record/src/rec_write.c
+++ b/tls/record/src/rec_write.c
@@ -552,6 +552,7 @@ int32_t REC_OutBufFlush(TLS_Ctx *ctx)
     }
     ctx->recCtx->pendingData = NULL;
     ctx->recCtx->pendingDataSize = 0;
+    ctx->recCtx->isPendingDataSent = false;
     return HITLS_SUCCESS;
 }
 
@@ -603,7 +604,20 @@ int32_t TlsRecordWrite(TLS_Ctx *ctx, REC_Type recordType, const uint8_t *data, u
     RecBuf *writeBuf = ctx->recCtx->outBuf;
     /* Check whether the cache exists */
     if (writeBuf->end > writeBuf->start) {
-        return SendRecord(ctx, ctx->recCtx, state, state->seq, recordType);
+        bool isAppData = ctx->recCtx->pendingData != NULL && !ctx->recCtx->isPendingDataSent &&
+            ctx->recCtx->outBufRecordType == ctx->recCtx->pendingRecordType;
+        bool isOther = isAppData && recordType != ctx->recCtx->outBufRecordType;
+        ret = SendRecord(ctx, ctx->recCtx, state, state->seq, isOther ? REC_TYPE_HANDSHAKE : recordType);
+        if (ret != HITLS_SUCCESS || !isOther) {
+            return ret;
+        }
+        /* The cached record is not the one to be written: it held application data whose write is still to be
+         * repeated by the user. It is on its way now, and the record to be written follows it. */
+        ctx->recCtx->isPendingDataSent = true;
+        ret = SequenceCompare(state, REC_TLS_SN_MAX_VALUE);
+        if (ret != HITLS_SUCCESS) {
+            return ret;
+        }
     }
     const RecCryptoFunc *funcs = RecGetCryptoFuncs(state->suiteInfo);
     ret = funcs->encryptPreProcess(ctx, recordType, data, num, &recPlaintext);
@@ -639,6 +653,7 @@ int32_t TlsRecordWrite(TLS_Ctx *ctx, REC_Type recordType, const uint8_t *data, u
                               ctx->config.tlsConfig.msgArg);
 #endif
     OutbufUpdate(&writeBuf->start, 0, &writeBuf->end, outBufLen);
+    ctx->recCtx->outBufRecordType = (uint8_t)recordType;
 
     return SendRecord(ctx, ctx->recCtx, state, state->seq, recordType);
 }
diff --git a/tls/record/src/record.h b/tls/record/src/record.h
index 5c7afa5..5209795 100644
--- a/tls/record/src/record.h
+++ b/tls/record/src/record.h
@@ -134,6 +134,8 @@ typedef struct RecCtx {
     uint32_t pendingDataSize; /* Data length */
     const uint8_t *pendingData; /* Plain Data content */
     uint8_t pendingRecordType; /* pending record type */
+    uint8_t outBufRecordType; /* type of the record cached in outBuf */
+    bool isPendingDataSent; /* The record of pendingData was sent ahead of a record of another type */
 } RecCtx;
 
 /**
-- 
2.43.0


From 336c2813289e3841eb1cecd33d19afdc74b2cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 09/13] fix: a failed ML-DSA key generation left an
 uninitialized key in the context

---
 crypto/mldsa/src/ml_dsa.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crypto/mldsa/src/ml_dsa.c b/crypto/mldsa/src/ml_dsa.c
index 0314d20..bf36143 100644
--- a/crypto/mldsa/src/ml_dsa.c
+++ b/crypto/mldsa/src/ml_dsa.c
@@ -376,15 +376,17 @@ int32_t CRYPT_ML_DSA_GenKey(CRYPT_ML_DSA_Ctx *ctx)
         BSL_ERR_PUSH_ERROR(CRYPT_MLDSA_KEYINFO_NOT_SET);
         return CRYPT_MLDSA_KEYINFO_NOT_SET;
     }
-    if (MLDSACreateKeyBuf(ctx) != CRYPT_SUCCESS) {
-        return CRYPT_MEM_ALLOC_FAIL;
-    }
     uint8_t seed[MLDSA_SEED_BYTES_LEN];
     int32_t ret = CRYPT_RandEx(ctx->libCtx, seed, MLDSA_SEED_BYTES_LEN);
     if (ret != CRYPT_SUCCESS) {
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
+    // The key buffers are only created once the seed is known, so that no uninitialized key is left behind.
+    if (MLDSACreateKeyBuf(ctx) != CRYPT_SUCCESS) {
+        BSL_SAL_CleanseData(seed, MLDSA_SEED_BYTES_LEN);
+        return CRYPT_MEM_ALLOC_FAIL;
+    }
     ret = MLDSA_KeyGenInternal(ctx, seed);
     BSL_SAL_CleanseData(seed, MLDSA_SEED_BYTES_LEN);
     return ret;
-- 
2.43.0


From f97d19b6de87c5c67c780d85c04afbba3436c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 10/13] fix: a failed ML-KEM key generation left a meaningless
 key in the context

---
 crypto/mlkem/src/ml_kem.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto/mlkem/src/ml_kem.c b/crypto/mlkem/src/ml_kem.c
index 4913aad..997df09 100644
--- a/crypto/mlkem/src/ml_kem.c
+++ b/crypto/mlkem/src/ml_kem.c
@@ -671,9 +671,6 @@ int32_t CRYPT_ML_KEM_GenKey(CRYPT_ML_KEM_Ctx *ctx)
         BSL_ERR_PUSH_ERROR(CRYPT_MLKEM_KEYINFO_NOT_SET);
         return CRYPT_MLKEM_KEYINFO_NOT_SET;
     }
-    if (MlKemCreateKeyBuf(ctx) != CRYPT_SUCCESS) {
-        return CRYPT_MEM_ALLOC_FAIL;
-    }
     uint8_t seed[MLKEM_SEED_LEN * 2];
     int32_t ret = CRYPT_RandEx(ctx->libCtx, seed, MLKEM_SEED_LEN * 2);
     if (ret != CRYPT_SUCCESS) {
@@ -681,7 +678,11 @@ int32_t CRYPT_ML_KEM_GenKey(CRYPT_ML_KEM_Ctx *ctx)
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
-
+    // The key lengths are only set once the seed is known, so that no meaningless key is left behind.
+    if (MlKemCreateKeyBuf(ctx) != CRYPT_SUCCESS) {
+        BSL_SAL_CleanseData(seed, sizeof(seed));
+        return CRYPT_MEM_ALLOC_FAIL;
+    }
     ret = MLKEM_KeyGenInternal(ctx, seed, seed + MLKEM_SEED_LEN);
     if (ret != CRYPT_SUCCESS) {
         MLKEM_KeyReset(ctx);
-- 
2.43.0


From 33e81fdff7ec0500ae2a666fb658b4b8efca9729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:12 +0000
Subject: [PATCH 11/13] fix: RSA private key operations kept failing after the
 blinding could not be set up once

---
 crypto/rsa/src/rsa_encdec.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crypto/rsa/src/rsa_encdec.c b/crypto/rsa/src/rsa_encdec.c
index 5c87489..02fd6de 100644
--- a/crypto/rsa/src/rsa_encdec.c
+++ b/crypto/rsa/src/rsa_encdec.c
@@ -290,6 +290,11 @@ static int32_t RSA_InitBlind(CRYPT_RSA_Ctx *ctx, BN_Optimizer *opt)
     if (needDestoryE) {
         BN_Destroy(e);
     }
+    if (ret != CRYPT_SUCCESS) {
+        // Blinding without parameters would make every later private key operation fail.
+        RSA_BlindFreeCtx(ctx->scBlind);
+        ctx->scBlind = NULL;
+    }
     return ret;
 }
 
-- 
2.43.0


From 8848215139a3050c0c28542a76838cdff5812afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:33 +0000
Subject: [PATCH 12/13] fix: keep the OAEP label in a duplicated RSA context

---
 crypto/rsa/src/rsa_keygen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/rsa/src/rsa_keygen.c b/crypto/rsa/src/rsa_keygen.c
index ae268bf..017b143 100644
--- a/crypto/rsa/src/rsa_keygen.c
+++ b/crypto/rsa/src/rsa_keygen.c
@@ -203,6 +203,9 @@ CRYPT_RSA_Ctx *CRYPT_RSA_DupCtx(CRYPT_RSA_Ctx *keyCtx)
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->para, keyCtx->para, RSAParaDupCtx(keyCtx->para), CRYPT_MEM_ALLOC_FAIL);
     GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->mdAttr, keyCtx->mdAttr, BSL_SAL_Dump(keyCtx->mdAttr,
         strlen(keyCtx->mdAttr) + 1), CRYPT_MEM_ALLOC_FAIL);
+    GOTO_ERR_IF_SRC_NOT_NULL(newKeyCtx->label.data, keyCtx->label.data,
+        BSL_SAL_Dump(keyCtx->label.data, keyCtx->label.len), CRYPT_MEM_ALLOC_FAIL);
+    newKeyCtx->label.len = keyCtx->label.len;
     newKeyCtx->libCtx = keyCtx->libCtx;
     return newKeyCtx;
 
-- 
2.43.0


From b9367b8ea907d925a78c559623a62790d84dae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:26 +0000
Subject: [PATCH 13/13] fix: refuse an SM2 ciphertext whose hash is not 32
 bytes long

---
 crypto/sm2/src/sm2_crypt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/sm2/src/sm2_crypt.c b/crypto/sm2/src/sm2_crypt.c
index 43d927c..202b7d8 100644
--- a/crypto/sm2/src/sm2_crypt.c
+++ b/crypto/sm2/src/sm2_crypt.c
@@ -296,6 +296,12 @@ static int32_t DecodeEncryptData(const uint8_t *data, uint32_t datalen, uint8_t
         BSL_ERR_PUSH_ERROR(ret);
         return ret;
     }
+    if (encData.hashLen != SM3_MD_SIZE) {
+        BSL_SAL_Free(*decode);
+        *decode = NULL;
+        BSL_ERR_PUSH_ERROR(CRYPT_SM2_DECRYPT_FAIL);
+        return CRYPT_SM2_DECRYPT_FAIL;
+    }
 
     // Return cipher related information
     *cipher = encData.cipher;
-- 
2.43.0

