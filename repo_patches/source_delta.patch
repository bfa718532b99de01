From 0c783f13128057745646f93c8908b0d7ddcd574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 01/12] fix: delete an exhausted secret key only after its last
 signature is complete

The key was zeroed before the last one-time key was used, so the last
signature was made with an all-zero key and never verified. For a total
height of 40 the index moreover wrapped to 0 after that signature, after
which the key kept on signing; as for height 64, leave the last one-time
key unused when the index bytes cannot represent 'finished'.
---
 xmss_core.c      | 17 ++++++++++++++---
 xmss_core_fast.c | 34 ++++++++++++++++++++++++++++------
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/xmss_core.c b/xmss_core.c
index af9f8d1..0b8b963 100644
--- a/xmss_core.c
+++ b/xmss_core.c
@@ -196,6 +196,7 @@ int xmssmt_core_sign(const xmss_params *params,
     unsigned char idx_bytes_32[32];
     unsigned int i;
     uint32_t idx_leaf;
+    int last_signature;
 
     uint32_t ots_addr[8] = {0};
     set_type(ots_addr, XMSS_ADDR_TYPE_OTS);
@@ -215,18 +216,22 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
+     * If the index fills the index bytes (i.e. for a total tree height of 40 or
+     * 64) we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last_signature = (idx == ((1ULL << params->full_height) - 1))
+                     && (params->full_height < 8 * params->index_bytes);
+    /* The last signature still needs the secret key; see below. */
+    if (idx >= ((1ULL << params->full_height) - 1) && !last_signature) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
         if (idx > ((1ULL << params->full_height) - 1))
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
+        if ((params->full_height >= 8 * params->index_bytes) && (idx == ((1ULL << params->full_height) - 1))) 
                 return -2; // We already used all one-time keys
     }
     
@@ -269,5 +274,11 @@ int xmssmt_core_sign(const xmss_params *params,
         sm += params->tree_height*params->n;
     }
 
+    if (last_signature) {
+        /* Delete the secret key, now that the signature is complete. */
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index cbf87ec..38cdc75 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -589,6 +589,7 @@ int xmss_core_sign(const xmss_params *params,
     const unsigned char *pub_root = sk + params->index_bytes + 2*params->n;
 
     uint16_t i = 0;
+    int last_signature;
 
     // TODO refactor BDS state not to need separate treehash instances
     bds_state state;
@@ -608,18 +609,22 @@ int xmss_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
+     * If the index fills the index bytes (i.e. for a total tree height of 40 or
+     * 64) we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last_signature = (idx == ((1ULL << params->full_height) - 1))
+                     && (params->full_height < 8 * params->index_bytes);
+    /* The last signature still needs the secret key; see below. */
+    if (idx >= ((1ULL << params->full_height) - 1) && !last_signature) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
         if (idx > ((1ULL << params->full_height) - 1))
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
+        if ((params->full_height >= 8 * params->index_bytes) && (idx == ((1ULL << params->full_height) - 1))) 
                 return -2; // We already used all one-time keys
     }
     
@@ -716,6 +721,12 @@ int xmss_core_sign(const xmss_params *params,
     /* Write the updated BDS state back into sk. */
     xmss_serialize_state(params, sk, &state);
 
+    if (last_signature) {
+        /* Delete the secret key, now that the signature is complete. */
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
 
@@ -794,6 +805,7 @@ int xmssmt_core_sign(const xmss_params *params,
     uint64_t i, j;
     int needswap_upto = -1;
     unsigned int updates;
+    int last_signature;
 
     unsigned char sk_seed[params->n];
     unsigned char sk_prf[params->n];
@@ -829,18 +841,22 @@ int xmssmt_core_sign(const xmss_params *params,
      * is reached), production implementations should delete the secret key 
      * to prevent accidental further use.
      * 
-     * For the case of total tree height of 64 we do not use the last signature 
+     * If the index fills the index bytes (i.e. for a total tree height of 40 or
+     * 64) we do not use the last signature 
      * to be on the safe side (there is no index value left to indicate that the 
      * key is finished, hence external handling would be necessary)
      */ 
-    if (idx >= ((1ULL << params->full_height) - 1)) {
+    last_signature = (idx == ((1ULL << params->full_height) - 1))
+                     && (params->full_height < 8 * params->index_bytes);
+    /* The last signature still needs the secret key; see below. */
+    if (idx >= ((1ULL << params->full_height) - 1) && !last_signature) {
         // Delete secret key here. We only do this in memory, production code
         // has to make sure that this happens on disk.
         memset(sk, 0xFF, params->index_bytes);
         memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
         if (idx > ((1ULL << params->full_height) - 1))
             return -2; // We already used all one-time keys
-        if ((params->full_height == 64) && (idx == ((1ULL << params->full_height) - 1))) 
+        if ((params->full_height >= 8 * params->index_bytes) && (idx == ((1ULL << params->full_height) - 1))) 
                 return -2; // We already used all one-time keys
     }
     
@@ -984,5 +1000,11 @@ int xmssmt_core_sign(const xmss_params *params,
 
     xmssmt_serialize_state(params, sk, states);
 
+    if (last_signature) {
+        /* Delete the secret key, now that the signature is complete. */
+        memset(sk, 0xFF, params->index_bytes);
+        memset(sk + params->index_bytes, 0, (params->sk_bytes - params->index_bytes));
+    }
+
     return 0;
 }
-- 
2.43.0


From f4dedd8fa6ce9a8f5e8e71639cb007951925d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 02/12] fix: reject signed messages that are shorter than a
 signature

The message length underflowed, and the verifier read and wrote far out of
bounds.
---
 xmss_commons.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xmss_commons.c b/xmss_commons.c
index 2b76b94..8beff01 100644
--- a/xmss_commons.c
+++ b/xmss_commons.c
@@ -156,6 +156,12 @@ int xmssmt_core_sign_open(const xmss_params *params,
     set_type(ltree_addr, XMSS_ADDR_TYPE_LTREE);
     set_type(node_addr, XMSS_ADDR_TYPE_HASHTREE);
 
+    /* Anything shorter than a signature cannot be valid. */
+    if (smlen < params->sig_bytes) {
+        *mlen = 0;
+        return -1;
+    }
+
     *mlen = smlen - params->sig_bytes;
 
     /* Convert the index bytes from the signature to an integer. */
-- 
2.43.0


From e475fb6fb980e1aa8327e062654a69e2961fbe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 03/12] fix: ui/sign: only release a signature once the updated
 key is stored

The signature could be written before the secret key was updated, and
errors were ignored: an exhausted key, a truncated key file, an unreadable
message or a failing write all led to an exit code of 0, and to output
that was not a signature or to reuse of the same one-time key.
---
 ui/sign.c | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index d82ea6b..2b7e9bd 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <unistd.h>
 
 #include "../params.h"
 #include "../xmss.h"
@@ -22,6 +23,7 @@ int main(int argc, char **argv) {
     uint32_t oid_sk = 0;
     uint8_t buffer[XMSS_OID_LEN];
     int parse_oid_result;
+    int ret;
 
     unsigned long long mlen;
 
@@ -83,14 +85,37 @@ int main(int argc, char **argv) {
     /* fseek back to start of sk. */
     fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
     fseek(m_file, 0, SEEK_SET);
-    fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file);
-    fread(m, 1, mlen, m_file);
+    if (m == NULL || sm == NULL
+        || fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
+            != XMSS_OID_LEN + params.sk_bytes
+        || fread(m, 1, mlen, m_file) != mlen) {
+        fprintf(stderr, "Could not read secret key and message.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
-    XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    ret = XMSS_SIGN(sk, sm, &smlen, m, mlen);
+    if (ret) {
+        fprintf(stderr, "Could not sign; is the secret key used up?\n");
+    }
 
-    fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR);
-    fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file);
-    fwrite(sm, 1, smlen, stdout);
+    /* The updated state has to be stored safely before the signature leaves
+       this process; otherwise a one-time key could be used again. */
+    if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR)
+        || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file)
+            != params.sk_bytes
+        || fflush(keypair_file)
+        || fsync(fileno(keypair_file))) {
+        fprintf(stderr, "Could not update secret key.\n");
+        ret = -1;
+    }
+    if (!ret && (fwrite(sm, 1, smlen, stdout) != smlen || fflush(stdout))) {
+        fprintf(stderr, "Could not write signature + message.\n");
+        ret = -1;
+    }
 
     fclose(keypair_file);
     fclose(m_file);
@@ -98,5 +123,5 @@ int main(int argc, char **argv) {
     free(m);
     free(sm);
 
-    return 0;
+    return ret;
 }
-- 
2.43.0


From 16e9043db5734b2ed2fec8f2e48e7bf8871212b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 04/12] fix: ui/sign: lock the keypair file

Two processes signing with the same keypair file at the same time could
both use the same one-time key.
---
 ui/sign.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ui/sign.c b/ui/sign.c
index 2b7e9bd..7f5d1f1 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <sys/file.h>
 #include <unistd.h>
 
 #include "../params.h"
@@ -41,6 +42,13 @@ int main(int argc, char **argv) {
         return -1;
     }
 
+    /* Only one process at a time may use, and then update, the secret key. */
+    if (flock(fileno(keypair_file), LOCK_EX)) {
+        fprintf(stderr, "Could not lock keypair file.\n");
+        fclose(keypair_file);
+        return -1;
+    }
+
     m_file = fopen(argv[2], "rb");
     if (m_file == NULL) {
         fprintf(stderr, "Could not open message file.\n");
-- 
2.43.0


From 180a38122837441e75b067ec4c6a4fb78484a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 05/12] fix: ui/keypair, ui/open: report input and output
 errors

A keypair that was not completely written was reported as success, and
verification went ahead with a public key or signature that had not been
read.
---
 ui/keypair.c |  5 ++++-
 ui/open.c    | 13 +++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ui/keypair.c b/ui/keypair.c
index 612c448..e753a05 100644
--- a/ui/keypair.c
+++ b/ui/keypair.c
@@ -42,7 +42,10 @@ int main(int argc, char **argv)
     fwrite(pk, 1, XMSS_OID_LEN + params.pk_bytes, stdout);
     fwrite(sk, 1, XMSS_OID_LEN + params.sk_bytes, stdout);
 
-    fclose(stdout);
+    if (ferror(stdout) | fclose(stdout)) {
+        fprintf(stderr, "Could not write keypair.\n");
+        return -1;
+    }
 
     return 0;
 }
diff --git a/ui/open.c b/ui/open.c
index a0b0b94..5f9d759 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -67,8 +67,17 @@ int main(int argc, char **argv) {
 
     fseek(keypair_file, 0, SEEK_SET);
     fseek(sm_file, 0, SEEK_SET);
-    fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file);
-    fread(sm, 1, smlen, sm_file);
+    if (m == NULL || sm == NULL
+        || fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file)
+            != XMSS_OID_LEN + params.pk_bytes
+        || fread(sm, 1, smlen, sm_file) != smlen) {
+        fprintf(stderr, "Could not read public key and signature + message.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        free(m);
+        free(sm);
+        return -1;
+    }
 
     ret = XMSS_SIGN_OPEN(m, &mlen, sm, smlen, pk);
 
-- 
2.43.0


From fe013eb5540e334a671c3b1f2e2c4445746c8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 06/12] fix: stop finished NEXT trees from using up the update
 budget

The bound on next_leaf was the number of leaves of the whole hypertree
instead of that of one tree, so a finished NEXT tree kept consuming one
update per signature and the layers above it starved. XMSSMT keys with
eight or more layers produced invalid signatures from index 2^20 on.
---
 xmss_core_fast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index 38cdc75..af7b9ce 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -969,7 +969,7 @@ int xmssmt_core_sign(const xmss_params *params,
             set_tree_addr(addr, (idx_tree + 1));
             // if a NEXT-tree exists for this level;
             if ((1 + idx_tree) * (1 << params->tree_height) + idx_leaf < (1ULL << (params->full_height - params->tree_height * i))) {
-                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->full_height)) {
+                if (i > 0 && updates > 0 && states[params->d + i].next_leaf < (1ULL << params->tree_height)) {
                     bds_state_update(params, &states[params->d + i], sk_seed, pub_seed, addr);
                     updates--;
                 }
-- 
2.43.0


From 32db93eee9546ad5c4bb065428f0af8fbd1f36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 07/12] fix: do not let the update budget wrap around

When more subtrees end at one index than there are updates left, the
unsigned budget wrapped and that one signature did all pending work.
---
 xmss_core_fast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmss_core_fast.c b/xmss_core_fast.c
index af7b9ce..c23b07b 100644
--- a/xmss_core_fast.c
+++ b/xmss_core_fast.c
@@ -987,7 +987,9 @@ int xmssmt_core_sign(const xmss_params *params,
             states[params->d + i].stackoffset = 0;
             states[params->d + i].next_leaf = 0;
 
-            updates--; // WOTS-signing counts as one update
+            if (updates > 0) {
+                updates--; // WOTS-signing counts as one update
+            }
             needswap_upto = i;
             for (j = 0; j < params->tree_height-params->bds_k; j++) {
                 states[i].treehash[j].completed = 1;
-- 
2.43.0


From b014a73d0383a33c85d28e9d0540fecce7672f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 08/12] fix: keep all checksum digits when they fill whole
 bytes (w = 256)

---
 wots.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wots.c b/wots.c
index d9c8449..50ebf8b 100644
--- a/wots.c
+++ b/wots.c
@@ -93,7 +93,7 @@ static void wots_checksum(const xmss_params *params,
 
     /* Convert checksum to base_w. */
     /* Make sure expected empty zero bits are the least significant bits. */
-    csum = csum << (8 - ((params->wots_len2 * params->wots_log_w) % 8));
+    csum = csum << ((8 - ((params->wots_len2 * params->wots_log_w) % 8)) % 8);
     ull_to_bytes(csum_bytes, sizeof(csum_bytes), csum);
     base_w(params, csum_base_w, params->wots_len2, csum_bytes);
 }
-- 
2.43.0


From 942e63aab49a009c68da651df75a826cb99f025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 09/12] fix: store the advanced index before the rest of the
 key state

When power was lost while ui/sign updated the key file, the old index could
remain together with parts of the new state of a hypertree key. Signing then
went on from that index and used the one-time key of an upper layer for a
second, different value.
---
 ui/sign.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ui/sign.c b/ui/sign.c
index 7f5d1f1..51cc33c 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -111,10 +111,17 @@ int main(int argc, char **argv) {
     }
 
     /* The updated state has to be stored safely before the signature leaves
-       this process; otherwise a one-time key could be used again. */
+       this process; otherwise a one-time key could be used again. The index
+       goes first: when the rest is only partly stored, signing must not
+       continue from the old index with a mixture of old and new state. */
     if (fseek(keypair_file, -((long int)params.sk_bytes), SEEK_CUR)
-        || fwrite(sk + XMSS_OID_LEN, 1, params.sk_bytes, keypair_file)
-            != params.sk_bytes
+        || fwrite(sk + XMSS_OID_LEN, 1, params.index_bytes, keypair_file)
+            != params.index_bytes
+        || fflush(keypair_file)
+        || fsync(fileno(keypair_file))
+        || fwrite(sk + XMSS_OID_LEN + params.index_bytes, 1,
+                  params.sk_bytes - params.index_bytes, keypair_file)
+            != params.sk_bytes - params.index_bytes
         || fflush(keypair_file)
         || fsync(fileno(keypair_file))) {
         fprintf(stderr, "Could not update secret key.\n");
-- 
2.43.0


From 22229379e1f753edd7bdc91bc26a4489518d5d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 10/12] fix: check every fseek in ui/sign and ui/open

When seeking to the end of the message failed, ui/sign signed an empty message
and exited with 0.
---
 ui/open.c | 11 ++++++++---
 ui/sign.c | 20 +++++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/ui/open.c b/ui/open.c
index 5f9d759..1c4d275 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -47,7 +47,12 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(sm_file, 0, SEEK_END);
+    if (fseek(sm_file, 0, SEEK_END)) {
+        fprintf(stderr, "Could not read signature + message file.\n");
+        fclose(keypair_file);
+        fclose(sm_file);
+        return -1;
+    }
     smlen = ftell(sm_file);
 
     fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
@@ -65,9 +70,9 @@ int main(int argc, char **argv) {
     unsigned char *m = malloc(smlen);
     unsigned long long mlen;
 
-    fseek(keypair_file, 0, SEEK_SET);
-    fseek(sm_file, 0, SEEK_SET);
     if (m == NULL || sm == NULL
+        || fseek(keypair_file, 0, SEEK_SET)
+        || fseek(sm_file, 0, SEEK_SET)
         || fread(pk, 1, XMSS_OID_LEN + params.pk_bytes, keypair_file)
             != XMSS_OID_LEN + params.pk_bytes
         || fread(sm, 1, smlen, sm_file) != smlen) {
diff --git a/ui/sign.c b/ui/sign.c
index 51cc33c..87189ce 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -57,7 +57,12 @@ int main(int argc, char **argv) {
     }
 
     /* Find out the message length. */
-    fseek(m_file, 0, SEEK_END);
+    if (fseek(m_file, 0, SEEK_END)) {
+        fprintf(stderr, "Could not read message file.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     mlen = ftell(m_file);
 
     /* Read the OID from the public key, as we need its length to seek past it */
@@ -73,7 +78,12 @@ int main(int argc, char **argv) {
     }
 
     /* fseek past the public key */
-    fseek(keypair_file, params.pk_bytes, SEEK_CUR);
+    if (fseek(keypair_file, params.pk_bytes, SEEK_CUR)) {
+        fprintf(stderr, "Could not read secret key.\n");
+        fclose(keypair_file);
+        fclose(m_file);
+        return -1;
+    }
     /* This is the OID we're actually going to use. Likely the same, but still. */
     fread(&buffer, 1, XMSS_OID_LEN, keypair_file);
     oid_sk = (uint32_t)bytes_to_ull(buffer, XMSS_OID_LEN);
@@ -90,10 +100,10 @@ int main(int argc, char **argv) {
     unsigned char *sm = malloc(params.sig_bytes + mlen);
     unsigned long long smlen;
 
-    /* fseek back to start of sk. */
-    fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR);
-    fseek(m_file, 0, SEEK_SET);
+    /* fseek back to start of sk, and of the message. */
     if (m == NULL || sm == NULL
+        || fseek(keypair_file, -((long int)XMSS_OID_LEN), SEEK_CUR)
+        || fseek(m_file, 0, SEEK_SET)
         || fread(sk, 1, XMSS_OID_LEN + params.sk_bytes, keypair_file)
             != XMSS_OID_LEN + params.sk_bytes
         || fread(m, 1, mlen, m_file) != mlen) {
-- 
2.43.0


From e0b2907588dc28856c7192292fb1501f5ebdbeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 11/12] fix: ui/sign: refuse to run without stdout and stderr

With one of them closed the keypair file got its file descriptor, and the
signature or an error message was written into the keypair file.
---
 ui/sign.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ui/sign.c b/ui/sign.c
index 87189ce..a373b93 100644
--- a/ui/sign.c
+++ b/ui/sign.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <fcntl.h>
 #include <sys/file.h>
 #include <unistd.h>
 
@@ -36,6 +37,13 @@ int main(int argc, char **argv) {
         return -1;
     }
 
+    /* Otherwise the keypair file would take the place of a closed stdout or
+       stderr, and have the signature or error messages written into it. */
+    if (fcntl(STDOUT_FILENO, F_GETFD) == -1
+        || fcntl(STDERR_FILENO, F_GETFD) == -1) {
+        return -1;
+    }
+
     keypair_file = fopen(argv[1], "r+b");
     if (keypair_file == NULL) {
         fprintf(stderr, "Could not open keypair file.\n");
-- 
2.43.0


From 9e7e8c26e190cee96d09ce9e8c22caa579d97bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 12/12] fix: ui/open: do not exit with success when the result
 cannot be written

---
 ui/open.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ui/open.c b/ui/open.c
index 1c4d275..146d32e 100644
--- a/ui/open.c
+++ b/ui/open.c
@@ -92,6 +92,10 @@ int main(int argc, char **argv) {
     else {
         printf("Verification succeeded.\n");
     }
+    if (fflush(stdout) && !ret) {
+        fprintf(stderr, "Could not write the result.\n");
+        ret = -1;
+    }
 
     fclose(keypair_file);
     fclose(sm_file);
-- 
2.43.0

