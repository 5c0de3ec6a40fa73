From 759dbcb52b8736f0232be72c1d35750a40b45d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 01/41] fix: reject frames whose control header does not fit in
 the data block

The data_block_offset of the product definition header was not compared with
the size of the data block, so that a frame could yield a negative data size
and a data pointer outside of the frame buffer.
---
 src/sbn.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sbn.c b/src/sbn.c
index 01e48f4..1d6b1dd 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -204,6 +204,13 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
        */
       return(2);
     }
+
+    if(sbnf->ctrlhdr_size > sbnf->pdh.data_block_size){
+      /*
+       * The ctrlhdr would extend beyond the data block (and the frame).
+       */
+      return(2);
+    }
   }
 
   blkdata_offset += sbnf->ctrlhdr_size;
-- 
2.43.0


From 0d5f6fbbefe27a54da9264503172ca118be97cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 02/41] fix: an oversized control header must not abort the
 daemon

---
 src/sbn.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 1d6b1dd..f6c0c94 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -5,7 +5,6 @@
  *
  * $Id$
  */
-#include <assert.h>
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
@@ -343,11 +342,9 @@ int copy_ctrlheader(char *ctrlheader, int *ctrlheader_size,
   if(sbnf->ctrlhdr_size > allocatedsize){
     /*
      * If the actual size is larger than the allocated size passed to
-     * the function, we treat it is a non existent, although this is a bug
-     * in the allocation of the size of the buffer.
+     * the function, we treat it is a non existent. (The size comes from
+     * the frame, so it must not be asserted.)
      */
-    assert(allocatedsize >= sbnf->ctrlhdr_size);
-
     return(1);
   }
 
-- 
2.43.0


From 99bfc2f7c188bd8fbb31033018085004a6191908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 03/41] fix: do not scan the wmo header past the end of the
 data block

---
 src/const.h |  1 +
 src/sbn.c   | 26 +++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/const.h b/src/const.h
index 19289b9..95ff71e 100644
--- a/src/const.h
+++ b/src/const.h
@@ -39,6 +39,7 @@
 /* #define WMO_AWIPS_SIZE	6	   xxxxxx (common.h) */
 #define WMO_NOTAWIPS_SIZE	6	/* maximum */
 #define WMO_BBB_SIZE		6	/* maximum (2024 - for the goesr) */
+#define WMO_LINE_SIZE		64	/* enough for the first line */
 #define FSEQNUM_SIZE		10	/* seqnum & ffffffff */
 #define FSEQKEY_SIZE		17	/* ddhhmm_seqnum[10] */
 #define FBASENAME_SIZE		36	/* fname[18].fseqkey[17] */
diff --git a/src/sbn.c b/src/sbn.c
index f6c0c94..ae800b9 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -385,6 +385,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    */
   char *wmo;
   char wmobbb[WMO_BBB_SIZE + 1];	/* 6 + 1 */
+  char wmoline[WMO_LINE_SIZE + 1];
   int count_blanks;
   int i;
   int b;
@@ -416,21 +417,36 @@ int split_wmo_header(struct sbn_frame *sbnf,
   }
 
   /* In case we find nothing */
-  memset(wmo_id, '\0', WMO_ID_SIZE);
+  memset(wmo_id, '\0', WMO_ID_SIZE + 1);
   memset(wmo_station, '\0', WMO_STATION_SIZE + 1);
   memset(wmo_time, '\0', WMO_TIME_SIZE + 1);
   memset(wmobbb, '\0', WMO_BBB_SIZE + 1);
   memset(wmo_awips, '\0', WMO_AWIPS_SIZE + 1);
   memset(wmo_notawips, '\0', WMO_NOTAWIPS_SIZE + 1);
 
+  /*
+   * The data is not nul-terminated; the scanning below must not go past
+   * the end of it.
+   */
+  n = data_size;
+  if(n > WMO_LINE_SIZE)
+    n = WMO_LINE_SIZE;
+
+  if(n > 0)
+    memcpy(wmoline, wmo, n);
+  else
+    n = 0;
+
+  wmoline[n] = '\0';
+
   /* Count how many parts the wmo header has */
   count_blanks = count_char(wmo, data_size, ' ');
   if(count_blanks == 3) {
-    if(sscanf(wmo, "%6s %4s %6s %6s",
+    if(sscanf(wmoline, "%6s %4s %6s %6s",
 	      wmo_id, wmo_station, wmo_time, wmobbb) < 4)
       return(1);
   } else if(count_blanks == 2) {
-    if(sscanf(wmo, "%6s %4s %6s",
+    if(sscanf(wmoline, "%6s %4s %6s",
 	      wmo_id, wmo_station, wmo_time) < 3)
       return(1);
   } else
@@ -443,7 +459,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
    * start of the awips line, if any
    */
   i = 0;
-  while((*wmo != '\n') && (i < data_size)){
+  while((i < data_size) && (*wmo != '\n')){
      ++wmo;
      ++i;
   }
@@ -487,7 +503,7 @@ int split_wmo_header(struct sbn_frame *sbnf,
   }
 
   n = data_size - (i + 1);
-  if((wmo[8] == '\n') && (n >= 9)){
+  if((n >= 9) && (wmo[8] == '\n')){
     if(sscanf(wmo, "%6s", wmo_awips) != 1)
       wmo_awips[0] = '\0';
   }else{
-- 
2.43.0


From 09b5b2cc6c676f157cd7a33fa351ab4bb9cb747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 04/41] fix: keep only letters and digits from the awips line,
 as it is used in file names

---
 src/sbn.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sbn.c b/src/sbn.c
index ae800b9..7f71913 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -506,6 +506,13 @@ int split_wmo_header(struct sbn_frame *sbnf,
   if((n >= 9) && (wmo[8] == '\n')){
     if(sscanf(wmo, "%6s", wmo_awips) != 1)
       wmo_awips[0] = '\0';
+
+    /* It becomes part of the file name; keep only the valid characters */
+    b = 0;
+    while(isalnum((unsigned char)wmo_awips[b]) != 0)
+      ++b;
+
+    wmo_awips[b] = '\0';
   }else{
     b = 0;
     while((b < WMO_NOTAWIPS_SIZE) && (b < n)){
-- 
2.43.0


From 7622fa09bf6df337845b891866937c5a0fc18851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 05/41] fix: a product with sequence number 0 must not be taken
 for an inactive one

---
 src/pctl.c | 21 +++++++++++++++++----
 src/pctl.h |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pctl.c b/src/pctl.c
index ada77c0..df01b2b 100644
--- a/src/pctl.c
+++ b/src/pctl.c
@@ -21,6 +21,7 @@ static void destroy_pce_array(struct pctl_element_st **pcearray,
 			      int numchannels);
 
 static void pctldb_log_err(char *s, int dberror);
+static int is_active_pce(struct pctl_element_st *pce, unsigned int seqnumber);
 
 static void pctldb_log_err(char *s, int dberror){
 
@@ -313,7 +314,7 @@ struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
   if((channel_index < 0) || (channel_index >= pctl->num_activechannels))
     return(NULL);
 
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(is_active_pce(pctl->activepce[i], seqnumber) == 0)
     return(NULL);
 
   return(pctl->activepce[i]);
@@ -332,7 +333,7 @@ int update_activepce_framecounter(struct pctl_st *pctl,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(is_active_pce(pctl->activepce[i], seqnumber) == 0)
     status = 1;
   else{
     if(block_number == (pctl->activepce[i])->recv_fragments){
@@ -364,7 +365,7 @@ int complete_activepce(struct pctl_st *pctl, int channel_index,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if(is_active_pce(pctl->activepce[i], seqnumber) == 0)
     status = 1;
   else{
     if((pctl->activepce[i])->num_fragments > 
@@ -426,6 +427,7 @@ struct pctl_element_st *create_pce(size_t memfile_size){
     return(NULL);
   }
 
+  pce->f_active = 0;
   pce->seq_number = 0;
   pce->fpath_size = const_fpath_maxsize() + 1;
 
@@ -451,12 +453,22 @@ int open_pce(struct pctl_element_st *pce){
   
   int status = 1;
 
-  if(pce->seq_number == 0)
+  if(pce->f_active == 0){
     status = open_memfile(pce->mf);
+    if(status == 0)
+      pce->f_active = 1;
+  }
 
   return(status);
 }
 
+static int is_active_pce(struct pctl_element_st *pce, unsigned int seqnumber){
+  /*
+   * All the values of the sequence number are valid, including 0.
+   */
+  return((pce->f_active != 0) && (pce->seq_number == seqnumber));
+}
+
 void close_pce(struct pctl_element_st *pce){
 
   assert(pce != NULL);
@@ -467,6 +479,7 @@ void close_pce(struct pctl_element_st *pce){
   if(pce->mf != NULL)
     close_memfile(pce->mf);
 
+  pce->f_active = 0;
   pce->seq_number = 0;  
 }
   
diff --git a/src/pctl.h b/src/pctl.h
index 0b7af1e..3326499 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -17,6 +17,7 @@
 #include "const.h"
 
 struct pctl_element_st {
+  int f_active;		    /* 1 while it is open (being received) */
   int f_complete;	    /* 0 = missing frames */
   int num_fragments;	    /* number of fragments this product was divided */
   int recv_fragments;	    /* number of fragments received */
-- 
2.43.0


From d3c214e2a4240fb470017f8910fcfd6dcf0bba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 06/41] fix: the END of a product that is not active must not
 discard the active one

---
 src/framep.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framep.c b/src/framep.c
index d768fa8..3777585 100644
--- a/src/framep.c
+++ b/src/framep.c
@@ -489,8 +489,12 @@ static int e_end_activepce(struct sbn_frame *sbnf){
   assert(status != -1);
 
   if(status == 1){
+    /*
+     * If there is an active pce it is for another product; leave it alone.
+     */
     log_verbose(3, "END: %u not active on %d.", sbnf->pdh.product_seq_number,
 		sbnf->np_channel_index);
+    return(status);
   }else{
     if(status == 0)
 	update_stats_products_completed();
-- 
2.43.0


From e53856fb277f7f1b202a92a14c7d4a12a91f0fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:25 +0000
Subject: [PATCH 07/41] fix: leave out the ccb in the data base spools too when
 so configured

---
 src/nbsp.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 057c86e..a61ce95 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -863,15 +863,19 @@ static int pce_savembdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  char *p;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      p += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_mspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_mspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
@@ -880,15 +884,19 @@ static int pce_savecbdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
   size_t size;
+  char *p;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      p += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_cspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_cspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
-- 
2.43.0


From c4c3cae4c99dd88f41875252a656f19cd316c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 08/41] fix: enforce the hard limit of the pctl queue also when
 it starts above it

---
 src/pctldb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index c3da7e1..d052dd6 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -424,7 +424,7 @@ static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size){
   }
 
   if(pctldb->hardlimit > 0){
-    if(pctldb->n == pctldb->hardlimit)
+    if(pctldb->n >= pctldb->hardlimit)
       return(1);
   }
 
-- 
2.43.0


From 5ccbfe0d04fb7ec9d7fbc76501ac5fe1e6661a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 09/41] fix: normalise the deadline of the timed waits on the
 queues

---
 src/libqdb/qdb.c | 5 +++++
 src/pctldb.c     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 87690b5..eccf327 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -552,4 +552,9 @@ static void queue_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
diff --git a/src/pctldb.c b/src/pctldb.c
index d052dd6..148d724 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -466,4 +466,9 @@ static void pctldb_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
-- 
2.43.0


From 630e57df5f88bfeb8f93017cadf170b8278887d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 10/41] fix: return the error code when waiting on a queue
 fails

---
 src/libqdb/qdb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index eccf327..52ca049 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -213,8 +213,8 @@ int nbspqt_rcv(nbspqtable_t *qtable, int type,
     if(status == ETIMEDOUT)
       status = 1;
     else{
-      status = -1;
       *dberror = status;
+      status = -1;
     }
   }else
     status = qdb_rcv(nbspq, data, data_size, dberror);
-- 
2.43.0


From b03cb8e8b9a4789eb13734fb33d2e329694cd417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 11/41] fix: report a failure to open the pctl queue instead of
 crashing

---
 src/pctldb.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 148d724..d1ad016 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -93,7 +93,7 @@ int pctldb_open(struct pctldb_st **pctldb,
     status = pctlmfdb_stat(p, dberror);
 
   if(status != 0){
-    if(p->mfdbp != NULL)
+    if((p != NULL) && (p->mfdbp != NULL))
       pctlmfdb_close(p, &dberror_close);	/* error ignored here if any */
 
     if(dbp != NULL)
@@ -102,7 +102,6 @@ int pctldb_open(struct pctldb_st **pctldb,
     if(p != NULL)
       free(p);
 
-    *dberror = status;
     status = -1;
   }
 
-- 
2.43.0


From f879c500e212be583a76c527bad1cda931317366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:13 +0000
Subject: [PATCH 12/41] fix: the key of a queued product must be unique also
 when the clock is set back

---
 src/pctldb.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index d1ad016..7f0a66c 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -295,13 +295,19 @@ int pctldb_send_pce(struct pctldb_st *pctldb,
 
   /*
    * If the clock resolution is not enough to separate this product from
-   * the last one, we resolve it manually. This is required in cygwin,
-   * where the resolution is only ms. Perhaps the best is to
+   * the last one, or the clock was set back, we resolve it manually.
+   * This is required in cygwin, where the resolution is only ms. Perhaps the best is to
    * use a sequence number instead of the tsqueue.
    */
-  if(pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec){
-    if(pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec)
-      pce->tsqueue.tv_nsec = pctldb->last_tsqueue.tv_nsec + 1;
+  if((pce->tsqueue.tv_sec < pctldb->last_tsqueue.tv_sec) ||
+     ((pce->tsqueue.tv_sec == pctldb->last_tsqueue.tv_sec) &&
+      (pce->tsqueue.tv_nsec <= pctldb->last_tsqueue.tv_nsec))){
+    pce->tsqueue.tv_sec = pctldb->last_tsqueue.tv_sec;
+    pce->tsqueue.tv_nsec = pctldb->last_tsqueue.tv_nsec + 1;
+    if(pce->tsqueue.tv_nsec >= 1000000000){
+      ++pce->tsqueue.tv_sec;
+      pce->tsqueue.tv_nsec = 0;
+    }
   }
   memcpy(&pctldb->last_tsqueue, &pce->tsqueue, sizeof(struct timespec));
   
-- 
2.43.0


From d3bc358bc85d45fa6119d16a41816bc21baa6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:52 +0000
Subject: [PATCH 13/41] fix: strsplit_recreate ignored the new string when
 reusing the old storage and dereferenced a null pointer when it could not be
 allocated

---
 filters/ldmfilter/nbsp2ldm/src/strsplit.c | 8 ++++++--
 src/strsplit.c                            | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/filters/ldmfilter/nbsp2ldm/src/strsplit.c b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
index 6d56441..fb59417 100644
--- a/filters/ldmfilter/nbsp2ldm/src/strsplit.c
+++ b/filters/ldmfilter/nbsp2ldm/src/strsplit.c
@@ -52,13 +52,17 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
+  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s))){
     new_strp = strp;
-  else{
+    strcpy(new_strp->sp, s);
+    new_strp->argc = n;
+  }else{
     if(strp != NULL)
       strsplit_delete(strp);
 
     new_strp = strsplit_init(n, s);
+    if(new_strp == NULL)
+      return(NULL);
   }
 
   strsplit(new_strp, delim, flags);
diff --git a/src/strsplit.c b/src/strsplit.c
index ec1017b..067fd8e 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -52,13 +52,17 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
   if((b != 0) || (flags == STRSPLIT_FLAG_INCEMPTY))
     ++n;
 
-  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s)))
+  if((strp != NULL) && (strp->argc >= n) && (strlen(strp->sp) >= strlen(s))){
     new_strp = strp;
-  else{
+    strcpy(new_strp->sp, s);
+    new_strp->argc = n;
+  }else{
     if(strp != NULL)
       strsplit_delete(strp);
 
     new_strp = strsplit_init(n, s);
+    if(new_strp == NULL)
+      return(NULL);
   }
 
   strsplit(new_strp, delim, flags);
-- 
2.43.0


From d3039523830cbcb1d0d7cd01bb2aeeaaa129b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:52 +0000
Subject: [PATCH 14/41] fix: numbers beyond the range of the result were
 accepted by strto_int and strto_uint

---
 filters/filterlib/c/util.c | 14 ++++++++------
 src/stoi.c                 | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/filters/filterlib/c/util.c b/filters/filterlib/c/util.c
index 06cfee6..ad6eec0 100644
--- a/filters/filterlib/c/util.c
+++ b/filters/filterlib/c/util.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
-  v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  v = strtoll(s, &end, 10);
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
@@ -39,14 +40,15 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  long long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
-  v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  v = strtoll(s, &end, 10);
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < 0) || (v > UINT_MAX))
     status = 1;
   
   if(status == 0)
diff --git a/src/stoi.c b/src/stoi.c
index 8ea8124..ac5a5e2 100644
--- a/src/stoi.c
+++ b/src/stoi.c
@@ -17,14 +17,15 @@ int strto_int(char *s, int *val){
 
   char *end;
   int status = 0;
-  int v;
+  long long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
-  v = strtol(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  v = strtoll(s, &end, 10);
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < INT_MIN) || (v > INT_MAX))
     status = 1;
   
   if(status == 0)
@@ -39,14 +40,15 @@ int strto_uint(char *s, unsigned int *val){
 
   char *end;
   int status = 0;
-  unsigned int v;
+  long long v;
   int save_errno;
  
   save_errno = errno;
   errno = 0;
 
-  v = strtoul(s, &end, 10);
-  if((end == s) || (*end != '\0') || (errno != 0))
+  v = strtoll(s, &end, 10);
+  if((end == s) || (*end != '\0') || (errno != 0) ||
+     (v < 0) || (v > UINT_MAX))
     status = 1;
   
   if(status == 0)
-- 
2.43.0


From d36f5cef275a62859ca3946786b6abaf97d8a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:35 +0000
Subject: [PATCH 15/41] fix: data arriving right after the timeout of a fifo
 read was thrown away

---
 src/nreadn.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/nreadn.c b/src/nreadn.c
index 8c9a69d..7dd0f1c 100644
--- a/src/nreadn.c
+++ b/src/nreadn.c
@@ -231,11 +231,14 @@ ssize_t readn_fifo(int fd, void *buf, size_t size, unsigned int secs){
    * here we make another read() without calling poll.
    */ 
   ssize_t n;
+  ssize_t m;
 
   n = readn(fd, buf, size, secs, 0);
   if(n == -2){
-    if(read(fd, buf, size) == 0)
-      n = 0;
+    /* m > 0 if something arrived after poll timed out */
+    m = read(fd, buf, size);
+    if(m >= 0)
+      n = m;
   }
 
   return(n);
@@ -246,11 +249,14 @@ ssize_t readm_fifo(int fd, void *buf, size_t size, unsigned int msecs){
    * Similar as above.
    */ 
   ssize_t n;
+  ssize_t m;
 
   n = readm(fd, buf, size, msecs, 0);
   if(n == -2){
-    if(read(fd, buf, size) == 0)
-      n = 0;
+    /* m > 0 if something arrived after poll timed out */
+    m = read(fd, buf, size);
+    if(m >= 0)
+      n = m;
   }
 
   return(n);
-- 
2.43.0


From 65137ec1b8ee4cd366e31b0d59747d653fd90aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:44 +0000
Subject: [PATCH 16/41] fix: a filter which did not reply in time was taken as
 having replied

---
 src/pfilter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pfilter.c b/src/pfilter.c
index 5b7beab..9704499 100644
--- a/src/pfilter.c
+++ b/src/pfilter.c
@@ -82,7 +82,7 @@ int pfilter_read(struct pfilter_st *filterp,
   n = readn_fifo(filterp->fifofd, buffer, size, filterp->secs);
   if(n == -1)
     return(-1);
-  else if((size_t)n < size)
+  else if((n < 0) || ((size_t)n < size))	/* n = -2 if timed out */
     return(1);
 
   return(0);
-- 
2.43.0


From 10b52bac0f7f72e2ccc8f14f4035556e41f2fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:35 +0000
Subject: [PATCH 17/41] fix: a data size near the top of the range made the
 nbs1 client write past its buffer

---
 src/nbs1r.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index b832b64..4e63932 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -62,6 +62,7 @@ int unpack_nbs1_header(struct nbs1_packet_st *nbs){
   nbs->np_channel_index = p[7];
   p += 8;
   strncpy(nbs->fbasename, (char*)p, FBASENAME_SIZE + 1);
+  nbs->fbasename[FBASENAME_SIZE] = '\0';
   p += FBASENAME_SIZE + 1;
   nbs->f_zip = p[0];
   nbs->num_blocks = unpack_uint16(p, 1);  
@@ -120,8 +121,9 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   data_size = unpack_uint32(p, 4);
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
-  /* assert(data_size + NBS_ENVELOPE_SIZE <= NBS1_PACKET_MAXSIZE); */
-  if(data_size + NBS_ENVELOPE_SIZE > NBS1_PACKET_MAXSIZE)
+  /* assert(data_size <= NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE); */
+  if((data_size < NBS1_HEADER_SIZE) ||
+     (data_size > NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE))
     return(1);
 
   n = readn(fd, &nbs->packet[NBS_ENVELOPE_SIZE], data_size, timeout_s, retry);
-- 
2.43.0


From eef073cf33867ab71f91caf617b3ddc957819613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:05 +0000
Subject: [PATCH 18/41] fix: a data size near the top of the range made the
 nbs2 client write past its buffer

---
 src/packfp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packfp.c b/src/packfp.c
index f5bc322..3dbf5c0 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -192,8 +192,8 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   data_size = unpack_uint32(p, 4);
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
-  /* assert(data_size + NBS_ENVELOPE_SIZE <= packetinfo->packet_size); */
-  if(data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
+  /* assert(data_size <= packetinfo->packet_size - NBS_ENVELOPE_SIZE); */
+  if(data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE)
     return(1);
 
   p += NBS_ENVELOPE_SIZE;
-- 
2.43.0


From cc65a69e5d61d10a4c1258057c885b3f842a383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:05 +0000
Subject: [PATCH 19/41] fix: reject a packed file name whose size or strings go
 beyond the packet

---
 src/packfpu.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/packfpu.c b/src/packfpu.c
index 2dcd37c..b8a3465 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -26,7 +26,7 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
   int status = 0;
   unsigned int dataid;
-  int data_size;
+  uint32_t data_size;
   uint32_t transmitted_checksum;
   uint32_t calculated_checksum;
   char *p;
@@ -41,6 +41,15 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
   data_size = unpack_uint32(p, 4);
   transmitted_checksum = unpack_uint32(p, 8);
 
+  /*
+   * The data must be within the packet, and contain at least the product
+   * codes, the fname and the terminator of the fpath.
+   */
+  if((packetinfo->packet_size < NBS_ENVELOPE_SIZE) ||
+     (data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE) ||
+     (data_size < 8 + FNAME_SIZE + 1 + 1))
+    return(1);
+
   /*
    * The rest of the message (data_size) is the full path name of the file 
    * (including a trailing '\0'), preceeded by the product data codes
@@ -53,6 +62,12 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
     return(1);
   }
 
+  /*
+   * Both names must be terminated inside the data.
+   */
+  if((p[8 + FNAME_SIZE] != '\0') || (p[data_size - 1] != '\0'))
+    return(1);
+
   /*
    *  p[0-7] contain the product specific data, defined above:
    *
-- 
2.43.0


From 63e227bc20c22b576867c361ac291a535d953af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:05 +0000
Subject: [PATCH 20/41] fix: product codes above 127 became negative in the
 filters and clients queues

---
 src/packfpu.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packfpu.c b/src/packfpu.c
index b8a3465..6e01235 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -81,10 +81,10 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
 
   packetinfo->seq_number = unpack_uint32(p, 0);
-  packetinfo->psh_product_type = p[4];
-  packetinfo->psh_product_category = p[5];
-  packetinfo->psh_product_code = p[6];
-  packetinfo->np_channel_index = p[7];
+  packetinfo->psh_product_type = (unsigned char)p[4];
+  packetinfo->psh_product_category = (unsigned char)p[5];
+  packetinfo->psh_product_code = (unsigned char)p[6];
+  packetinfo->np_channel_index = (unsigned char)p[7];
 
   p += 8;
   packetinfo->fname = p;
-- 
2.43.0


From 8716db45a0529a84a93945d1df7fd95f1207c3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:05 +0000
Subject: [PATCH 21/41] fix: the name matched against the queue filters was not
 set in the infifo reader

---
 src/packfp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/packfp.c b/src/packfp.c
index 3dbf5c0..c1b446d 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -40,8 +40,8 @@ int nbsfp_pack_fpath(struct packet_info_st *packetinfo,
    *
    *  This is preceeded by the envelope (see below).
    *
-   *  The fpath is just a reference to the starting point of the fpath
-   *  inside the packet and not a separate malloced storage.
+   *  The fname and fpath are just references to their starting points
+   *  inside the packet and not separate malloced storage.
    *
    *  It is assumed that the calling function has allocated space
    *  of the precise size, by calling ``nbsfp_packetinfo_init()''.
@@ -68,6 +68,7 @@ int nbsfp_pack_fpath(struct packet_info_st *packetinfo,
 
   packetp = (char*)packetinfo->packet;
   data = &(packetp[NBS_ENVELOPE_SIZE]);
+  packetinfo->fname = &(data[8]);
   packetinfo->fpath = &(data[NBSFP_PINFO_SIZE]);
 
   packetinfo->seq_number = pce->seq_number;
-- 
2.43.0


From 5a18e898f6312a6daf7550003bb1dd6852059e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:27 +0000
Subject: [PATCH 22/41] fix: a negative size in the infifo made the reader
 write past its buffer

---
 src/slavein/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 38541ce..39ff52a 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -41,6 +41,12 @@ struct slavein_info_st {
  * psh_product_code, fname, fpath.
  */
 
+/*
+ * A limit on the size of the file info string, well above what the five
+ * numbers, an fname and an fpath can take.
+ */
+#define SLAVEIN_FINFO_MAXSIZE	8192
+
 static int slavein_info_create(struct slavein_info_st **slavein_info);
 static void slavein_info_destroy(struct slavein_info_st *slavein_info);
 static int recv_in_packet(struct slave_element_st *slave);
@@ -216,6 +222,9 @@ static int recv_in_packet(struct slave_element_st *slave){
     return(status);
 
   finfo_size = unpack_uint32(finfo_size_buf, 0);
+  if((finfo_size <= 0) || (finfo_size > SLAVEIN_FINFO_MAXSIZE))
+    return(1);
+
   if(slavein_info->buffer_size < finfo_size + 1){
     if(slavein_info->buffer != NULL)
       free(slavein_info->buffer);
-- 
2.43.0


From 2abc492bda40b46dbb8787cc8fd2da9dad94761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:28 +0000
Subject: [PATCH 23/41] fix: reject a product name with directories in it from
 a master

---
 src/slavenbs/framep.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index eef245e..42314ab 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -309,6 +309,12 @@ static int split_fbasename(struct pctl_element_st *pce){
 
   strncpy(fbasename, pce->fbasename, FBASENAME_SIZE + 1);
 
+  /*
+   * It must be a name, and not a path to somewhere else.
+   */
+  if(strchr(fbasename, '/') != NULL)
+    return(1);
+
   p2 = strchr(fbasename, '.');
   if(p2 == NULL)
     return(1);
-- 
2.43.0


From 927e01a9a186e99eda7cab6bd1f2fa3e879e50bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:30 +0000
Subject: [PATCH 24/41] fix: a file of more than 65535 frames was sent with
 wrapped block numbers

---
 tools/nbspmcast/sbnpack/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/nbspmcast/sbnpack/file.c b/tools/nbspmcast/sbnpack/file.c
index cab5f29..b6f6790 100644
--- a/tools/nbspmcast/sbnpack/file.c
+++ b/tools/nbspmcast/sbnpack/file.c
@@ -6,6 +6,7 @@
 #include <sys/stat.h>
 #include <string.h>
 #include <limits.h>
+#include <stdint.h>
 /* #include <stdio.h> */
 #include "sbnpack.h"
 #include "sbn.h"
@@ -26,7 +27,7 @@ static int get_file_stat_size(char *fname, int *fsize){
     return(-1);
   
   ofsize = sb.st_size;
-  if(ofsize > INT_MAX)
+  if(ofsize > INT_MAX - CCB_SIZE)	/* the ccb is added below */
     return(1);
 
   *fsize = (int)ofsize;
@@ -60,6 +61,10 @@ int get_file_frame_params(int blocksize, int fsize,
   last_datablock_size = fsize - nframes*blocksize;
   ++nframes;
 
+  /* The number of frames and the block numbers are sent in two bytes */
+  if(nframes > UINT16_MAX)
+    return(1);
+
   *nframes_ptr = nframes;
   *last_datablock_size_ptr = last_datablock_size;
 
-- 
2.43.0


From c0f3ff09ad50f91bf77966dfc20303553e652406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:35 +0000
Subject: [PATCH 25/41] fix: the cache size of the queue data bases was not
 initialised

---
 src/nbspq.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nbspq.c b/src/nbspq.c
index 62fb235..e08c96f 100644
--- a/src/nbspq.c
+++ b/src/nbspq.c
@@ -88,6 +88,7 @@ int init_nbspq(void){
 
   qdbparam.mode = g.dbfile_mode;
   qdbparam.extent_size = g.dbextent_size;
+  qdbparam.cache_mb = g.dbcache_mb;
   qdbparam.reclen = data_size;
 
   if(status == 0){
-- 
2.43.0


From 30f2724e1bee856cf278e72e7479a42117d42b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:21 +0000
Subject: [PATCH 26/41] fix: the maximum latitude of the bounding box of a
 radar product was not initialised

---
 filters/filterlib/c/dcnids/dcnids_transform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_transform.c b/filters/filterlib/c/dcnids/dcnids_transform.c
index 834797d..faaab5e 100644
--- a/filters/filterlib/c/dcnids/dcnids_transform.c
+++ b/filters/filterlib/c/dcnids/dcnids_transform.c
@@ -77,7 +77,7 @@ void dcnids_polygonmap_bb(struct dcnids_polygon_map_st *pm){
   pm->lon_min = 180.0;
   pm->lon_max = -180.0;
   pm->lat_min = 180.0;
-  pm->lon_max = -180.0;
+  pm->lat_max = -180.0;
   
   for(j = 0; j < pm->numpolygons; ++j){
     for(i = 0; i < 4; ++i){
-- 
2.43.0


From a18be8e755ab30a3dd697bbda57a94f072b98c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:21 +0000
Subject: [PATCH 27/41] fix: the time of radar products overflowed after the
 year 2038

---
 filters/filterlib/c/dcnids/dcnids_header.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_header.c b/filters/filterlib/c/dcnids/dcnids_header.c
index cdf7e51..36c6378 100644
--- a/filters/filterlib/c/dcnids/dcnids_header.c
+++ b/filters/filterlib/c/dcnids/dcnids_header.c
@@ -120,7 +120,7 @@ int dcnids_decode_header(struct nids_header_st *nheader){
   /* derived */
   nheader->lat = ((double)nheader->pdb_lat)/1000.0;
   nheader->lon = ((double)nheader->pdb_lon)/1000.0;
-  nheader->unixseconds = nheader->m_days * 24 * 3600 + nheader->m_seconds;
+  nheader->unixseconds = (time_t)nheader->m_days * 24 * 3600 + nheader->m_seconds;
 
   (void)gmtime_r(&nheader->unixseconds, &tm);
   nheader->year = tm.tm_year + 1900;
-- 
2.43.0


From 059d73137514c17a8836f44d3f62eb8dc307d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:21 +0000
Subject: [PATCH 28/41] fix: a corrupt radar product made the decoder read
 beyond its data

---
 .../filterlib/c/dcnids/dcnids_decode_digital_radials_16.c  | 7 +++++++
 filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c    | 7 +++++++
 filters/filterlib/c/dcnids/nbspradgis.c                    | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
index c0285bd..01313bd 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_digital_radials_16.c
@@ -385,6 +385,7 @@ static void nids_decode_digital_radials_16_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_16(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *bend = nd->data + nd->data_size;
   struct nids_digital_radial_packet_st radial_packet;
   int i, j;
   int run_code, run_bins, total_bins;
@@ -408,11 +409,17 @@ static void nids_count_polygons_radials_16(struct nids_data_st *nd){
   numpolygons = 0;
 
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(bend - b < 6)
+      log_errx(1, "File is corrupt (short)");
+
     radial_packet.num_bytes = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
     b += 6;
 
+    if(bend - b < radial_packet.num_bytes)
+      log_errx(1, "File is corrupt (short)");
+
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
 
diff --git a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
index 2f5336f..9abe66a 100644
--- a/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
+++ b/filters/filterlib/c/dcnids/dcnids_decode_radials_af1f.c
@@ -442,6 +442,7 @@ static void nids_decode_radials_af1f_grided(struct nids_data_st *nd){
 static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   unsigned char *b = nd->data;
+  unsigned char *bend = nd->data + nd->data_size;
   struct nids_radial_packet_st radial_packet;
   int i, j;
   /* int run_code, run_bins, total_bins; */
@@ -467,11 +468,17 @@ static void nids_count_polygons_radials_af1f(struct nids_data_st *nd){
 
   numpolygons = 0;
   for(i = 0; i < nd->radial_packet_header.numradials; ++i){
+    if(bend - b < 6)
+      log_errx(1, "File is corrupt (short)");
+
     radial_packet.num_rle_halfwords = extract_uint16(b, 1);
     radial_packet.angle_start = extract_int16(b, 2);
     radial_packet.angle_delta = extract_uint16(b, 3);
     b += 6;
 
+    if(bend - b < radial_packet.num_rle_halfwords * 2)
+      log_errx(1, "File is corrupt (short)");
+
     radial_packet.angle_start_deg = (double)radial_packet.angle_start/10.0;
     radial_packet.angle_delta_deg = (double)radial_packet.angle_delta/10.0;
 
diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 24e18e9..075563b 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -369,6 +369,9 @@ static void nids_decode_data(struct nids_data_st *nd){
    * In the first case we continue, but if the divider is not -1
    * we assume it is a new product and try to send it to libbz2.
    */
+  if(nd->data_size < 2)
+    log_errx(1, "File is corrupt (short)");
+
   divider = (int)extract_int16(b, 1);
   if(divider != -1){
     status = dcnids_bunz(&nd->data, &nd->data_size, &bzerror);
@@ -381,6 +384,9 @@ static void nids_decode_data(struct nids_data_st *nd){
     b = nd->data;
   }
 
+  if(nd->data_size < NIDS_PACKET_RADIALS_START_RUNS)
+    log_errx(1, "File is corrupt (short)");
+
   divider = (int)extract_int16(b, 1);
   if(divider != -1)
     log_errx(1, "Corrupt file.");
-- 
2.43.0


From 7ee6a35d871ba58ac0aef161369a6fa86c0e8e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:05 +0000
Subject: [PATCH 29/41] fix: the record lengths in the index of the radar shape
 files were wrong

---
 filters/filterlib/c/dcnids/dcnids_shp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_shp.c b/filters/filterlib/c/dcnids/dcnids_shp.c
index 31a07be..651074b 100644
--- a/filters/filterlib/c/dcnids/dcnids_shp.c
+++ b/filters/filterlib/c/dcnids/dcnids_shp.c
@@ -311,6 +311,7 @@ void dcnids_shx_insert_content(unsigned char *p,
   uint32_t filelength;
   uint32_t record_offset_words;
   uint32_t record_size_words;
+  uint32_t content_size_words;
   int i;
 
   filelength = (uint32_t)dcnids_shx_polygon_file_size_words(pm->numpolygons);
@@ -327,10 +328,12 @@ void dcnids_shx_insert_content(unsigned char *p,
   b += SHAPEFILE_HEADER_SIZE_BYTES;
 
   record_size_words = (uint32_t)dcnids_shp_polygon_record_size_words();
+  /* as in the header of the record (which is 4 words) */
+  content_size_words = record_size_words - 4;
   record_offset_words = SHAPEFILE_HEADER_SIZE_WORDS;
   for(i = 0; i < pm->numpolygons; ++i){
     dcnids_shp_insert_uint32_big(b, 0, record_offset_words);
-    dcnids_shp_insert_uint32_big(b, 4, record_size_words);
+    dcnids_shp_insert_uint32_big(b, 4, content_size_words);
     b += 8;
     record_offset_words += record_size_words;
   }
-- 
2.43.0


From c325811c529844456e368dfbf5f1ed14be0409f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:05 +0000
Subject: [PATCH 30/41] fix: a short write of the radar shape files was not
 reported

---
 filters/filterlib/c/dcnids/dcnids_dbf.c | 2 +-
 filters/filterlib/c/dcnids/dcnids_shp.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filters/filterlib/c/dcnids/dcnids_dbf.c b/filters/filterlib/c/dcnids/dcnids_dbf.c
index 79ac395..8b332e9 100644
--- a/filters/filterlib/c/dcnids/dcnids_dbf.c
+++ b/filters/filterlib/c/dcnids/dcnids_dbf.c
@@ -212,7 +212,7 @@ int dcnids_dbf_write(char *dbfname, struct dcnids_polygon_map_st *pm){
   }
 
   n = write(fd, dbf->b, dbf->size);
-  if(n < 0)
+  if(n != dbf->size)
     status = -1;
 
  End:
diff --git a/filters/filterlib/c/dcnids/dcnids_shp.c b/filters/filterlib/c/dcnids/dcnids_shp.c
index 651074b..4c4297b 100644
--- a/filters/filterlib/c/dcnids/dcnids_shp.c
+++ b/filters/filterlib/c/dcnids/dcnids_shp.c
@@ -397,7 +397,7 @@ int dcnids_shp_write_data(int shp_fd, int shx_fd,
   b = dcnids_shp->b;
 
   if(shp_fd != -1){
-    if(write(shp_fd, b, dcnids_shp->shpsize) == -1){
+    if(write(shp_fd, b, dcnids_shp->shpsize) != (ssize_t)dcnids_shp->shpsize){
       status = -1;
       goto End;
     }
@@ -406,7 +406,7 @@ int dcnids_shp_write_data(int shp_fd, int shx_fd,
   b += dcnids_shp->shpsize;
   
   if(shx_fd != -1){
-    if(write(shx_fd, b, dcnids_shp->shxsize) == -1){
+    if(write(shx_fd, b, dcnids_shp->shxsize) != (ssize_t)dcnids_shp->shxsize){
       status = -1;
       goto End;
     }
-- 
2.43.0


From 052562fb38345a21e98671be4a263cf01b9b87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:51 +0000
Subject: [PATCH 31/41] fix: libconnth: free the address and name of a client
 that is not added

The strings returned by get_peer_ip() and get_peer_name() were lost each
time a client was refused because the table was full, could not be added,
or had its former connection restored.
---
 src/libconnth/poll.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libconnth/poll.c b/src/libconnth/poll.c
index ff28c14..1dd1835 100644
--- a/src/libconnth/poll.c
+++ b/src/libconnth/poll.c
@@ -226,8 +226,9 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
   if(status == 0){
     /*
      * A client has reconnected and the (previously closed) connection
-     * has been restored.
+     * has been restored. The element in the table has its own copy of the ip.
      */
+    free(client_ip);
     return(0);
   }else if(status == 1){
     /*
@@ -271,6 +272,10 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
    * The limit is disabled if it was initialized to a negative value.
    */
   if((ct->nclientsmax >= 0) && (ct->nclients == ct->nclientsmax)){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
     return(-3);
   }
@@ -282,8 +287,13 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
 				  clientopts->reconnect_wait_sleep_secs,
 				  clientopts->reconnect_wait_sleep_retry,
 				  clientopts->queue_read_timeout_ms);
-  if(status != 0)
+  if(status != 0){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
+  }
   
   return(status);
 }
-- 
2.43.0


From 38ddeb36a3a1496c33f23949c0b4ca9f6e35ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:24 +0000
Subject: [PATCH 32/41] fix: drop the unidentified clients when emwin is not
 being served

A client that does not identify itself in time is taken as an emwin client,
but unlike the clients that send an identification the protocol was not
checked against the servertype.
---
 src/serverm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serverm.c b/src/serverm.c
index 6d01453..431b696 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -628,6 +628,10 @@ static void process_unidentified_connections(void){
 	log_err2("Could not set protocol for", nameorip);
 	poll_kill_client_connection(g.ct, i);
 	numentries = conn_table_get_numentries(g.ct);
+      } else if(match_client_protocol(g.ct, i) != 0){
+	log_errx("Client %s protocol is not being served.", nameorip);
+	poll_kill_client_connection(g.ct, i);
+	numentries = conn_table_get_numentries(g.ct);
       }
     }
   }
-- 
2.43.0


From ce6979ca4ef76f721e7c83e3bfe4d72cf248f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:24 +0000
Subject: [PATCH 33/41] fix: do not report the queue error of a client for the
 next one

When nothing is queued for an emwin client (the product did not pass the
emwin filter) the status of the previous client in the table was used, and
the time of the last log of its queue limits was set.
---
 src/serverm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serverm.c b/src/serverm.c
index 431b696..dc18992 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -846,6 +846,7 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
     if(conn_table_element_isnetclient(g.ct, i) == 0)
       continue;
 
+    status = 0;
     protocol = get_client_protocol(g.ct, i);
     f_thread_created = conn_table_get_element_fthread_created(g.ct, i);
     nameorip = conn_element_get_nameorip(&g.ct->ce[i]);
-- 
2.43.0


From 610d29ee5d1f5444b64ae02dbad1c007482857fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:28 +0000
Subject: [PATCH 34/41] fix: libspoolbdb: do not empty the spool for a product
 that can never fit

---
 src/libspoolbdb/spoolbdbv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspoolbdb/spoolbdbv.c b/src/libspoolbdb/spoolbdbv.c
index 07ef98d..fc9c435 100644
--- a/src/libspoolbdb/spoolbdbv.c
+++ b/src/libspoolbdb/spoolbdbv.c
@@ -443,7 +443,7 @@ int spoolbdbv_write2_unlocked(struct spoolbdbv_st *spoolbdbv,
    * report it and let the application drop it eventually.
    */
   if(datasize > spoolbdbv->maxsize)
-    return(ENOMEM);
+    return(EFBIG);
 
   /*
    * If the data fits in the remaining space of the current db it is
-- 
2.43.0


From f0414ae23a98c91cf228aaf88fdd4e7b73d2f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:28 +0000
Subject: [PATCH 35/41] fix: libspoolbdb: the size of a large data base wrapped
 around

---
 src/libspoolbdb/spoolbdbv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspoolbdb/spoolbdbv.c b/src/libspoolbdb/spoolbdbv.c
index fc9c435..57eec25 100644
--- a/src/libspoolbdb/spoolbdbv.c
+++ b/src/libspoolbdb/spoolbdbv.c
@@ -456,7 +456,7 @@ int spoolbdbv_write2_unlocked(struct spoolbdbv_st *spoolbdbv,
    * again this function, then provided that the data fits in one db
    * (as checked above) the write2 below should succeed.
    */
-  if(spoolbdbv->size + datasize > spoolbdbv->maxsize){
+  if(datasize > spoolbdbv->maxsize - spoolbdbv->size){
     ++spoolbdbv->wrdb;
     if(*spoolbdbv->wrdb == NULL)
       spoolbdbv->wrdb = &spoolbdbv->dbv[1];
-- 
2.43.0


From 418eb106b9c791cc71676b31228cd8bab3edfcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:13 +0000
Subject: [PATCH 36/41] fix: libspoolbdb: uninitialized number of data bases
 when the memory for the names is lacking

---
 src/libspoolbdb/spoolbdbv.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libspoolbdb/spoolbdbv.c b/src/libspoolbdb/spoolbdbv.c
index 57eec25..0fb2059 100644
--- a/src/libspoolbdb/spoolbdbv.c
+++ b/src/libspoolbdb/spoolbdbv.c
@@ -118,16 +118,6 @@ static int spoolbdbv_db_open(struct spoolbdbv_st *spoolbdbv,
     return(status);
   }
 
-  if(dbfname != NULL){
-    dbfnamexx_len = snprintf(NULL, 0, "%s.%u", dbfname, UINT_MAX);
-    ++dbfnamexx_len;
-    dbfnamexx = malloc(dbfnamexx_len);
-    if(dbfnamexx == NULL){
-      status = errno;
-      goto end;
-    }
-  }
-
   for(i = 0; i < Ndb + 2; ++i)
     spoolbdbv->dbv[i] = NULL;
 
@@ -138,6 +128,16 @@ static int spoolbdbv_db_open(struct spoolbdbv_st *spoolbdbv,
   spoolbdbv->maxsize = maxsize;
   spoolbdbv->size = 0;
 
+  if(dbfname != NULL){
+    dbfnamexx_len = snprintf(NULL, 0, "%s.%u", dbfname, UINT_MAX);
+    ++dbfnamexx_len;
+    dbfnamexx = malloc(dbfnamexx_len);
+    if(dbfnamexx == NULL){
+      status = errno;
+      goto end;
+    }
+  }
+
   /*
    * Open all the db's except the first and last, which stay set to NULL
    * as sentinnels.
-- 
2.43.0


From 201be7585de32b343c910d17d287cbaf42578aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:13 +0000
Subject: [PATCH 37/41] fix: libspoolbdb: the cache of 4 GB or more wrapped
 around

---
 src/libspoolbdb/spoolbdbv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspoolbdb/spoolbdbv.c b/src/libspoolbdb/spoolbdbv.c
index 0fb2059..ae7e41d 100644
--- a/src/libspoolbdb/spoolbdbv.c
+++ b/src/libspoolbdb/spoolbdbv.c
@@ -48,7 +48,8 @@ static int spoolbdbv_env_open(DB_ENV **dbvenv,
 			      int f_rdonly){
   DB_ENV *dbenv = NULL;
   int status = 0;
-  uint32_t cache_size = (dbcache_mb * 1024 * 1024);
+  uint32_t cache_gb = dbcache_mb / 1024;
+  uint32_t cache_size = (dbcache_mb % 1024) * 1024 * 1024;
   uint32_t dbenv_flags;
 
   if(dbhome == NULL){
@@ -59,7 +60,7 @@ static int spoolbdbv_env_open(DB_ENV **dbvenv,
   status = db_env_create(&dbenv, 0);
 
   if(status == 0)
-    status = dbenv->set_cachesize(dbenv, 0, cache_size, 0);
+    status = dbenv->set_cachesize(dbenv, cache_gb, cache_size, 0);
 
   if(status == 0){
     if(dbhome == NULL)
-- 
2.43.0


From 15df1af6f2a2f0fb3f4cba54744d41f481e0d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:33 +0000
Subject: [PATCH 38/41] fix: nbspinsert: the end of a longer file with the same
 name remained

---
 tools/nbspinsert/nbspinsert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index 048a795..a758484 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -500,7 +500,7 @@ static int save_fpath(void) {
    char input_buffer[FPATH_INPUT_BUFFER_SIZE];
    size_t input_buffer_size = FPATH_INPUT_BUFFER_SIZE;
      
-   fd = open(g.fpath, O_WRONLY | O_CREAT, FPATH_MODE);
+   fd = open(g.fpath, O_WRONLY | O_CREAT | O_TRUNC, FPATH_MODE);
    if(fd == -1){
      log_err(0, "%s %s", "Error opening", g.fpath);
 
-- 
2.43.0


From 8b6ae29a93c31bd49713b73c6a8671cc7730accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:33 +0000
Subject: [PATCH 39/41] fix: nbspinsert: a write error reported by close() was
 ignored

---
 tools/nbspinsert/nbspinsert.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index a758484..4c8f9e4 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -521,7 +521,10 @@ static int save_fpath(void) {
        nread = read(STDIN_FILENO, input_buffer, input_buffer_size);
    }
 
-   (void)close(fd);
+   if((close(fd) == -1) && (status == 0)){
+     log_err(0, "%s %s", "Error writing to fpath", g.fpath);
+     status = 1;
+   }
    
    if(nread == -1){
      log_err(0, "%s", "Error reading from stdin");
-- 
2.43.0


From 0dbec2b12b8a199913593b4d5c0b2ba6fd1e67c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:05 +0000
Subject: [PATCH 40/41] fix: crash when reporting an invalid infifo entry of
 the master servers

---
 src/slavet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slavet.c b/src/slavet.c
index d750e64..ba3d9b7 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -97,7 +97,7 @@ static int slave_element_configure(struct slave_element_st *slave,
 
     if(status != 0){
       log_errx("Invalid configuration [%d] string for SLAVETYPE_INFIFO: %s",
-	       s, status);
+	       status, s);
       status = 1;
       goto End;
     }
-- 
2.43.0


From ccddc7cc2fe8a6811fbbf33031dc76fbbf88baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:05 +0000
Subject: [PATCH 41/41] fix: an entry of the master servers was freed twice
 when the memory is lacking

---
 src/slavet.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/slavet.c b/src/slavet.c
index ba3d9b7..1ddb17d 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -197,6 +197,7 @@ static int slave_element_configure2(struct slave_element_st *slave,
     if((slave->masterport = malloc(strlen(masterport) + 1)) == NULL){
       log_err("Cannot allocate memory for slave->masterport.");
       free(slave->mastername);
+      slave->mastername = NULL;
       return(-1);
     }
 
@@ -230,14 +231,20 @@ static int slave_element_configure2(struct slave_element_st *slave,
 
 static void slave_element_release(struct slave_element_st *slave){
   
-  if(slave->mastername != NULL)
+  if(slave->mastername != NULL){
     free(slave->mastername);
+    slave->mastername = NULL;
+  }
 
-  if(slave->masterport != NULL)
+  if(slave->masterport != NULL){
     free(slave->masterport);
+    slave->masterport = NULL;
+  }
 
-  if(slave->infifo != NULL)
+  if(slave->infifo != NULL){
     free(slave->infifo);
+    slave->infifo = NULL;
+  }
 
   slave_element_release_options(slave);
 }
@@ -252,6 +259,7 @@ static int slave_element_configure_options(struct slave_element_st *slave,
   slave->options.slavestatsfile = malloc(strlen(options->slavestatsfile) + 1);
   if(slave->options.slavestatsfile == NULL){
     free(slave->options.infifo_grp);
+    slave->options.infifo_grp = NULL;
     return(-1);
   }
 
-- 
2.43.0

