From 14db26fdbfcff2a059ded2a9eac4b34060f8bdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 01/34] fix: queue cleanup must not release a mutex another
 thread holds

---
 src/libqdb/qdb.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 87690b5..85d8b5b 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -297,6 +297,7 @@ int qdb_open(struct nbspq_st **nbspq, struct qdb_param_st *qdbparam,
   uint32_t dbflags = QDB_FLAGS;
   uint32_t mb = (1024 * 1024) * qdbparam->cache_mb;
   struct nbspq_st *q = NULL;
+  pthread_mutexattr_t mutexattr;
   int f_memory_based = 0;
   int status;
 
@@ -347,7 +348,20 @@ int qdb_open(struct nbspq_st **nbspq, struct qdb_param_st *qdbparam,
   }
 
   if(status == 0){
-    status = pthread_mutex_init(&q->mutex, NULL);
+    /*
+     * nbspqt_rcv_cleanup() can be called by a thread that does not have
+     * the mutex, and it relies on getting EPERM in that case.
+     */
+    status = pthread_mutexattr_init(&mutexattr);
+    if(status == 0){
+      status = pthread_mutexattr_settype(&mutexattr,
+					 PTHREAD_MUTEX_ERRORCHECK);
+      if(status == 0)
+	status = pthread_mutex_init(&q->mutex, &mutexattr);
+
+      pthread_mutexattr_destroy(&mutexattr);
+    }
+
     if(status == 0){
       status = pthread_cond_init(&q->cond, NULL);
       if(status != 0)
-- 
2.43.0


From c2ad637f524e486bacc2b36257461cb6c593be1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 02/34] fix: initialize f_has_ccb of products received from a
 master server

---
 src/slavenbs/framep.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index eef245e..c355a80 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -135,6 +135,7 @@ static int estart_activepce(struct nbs1_packet_st *nbs){
 
   pce->ctrlhdr[0] = '\0';
   pce->ctrlhdr_size = 0;
+  pce->f_has_ccb = 0;
 
   strncpy(pce->fbasename, nbs->fbasename, FBASENAME_SIZE + 1);
   pce->fbasename[FBASENAME_SIZE] = '\0';
-- 
2.43.0


From 51089ab3f205b5a1111e70545f5aef17c715f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:46 +0000
Subject: [PATCH 03/34] fix: strip the CCB in the memory and cache spools when
 so configured

---
 src/nbsp.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 057c86e..7ef60f1 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -862,16 +862,20 @@ static int nbsp_spooldb_insert(char *fpath){
 static int pce_savembdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
+  char *p;
   size_t size;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      p += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_mspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_mspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
@@ -879,16 +883,20 @@ static int pce_savembdb_memfile(struct pctl_element_st *pce,
 static int pce_savecbdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
+  char *p;
   size_t size;
 
+  p = mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      p += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_cspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_cspoolbdb_insert(pce->fpath, p, size);
   
   return(status);
 }
-- 
2.43.0


From 0ccf4877aa9f254bc53c228b9f25dc18df13abab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 04/34] fix: do not restore a spool index position that is
 outside of the index

---
 src/spooldb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spooldb.c b/src/spooldb.c
index d3fc056..6b64022 100644
--- a/src/spooldb.c
+++ b/src/spooldb.c
@@ -137,7 +137,9 @@ int spooldb_read(struct spooldb_st *spooldb, char *filename){
    * where it ended.
    */
   if((spooldb_saved.keysize != spooldb->keysize) ||
-    (spooldb_saved.numslots > spooldb->numslots)){ 
+    (spooldb_saved.numslots > spooldb->numslots) ||
+    (spooldb_saved.slot >= spooldb->numslots) ||
+    (spooldb_saved.index != spooldb_saved.slot * spooldb_saved.keysize)){
     status = 1;
     goto End;
   }
-- 
2.43.0


From d1a01f189a9dd0465a73370324efbf7f0cc1e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:05 +0000
Subject: [PATCH 05/34] fix: do not cancel a client thread in the middle of a
 transmission

---
 src/serverc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/serverc.c b/src/serverc.c
index 9071a87..140afc1 100644
--- a/src/serverc.c
+++ b/src/serverc.c
@@ -592,10 +592,19 @@ static int send_client(struct conn_element_st *ce,
 
   int status = 0;
   int count = 0;
+  int cancel_state;
 
   do {
-    if(conn_element_get_fd(ce) != -1)
+    if(conn_element_get_fd(ce) != -1){
+      /*
+       * If the thread is canceled in the middle of a transmission then
+       * the product file or the spool slot (or its mutex) that it
+       * has opened would never be released.
+       */
+      (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
       status = send_client1(ce, data, data_size);
+      (void)pthread_setcancelstate(cancel_state, &cancel_state);
+    }
 
     if(conn_element_get_fd(ce) != -1)
       return(status);
-- 
2.43.0


From 74c54ca75a5fbd62ec82f8a8388d51b933fc8547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 06/34] fix: do not cancel a client thread in the middle of a
 queue database operation

---
 src/libqdb/qdb.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 85d8b5b..6adf5eb 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -188,6 +188,7 @@ int nbspqt_rcv(nbspqtable_t *qtable, int type,
   struct nbspq_st *nbspq;
   int status = 0;
   struct timespec timeout;
+  int cancel_state;
 
   assert((type >= 0) && (type <= qtable->n - 1));
 
@@ -216,8 +217,15 @@ int nbspqt_rcv(nbspqtable_t *qtable, int type,
       status = -1;
       *dberror = status;
     }
-  }else
+  }else{
+    /*
+     * The cancellation is disabled so that a canceled thread does not leave
+     * the db with its internal locks held.
+     */
+    (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &cancel_state);
     status = qdb_rcv(nbspq, data, data_size, dberror);
+    (void)pthread_setcancelstate(cancel_state, &cancel_state);
+  }
 
   pthread_mutex_unlock(&nbspq->mutex);
 
-- 
2.43.0


From 51e43dca204ac71bc3ce286c7c7410ba61118b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 07/34] fix: check the allocation in get_peer_ip

---
 src/libconnth/tcpsock.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libconnth/tcpsock.c b/src/libconnth/tcpsock.c
index 47cd5cf..8a01d7d 100644
--- a/src/libconnth/tcpsock.c
+++ b/src/libconnth/tcpsock.c
@@ -288,6 +288,9 @@ char *get_peer_ip(int cfd){
     return(NULL);
 
   ip = malloc(strlen(addr) + 1);
+  if(ip == NULL)
+    return(NULL);
+
   strncpy(ip, addr, strlen(addr) + 1);
 
   return(ip);
-- 
2.43.0


From a66832b133b15af74aa3aa37d2d9db422111502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 08/34] fix: check that the csv file could be opened

---
 filters/filterlib/c/dcnids/nbspradgis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filters/filterlib/c/dcnids/nbspradgis.c b/filters/filterlib/c/dcnids/nbspradgis.c
index 24e18e9..5bb5cab 100644
--- a/filters/filterlib/c/dcnids/nbspradgis.c
+++ b/filters/filterlib/c/dcnids/nbspradgis.c
@@ -533,6 +533,9 @@ static void nids_csv_write(struct nids_data_st *nd){
   else
     fp = fopen(csvfile, "w");
 
+  if(fp == NULL)
+    log_err(1, "Cannot open %s", csvfile);
+
   if(dcnids_csv_write(fp, pm) != 0)
     log_errx(1, "Cannot write to csv file.");
 
-- 
2.43.0


From cc5b9aa543c3126d64bf6bf1ea875d319f3eefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 09/34] fix: do not use the queue state array if it could not
 be allocated

---
 src/nbspq.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nbspq.c b/src/nbspq.c
index 62fb235..5748ddf 100644
--- a/src/nbspq.c
+++ b/src/nbspq.c
@@ -68,10 +68,11 @@ int init_nbspq(void){
   if(qstate == NULL){
     status = -1;
     qerrno = errno;
-  }
-  for(i = 0; i < g.queue_numchannels; ++i){
-    qstate[i].current = 0;
-    qstate[i].last = 0;
+  }else{
+    for(i = 0; i < g.queue_numchannels; ++i){
+      qstate[i].current = 0;
+      qstate[i].last = 0;
+    }
   }
 
   /*
-- 
2.43.0


From b158e083d67bc204eff5b405f2fa4947b50c9a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 10/34] fix: pctldb_open() dereferenced a null pointer and lost
 the db error when failing

---
 src/pctldb.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index c3da7e1..72b97eb 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -93,7 +93,7 @@ int pctldb_open(struct pctldb_st **pctldb,
     status = pctlmfdb_stat(p, dberror);
 
   if(status != 0){
-    if(p->mfdbp != NULL)
+    if((p != NULL) && (p->mfdbp != NULL))
       pctlmfdb_close(p, &dberror_close);	/* error ignored here if any */
 
     if(dbp != NULL)
@@ -101,9 +101,6 @@ int pctldb_open(struct pctldb_st **pctldb,
 
     if(p != NULL)
       free(p);
-
-    *dberror = status;
-    status = -1;
   }
 
   if(status == 0)
-- 
2.43.0


From b340398bc1a41ac8afcff1289b01865aae46ab32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 11/34] fix: release the name and address of a client that is
 not added to the table

---
 src/libconnth/poll.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libconnth/poll.c b/src/libconnth/poll.c
index ff28c14..619fecb 100644
--- a/src/libconnth/poll.c
+++ b/src/libconnth/poll.c
@@ -228,6 +228,7 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
      * A client has reconnected and the (previously closed) connection
      * has been restored.
      */
+    free(client_ip);
     return(0);
   }else if(status == 1){
     /*
@@ -271,6 +272,10 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
    * The limit is disabled if it was initialized to a negative value.
    */
   if((ct->nclientsmax >= 0) && (ct->nclients == ct->nclientsmax)){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
     return(-3);
   }
@@ -282,8 +287,13 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
 				  clientopts->reconnect_wait_sleep_secs,
 				  clientopts->reconnect_wait_sleep_retry,
 				  clientopts->queue_read_timeout_ms);
-  if(status != 0)
+  if(status != 0){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
+  }
   
   return(status);
 }
-- 
2.43.0


From 60fe772b6b303e27a8c034d510babcfe49d4778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 12/34] fix: keep the poll array if the table of connections
 cannot grow

---
 src/libconnth/conn.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libconnth/conn.c b/src/libconnth/conn.c
index c57108d..c58094b 100644
--- a/src/libconnth/conn.c
+++ b/src/libconnth/conn.c
@@ -190,10 +190,8 @@ static int conn_table_grow(struct conn_table_st *ct){
   struct pollfd *pfd;
   struct conn_element_st *ce;
   int new_nsize;
-  int old_nsize;
   size_t size;
 
-  old_nsize = ct->nmax;
   new_nsize = ct->nmax * GROW_FACTOR;
 
   size = sizeof(struct pollfd) * new_nsize;
@@ -205,8 +203,8 @@ static int conn_table_grow(struct conn_table_st *ct){
   size = sizeof(struct conn_element_st) * new_nsize;
   ce = realloc(ct->ce, size);
   if(ce == NULL){
-    size = sizeof(struct pollfd) * old_nsize;
-    ct->pfd = realloc(pfd, size);
+    /* The old block is gone; the new (larger) one is still valid */
+    ct->pfd = pfd;
     return(-1);
   }
 
-- 
2.43.0


From 393d6666750aaffac3dad31d9f52206d3d26f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 13/34] fix: release the command of a filter that could not be
 started

---
 src/pfilter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pfilter.c b/src/pfilter.c
index 5b7beab..b936e34 100644
--- a/src/pfilter.c
+++ b/src/pfilter.c
@@ -116,8 +116,10 @@ static struct pfilter_st *pfilter_open_script(char *script, char *fifo){
   assert(cmdlen == n);
 
  filterp = malloc(sizeof(struct pfilter_st));
-  if(filterp == NULL)
+  if(filterp == NULL){
+    free(cmd);
     return(NULL);
+  }
 
   filterp->fifofd = -1;
   filterp->fifofpath = NULL;
-- 
2.43.0


From a849c5a350ea941a0b2e4df64b7094912147e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:15 +0000
Subject: [PATCH 14/34] fix: release the product control structure when it is
 closed

---
 src/pctl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pctl.c b/src/pctl.c
index ada77c0..573c8e1 100644
--- a/src/pctl.c
+++ b/src/pctl.c
@@ -102,7 +102,7 @@ static int pctl_init(struct pctl_st *pctl, int numchannels,
       destroy_pce_array(pctl->activepce, pctl->num_activechannels);
 
     if(pctl->outputmf != NULL)      
-      close_memfile(pctl->outputmf);
+      destroy_memfile(pctl->outputmf);
 
     if(pctl->pce != NULL)
       destroy_pce(pctl->pce);
@@ -143,6 +143,8 @@ void epctl_close(struct pctl_st *pctl){
     destroy_pce(pctl->pce);
     pctl->pce = NULL;
   }
+
+  free(pctl);
 }
 
 int epctl_send(struct pctl_st *pctl, int channel_index){
-- 
2.43.0


From 5f2394253235eb83562dcaef1de16b702d0a6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:15 +0000
Subject: [PATCH 15/34] fix: do not close the descriptor of a master connection
 twice

---
 src/slave_in.c  | 6 +++---
 src/slave_net.c | 5 ++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/slave_in.c b/src/slave_in.c
index 487381b..e8c5188 100644
--- a/src/slave_in.c
+++ b/src/slave_in.c
@@ -201,10 +201,10 @@ static int slavein_close(struct slave_element_st *slave){
     return(0);
 
   status = close(slave->slave_fd);
-  if(status == 0){
-    slave->slave_fd = -1;
+  slave->slave_fd = -1;		/* released even if close() fails */
+  if(status == 0)
     (void)unlink(slave->infifo);
-  }else
+  else
     log_err2("Error closing", slave->infifo);
 
   return(status);
diff --git a/src/slave_net.c b/src/slave_net.c
index 5d573ed..34aa8a1 100644
--- a/src/slave_net.c
+++ b/src/slave_net.c
@@ -264,9 +264,8 @@ static int slavenet_close(struct slave_element_st *slave){
     return(0);
 
   status = close(slave->slave_fd);
-  if(status == 0){
-    slave->slave_fd = -1;
-  }else
+  slave->slave_fd = -1;		/* released even if close() fails */
+  if(status != 0)
     log_err2("Error closing connection to", slave->mastername);
 
   return(status);
-- 
2.43.0


From 0b29cbe99870072e23f3b56dd7319806a814887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:38 +0000
Subject: [PATCH 16/34] fix: a master's packet could claim a size that wraps
 around the buffer check

data_size comes from the packet; adding the envelope size to it in 32 bits
wraps for values near 2^32, so that the check passed and up to 4 GB were
read into the packet buffer. The base name was also not terminated when the
master sent one without a null.
---
 src/nbs1r.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index b832b64..198e820 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -61,7 +61,8 @@ int unpack_nbs1_header(struct nbs1_packet_st *nbs){
   nbs->psh_product_code = p[6];
   nbs->np_channel_index = p[7];
   p += 8;
-  strncpy(nbs->fbasename, (char*)p, FBASENAME_SIZE + 1);
+  strncpy(nbs->fbasename, (char*)p, FBASENAME_SIZE);
+  nbs->fbasename[FBASENAME_SIZE] = '\0';
   p += FBASENAME_SIZE + 1;
   nbs->f_zip = p[0];
   nbs->num_blocks = unpack_uint16(p, 1);  
@@ -121,7 +122,7 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= NBS1_PACKET_MAXSIZE); */
-  if(data_size + NBS_ENVELOPE_SIZE > NBS1_PACKET_MAXSIZE)
+  if(data_size > NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE)
     return(1);
 
   n = readn(fd, &nbs->packet[NBS_ENVELOPE_SIZE], data_size, timeout_s, retry);
-- 
2.43.0


From 9d7beb8f75fc98dc6d76859c8383923754ea5be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 17/34] fix: a short or unterminated file-path packet made the
 slave read past its data

nbsfp_unpack_fpath() took the name and the path from fixed positions without
looking at the size of the packet, nor whether they were terminated, and in
recv_fp_packet() the check of the size wrapped around.
---
 src/packfp.c  | 2 +-
 src/packfpu.c | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/packfp.c b/src/packfp.c
index f5bc322..42d5710 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -193,7 +193,7 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= packetinfo->packet_size); */
-  if(data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
+  if((size_t)data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
     return(1);
 
   p += NBS_ENVELOPE_SIZE;
diff --git a/src/packfpu.c b/src/packfpu.c
index 2dcd37c..5cf2e64 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -48,11 +48,20 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
   p += NBS_ENVELOPE_SIZE;
 
+  if(data_size <= 8 + FNAME_SIZE + 1)
+    return(1);
+
   calculated_checksum = calc_checksum(p, data_size);
   if(calculated_checksum != transmitted_checksum){
     return(1);
   }
 
+  /*
+   * The fname and the fpath must be terminated.
+   */
+  if((p[8 + FNAME_SIZE] != '\0') || (p[data_size - 1] != '\0'))
+    return(1);
+
   /*
    *  p[0-7] contain the product specific data, defined above:
    *
-- 
2.43.0


From 82281bf08854bb89f6c0933a697caee8eaf42cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 18/34] fix: slavein: the size read from the fifo was used
 without a check

A negative size, or INT_MAX, gave a buffer smaller than what was read into it
(or a store before the buffer).
---
 src/slavein/reader.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 38541ce..ff5d8db 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -21,6 +21,11 @@
 #include "slavein.h"
 #include "framep.h"
 
+/*
+ * The largest file info string that is accepted from the fifo
+ */
+#define SLAVEIN_FINFO_MAXSIZE	65536
+
 /*
  * private thread info (stored in the info field of the slave_element_st)
  */
@@ -216,6 +221,9 @@ static int recv_in_packet(struct slave_element_st *slave){
     return(status);
 
   finfo_size = unpack_uint32(finfo_size_buf, 0);
+  if((finfo_size <= 0) || (finfo_size > SLAVEIN_FINFO_MAXSIZE))
+    return(2);
+
   if(slavein_info->buffer_size < finfo_size + 1){
     if(slavein_info->buffer != NULL)
       free(slavein_info->buffer);
-- 
2.43.0


From 9d651515f1d447fffdb871ae0a92866598acb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:04 +0000
Subject: [PATCH 19/34] fix: a frame whose control header is larger than its
 data crashed the reader

data_block_offset was not compared with data_block_size; the size of the
product data became negative and was passed to memcpy(). A control header
larger than the copy kept of it, which copy_ctrlheader() handles, was an
assertion failure.
---
 src/sbn.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 01e48f4..49b032d 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -204,6 +204,9 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
        */
       return(2);
     }
+
+    if(sbnf->ctrlhdr_size > sbnf->pdh.data_block_size)
+      return(2);
   }
 
   blkdata_offset += sbnf->ctrlhdr_size;
@@ -336,11 +339,9 @@ int copy_ctrlheader(char *ctrlheader, int *ctrlheader_size,
   if(sbnf->ctrlhdr_size > allocatedsize){
     /*
      * If the actual size is larger than the allocated size passed to
-     * the function, we treat it is a non existent, although this is a bug
-     * in the allocation of the size of the buffer.
+     * the function, we treat it is a non existent. The size comes
+     * from the frame.
      */
-    assert(allocatedsize >= sbnf->ctrlhdr_size);
-
     return(1);
   }
 
-- 
2.43.0


From 6a067fe78e884515eb2e7d1523d994d23e280e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:06 +0000
Subject: [PATCH 20/34] fix: try the next address of a host after one failed

---
 src/libconnth/tcpsock.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libconnth/tcpsock.c b/src/libconnth/tcpsock.c
index 8a01d7d..d88a0f2 100644
--- a/src/libconnth/tcpsock.c
+++ b/src/libconnth/tcpsock.c
@@ -75,6 +75,7 @@ int tcp_server_open_conn(const char *host, const char *serv,
 
   res = res0;
   while(res != NULL){
+    status = 0;		/* a failure of the previous address is forgotten */
     if((s = socket(res->ai_family, res->ai_socktype, res->ai_protocol))
        == -1){
       status = -1;
@@ -233,6 +234,7 @@ int tcp_client_open_conn_timed(const char *host, const char *serv, int nsecs,
 
   res = res0;
   while(res != NULL){
+    status = 0;		/* a failure of the previous address is forgotten */
     if((cfd = socket(res->ai_family, res->ai_socktype, res->ai_protocol))
        == -1)
       status = -1;
-- 
2.43.0


From 420558a9bef5526f7ecbcbbe2cb4fd03c6095728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:06 +0000
Subject: [PATCH 21/34] fix: udp_server returned a closed descriptor when no
 address could be bound

---
 src/libmcast/src/mcast.c | 3 ++-
 src/mcast.c              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libmcast/src/mcast.c b/src/libmcast/src/mcast.c
index 7ffbe09..18cc1ab 100644
--- a/src/libmcast/src/mcast.c
+++ b/src/libmcast/src/mcast.c
@@ -225,11 +225,12 @@ int udp_server(char *host, char *service, socklen_t *sa_len, int *gai_code){
   res = res0;
   while(res != NULL){
     sfd = socket(res->ai_family, res->ai_socktype, res->ai_protocol);
-    if(sfd > 0){
+    if(sfd >= 0){
       if(bind(sfd, res->ai_addr, res->ai_addrlen) == 0)
 	break;			/* success */
 
       close(sfd);		/* bind error, close and try next one */
+      sfd = -1;
     }
 
     res = res->ai_next;
diff --git a/src/mcast.c b/src/mcast.c
index 465bf47..ae4f839 100644
--- a/src/mcast.c
+++ b/src/mcast.c
@@ -225,11 +225,12 @@ int udp_server(char *host, char *service, socklen_t *sa_len, int *gai_code){
   res = res0;
   while(res != NULL){
     sfd = socket(res->ai_family, res->ai_socktype, res->ai_protocol);
-    if(sfd > 0){
+    if(sfd >= 0){
       if(bind(sfd, res->ai_addr, res->ai_addrlen) == 0)
 	break;			/* success */
 
       close(sfd);		/* bind error, close and try next one */
+      sfd = -1;
     }
 
     res = res->ai_next;
-- 
2.43.0


From fe0c59067b456c89de15508d3deea06feeb7b291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 22/34] fix: create_pidfile leaves no empty pid file behind,
 and a pid file without a number is not read as one

---
 src/pid.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pid.c b/src/pid.c
index b1e42f9..dd46aef 100644
--- a/src/pid.c
+++ b/src/pid.c
@@ -40,18 +40,25 @@ int create_pidfile(char *name, mode_t mode){
   }
 
   f = fopen(name, "w");
-  status = (f == NULL);
+  if(f == NULL)
+    status = 2;
 
   if(status == 0){
     pid = getpid();
     pidmax = pid;
-    if(fprintf(f, "%" PRIdMAX "\n", pidmax) < 0){
+    if(fprintf(f, "%" PRIdMAX "\n", pidmax) < 0)
+      status = 2;
+
+    if(fclose(f) != 0)
       status = 2;
-      unlink(name);
-    }
-    fclose(f);
   }
 
+  /*
+   * Do not leave an empty or partial file behind.
+   */
+  if(status != 0)
+    unlink(name);
+
   return(status);
 }
 
@@ -114,7 +121,7 @@ static pid_t read_pid(char *pidfile){
 
   status = ((fp = fopen(pidfile, "r")) == NULL);
   if(status == 0){
-      status = (fscanf(fp, "%" PRIdMAX, &pidmax) == EOF);
+      status = (fscanf(fp, "%" PRIdMAX, &pidmax) != 1);
       fclose(fp);
   }
 
-- 
2.43.0


From fed2f7d1c7872313268902e902ff4683f2748bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 23/34] fix: a start that did not get the lock does not remove
 the fifo of the running instance

---
 src/init.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/init.c b/src/init.c
index b26dd42..2f60fac 100644
--- a/src/init.c
+++ b/src/init.c
@@ -302,8 +302,11 @@ void cleanup(void){
 
 void cleanup_files(void){
 
-  kill_qstate_fifo();
+  /*
+   * Without the lock, the files belong to another instance.
+   */
   if(g.f_lock == 1){
+    kill_qstate_fifo();
     if(remove_pidfile(g.pidfile) != 0)
       log_err("Could not remove pidfile.");
 
-- 
2.43.0


From bca9eacfb1f75ec86025ecfdf765dbe3235cbe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 24/34] fix: the stop script is not executed (as root) when the
 start ended before the start script

---
 src/exec.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 4f1bf40..752feee 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -29,11 +29,15 @@
 static void exec_external_program(char *s);
 static void wait_first_child(pid_t child_pid, char *name);
 
+static int f_startstage = 0;	/* set when the start script is due */
+
 int exec_startscript(void){
 
   char *s = g.startscript;
   int status = 0;
 
+  f_startstage = 1;
+
   if(valid_str(s) == 0)
     return(0);
   
@@ -52,6 +56,13 @@ int exec_stopscript(void){
   char *s = g.stopscript;
   int status = 0;
 
+  /*
+   * If the program ends before the start script was due, privileges
+   * have not been dropped (or it just printed the configuration).
+   */
+  if(f_startstage == 0)
+    return(0);
+
   if(valid_str(s) == 0)
     return(0);
   
-- 
2.43.0


From 6a393f659e82481889b0912f83a8db9bf7eb93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 25/34] fix: the supplementary groups of root are dropped also
 when a single group is configured

---
 src/pw.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pw.c b/src/pw.c
index 34a065a..436a34e 100644
--- a/src/pw.c
+++ b/src/pw.c
@@ -64,7 +64,7 @@ int change_group(char *name){
 
 int change_groups(int ngroups, char **groups){
 
-  gid_t *gid;
+  gid_t *gid = NULL;
   int status = 0;
   int i;
 
@@ -75,12 +75,18 @@ int change_groups(int ngroups, char **groups){
   --ngroups;
   ++groups;
 
-  if(ngroups == 0)
+  /*
+   * With only one group, root's own supplementary groups must still be
+   * dropped (but a normal user cannot change them).
+   */
+  if((ngroups == 0) && (geteuid() != 0))
     return(0);
 
-  gid = malloc(sizeof(gid_t)*ngroups);
-  if(gid == NULL)
-    return(-1);
+  if(ngroups > 0){
+    gid = malloc(sizeof(gid_t)*ngroups);
+    if(gid == NULL)
+      return(-1);
+  }
 
   for(i = 0; i < ngroups; ++i){
     status = get_group_gid(groups[i], &gid[i]);
-- 
2.43.0


From cf83227d7bb4bead33bd750b4ca4a6babb09294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:59 +0000
Subject: [PATCH 26/34] fix: the product type, category, code and channel of
 128 and more were unpacked as negative numbers

---
 src/packfpu.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packfpu.c b/src/packfpu.c
index 5cf2e64..bfa21d6 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -75,10 +75,10 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
 
   packetinfo->seq_number = unpack_uint32(p, 0);
-  packetinfo->psh_product_type = p[4];
-  packetinfo->psh_product_category = p[5];
-  packetinfo->psh_product_code = p[6];
-  packetinfo->np_channel_index = p[7];
+  packetinfo->psh_product_type = (unsigned char)p[4];
+  packetinfo->psh_product_category = (unsigned char)p[5];
+  packetinfo->psh_product_code = (unsigned char)p[6];
+  packetinfo->np_channel_index = (unsigned char)p[7];
 
   p += 8;
   packetinfo->fname = p;
-- 
2.43.0


From 2c968a80112c9ea06cbd1eeb274d54548a116461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:35 +0000
Subject: [PATCH 27/34] fix: carry over the nanoseconds of the queue read
 deadlines

With a timeout that is not a whole number of seconds tv_nsec could reach
1000000000 or more, and the wait failed at once with EINVAL.
---
 src/libqdb/qdb.c | 4 ++++
 src/pctldb.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 6adf5eb..505e2c7 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -574,4 +574,8 @@ static void queue_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
diff --git a/src/pctldb.c b/src/pctldb.c
index 72b97eb..009d3f9 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -463,4 +463,8 @@ static void pctldb_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
-- 
2.43.0


From 8ad2427f2fe0ad81580f9d0bed0cb8080e457a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:35 +0000
Subject: [PATCH 28/34] fix: report a failed truncate of a memory queue as an
 error

The db error code was returned as the status, with dberror not set.
---
 src/libqdb/qdb.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 505e2c7..238d3ab 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -510,6 +510,11 @@ int qdb_rcv(struct nbspq_st *nbspq, void **p, uint32_t *size, int *dberror){
      */
     if(nbspq->f_memory_based && (nbspq->n == 0))
       status = dbp->truncate(dbp, NULL, NULL, 0);
+
+    if(status != 0){
+      *dberror = status;
+      status = -1;
+    }
   }
 
   return(status);
-- 
2.43.0


From 3c996fdb9d1bc620a418b786f6ec413ef2b0dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:35 +0000
Subject: [PATCH 29/34] fix: apply the hard limit also when the pctl queue is
 beyond it

A queue kept from a previous run can already hold more elements than a
lowered limit, and then it was not limited at all.
---
 src/pctldb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 009d3f9..5aa5937 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -421,7 +421,7 @@ static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size){
   }
 
   if(pctldb->hardlimit > 0){
-    if(pctldb->n == pctldb->hardlimit)
+    if(pctldb->n >= pctldb->hardlimit)
       return(1);
   }
 
-- 
2.43.0


From 19c4e51874d343382a0bc73422c4b9c7919b9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:19 +0000
Subject: [PATCH 30/34] fix: do not use an awips line with a '/' in the name of
 a product

---
 src/sbn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sbn.c b/src/sbn.c
index 49b032d..d2404e2 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -485,8 +485,11 @@ int split_wmo_header(struct sbn_frame *sbnf,
 
   n = data_size - (i + 1);
   if((wmo[8] == '\n') && (n >= 9)){
-    if(sscanf(wmo, "%6s", wmo_awips) != 1)
+    if((sscanf(wmo, "%6s", wmo_awips) != 1) ||
+       (strchr(wmo_awips, '/') != NULL)){
+      /* The name of the product (file) is built from it */
       wmo_awips[0] = '\0';
+    }
   }else{
     b = 0;
     while((b < WMO_NOTAWIPS_SIZE) && (b < n)){
-- 
2.43.0


From 6418cb51083f7d821704cc02e931e059d3f7cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:19 +0000
Subject: [PATCH 31/34] fix: slavenbs: reject a product name that contains a
 '/'

---
 src/slavenbs/framep.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index c355a80..af10318 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -308,6 +308,10 @@ static int split_fbasename(struct pctl_element_st *pce){
   if(fbasename_size > FBASENAME_SIZE)
     return(1);
 
+  /* It is used to build the fpath and must not have other components */
+  if(strchr(pce->fbasename, '/') != NULL)
+    return(1);
+
   strncpy(fbasename, pce->fbasename, FBASENAME_SIZE + 1);
 
   p2 = strchr(fbasename, '.');
-- 
2.43.0


From f08e00fab09effb8b95226e3dc92d599d25f1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:09 +0000
Subject: [PATCH 32/34] fix: release the configuration options after everything
 that uses them

The pid file, the panic file and the stop script were used after the strings
read from the configuration file had been released, and a stop script
set in that file was not executed.
---
 src/init.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/init.c b/src/init.c
index 2f60fac..e8be73b 100644
--- a/src/init.c
+++ b/src/init.c
@@ -289,7 +289,6 @@ void cleanup(void){
   close_queues();
   close_mspool();
 
-  release_confoptions();
   free_nbsp_regex();
 
   cleanup_files();
@@ -298,6 +297,9 @@ void cleanup(void){
 
   log_info("Stopped.");
   (void)exec_stopscript();
+
+  /* All of the above use the options that were read from the file */
+  release_confoptions();
 }
 
 void cleanup_files(void){
-- 
2.43.0


From 4f42f66f83185421bb4caaabd75a7fe6d764cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:06 +0000
Subject: [PATCH 33/34] fix: stop in an orderly way also on SIGABRT

The signal thread called exit() without setting the quit flag, and the
cleanup then waited forever for threads that had not been asked to end.
---
 src/signal.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index c9cb66e..e44141c 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -9,7 +9,6 @@
 #include <stdlib.h>
 #include <signal.h>
 #include <pthread.h>
-#include "globals.h"	/* g.f_debug */
 #include "err.h"
 #include "signal.h"
 
@@ -178,14 +177,11 @@ static void signal_handler(int sig){
     log_info("Received quit signal.");
     break;
   case SIGABRT:
+    /*
+     * Don't exit here: the cleanup waits for the other threads,
+     * and they end only if the quit flag is set.
+     */
     log_info("Received abort signal.");
-    if(g.f_debug){
-      /*
-       * Don't exit so that it dumps core.
-       */
-      ;
-    }else
-      exit(1);
     break;
   default:
     log_info("Received signal %d.", sig);
-- 
2.43.0


From 660b96ad37c6ed059f32c2d0ef155f437ef1782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:56 +0000
Subject: [PATCH 34/34] fix: stop retrying to reload the server filters when
 asked to quit

---
 src/serverm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serverm.c b/src/serverm.c
index 6d01453..bd428ab 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -244,12 +244,13 @@ static int server_loop(void){
     if(get_reload_server_filters_flag()){
       close_server_filters();
       status = open_server_filters();
-      while(status != 0){
+      while((status != 0) && (get_quit_flag() == 0)){
 	log_errx("%s", "Error reloading server filter. Will try again.");
 	sleep(SERVER_RELOAD_FILTER_ERROR_SLEEP_SECS);
 	status = open_server_filters();
       }
-      log_info("%s", "Server filters reloaded.");
+      if(status == 0)
+	log_info("%s", "Server filters reloaded.");
     }
   }
     
-- 
2.43.0

