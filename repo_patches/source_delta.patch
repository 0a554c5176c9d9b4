From b8c5b4f7f30083dc53db6544dab89ae97f9bca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:29 +0000
Subject: [PATCH 001/148] fix: a recovered MIRIAD error no longer aborts every
 other open dataset

bug_c called habort_c before handing a fatal error to the recovery handler the
Python wrapper installs, so one failed call (e.g. opening a file that does not
exist) closed all open datasets and deleted those being written.
---
 aipy/_miriad/mir/bug.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/bug.c b/aipy/_miriad/mir/bug.c
index 51d3fed..030d7cf 100644
--- a/aipy/_miriad/mir/bug.c
+++ b/aipy/_miriad/mir/bug.c
@@ -113,8 +113,10 @@ void bug_c(char s,Const char *m)
 
   fprintf(stderr,"### %s:  %s\n",p,m);
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if (!bug_cleanup) {         /* the caller recovers: keep its datasets */
+        reentrant = !reentrant;
+        if(reentrant)habort_c();
+    }
 #ifdef vms
 # include ssdef
     lib$stop(SS$_ABORT);
@@ -167,8 +169,10 @@ void bugv_c(char s,Const char *m, ...)
   va_end(ap);
 
   if(doabort){
-    reentrant = !reentrant;
-    if(reentrant)habort_c();
+    if (!bug_cleanup) {         /* the caller recovers: keep its datasets */
+        reentrant = !reentrant;
+        if(reentrant)habort_c();
+    }
     if (bug_cleanup) {
         (*bug_cleanup)();       /* call it */
         fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-- 
2.43.0


From 849b24fa42e38311eb5a5ec3b5bb97d6c103acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 002/148] fix: hclose_c read an item after hdaccess_c had freed
 it

---
 aipy/_miriad/mir/hio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index f612bd1..b65af5a 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -452,7 +452,8 @@ void hclose_c(int tno)
 /* Close any open items. */
 
   t = hget_tree(tno);
-  for(item=t->itemlist; item != NULL; item = item->fwd){
+  for(item=t->itemlist; item != NULL; item = it1){
+    it1 = item->fwd;		/* hdaccess_c may release the item */
     if(item->flags & ACCESS_MODE){
       bugv_c('w',"Closing item -- %s",item->name);
       hdaccess_c(item->handle,&iostat);			check(iostat);
-- 
2.43.0


From cd082642ff5cc7492cac36dca586db94146575cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:07 +0000
Subject: [PATCH 003/148] fix: a UV object without an open dataset no longer
 crashes the interpreter

A UV that failed to open, or never ran __init__, kept handle 0 (another
object's dataset) or -1 (out of bounds); and a MIRIAD error raised while
deallocating went through C and Python frames into std::terminate.
---
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/mir/uvio.c      | 21 +++++++++++++++++++++
 aipy/_miriad/miriad_wrap.cpp | 22 +++++++++++++++++++---
 aipy/_miriad/miriad_wrap.h   |  5 +++++
 4 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index c318be2..09eabb0 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -203,6 +203,7 @@ void dreaddir_c  (char *contxt, char *path, int length);
 
 void uvopen_c   (int *tno, Const char *name, Const char *status);
 void uvclose_c  (int tno);
+void uvabort_c  (int tno);
 void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0b18131..f322729 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -873,6 +873,27 @@ void uvclose_c(int tno)
   hclose_c(tno);
 }
 /************************************************************************/
+void uvabort_c(int tno)
+/**uvabort -- Give up a uv file, without flushing what uvclose would.	*/
+/*:uv-i/o								*/
+/*+
+  This releases everything held for a uv data file that an error left in an
+  unusable state. It does nothing if the file is not open.
+  Input:
+    tno		Handle of the uv data set.				*/
+/*--									*/
+/*----------------------------------------------------------------------*/
+{
+  UV *uv;
+
+  if(tno < 0 || tno >= MAXOPEN || (uv = uvs[tno]) == NULL) return;
+  uvs[tno] = NULL;
+  if(uv->corr_flags.handle != NULL) free(uv->corr_flags.handle);
+  if(uv->wcorr_flags.handle != NULL) free(uv->wcorr_flags.handle);
+  uv_freeuv(uv);
+  hclose_c(tno);
+}
+/************************************************************************/
 void uvflush_c(int tno)
 /**uvflush -- Flush buffers of a uv dataset to disk.			*/
 /*&rjs                                                                  */
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c7c5e38..8a5f2c6 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -25,7 +25,13 @@ typedef struct {
 
 // Deallocate memory when Python object is deleted
 static void UVObject_dealloc(UVObject *self) {
-    if (self->tno != -1) uvclose_c(self->tno);
+    if (self->tno != -1) {
+        try {
+            uvclose_c(self->tno);
+        } catch (MiriadError &e) { // Already reported by bug.c
+            try { uvabort_c(self->tno); } catch (MiriadError &e2) { }
+        }
+    }
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -34,6 +40,7 @@ static PyObject *UVObject_new(PyTypeObject *type,
         PyObject *args, PyObject *kwds) {
     UVObject *self;
     self = (UVObject *) type->tp_alloc(type, 0);
+    if (self != NULL) self->tno = -1; // No file is open yet
     return (PyObject *) self;
 }
 
@@ -66,6 +73,7 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
         uvset_c(self->tno,"preamble","uvw/time/baseline",0,0.,0.,0.);
         uvset_c(self->tno,"corr",corrmode,0,0.,0.,0.);
     } catch (MiriadError &e) {
+        try { uvabort_c(self->tno); } catch (MiriadError &e2) { }
         self->tno = -1;
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return -1;
@@ -83,6 +91,7 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
 
 // Thin wrapper over uvrewind_c
 PyObject * UVObject_rewind(UVObject *self) {
+    CHK_OPEN(self);
     uvrewind_c(self->tno);
     self->intcnt = -1;
     self->curtime = -1;
@@ -99,6 +108,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
     int nread, n2read, i, j;
     double preamble[PREAMBLE_SIZE];
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
+    CHK_OPEN(self);
     // Make numpy arrays to hold the results
     npy_intp data_dims[1] = {n2read};
     data = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_CFLOAT);
@@ -150,6 +160,7 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "(O!d(ii))O!O!",
         &PyArray_Type, &uvw, &t, &i, &j,
         &PyArray_Type, &data, &PyArray_Type, &flags)) return NULL;
+    CHK_OPEN(self);
     if (RANK(uvw) != 1 || DIM(uvw,0) != 3) {
         PyErr_Format(PyExc_ValueError, "uvw must have shape (3,) %d", RANK(uvw));
         return NULL;
@@ -188,6 +199,8 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
 PyObject * UVObject_copyvr(UVObject *self, PyObject *args) {
     UVObject *uv;
     if (!PyArg_ParseTuple(args, "O!", &UVType, &uv)) return NULL;
+    CHK_OPEN(self);
+    CHK_OPEN(uv);
     try {
         uvcopyvr_c(uv->tno, self->tno);
     } catch (MiriadError &e) {
@@ -202,6 +215,7 @@ PyObject * UVObject_copyvr(UVObject *self, PyObject *args) {
 PyObject * UVObject_trackvr(UVObject *self, PyObject *args) {
     char *name, *sw;
     if (!PyArg_ParseTuple(args, "ss", &name, &sw)) return NULL;
+    CHK_OPEN(self);
     try {
         uvtrack_c(self->tno, name, sw);
     } catch (MiriadError &e) {
@@ -233,7 +247,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
 
     if (!PyArg_ParseTuple(args, "ss", &name, &type))
         return NULL;
-
+    CHK_OPEN(self);
 
     uvprobvr_c(self->tno, name, value, &length, &updated);
 
@@ -324,6 +338,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     PyObject *wr_val;
     PyArrayObject *wr_arr=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
+    CHK_OPEN(self);
     if (PyArray_Check(wr_val)) {
         wr_arr = (PyArrayObject *) wr_val;
         CHK_ARRAY_RANK(wr_arr,1);
@@ -377,6 +392,7 @@ PyObject * UVObject_select(UVObject *self, PyObject *args) {
     double n1, n2;
     int include;
     if (!PyArg_ParseTuple(args, "sddi", &name, &n1, &n2, &include)) return NULL;
+    CHK_OPEN(self);
     if (strncmp(name,"decimation",5) == 0) {
         self->decimate = (long) n1;
         self->decphase = (long) n2;
@@ -397,6 +413,7 @@ PyObject * UVObject_haccess(UVObject *self, PyObject *args) {
     char *name, *mode;
     int item_hdl, iostat;
     if (!PyArg_ParseTuple(args, "ss", &name, &mode)) return NULL;
+    CHK_OPEN(self);
     try {
         haccess_c(self->tno, &item_hdl, name, mode, &iostat);
         CHK_IO(iostat);
@@ -716,7 +733,6 @@ MOD_INIT(_miriad) {
 
     Py_Initialize();
 
-    UVType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&UVType) < 0)
         return MOD_ERROR_VAL;
 
diff --git a/aipy/_miriad/miriad_wrap.h b/aipy/_miriad/miriad_wrap.h
index bd2fc1d..d1ad093 100644
--- a/aipy/_miriad/miriad_wrap.h
+++ b/aipy/_miriad/miriad_wrap.h
@@ -20,6 +20,11 @@
         return NULL; }
 
 
+#define CHK_OPEN(uv) \
+    if ((uv)->tno == -1) { \
+        PyErr_Format(PyExc_RuntimeError, "UV file is not open"); \
+        return NULL; }
+
 // Some numpy macros...
 #define QUOTE(a) # a
 #define IND1(a,i,type) *((type *)((char *)PyArray_DATA(a) + i*PyArray_STRIDES(a)[0]))
-- 
2.43.0


From 17d3324b96bc6c42a30e1f1759298f72fd96e8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:42 +0000
Subject: [PATCH 004/148] fix: closing a dataset releases it even when its
 header cannot be written

---
 aipy/_miriad/mir/hio.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index b65af5a..af960aa 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -447,28 +447,33 @@ void hclose_c(int tno)
 {
   TREE *t;
   ITEM *item,*it1,*it2;
-  int iostat;
+  int iostat,stat;
 
 /* Close any open items. */
 
+  iostat = 0;
+
   t = hget_tree(tno);
   for(item=t->itemlist; item != NULL; item = it1){
     it1 = item->fwd;		/* hdaccess_c may release the item */
     if(item->flags & ACCESS_MODE){
       bugv_c('w',"Closing item -- %s",item->name);
-      hdaccess_c(item->handle,&iostat);			check(iostat);
+      hdaccess_c(item->handle,&stat);
+      if(!iostat) iostat = stat;
     }
   }
 
 /* Flush out the header, if needed. */
 
-  hflush_c(tno,&iostat);				check(iostat);
+  hflush_c(tno,&stat);
+  if(!iostat) iostat = stat;
 
-/* Release all allocated stuff. */
+/* Release all allocated stuff, before any error is reported. */
 
   it1 = t->itemlist;
   while(it1 != NULL){
     it2 = it1->fwd;
+    if(it1->fd) dclose_c(it1->fd,&stat);
     hrelease_item_c(it1);
     it1 = it2;
   }
@@ -476,6 +481,7 @@ void hclose_c(int tno)
   free(t->name);
   free((char *)t);
   ntree--;
+  check(iostat);
 }
 /************************************************************************/
 void hdelete_c(int tno,Const char *keyword,int *iostat)
-- 
2.43.0


From 12e715bb6c93b9272d27c734364f286948d8d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 005/148] fix: a damaged header no longer overruns buffers or
 leaks the dataset

---
 aipy/_miriad/mir/hio.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index af960aa..2e22e8a 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -45,6 +45,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 
 #include "hio.h"
 #include "miriad.h"
@@ -1290,13 +1291,14 @@ private void hcache_read_c(TREE *t,int *iostat)
 /*
   Read in all small items, which are stored in the file "header".
   Errors should never happen when reading the cache. If they do,
-  abort completely.
+  give an error status.
 ------------------------------------------------------------------------*/
 {
   int offset;
   ITEM *item;
   char s[CACHE_ENT];
   int ihandle;
+  off64_t size;
 
   header_ok = TRUE;
   haccess_c(t->handle,&ihandle,"header","read",iostat);
@@ -1305,18 +1307,26 @@ private void hcache_read_c(TREE *t,int *iostat)
   offset = 0;
   while(hreadb_c(ihandle,s,offset,CACHE_ENT,iostat),!*iostat){
     offset += CACHE_ENT;
+    size = (unsigned char)s[CACHE_ENT-1];
+    s[CACHE_ENT-1] = 0;
+    if(hname_check(s) || size > CACHESIZE){
+      bug_c('w',"hcache_read_c: Something wrong reading cache");
+      *iostat = EIO;
+      return;
+    }
     item = hcreate_item_c(t,s);
-    item->size = *(s+CACHE_ENT-1);
+    item->size = size;
     item->bsize = item->size;
     item->flags = ITEM_CACHE;
     item->io[0].offset = 0;
     item->io[0].length = item->size;
     item->io[0].state = IO_VALID;
     item->io[0].buf = Malloc(item->size);
-    hreadb_c(ihandle,item->io[0].buf,offset,item->size,iostat);	check(*iostat);
+    hreadb_c(ihandle,item->io[0].buf,offset,item->size,iostat);
+    if(*iostat)return;
     offset += mroundup(item->size,CACHE_ENT);
   }
-  if(*iostat != -1) bug_c('f',"hcache_read_c: Something wrong reading cache");
+  if(*iostat != -1) return;
   hdaccess_c(ihandle,iostat);
 }
 /************************************************************************/
-- 
2.43.0


From f97e0f168f6556fe710bd8ba928db6bf2a7f4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 006/148] fix: non-ASCII dataset paths, and opening too many
 datasets, corrupted the handle tables

---
 aipy/_miriad/mir/hio.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 2e22e8a..bd8ca3b 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1464,10 +1464,10 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
 /* Hash the name. */
 
   s = name;
-  hash = nitem++;
-  if(nitem > MAXITEM)
+  if(nitem >= MAXITEM)
     bugv_c('f',"Item address table overflow, in hio; nitem=%d MAXITEM=%d",nitem,MAXITEM);
-  while(*s) hash += *s++;
+  hash = nitem++;
+  while(*s) hash += (unsigned char)*s++;
   hash %= MAXITEM;
 
 /* Find a slot in the list of addresses, and allocate it. */
@@ -1511,10 +1511,10 @@ private TREE *hcreate_tree_c(char *name)
 /* Hash the name. */
 
   s = name;
-  hash = ntree++;
-  if(ntree > MAXOPEN)
+  if(ntree >= MAXOPEN)
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
-  while(*s) hash += *s++;
+  hash = ntree++;
+  while(*s) hash += (unsigned char)*s++;
   hash %= MAXOPEN;
 
 /* Find a slot in the list of addresses, and allocate it. */
-- 
2.43.0


From f05f034357c8e2c736e8ebd27542aac0749db541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:16 +0000
Subject: [PATCH 007/148] fix: UV variables beyond the 127th, and beyond the
 table, indexed out of bounds

---
 aipy/_miriad/mir/uvio.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index f322729..fd73af4 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1261,6 +1261,8 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* We are going to have to create it. */
 
   uv = uvs[tno];
+  if(uv->nvar >= MAXVAR)
+    ERROR('f',(message,"No room for the variable %s, in UVPUTVR",name));
   n = uv->nvar++;
   v = &uv->variable[n];
   Strcpy(v->name,name);
@@ -1269,7 +1271,7 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* Add it to the hash table. */
 
   hashval = 0;
-  while(*name)hashval += *name++;
+  while(*name)hashval += (unsigned char)*name++;
   hashval %= HASHSIZE;
   v->fwd = uv->vhash[hashval];
   uv->vhash[hashval] = v;
@@ -1287,7 +1289,7 @@ private VARIABLE *uv_locvar(int tno,char *name)
   char *s;
 
   hashval = 0;
-  for(s=name; *s; s++) hashval += *s;
+  for(s=name; *s; s++) hashval += (unsigned char)*s;
 
   for(v = uvs[tno]->vhash[hashval%HASHSIZE]; v != NULL; v = v->fwd)
 	if(!strcmp(v->name,name))break;
@@ -1907,7 +1909,7 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      v = &uv->variable[(unsigned char) *s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
-- 
2.43.0


From d58d0aa09c512fdbd03f248e7df27084a4acc444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 008/148] fix: damaged uv streams and long dataset names
 overran buffers in uvio

---
 aipy/_miriad/mir/uvio.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index fd73af4..d42553a 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -313,7 +313,6 @@
 /*									*/
 /*----------------------------------------------------------------------*/
 
-#define Sscanf (void)sscanf
 #define Sprintf (void)sprintf
 #define Malloc(x) malloc((unsigned)(x))
 #define Realloc(a,b) ((a)==NULL?malloc((unsigned)(b)):realloc((a),(unsigned)(b)))
@@ -359,7 +358,7 @@
 /*									*/
 /*----------------------------------------------------------------------*/
 
-static char message[MAXLINE];
+static char message[MAXPATH+MAXLINE];	/* room for any dataset name */
 static int internal_size[10];
 static int external_size[10];
 static char type_flag[10];
@@ -1224,7 +1223,8 @@ private void uv_vartable_in(UV *uv)
   CHECK(iostat,(message,"Error opening vartable, in UVOPEN(vartable_in)"));
 
   while(hreada_c(item,line,(int)sizeof(line),&iostat),!iostat){
-    Sscanf(line,"%c %s",&ctype,name);
+    if(sscanf(line,"%c %8s",&ctype,name) != 2)
+      ERROR('f',(message,"Bad entry in vartable, in UVOPEN(vartable_in)"));
     switch(ctype){
       case 'a': type = H_BYTE;	break;
       case 'j': type = H_INT2;	break;
@@ -1909,6 +1909,8 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
+      if((unsigned char) *s >= uv->nvar)
+        ERROR('f',(message,"Unknown variable number %d, when scanning",(unsigned char) *s));
       v = &uv->variable[(unsigned char) *s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
@@ -1923,6 +1925,8 @@ private int uv_scan(UV *uv, VARIABLE *vt)
       if(v->flength <= 0)
 	ERROR('f',(message,"Variable %s has length of %d, when scanning",
 			v->name,v->flength));
+      if(v->flength > hsize_c(uv->item) - offset)
+	ERROR('f',(message,"Variable %s does not fit in the file, when scanning",v->name));
       if(v->flength % extsize)
         ERROR('f',(message,
 	  "Non-integral no. elements in variable %s, when scanning",v->name));
@@ -1942,6 +1946,8 @@ private int uv_scan(UV *uv, VARIABLE *vt)
      case VAR_DATA:
       offset += mroundup(UV_HDR_SIZE,extsize);
       if(!(v->flags & UVF_OVERRIDE)){
+	if(v->buf == NULL)
+	  ERROR('f',(message,"Variable %s has data before its length, when scanning",v->name));
 	hread_c(uv->item,v->type,v->buf,offset,v->flength,&iostat);
 	CHECK(iostat,(message,"Error reading a variable value for %s, while UV scanning",v->name));
 	changed = TRUE;
-- 
2.43.0


From 56b93a140d049bf93d33aabd38e61da3ae24a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 009/148] fix: over-long and empty dataset names overran path
 buffers

---
 aipy/_miriad/mir/dio.c  | 5 +++++
 aipy/_miriad/mir/uvio.c | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 4adad9d..d6bee08 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -88,6 +88,11 @@ void dtrans_c(char *inpath,char *outpath,int *iostat)
   char *s;
 
   *iostat = 0;
+  if(*inpath == 0){ *iostat = ENOENT; return; }
+  if(strlen(inpath) >= MAXPATH - 16){	/* leave room for an item name */
+    *iostat = ENAMETOOLONG;
+    return;
+  }
   Strcpy(outpath,inpath);
   s = outpath + strlen(outpath) - 1;
   if(*s != '/')Strcat(outpath,"/");
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index d42553a..15ea59b 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -738,7 +738,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
 
   if( !strcmp(status,"old") ) {
     hopen_c(tno,name,"old",&iostat);
-    CHECK(iostat,(message,"Error opening %s, in UVOPEN(old)",name));
+    CHECK(iostat,(message,"Error opening %.1000s, in UVOPEN(old)",name));
     uv = uv_getuv(*tno);
     haccess_c(*tno,&uv->item,"visdata","read",&iostat);
     CHECK(iostat,(message,"Error accessing visdata for %s, in UVOPEN(old)",name));
@@ -770,7 +770,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
 
   } else if(!strcmp(status,"new")) {
     hopen_c(tno,name,"new",&iostat);
-    CHECK(iostat,(message,"Error opening %s, in UVOPEN(new)",name));
+    CHECK(iostat,(message,"Error opening %.1000s, in UVOPEN(new)",name));
     uv = uv_getuv(*tno);
     haccess_c(*tno,&uv->item,"visdata","write",&iostat);
     CHECK(iostat,(message,"Error accessing visdata for %s, in UVOPEN(new)",name));
@@ -784,7 +784,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
 
   } else if(!strcmp(status,"append")) {
     hopen_c(tno,name,"old",&iostat);
-    CHECK(iostat,(message,"Error opening %s, in UVOPEN(append)",name));
+    CHECK(iostat,(message,"Error opening %.1000s, in UVOPEN(append)",name));
     uv = uv_getuv(*tno);
     haccess_c(*tno,&uv->item,"visdata","append",&iostat);
     CHECK(iostat,(message,"Error accessing visdata for %s, in UVOPEN(append)",name));
@@ -830,7 +830,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
 /*									*/
 /*----------------------------------------------------------------------*/
 
-  } else ERROR('f',(message,"Status %s is not recognised by UVOPEN",status));
+  } else ERROR('f',(message,"Status %.100s is not recognised by UVOPEN",status));
 }
 /************************************************************************/
 void uvclose_c(int tno)
-- 
2.43.0


From 356280a35c1b4fdea67d3c8bfd9b0eaec764ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 010/148] fix: a file with a long name in a dataset overran
 buffers

---
 aipy/_miriad/mir/dio.c  | 2 +-
 aipy/_miriad/mir/hio.c  | 2 +-
 aipy/_miriad/mir/uvio.c | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index d6bee08..53f20fb 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -304,7 +304,7 @@ void dreaddir_c(char *contxt,char *path,int length)
   struct dent *d;
   struct direct *dp;
   struct stat buf;
-  char npath[MAXPATH];
+  char npath[MAXPATH+512];
 
   d = (struct dent *)contxt;
 
diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index bd8ca3b..ca0fd72 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1364,7 +1364,7 @@ private void hdir_c(ITEM *item)
   ITEM *it;
   TREE *t;
 
-#define MINLENGTH 128
+#define MINLENGTH 512	/* holds any file name */
 
 /* Mark this item as not cachable. */
 
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 15ea59b..1fd5b19 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1170,6 +1170,7 @@ private void uv_override(UV *uv)
   haccess_c(uv->tno,&item,".","read",&iostat);
   CHECK(iostat,(message,"Error opening directory listing, in UVOPEN(override)"));
   while(hreada_c(item,varname,MAXLINE,&iostat),iostat==0){
+    varname[MAXLINE-1] = 0;
     v = uv_locvar(tno,varname);
     if(v != NULL){
       hdprobe_c(tno,varname,descr,MAXLINE,vartype,&n);
-- 
2.43.0


From 631a4bfcd187daf87e28476687c78906e13b12b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 011/148] fix: decimation by less than 1 divided by zero

---
 aipy/_miriad/miriad_wrap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 8a5f2c6..a5568d7 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -1,6 +1,7 @@
 #include <Python.h>
 #include "numpy/arrayobject.h"
 #include <string>
+#include <math.h>
 #include "aipy_compat.h"
 #include "miriad_wrap.h"
 
@@ -394,6 +395,10 @@ PyObject * UVObject_select(UVObject *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "sddi", &name, &n1, &n2, &include)) return NULL;
     CHK_OPEN(self);
     if (strncmp(name,"decimation",5) == 0) {
+        if (!(n1 >= 1 && n1 <= 2147483647. && fabs(n2) <= 2147483647.)) {
+            PyErr_Format(PyExc_ValueError, "decimation must be at least 1");
+            return NULL;
+        }
         self->decimate = (long) n1;
         self->decphase = (long) n2;
     } else {
-- 
2.43.0


From 85586586e7fac15ac7c2eb7885bc93b46c41091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 012/148] fix: non-ASCII text in header items and variables was
 corrupted

PyString_AsString returned freed memory, lengths were counted in characters
but written as bytes, and reading decoded UTF-8 one byte at a time.
---
 aipy/_common/aipy_compat.h   | 27 +++++++++++++--------------
 aipy/_miriad/miriad_wrap.cpp |  9 ++++++---
 aipy/miriad.py               |  8 ++++----
 3 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/aipy/_common/aipy_compat.h b/aipy/_common/aipy_compat.h
index 20300da..19948a0 100644
--- a/aipy/_common/aipy_compat.h
+++ b/aipy/_common/aipy_compat.h
@@ -10,24 +10,23 @@
 # define PyInt_Check PyLong_Check
 # define PyString_FromString PyUnicode_FromString
 # define PyString_Check PyUnicode_Check
-# define PyString_Size PyUnicode_GET_LENGTH
 # define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 
-static char *
+/* The bytes belong to the string object, and live as long as it does. */
+static const char *
 PyString_AsString(PyObject *ob)
 {
-    PyObject *enc;
-    char *cstr;
-
-    enc = PyUnicode_AsEncodedString(ob, "utf-8", "Error");
-    if (enc == NULL) {
-        PyErr_Format(PyExc_ValueError, "Cannot encode string");
-        return NULL;
-    }
-
-    cstr = PyBytes_AsString(enc);
-    Py_XDECREF(enc);
-    return cstr;
+    return PyUnicode_AsUTF8(ob);
+}
+
+static Py_ssize_t
+PyString_Size(PyObject *ob)
+{
+    Py_ssize_t size;
+
+    if (PyUnicode_AsUTF8AndSize(ob, &size) == NULL)
+        return -1;
+    return size;
 }
 #endif
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index a5568d7..187c7ff 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -335,7 +335,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
  * various types.  Accepts numpy arrays for writing. */
 PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
-    char *st;
+    const char *st;
     PyObject *wr_val;
     PyArrayObject *wr_arr=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
@@ -349,6 +349,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(wr_val);
                 st = PyString_AsString(wr_val);
+                if (st == NULL) return NULL;
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
@@ -522,7 +523,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char *st;
+    int in; short sh; long lg; float fl; double db; float cx[2]; const char *st;
     if (!PyArg_ParseTuple(args, "iiOs", &item_hdl, &offset, &val, &type))
         return NULL;
     try {
@@ -530,8 +531,9 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(val);
                 st = PyString_AsString(val);
+                if (st == NULL) return NULL;
                 in = PyString_Size(val); // # bytes to write
-                hwriteb_c(item_hdl, st, offset, in, &iostat);
+                hwriteb_c(item_hdl, (char *)st, offset, in, &iostat);
                 CHK_IO(iostat);
                 offset = H_BYTE_SIZE * in;
                 break;
@@ -603,6 +605,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
             case 'a':
                 hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat);
                 CHK_IO(iostat);
+                st[1] = 0;
 #if PY_MAJOR_VERSION >= 3
                 return Py_BuildValue("yi", st, H_BYTE_SIZE);
 #else
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 671f5fb..2f7d64f 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,12 +119,12 @@ class UV(_miriad.UV):
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
                 except(IOError): break
-                if itype == 'a':
-                    try: c = str(c[:o], 'utf-8')
-                    except(TypeError): c = c[:o]
+                if itype == 'a': c = c[:o]
                 rv.append(c)
                 offset += o
-            if itype == 'a': rv = ''.join(rv)
+            if itype == 'a':
+                try: rv = str(b''.join(rv), 'utf-8')
+                except(TypeError): rv = b''.join(rv)
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-- 
2.43.0


From f22df9cb06b50aeeb2e48b59b53d44d12044ca44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 013/148] fix: complex, integer and strided array variables
 were stored corrupted

MIRIAD holds complex variables as float pairs and 16-bit ones as its int2
type, but the wrapper passed doubles and shorts; 64-bit integer arrays and
non-contiguous arrays were passed as if they were packed 32-bit ones.
---
 aipy/_miriad/miriad_wrap.cpp | 63 ++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 187c7ff..eed5e7b 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -257,7 +257,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         elem_size = 1;
         break;
     case 'j':
-        elem_size = 2;
+        elem_size = sizeof(int2); // as MIRIAD holds it in memory
         break;
     case 'i':
         elem_size = 4;
@@ -276,7 +276,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         return NULL;
     }
 
-    if (length * elem_size > MAXVAR) {
+    if (length * elem_size > MAXVAR - 1) {
         PyErr_Format(PyExc_ValueError, "UV variable \"%s\" too big for aipy's "
                      "internal buffers", name);
         return NULL;
@@ -291,11 +291,11 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'j':
                 uvgetvr_c(self->tno,H_INT2,name,value,length);
                 if (length == 1)
-                    return PyInt_FromLong((long) ((short *)value)[0]);
+                    return PyInt_FromLong((long) ((int2 *)value)[0]);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_INT);
                 CHK_NULL(rv);
                 for (int i=0; i < length; i++)
-                    IND1(rv,i,int) = ((short *)value)[i];
+                    IND1(rv,i,int) = ((int2 *)value)[i];
                 return PyArray_Return(rv);
             case 'i':
                 RET_IA(H_INT,PyInt_FromLong,long,int,NPY_INT);
@@ -304,14 +304,15 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
             case 'd':
                 RET_IA(H_DBLE,PyFloat_FromDouble,double,double,NPY_DOUBLE);
             case 'c':
-                if (length == 1) {
-                    uvgetvr_c(self->tno,H_CMPLX,name,value,length);
-                    return PyComplex_FromDoubles(((double *)value)[0],
-                                                 ((double *)value)[1]);
-                }
+                // MIRIAD complex variables are pairs of floats
+                uvgetvr_c(self->tno,H_CMPLX,name,value,length);
+                if (length == 1)
+                    return PyComplex_FromDoubles(((float *)value)[0],
+                                                 ((float *)value)[1]);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CDOUBLE);
                 CHK_NULL(rv);
-                uvgetvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(rv),length);
+                for (int i=0; i < 2*length; i++)
+                    ((double *)PyArray_DATA(rv))[i] = ((float *)value)[i];
                 return PyArray_Return(rv);
             default:
                 return NULL; /* can't happen with previous switch */
@@ -322,13 +323,25 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-#define STORE_IA(npy_type,htype,chk_type,type,pyconverter) \
+// Put an array in the form MIRIAD expects: contiguous, and of its own type
+#define CAST_ARRAY(a,npy_type) \
+    (PyArrayObject *) PyArray_FROMANY((PyObject *)a, npy_type, 1, 1, \
+        NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST)
+
+#define STORE_ARRAY(npy_type,htype) \
+    cast_arr = CAST_ARRAY(wr_arr,npy_type); \
+    CHK_NULL(cast_arr); \
+    uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(cast_arr),DIM(cast_arr,0)); \
+    Py_DECREF(cast_arr);
+
+#define STORE_IA(npy_type,npy_type2,npy_cast,htype,chk_type,type,pyconverter) \
     if (PyArray_Check(wr_val)) { \
-        CHK_ARRAY_TYPE(wr_arr,npy_type); \
-        uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(wr_arr),DIM(wr_arr,0)); \
+        if (TYPE(wr_arr) != npy_type2) { CHK_ARRAY_TYPE(wr_arr,npy_type); } \
+        STORE_ARRAY(npy_cast,htype); \
     } else { \
         chk_type(wr_val); \
         ((type *)value)[0] = (type) pyconverter(wr_val); \
+        if (PyErr_Occurred()) return NULL; \
         uvputvr_c(self->tno,htype,name,value,1); }
 
 /* wrvr is the complement of rdvr that uses uvputvr_c to write variables of
@@ -337,7 +350,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
     const char *st;
     PyObject *wr_val;
-    PyArrayObject *wr_arr=NULL;
+    PyArrayObject *wr_arr=NULL, *cast_arr=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
     CHK_OPEN(self);
     if (PyArray_Check(wr_val)) {
@@ -353,26 +366,25 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,H_INT2,CHK_INT,short,PyInt_AsLong);
+                STORE_IA(NPY_LONG,NPY_INT,NPY_INT,H_INT2,CHK_INT,int2,PyInt_AsLong);
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong);
+                STORE_IA(NPY_LONG,NPY_INT,NPY_INT,H_INT,CHK_INT,int,PyInt_AsLong);
                 break;
             case 'r':
-                STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
+                STORE_IA(NPY_FLOAT,NPY_FLOAT,NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
                 break;
             case 'd':
-                STORE_IA(NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble);
+                STORE_IA(NPY_DOUBLE,NPY_DOUBLE,NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble);
                 break;
             case 'c':
                 if (PyArray_Check(wr_val)) {
                     CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
-                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(wr_arr),
-                        DIM(wr_arr,0));
+                    STORE_ARRAY(NPY_CFLOAT,H_CMPLX);
                 } else {
                     CHK_COMPLEX(wr_val);
-                    ((double *)value)[0] = PyComplex_RealAsDouble(wr_val);
-                    ((double *)value)[1] = PyComplex_ImagAsDouble(wr_val);
+                    ((float *)value)[0] = (float) PyComplex_RealAsDouble(wr_val);
+                    ((float *)value)[1] = (float) PyComplex_ImagAsDouble(wr_val);
                     uvputvr_c(self->tno,H_CMPLX,name,value,1);
                 }
                 break;
@@ -383,6 +395,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
         Py_INCREF(Py_None);
         return Py_None;
     } catch (MiriadError &e) {
+        Py_XDECREF(cast_arr);
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
     }
@@ -523,7 +536,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val;
-    int in; short sh; long lg; float fl; double db; float cx[2]; const char *st;
+    int in; int2 sh; long lg; float fl; double db; float cx[2]; const char *st;
     if (!PyArg_ParseTuple(args, "iiOs", &item_hdl, &offset, &val, &type))
         return NULL;
     try {
@@ -546,7 +559,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
                 break;
             case 'j':
                 CHK_INT(val);
-                sh = (short) PyInt_AsLong(val);
+                sh = (int2) PyInt_AsLong(val);
                 hwritej_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT2_SIZE;
@@ -597,7 +610,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val, *rv;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char st[2];
+    int in; int2 sh; long lg; float fl; double db; float cx[2]; char st[2];
     if (!PyArg_ParseTuple(args, "iis", &item_hdl, &offset, &type))
         return NULL;
     try {
-- 
2.43.0


From 90f3dddc750f65689991e4ab70a0889090aeec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 014/148] fix: writing strided, byte-swapped or unmasked
 records stored wrong data or failed

---
 aipy/_miriad/miriad_wrap.cpp | 17 ++++++++++-------
 aipy/_miriad/miriad_wrap.h   |  4 ++++
 aipy/miriad.py               |  2 +-
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index eed5e7b..d2f7438 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -173,11 +173,17 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(uvw, NPY_DOUBLE);
     CHK_ARRAY_TYPE(data, NPY_CFLOAT);
     // Check for both int,long, b/c label of 32b number is platform dependent
-    if (TYPE(flags) != NPY_INT && \
-            (sizeof(int) == sizeof(long) && TYPE(flags) != NPY_LONG)) {
+    if (TYPE(flags) != NPY_INT && TYPE(flags) != NPY_LONG) {
         PyErr_Format(PyExc_ValueError, "type(flags) != NPY_LONG or NPY_INT");
         return NULL;
     }
+    uvw = CAST_ARRAY(uvw, NPY_DOUBLE);
+    data = CAST_ARRAY(data, NPY_CFLOAT);
+    flags = CAST_ARRAY(flags, NPY_INT);
+    if (uvw == NULL || data == NULL || flags == NULL) {
+        Py_XDECREF(uvw); Py_XDECREF(data); Py_XDECREF(flags);
+        return NULL;
+    }
     // Fill up the preamble
     preamble[0] = IND1(uvw,0,double);
     preamble[1] = IND1(uvw,1,double);
@@ -188,7 +194,9 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     try {
         uvwrite_c(self->tno, preamble,
             (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), DIM(data,0));
+        Py_DECREF(uvw); Py_DECREF(data); Py_DECREF(flags);
     } catch (MiriadError &e) {
+        Py_DECREF(uvw); Py_DECREF(data); Py_DECREF(flags);
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
     }
@@ -323,11 +331,6 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-// Put an array in the form MIRIAD expects: contiguous, and of its own type
-#define CAST_ARRAY(a,npy_type) \
-    (PyArrayObject *) PyArray_FROMANY((PyObject *)a, npy_type, 1, 1, \
-        NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST)
-
 #define STORE_ARRAY(npy_type,htype) \
     cast_arr = CAST_ARRAY(wr_arr,npy_type); \
     CHK_NULL(cast_arr); \
diff --git a/aipy/_miriad/miriad_wrap.h b/aipy/_miriad/miriad_wrap.h
index d1ad093..1635693 100644
--- a/aipy/_miriad/miriad_wrap.h
+++ b/aipy/_miriad/miriad_wrap.h
@@ -35,6 +35,10 @@
         PyErr_Format(PyExc_ValueError, "type(%s) != %s", \
         QUOTE(a), QUOTE(type)); \
         return NULL; }
+// Put an array in the form MIRIAD expects: contiguous, and of its own type
+#define CAST_ARRAY(a,npy_type) \
+    (PyArrayObject *) PyArray_FROMANY((PyObject *)a, npy_type, 1, 1, \
+        NPY_ARRAY_CARRAY | NPY_ARRAY_FORCECAST)
 #define DIM(a,i) PyArray_DIM(a, i)
 #define RANK(a) PyArray_NDIM(a)
 #define CHK_ARRAY_RANK(a,r) \
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 2f7d64f..d3a40f4 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -238,7 +238,7 @@ class UV(_miriad.UV):
         if not flags is None: flags = np.logical_not(flags)
         elif len(data.mask.shape) == 0:
             flags = np.ones(data.shape)
-            data = data.unmask()
+            data = data.data
         else:
             flags = np.logical_not(data.mask)
             #data = data.filled(0)
-- 
2.43.0


From 32e7cec5b0fc761716e9c6f2ba116dcd58b034aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 015/148] fix: read_files took a single file name for a list of
 characters

---
 aipy/miriad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index d3a40f4..3c8185a 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -128,7 +128,7 @@ class UV(_miriad.UV):
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-                v, o = _miread.hread(h, offset, t)
+                v, o = _miriad.hread(h, offset, t)
                 rv.append(v); offset += o
         _miriad.hdaccess(h)
         if len(rv) == 1: return rv[0]
@@ -325,7 +325,7 @@ def read_files(filenames, antstr, polstr, decimate=1, decphs=0, verbose=False, r
     from . import scripting, cal
     info = {'lsts':[], 'times':[]}
     data, flgs = {}, {}
-    if type(filenames) == 'str': filenames = [filenames]
+    if type(filenames) == str: filenames = [filenames]
     for filename in filenames:
         if verbose: print('   Reading', filename)
         uv = UV(filename)
-- 
2.43.0


From 595cc93b0ca6efb8b431632aa0c3b551f8c76d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 016/148] fix: obstype was read with its binary type tag as
 text

---
 aipy/miriad.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 3c8185a..d8b229b 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -112,7 +112,12 @@ class UV(_miriad.UV):
         h = self.haccess(name, 'read')
         rv = []
         if len(itype) == 1:
-            if itype == 'a': offset = 0
+            if itype == 'a':
+                # MIRIAD's own string items are tagged, text items are not
+                offset = 0
+                if name == 'obstype':
+                    try: t, offset = _miriad.hread_init(h)
+                    except(RuntimeError, IOError): pass
             else:
                 t, offset = _miriad.hread_init(h)
                 assert(itype == t)
-- 
2.43.0


From a82958da091aa3b6338a2579fbd76503654e3774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 017/148] fix: reading a record with fewer channels returned
 uninitialised data

---
 aipy/miriad.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index d8b229b..18b6add 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -225,7 +225,8 @@ class UV(_miriad.UV):
         'raw' causes data and flags to be returned seperately."""
         preamble, data, flags, nread = self.raw_read(self.nchan)
         if nread == 0: raise IOError("No data read")
-        flags = np.logical_not(flags)
+        # A record can be shorter than the buffer it was read into
+        data, flags = data[:nread], np.logical_not(flags[:nread])
         if raw: return preamble, data, flags
         return preamble, np.ma.array(data, mask=flags)
     def all(self, raw=False):
-- 
2.43.0


From 750d2a886efdd400790cb8589cc75fa9bdcb7f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 018/148] fix: the time or baseline of a first record could be
 left out

The value which stands for 'nothing written yet' was made from the wrong
element of a preamble with w.
---
 aipy/_miriad/mir/uvio.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 1fd5b19..b530c23 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2047,8 +2047,10 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     } else
       BUG('f',"Unrecognised or unsupported linetype, in UVWRITE");
 
-/* Create the preamble variables, if needed. */
+/* Create the preamble variables, if needed, with a value which differs from
+   that of the first record. */
 
+    nuvw = (uv->flags & UVF_DOW ? 3 : 2);
     if( uv->coord == NULL ){
       uv->coord = uv_mkvar(tno,"coord",H_DBLE);
       uv->coord->flags |= UVF_NOCHECK;
@@ -2064,7 +2066,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
       uv->time->flags |= UVF_NOCHECK;
       if(uv->time->buf == NULL){
 	uv->time->buf = Malloc(sizeof(double));
-	*(double *)(uv->time->buf) = *(preamble+2) + 1000;
+	*(double *)(uv->time->buf) = *(preamble+nuvw) + 1000;
       }
     }
 
@@ -2073,7 +2075,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
       uv->bl->flags |= UVF_NOCHECK;
       if(uv->bl->buf == NULL){
 	uv->bl->buf = Malloc(sizeof(float));
-	*(float *)(uv->bl->buf) = *(preamble + 3) + 1000;
+	*(float *)(uv->bl->buf) = *(preamble+nuvw+1) + 1000;
       }
     }
   }
-- 
2.43.0


From ed0b8d07f71a1d1af8d3421d16101d8e2259d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 019/148] fix: a NaN or infinite channel spoilt the scaling of
 a 16-bit record

---
 aipy/_miriad/mir/uvio.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index b530c23..325e774 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -265,6 +265,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
+#include <float.h>
 #include <ctype.h>
 #include "io.h"
 #include "miriad.h"
@@ -2119,7 +2120,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     for(i=0; i < 2*n; i++){
       temp = *p++;
       if(temp < 0)temp = -temp;
-      maxval = max(maxval,temp);
+      if(temp > maxval && temp <= FLT_MAX)maxval = temp;	/* not NaN or inf */
     }
     if(maxval == 0) maxval = 1;
     scale = maxval / 32767;
@@ -2127,7 +2128,13 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     scale = 32767 / maxval;
     p = (float *)data;
     q = (int *)v->buf;
-    for(i=0; i < 2*n; i++) *q++ = scale * *p++;
+    for(i=0; i < 2*n; i++){
+      temp = scale * *p++;
+      if(temp > 32767)temp = 32767;
+      else if(temp < -32767)temp = -32767;
+      else if(temp != temp)temp = 0;
+      *q++ = temp;
+    }
     q = (int *)v->buf;
     uvputvrj_c(tno,v->name,(int *)v->buf,2*n);
   }
-- 
2.43.0


From 86e0b5c5eeed9694384a2153edef75c88fc2e8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:24 +0000
Subject: [PATCH 020/148] fix: piping a decimated dataset lost variables
 changed in skipped integrations

---
 aipy/_miriad/mir/miriad.h    |  2 ++
 aipy/_miriad/mir/uvio.c      | 14 ++++++++++++++
 aipy/_miriad/miriad_wrap.cpp |  6 +++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index 09eabb0..8d64329 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -208,6 +208,8 @@ void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
 void uvcopyvr_c (int tin, int tout);
+int  uvgetmark_c (int tno);
+void uvsetmark_c (int tno, int mark);
 int  uvupdate_c (int tno);
 void uvvarini_c (int tno, int *vhan);
 void uvvarset_c (int vhan, Const char *var);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 325e774..a6df038 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1392,6 +1392,20 @@ void uvcopyvr_c(int tin,int tout)
   }
 }
 /************************************************************************/
+int uvgetmark_c(int tno)
+/* The call number from which on variables count as having changed.	*/
+{
+  return uvs[tno]->mark;
+}
+/************************************************************************/
+void uvsetmark_c(int tno,int mark)
+/* Let variables changed since an earlier call (see uvgetmark_c) count as
+   having changed, for uvcopyvr_c.					*/
+{
+  uvs[tno]->mark = mark;
+  uvs[tno]->flags |= UVF_COPY;
+}
+/************************************************************************/
 int uvupdate_c(int tno)
 /**uvupdate -- Check whether any "important" variables have changed.	*/
 /*&rjs                                                                  */
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index d2f7438..2dfdd4f 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -106,7 +106,7 @@ PyObject * UVObject_rewind(UVObject *self) {
 PyObject * UVObject_read(UVObject *self, PyObject *args) {
     PyArrayObject *data, *flags, *uvw;
     PyObject *rv;
-    int nread, n2read, i, j;
+    int nread, n2read, i, j, mark=0, skipped=0;
     double preamble[PREAMBLE_SIZE];
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
     CHK_OPEN(self);
@@ -121,6 +121,9 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
         try {
             uvread_c(self->tno, preamble,
                      (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), n2read, &nread);
+            // Variables changed in records decimation skips changed for copyvr, too
+            if (skipped) uvsetmark_c(self->tno, mark);
+            else mark = uvgetmark_c(self->tno);
         } catch (MiriadError &e) {
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
             return NULL;
@@ -132,6 +135,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
         if ((self->intcnt-self->decphase) % self->decimate == 0 || nread==0) {
             break;
         }
+        skipped = 1;
     }
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
     npy_intp uvw_dims[1] = {3};
-- 
2.43.0


From f8a5b87035ed11b46242f30212142aca3b2032fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 021/148] fix: a dataset with a variable first set in a later
 record could not be cloned

---
 aipy/miriad.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 18b6add..7c3ed8c 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -270,7 +270,10 @@ class UV(_miriad.UV):
                 self._wrvr(k, uv.vartable[k], override[k])
             else:
                 self.vartable[k] = uv.vartable[k]
-                self._wrvr(k, uv.vartable[k], uv[k])
+                # Variables first set in later records have no value yet
+                try: val = uv[k]
+                except(RuntimeError): pass
+                else: self._wrvr(k, uv.vartable[k], val)
                 uv.trackvr(k, 'c') # Set to copy when copyvr() called
     def pipe(self, uv, mfunc=echo, append2hist='', raw=False):
         """Pipe in data from another UV through the function
-- 
2.43.0


From 63244e118b9766e07fc801cf4f5052d7d063868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 022/148] fix: pipe failed for a dataset without history

---
 aipy/miriad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 7c3ed8c..0d8c133 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -281,7 +281,9 @@ class UV(_miriad.UV):
         mfunc is not provided, the dataset will just be cloned, and if the
         returned data is None, it will be omitted.  The string 'append2hist'
         will be appended to history."""
-        self._wrhd('history', self['history'] + append2hist)
+        try: history = self['history']
+        except(IOError): history = ''
+        self._wrhd('history', history + append2hist)
         # Pipe all data through mfunc
         if raw:
             for p,d,f in uv.all(raw=raw):
-- 
2.43.0


From 0fc885680373d72c97d0e96965756e712f1e10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 023/148] fix: edited times, baselines and uvw were lost when
 cloning a dataset

uvwrite compared with what it had written last itself, though copyvr (or the
user) had written the variable since.
---
 aipy/_miriad/mir/uvio.c | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index a6df038..25e3193 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1806,6 +1806,9 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
       length = internal_size[type] * n;
       memcpy(v->buf,data,length);
     } 
+    /* Let uvwrite write its preamble variables again after others have. */
+    if(v == uv->coord || v == uv->time || v == uv->bl)
+      memset(v->buf,0xff,internal_size[type]);
   } else {
     v->callno = 0;
   }
@@ -2062,36 +2065,28 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     } else
       BUG('f',"Unrecognised or unsupported linetype, in UVWRITE");
 
-/* Create the preamble variables, if needed, with a value which differs from
-   that of the first record. */
+/* Create the preamble variables, if needed. They hold what was last written
+   to the file; a NaN (all bits set) differs from every value. */
 
-    nuvw = (uv->flags & UVF_DOW ? 3 : 2);
     if( uv->coord == NULL ){
       uv->coord = uv_mkvar(tno,"coord",H_DBLE);
       uv->coord->flags |= UVF_NOCHECK;
-      if(uv->coord->buf == NULL){
-        uv->coord->buf = Malloc(3*sizeof(double));
-        d = (double *)(uv->coord->buf);
-        *d = *(preamble) + 1000;
-      }
+      uv->coord->buf = Realloc(uv->coord->buf,3*sizeof(double));
+      memset(uv->coord->buf,0xff,3*sizeof(double));
     }
 
     if( uv->time == NULL ){
       uv->time = uv_mkvar(tno,"time",H_DBLE);
       uv->time->flags |= UVF_NOCHECK;
-      if(uv->time->buf == NULL){
-	uv->time->buf = Malloc(sizeof(double));
-	*(double *)(uv->time->buf) = *(preamble+nuvw) + 1000;
-      }
+      uv->time->buf = Realloc(uv->time->buf,sizeof(double));
+      memset(uv->time->buf,0xff,sizeof(double));
     }
 
     if( uv->bl == NULL ){
       uv->bl = uv_mkvar(tno,"baseline",H_REAL);
       uv->bl->flags |= UVF_NOCHECK;
-      if(uv->bl->buf == NULL){
-	uv->bl->buf = Malloc(sizeof(float));
-	*(float *)(uv->bl->buf) = *(preamble+nuvw+1) + 1000;
-      }
+      uv->bl->buf = Realloc(uv->bl->buf,sizeof(float));
+      memset(uv->bl->buf,0xff,sizeof(float));
     }
   }
 
-- 
2.43.0


From 2c2ceb0a51110c206f1fbeda70916930c104d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 024/148] fix: selecting baselines matched the wrong records
 when the first antenna is the higher one

---
 aipy/_miriad/mir/uvio.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 25e3193..1e60228 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3218,6 +3218,7 @@ private int uvread_select(UV *uv)
     if(sel->selants){
       bl = *((float *)(uv->bl->buf)) + 0.5;
       uvbasant_c(bl,&i1,&i2);
+      if(i1 > i2){ i = i1; i1 = i2; i2 = i; }
       if(i1 < 1 || i2 > MAXANT){
 	ERROR('w',(message,"Discarded data with bad antenna numbers when selecting: (%d,%d) baseline number is %d\n",i1,i2,bl));
 	discard = TRUE;
@@ -3281,6 +3282,7 @@ private int uvread_select(UV *uv)
     if(op->type == SEL_POINT){
       bl = *((float *)(uv->bl->buf)) + 0.5;
       uvbasant_c(bl,&i1,&i2);
+      if(i1 > i2){ i = i1; i1 = i2; i2 = i; }
       discard = !op->discard;
       point = (float *)(uv->axisrms->buf);
       nants = VARLEN(uv->axisrms)/2;
@@ -3651,6 +3653,7 @@ private int uvread_shadowed(UV *uv,double diameter)
   nants = uv->uvw->nants;
   bl = *((float *)(uv->bl->buf)) + 0.5;
   uvbasant_c(bl,&i1,&i2);
+  if(i1 > i2){ i = i1; i1 = i2; i2 = i; }
   i1--;i2--;
   if(i1 < 0 || i2 >= nants){
     BUG('f',"Bad antenna numbers when checking shadowing, in UVREAD(select)");
-- 
2.43.0


From 02710a8c8ba1d7b4d3010913f155bcb8e19b5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 025/148] fix: clearing a visibility selection still ended
 reading early

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 1e60228..0592512 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2347,6 +2347,7 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
 
   discard = !datasel;
   uv->flags &= ~UVF_INIT;
+  uv->maxvis = 0;		/* uvread_init works it out again */
 
   if(!strcmp(object,"clear")){
     uv_free_select(uv->select);
-- 
2.43.0


From 14ad22074410a3c74ea24847cb0b722331636838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 026/148] fix: the nchan of a written record could be that of
 the record it was copied from

---
 aipy/_miriad/mir/uvio.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0592512..fe82731 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2026,7 +2026,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 /*----------------------------------------------------------------------*/
 {
   UV *uv;
-  int i,nchan,i1,i2,nuvw,itemp;
+  int i,i1,i2,nuvw,itemp;
   float maxval,scale,*p,temp;
   double *d,dtemp;
   int *q;
@@ -2104,8 +2104,7 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
 
 /* Update the size of the variable, if necessary. */
 
-  nchan = NUMCHAN(v);
-  if(n != nchan) uvputvri_c(tno,counter,&n,1);
+  uvputvri_c(tno,counter,&n,1);
 
 /* Write out the flagging info. */
 
-- 
2.43.0


From ecfed956758bab8545fb35d3ee5f0cb26e083436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 027/148] fix: selecting a polarization had no effect together
 with all antennas

---
 aipy/scripting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 2143787..f77284e 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -109,8 +109,9 @@ def uv_selector(uv, ants=-1, pol_str=-1):
     """Call uv.select with appropriate options based on string argument for
     antennas (can be 'all', 'auto', 'cross', '0,1,2', or '0_1,0_2') and
     string for polarization ('xx','yy','xy','yx')."""
-    if ants != -1:
-        if type(ants) == str: ants = parse_ants(ants, uv['nants'])
+    if ants == -1: ants = []
+    elif type(ants) == str: ants = parse_ants(ants, uv['nants'])
+    if len(ants) > 0:
         for cnt,(bl,include,pol) in enumerate(ants):
             if cnt > 0:
                 if include: uv.select('or',-1,-1)
-- 
2.43.0


From eb1796842f72b33fa5d0387994d8215d90f3838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 028/148] fix: writing to a dataset opened for reading lost the
 record and corrupted memory

---
 aipy/_miriad/mir/uvio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index fe82731..c36298f 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1755,6 +1755,8 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     return;
   }
   uv = uvs[tno];
+  if(!(uv->flags & (UVF_NEW|UVF_APPEND)))
+    BUG('f',"Attempt to write a data set open for reading, in UVPUTVR");
   v = uv_mkvar(tno,(char *)var,type);
   if(v->type != type)
     ERROR('f',(message,"Variable %s has changed type, in UVPUTVR",var));
@@ -2035,6 +2037,8 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   VARIABLE *v;
 
   uv = uvs[tno];
+  if(!(uv->flags & (UVF_NEW|UVF_APPEND)))
+    BUG('f',"Attempt to write a data set open for reading, in UVWRITE");
 
 /* Initialise things if this is the first call to uvwrite. */
 
-- 
2.43.0


From cc7847b895155bbb83a8283bf1c8f104a877eac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 029/148] fix: initialising a UV object again leaked the
 dataset it had open

---
 aipy/_miriad/miriad_wrap.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 2dfdd4f..c07d276 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -24,8 +24,8 @@ typedef struct {
     double curtime;
 } UVObject;
 
-// Deallocate memory when Python object is deleted
-static void UVObject_dealloc(UVObject *self) {
+// Close the dataset, if one is open
+static void UVObject_close(UVObject *self) {
     if (self->tno != -1) {
         try {
             uvclose_c(self->tno);
@@ -33,6 +33,12 @@ static void UVObject_dealloc(UVObject *self) {
             try { uvabort_c(self->tno); } catch (MiriadError &e2) { }
         }
     }
+    self->tno = -1;
+}
+
+// Deallocate memory when Python object is deleted
+static void UVObject_dealloc(UVObject *self) {
+    UVObject_close(self);
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -53,7 +59,7 @@ void error_handler(void) {
 // Initialize object (__init__)
 static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
     char *name=NULL, *status=NULL, *corrmode=NULL;
-    self->tno = -1;
+    UVObject_close(self); // A dataset opened by an earlier __init__
     self->decimate = 1;
     self->decphase = 0;
     self->intcnt = -1;
-- 
2.43.0


From 3ee2e21d48ddb9bf39ff9b6958b5845e310914eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 030/148] fix: reading on after a selection's variable was
 missing crashed

---
 aipy/_miriad/mir/uvio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index c36298f..7c2032c 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2903,7 +2903,6 @@ void uvread_c(int tno,double *preamble,float *data,int *flags,int n,int *nread)
     if(uv->maxvis > 0 && uv->callno > uv->maxvis) return;
     do {
       if(uv_scan(uv,(VARIABLE *)NULL) != 0)return;
-      if(!(uv->flags & UVF_INIT)) uvread_init(tno);
       if(uv->corr != NULL)if(uv->corr->callno == uv->callno){
         nchan = NUMCHAN(uv->corr);
         uv->corr_flags.offset += nchan;
@@ -2912,6 +2911,7 @@ void uvread_c(int tno,double *preamble,float *data,int *flags,int n,int *nread)
         nchan = NUMCHAN(uv->wcorr);
         uv->wcorr_flags.offset += nchan;
       }
+      if(!(uv->flags & UVF_INIT)) uvread_init(tno);
     } while(v->callno < uv->callno);
 
 /* Perform uv selection. */
@@ -3767,7 +3767,6 @@ private void uvread_init(int tno)
   int n_win,n_or;
 
   uv = uvs[tno];
-  uv->flags |= UVF_INIT;
 
 /* Open the flagging file, if it is needed. */
 
@@ -3992,6 +3991,9 @@ private void uvread_init(int tno)
 
   if(uv->select != NULL) uv->maxvis = uvread_maxvis(uv->select);
 
+/* All that is needed was there: this need not be done again. */
+
+  uv->flags |= UVF_INIT;
 }
 /************************************************************************/
 private int uvread_maxvis(SELECT *sel)
-- 
2.43.0


From 49a3410ab12f468d3aa8ae1ec806b2511e58e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 031/148] fix: copying variables from a dataset being written
 dereferenced a null buffer

---
 aipy/_miriad/mir/uvio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 7c2032c..f4de4f0 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1387,7 +1387,7 @@ void uvcopyvr_c(int tin,int tout)
 
   uv = uvs[tin];
   if(uv->flags & UVF_COPY) for(i=0, v=uv->variable; i < uv->nvar; i++,v++){
-    if(v->callno >= uv->mark && (v->flags & UVF_COPY))
+    if(v->callno >= uv->mark && (v->flags & UVF_COPY) && v->buf != NULL)
       uvputvr_c(tout,v->type,v->name,v->buf,VARLEN(v));
   }
 }
-- 
2.43.0


From 43c38a323afe4d1cdfd88b629d06e2f7b58ce45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 032/148] fix: uninitialised memory was written to datasets as
 padding

---
 aipy/_miriad/mir/hio.c    | 10 +++++-----
 aipy/_miriad/mir/maskio.c |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index ca0fd72..d173b66 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -640,8 +640,8 @@ void haccess_c(int tno,int *ihandle,Const char *keyword,Const char *status,int *
     dopen_c(&(item->fd),path,(char *)status,&(item->size),iostat);
 
     item->bsize = BUFSIZE;
-    item->io[0].buf = Malloc(BUFSIZE);
-    if(BUFDBUFF)item->io[1].buf = Malloc(BUFSIZE);
+    item->io[0].buf = calloc(1,BUFSIZE);
+    if(BUFDBUFF)item->io[1].buf = calloc(1,BUFSIZE);
     if(mode & ITEM_APPEND) item->offset = item->size;
 
 /* If we have opened a file in write mode, remember that this dataset is
@@ -1147,7 +1147,7 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
 /* Allocate a small buffer if needed. */
 
   if(item->bsize < next && next <= CACHESIZE){
-    s = Malloc(CACHESIZE);
+    s = calloc(1,CACHESIZE);
     item->bsize = CACHESIZE;
     if(item->io[0].length > 0)Memcpy(s,item->io[0].buf,item->io[0].length);
     if(item->io[0].buf != NULL) free(item->io[0].buf);
@@ -1156,12 +1156,12 @@ private void hcheckbuf_c(ITEM *item,off64_t next,int *iostat)
 /* Allocate full sized buffers if needed. */
 
   } else if(item->bsize <= CACHESIZE && next > CACHESIZE){
-    s = Malloc(BUFSIZE);
+    s = calloc(1,BUFSIZE);
     item->bsize = BUFSIZE;
     if(item->io[0].length > 0)Memcpy(s,item->io[0].buf,item->io[0].length);
     if(item->io[0].buf != NULL) free(item->io[0].buf);
     item->io[0].buf = s;
-    if(BUFDBUFF)item->io[1].buf = Malloc(BUFSIZE);
+    if(BUFDBUFF)item->io[1].buf = calloc(1,BUFSIZE);
   }
 
 /* Open a file if needed. */
diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 91342b3..28edc10 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -90,7 +90,7 @@ char *mkopen_c(int tno,char *name,char *status)
   int iostat;
   char s[ITEM_HDR_SIZE];
 
-  mask = (MASK_INFO *)malloc((unsigned int)sizeof(MASK_INFO));
+  mask = (MASK_INFO *)calloc(1,sizeof(MASK_INFO));
 
 /* The case of an old mask file. Perform a number of checks to make sure
    the file looks OK. */
-- 
2.43.0


From b18a249a8e51410b0ab1def06555be0703ffa774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 033/148] fix: reading at the end of a dataset used an
 uninitialised time, and failed reads leaked

---
 aipy/_miriad/miriad_wrap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c07d276..43606ef 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -113,7 +113,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
     PyArrayObject *data, *flags, *uvw;
     PyObject *rv;
     int nread, n2read, i, j, mark=0, skipped=0;
-    double preamble[PREAMBLE_SIZE];
+    double preamble[PREAMBLE_SIZE] = {0}; // Not set at the end of the file
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
     CHK_OPEN(self);
     // Make numpy arrays to hold the results
@@ -131,10 +131,11 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
             if (skipped) uvsetmark_c(self->tno, mark);
             else mark = uvgetmark_c(self->tno);
         } catch (MiriadError &e) {
+            Py_DECREF(data); Py_DECREF(flags);
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
             return NULL;
         }
-        if (preamble[3] != self->curtime) {
+        if (nread != 0 && preamble[3] != self->curtime) {
             self->intcnt += 1;
             self->curtime = preamble[3];
         }
-- 
2.43.0


From 57bf56beb771e92b6fd5634efa02fb52a401b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 034/148] fix: an over-long line in a dataset's vartable was
 read past its end

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index f4de4f0..8190065 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1225,6 +1225,7 @@ private void uv_vartable_in(UV *uv)
   CHECK(iostat,(message,"Error opening vartable, in UVOPEN(vartable_in)"));
 
   while(hreada_c(item,line,(int)sizeof(line),&iostat),!iostat){
+    line[sizeof(line)-1] = 0;
     if(sscanf(line,"%c %8s",&ctype,name) != 2)
       ERROR('f',(message,"Bad entry in vartable, in UVOPEN(vartable_in)"));
     switch(ctype){
-- 
2.43.0


From 8bfc8601e9874f6fc8b5e8d4ba0b04a68edc426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 035/148] fix: clean computed garbage or crashed on
 byte-swapped, empty or 0- and 3-d arrays

---
 aipy/_deconv/deconv.cpp | 13 +++++++++++++
 aipy/deconv.py          |  4 +++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index eb5be9f..391a0f5 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -514,6 +514,18 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
         CHK_ARRAY_DIM(ker, 0, dim1); CHK_ARRAY_DIM(mdl, 0, dim1); CHK_ARRAY_DIM(area, 0, dim1);
         CHK_ARRAY_DIM(ker, 1, dim2); CHK_ARRAY_DIM(mdl, 1, dim2); CHK_ARRAY_DIM(area, 1, dim2);
     }
+    if (rank == 0 || PyArray_SIZE(res) == 0) {
+        PyErr_Format(PyExc_ValueError, "arrays must have 1 or 2 dimensions, and not be empty");
+        return NULL;
+    }
+    if (!PyArray_ISNOTSWAPPED(res) || !PyArray_ISNOTSWAPPED(ker) || !PyArray_ISNOTSWAPPED(mdl) || !PyArray_ISNOTSWAPPED(area)) {
+        PyErr_Format(PyExc_ValueError, "arrays must have native byte order");
+        return NULL;
+    }
+    if (!PyArray_ISWRITEABLE(res) || !PyArray_ISWRITEABLE(mdl)) {
+        PyErr_Format(PyExc_ValueError, "res and mdl must be writeable");
+        return NULL;
+    }
     if (TYPE(res) != TYPE(ker) || TYPE(res) != TYPE(mdl)) {
         PyErr_Format(PyExc_ValueError, "array types must match");
         return NULL;
@@ -561,6 +573,7 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
             rv = Clean<long double>::clean_2d_c(res,ker,mdl,area,gain,maxiter,tol,stop_if_div,verb,pos_def);
         }
     } else {
+        Py_DECREF(res); Py_DECREF(ker); Py_DECREF(mdl);
         PyErr_Format(PyExc_ValueError, "Unsupported data type.");
         return NULL;
     }
diff --git a/aipy/deconv.py b/aipy/deconv.py
index 76d6627..73c38d9 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -35,11 +35,13 @@ def clean(im, ker, mdl=None, area=None, gain=.1, maxiter=10000, tol=1e-3,
     gain: The fraction of a residual used in each iteration.  If this is too
         low, clean takes unnecessarily long.  If it is too high, clean does
         a poor job of deconvolving."""
+    # The C++ layer needs native byte order
+    im, ker = [a.astype(a.dtype.newbyteorder('=')) for a in (im, ker)]
     if mdl is None:
         mdl = np.zeros(im.shape, dtype=im.dtype)
         res = im.copy()
     else:
-        mdl = mdl.copy()
+        mdl = mdl.astype(mdl.dtype.newbyteorder('='))
         if len(mdl.shape) == 1:
             res = im - np.fft.ifft(np.fft.fft(mdl) * \
                                   np.fft.fft(ker)).astype(im.dtype)
-- 
2.43.0


From 01b573fb1789bb8ba02142042212c21e851fc9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 036/148] fix: clean returned NaNs when the cleaned area left
 out the kernel peak

---
 aipy/_deconv/deconv.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 391a0f5..6e08dd0 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -70,13 +70,13 @@ template<typename T> struct Clean {
             for (int n2=0; n2 < dim2; n2++) {
                 val = IND2(ker,n1,n2,T);
                 mval = val * val;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     q = val;
                 }
             }
         }
-        q = 1/q;
+        if (mq > 0) q = 1/q;
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
@@ -176,12 +176,12 @@ template<typename T> struct Clean {
         for (int n=0; n < dim; n++) {
             val = IND1(ker,n,T);
             mval = val * val;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 q = val;
             }
         }
-        q = 1/q;
+        if (mq > 0) q = 1/q;
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
@@ -273,14 +273,13 @@ template<typename T> struct Clean {
                 valr = CIND2R(ker,n1,n2,T);
                 vali = CIND2I(ker,n1,n2,T);
                 mval = valr * valr + vali * vali;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     qr = valr; qi = vali;
                 }
             }
         }
-        qr /= mq;
-        qi = -qi / mq;
+        if (mq > 0) { qr /= mq; qi = -qi / mq; }
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
@@ -394,14 +393,13 @@ template<typename T> struct Clean {
             valr = CIND1R(ker,n,T);
             vali = CIND1I(ker,n,T);
             mval = valr * valr + vali * vali;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 qr = valr;
                 qi = vali;
             }
         }
-        qr /= mq;
-        qi = -qi / mq;
+        if (mq > 0) { qr /= mq; qi = -qi / mq; }
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
-- 
2.43.0


From e28a94b4a82d1e60d5c903af6054098d316f38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 037/148] fix: clean read half of each word of the area it was
 given

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 6e08dd0..ff22af9 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -92,7 +92,7 @@ template<typename T> struct Clean {
                     val = IND2(res,wrap_n1,wrap_n2,T);
                     mval = val * val;
                     nscore += mval;
-                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         max = val;
                         mmax = mval;
@@ -195,7 +195,7 @@ template<typename T> struct Clean {
                 val = IND1(res,wrap_n,T);
                 mval = val * val;
                 nscore += mval;
-                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,int)) {
+                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     max = val;
                     mmax = mval;
@@ -301,7 +301,7 @@ template<typename T> struct Clean {
                     vali = CIND2I(res,wrap_n1,wrap_n2,T);
                     mval = valr * valr + vali * vali;
                     nscore += mval;
-                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         maxr = valr; maxi = vali;
                         mmax = mval;
@@ -419,7 +419,7 @@ template<typename T> struct Clean {
                 vali = CIND1I(res,wrap_n,T);
                 mval = valr * valr + vali * vali;
                 nscore += mval;
-                if (mval > mmax && IND1(area,wrap_n,int)) {
+                if (mval > mmax && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     maxr = valr;
                     maxi = vali;
-- 
2.43.0


From f4ade4ca7f2051f0ac3c3e64a4caaa32280db9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 038/148] fix: clean with pos_def repeated its last step when
 nothing positive was left

---
 aipy/_deconv/deconv.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index ff22af9..4e0247a 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -82,6 +82,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // In case no residual is left to clean
             IND2(mdl,argmax1,argmax2,T) += step;
             // Take next step and compute score
             for (int n1=0; n1 < dim1; n1++) {
@@ -187,6 +188,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // In case no residual is left to clean
             IND1(mdl,argmax,T) += step;
             // Take next step and compute score
             for (int n=0; n < dim; n++) {
-- 
2.43.0


From 80eb3cb654abd2a75c6569fa4a5e9a00d0ae05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 039/148] fix: clean never ended with stop_if_div off when the
 score stood still

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 4e0247a..354eedc 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -137,7 +137,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -233,7 +233,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -351,7 +351,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -463,7 +463,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
-- 
2.43.0


From 070472434c53d4f29c555b181993aece8e606ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 040/148] fix: maxent_findvar failed when it had to estimate
 the variance

---
 aipy/deconv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 73c38d9..75ca0c6 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -210,14 +210,13 @@ def maxent_findvar(im, ker, var=None, f_var0=.6, mdl=None, gain=.1, tol=1e-3,
     if var is None:
         # Get a starting estimate of variance to use via residual of lsq
         junk, info = lsq(im, ker, mdl=mdl, gain=gain, tol=tol,
-            maxiter=maxiter/4, lower=lower, upper=upper, verbose=False)
+            maxiter=max(1, maxiter//4), lower=lower, upper=upper, verbose=False)
         var = np.var(info['res'])
         if verbose: print('Using', f_var0, 'of LSQ estimate of var=', var)
         var *= f_var0
     else:
         if verbose: print('Using specified var=', var)
     while cl is None:
-        print(cnt)
         if cnt == -1: v = var
         else: v = var / (1.5**cnt)
         while cnt < 0 or v < var * (1.5**cnt):
-- 
2.43.0


From d51fccd724212fc3fd157d3ba26e495cf9949daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 041/148] fix: gridding on a non-square buffer used the wrong
 row length and overran it

---
 aipy/_dsp/grid/grid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 3ad8d1e..8633d85 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -59,8 +59,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             // XXX should really make sure wgts sum to 1
-            buf[2*(j1mod*buflen1+j2mod)]   += fwgt2 * fdatr;
-            buf[2*(j1mod*buflen1+j2mod)+1] += fwgt2 * fdati;
+            buf[2*(j1mod*buflen2+j2mod)]   += fwgt2 * fdatr;
+            buf[2*(j1mod*buflen2+j2mod)+1] += fwgt2 * fdati;
           }
         }
     }
@@ -87,8 +87,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             tot_wgt += fwgt2;
-            data[2*i] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)];
-            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)+1];
+            data[2*i] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)];
+            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)+1];
           }
         }
         data[2*i] /= tot_wgt;
-- 
2.43.0


From f3aa9242808925d4e115bcc6ee971e320955bb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 042/148] fix: a negative gridding footprint was taken for a
 huge one

---
 aipy/_dsp/dsp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2c7dd67..2ca5bd7 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -7,7 +7,7 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 1);
@@ -44,7 +44,7 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
@@ -85,7 +85,7 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
-- 
2.43.0


From 05686d3ae36d230598b2ebc8aee52a1fe341c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 043/148] fix: gridding strided or byte-swapped arrays read and
 wrote the wrong memory

---
 aipy/_dsp/dsp.c | 14 ++++++++++++++
 aipy/_dsp/dsp.h | 11 +++++++++++
 2 files changed, 25 insertions(+)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2ca5bd7..ce9bc6c 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -16,6 +16,10 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(buf, NPY_CFLOAT);
     CHK_ARRAY_TYPE(ind, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CARRAY(buf);
+    CHK_ARRAY_CARRAY(ind);
+    CHK_ARRAY_CARRAY(dat);
+    CHK_ARRAY_WRITEABLE(buf);
     if (PyArray_DIM(ind,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -55,6 +59,11 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CARRAY(buf);
+    CHK_ARRAY_CARRAY(ind1);
+    CHK_ARRAY_CARRAY(ind2);
+    CHK_ARRAY_CARRAY(dat);
+    CHK_ARRAY_WRITEABLE(buf);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
@@ -96,6 +105,11 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(ind1, NPY_FLOAT);
     CHK_ARRAY_TYPE(ind2, NPY_FLOAT);
     CHK_ARRAY_TYPE(dat, NPY_CFLOAT);
+    CHK_ARRAY_CARRAY(buf);
+    CHK_ARRAY_CARRAY(ind1);
+    CHK_ARRAY_CARRAY(ind2);
+    CHK_ARRAY_CARRAY(dat);
+    CHK_ARRAY_WRITEABLE(dat);
     if (PyArray_DIM(ind1,0) != PyArray_DIM(dat,0) || PyArray_DIM(ind2,0) != PyArray_DIM(dat,0)) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
diff --git a/aipy/_dsp/dsp.h b/aipy/_dsp/dsp.h
index 7b3f673..a6c95fd 100644
--- a/aipy/_dsp/dsp.h
+++ b/aipy/_dsp/dsp.h
@@ -17,6 +17,17 @@
         QUOTE(a), QUOTE(d)); \
         return NULL; }
 #define RANK(a) PyArray_NDIM(a)
+#define CHK_ARRAY_CARRAY(a) \
+    if (!PyArray_IS_C_CONTIGUOUS(a) || !PyArray_ISALIGNED(a) || !PyArray_ISNOTSWAPPED(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be C-contiguous, aligned and in native byte order", \
+        QUOTE(a)); \
+        return NULL; }
+
+#define CHK_ARRAY_WRITEABLE(a) \
+    if (!PyArray_ISWRITEABLE(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s is read-only", QUOTE(a)); \
+        return NULL; }
+
 #define CHK_ARRAY_RANK(a,r) \
     if (RANK(a) != r) { \
         PyErr_Format(PyExc_ValueError, "rank(%s) != %s", \
-- 
2.43.0


From 0ea51dd3301811ee43b418ea47ffc49b3d0fc884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 044/148] fix: gridding hung on infinite indices and crashed on
 empty buffers

---
 aipy/_dsp/grid/grid.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 8633d85..e7153b5 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -1,11 +1,15 @@
 #include "grid.h"
 
+// Indices must leave room for integer arithmetic, which leaves out NaN and inf
+#define BAD_IND(x) (!(fabsf(x) < 1e9))
+
 int grid1D_r(float *buf, long buflen, 
         float *inds, float *data, long datalen, long footprint) {
     long i, j, jmod;
     float find, fdat, fwgt;
     for (i = 0; i < datalen; i++) {
         find = inds[i];
+        if (buflen < 1 || BAD_IND(find)) return -1;
         fdat = data[i];
         for (j = floorf(find-footprint/2); j <= ceilf(find+footprint/2); j++) {
             fwgt = find - j;
@@ -24,6 +28,7 @@ int grid1D_c(float *buf, long buflen,
     float find, fdatr, fdati, fwgt;
     for (i = 0; i < datalen; i++) {
         find = inds[i];
+        if (buflen < 1 || BAD_IND(find)) return -1;
         fdatr = data[2*i];
         fdati = data[2*i+1];
         for (j = floorf(find-footprint/2); j <= ceilf(find+footprint/2); j++) {
@@ -45,6 +50,7 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
     for (i = 0; i < datalen; i++) {
         find1 = ind1[i];
         find2 = ind2[i];
+        if (buflen1 < 1 || buflen2 < 1 || BAD_IND(find1) || BAD_IND(find2)) return -1;
         fdatr = data[2*i];
         fdati = data[2*i+1];
         for (j1 = floorf(find1-footprint/2); j1 <= ceilf(find1+footprint/2); j1++) {
@@ -74,6 +80,7 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
     for (i = 0; i < datalen; i++) {
         find1 = ind1[i];
         find2 = ind2[i];
+        if (buflen1 < 1 || buflen2 < 1 || BAD_IND(find1) || BAD_IND(find2)) return -1;
         tot_wgt = 0;
         for (j1 = floorf(find1-footprint/2); j1 <= ceilf(find1+footprint/2); j1++) {
           j1mod = j1 % buflen1;
-- 
2.43.0


From 04df26d29d69ffde827f35acf3a21af06dc9ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 045/148] fix: add2array took any object for an array, and
 ignored byte order and writeability

---
 aipy/utils/utils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index f2efa77..e621328 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -93,7 +93,8 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     PyArrayObject *a, *ind, *data;
     int rv;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "OOO", &a, &ind, &data)) return NULL;
+    if (!PyArg_ParseTuple(args, "O!O!O!", &PyArray_Type, &a,
+            &PyArray_Type, &ind, &PyArray_Type, &data)) return NULL;
     CHK_ARRAY_RANK(ind, 2);
     CHK_ARRAY_RANK(data, 1);
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
@@ -105,6 +106,14 @@ PyObject *add2array(PyObject *self, PyObject *args) {
         QUOTE(a), QUOTE(data));
         return NULL;
     }
+    if (!PyArray_ISNOTSWAPPED(a) || !PyArray_ISNOTSWAPPED(ind) || !PyArray_ISNOTSWAPPED(data)) {
+        PyErr_Format(PyExc_ValueError, "arrays must have native byte order");
+        return NULL;
+    }
+    if (!PyArray_ISWRITEABLE(a)) {
+        PyErr_Format(PyExc_ValueError, "a is read-only");
+        return NULL;
+    }
     Py_INCREF(a);
     Py_INCREF(ind);
     Py_INCREF(data);
-- 
2.43.0


From c951e3b4de8bf83ae90be6036b93ada76df72eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 046/148] fix: add2array truncated indices to 32 bits before
 checking them

---
 aipy/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index e621328..b7c5bca 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -56,7 +56,7 @@ template<typename T> struct AddStuff {
     static int addloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        npy_intp v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -73,7 +73,7 @@ template<typename T> struct AddStuff {
     static int caddloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        npy_intp v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
-- 
2.43.0


From 30db3f4f1d24ff632298d4ca7fb975e3f67f3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 047/148] fix: add2array leaked arrays of an unsupported type

---
 aipy/utils/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index b7c5bca..d37876c 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -153,6 +153,7 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     } else if (TYPE(a) == NPY_CLONGDOUBLE) {
         rv = AddStuff<long double>::caddloop(a,ind,data);
     } else {
+        Py_DECREF(a); Py_DECREF(ind); Py_DECREF(data);
         PyErr_Format(PyExc_ValueError, "Unsupported data type.");
         return NULL;
     }
-- 
2.43.0


From 76e15d81ac0b31df752f1c7d9d09aef52c0f083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 048/148] fix: Img.get read a uv matrix that is not
 C-contiguous in the wrong order

---
 aipy/img.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 38f2ca0..0be048a 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -170,8 +170,8 @@ class Img:
             u,v = -v,u # XXX necessary, but probably because of axis ordering in FITS files...
             uvdat = np.zeros(u.shape, dtype=np.complex64)
             bmdat = np.zeros(u.shape, dtype=np.complex64)
-            _dsp.degrid2D_c(uv, u, v, uvdat)
-            _dsp.degrid2D_c(bm, u, v, bmdat)
+            _dsp.degrid2D_c(np.ascontiguousarray(uv), u, v, uvdat)
+            _dsp.degrid2D_c(np.ascontiguousarray(bm), u, v, bmdat)
             #data = uvdat.sum() / bmdat.sum()
             data = uvdat / bmdat
         return data
-- 
2.43.0


From 09ec88357e96638e1a35ce2c61701bddd0c22982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 049/148] fix: clean returned NaNs instead of its best model
 when it diverged beyond the floating range

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 354eedc..422afb5 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -144,7 +144,7 @@ template<typename T> struct Clean {
             argmax1 = nargmax1; argmax2 = nargmax2;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n1=0; n1 < dim1; n1++) {
                 for (int n2=0; n2 < dim2; n2++) {
                     IND2(mdl,n1,n2,T) = best_mdl[n1*dim2+n2];
@@ -240,7 +240,7 @@ template<typename T> struct Clean {
             argmax = nargmax;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n=0; n < dim; n++) {
                 IND1(mdl,n,T) = best_mdl[n];
                 IND1(res,n,T) = best_res[n];
@@ -358,7 +358,7 @@ template<typename T> struct Clean {
             argmax1 = nargmax1; argmax2 = nargmax2;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n1=0; n1 < dim1; n1++) {
                 for (int n2=0; n2 < dim2; n2++) {
                     CIND2R(mdl,n1,n2,T) = best_mdl[2*(n1*dim2+n2)+0];
@@ -470,7 +470,7 @@ template<typename T> struct Clean {
             argmax = nargmax;
         }
         // If we end on maxiter, then make sure mdl/res reflect best score
-        if (best_score > 0 && best_score < nscore) {
+        if (best_score > 0 && !(nscore <= best_score)) {
             for (int n=0; n < dim; n++) {
                 CIND1R(mdl,n,T) = best_mdl[2*n+0];
                 CIND1I(mdl,n,T) = best_mdl[2*n+1];
-- 
2.43.0


From b9ada9f47c570b336214c8c8a2a86a29a81da40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 050/148] fix: converting masked coordinates failed without a
 mask, and unmasked entries of which y or z is masked

---
 aipy/coord.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/aipy/coord.py b/aipy/coord.py
index d3c3fda..5a79447 100644
--- a/aipy/coord.py
+++ b/aipy/coord.py
@@ -62,12 +62,10 @@ def xyz2thphi(xyz):
     x,y,z = xyz
     phi = np.arctan2(y, x)
     th = np.arctan2(np.sqrt(x**2+y**2),z)
-    if np.ma.isMA(x):
-        try:
-            return np.ma.array([th.filled(0),phi.filled(0)],
-                mask=[x.mask,x.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([th,phi], dtype=np.double)
+    if np.ma.isMA(th) or np.ma.isMA(phi):
+        return np.ma.array([np.ma.filled(th,0),np.ma.filled(phi,0)],
+            mask=[np.ma.getmaskarray(th),np.ma.getmaskarray(phi)],
+            dtype=np.double)
     return np.array([th,phi], dtype=np.double)
 
 def thphi2xyz(th_phi):
@@ -77,12 +75,9 @@ def thphi2xyz(th_phi):
     z = np.cos(th)
     r = np.sin(th)
     x,y = r*np.cos(phi), r*np.sin(phi)
-    if np.ma.isMA(th):
-        try:
-            return np.ma.array([x.filled(),y.filled(),z.filled()],
-                mask=[th.mask, th.mask, th.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([x,y,z], dtype=np.double)
+    if np.ma.isMA(x) or np.ma.isMA(z):
+        return np.ma.array([np.ma.filled(c) for c in (x,y,z)],
+            mask=[np.ma.getmaskarray(c) for c in (x,y,z)], dtype=np.double)
     return np.array([x,y,z], dtype=np.double)
 
 def eq2radec(xyz):
-- 
2.43.0


From 168ccf9918d1acf1dbae27f051925235dac32d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 051/148] fix: setting the delay of one antenna changed every
 antenna made with the same (or default) phsoff

---
 aipy/phs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 5d72478..0c4935d 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -4,7 +4,7 @@ phasing information.
 """
 from __future__ import print_function, division, absolute_import
 
-import ephem, math, numpy as np
+import copy, ephem, math, numpy as np
 from . import coord
 from . import const
 from .miriad import ij2bl, bl2ij
@@ -195,7 +195,7 @@ class Antenna:
                  with freq is often called 'delay'."""
         self.pos = np.array((x,y,z), np.float64) # must be float64 for mir
         self.beam = beam
-        self._phsoff = phsoff
+        self._phsoff = copy.deepcopy(phsoff) # not shared with other antennas
         self._update_phsoff()
     def select_chans(self, active_chans=None):
         """Select only the specified channels for use in future calculations."""
-- 
2.43.0


From 9653ad476c59edd70012ed3fa8d153b46ab49e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 052/148] fix: antenna parameters read or set remained linked
 to the array, changing with it

---
 aipy/fit.py | 8 ++++----
 aipy/pol.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index f06e8ca..373e5e5 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -307,7 +307,7 @@ class Antenna(amp.Antenna):
         """Return all fitable parameters in a dictionary."""
         x,y,z = self.pos
         aprms = {'x':x, 'y':y, 'z':z, 'dly':self._phsoff[-2],
-            'off':self._phsoff[-1], 'phsoff':self._phsoff}
+            'off':self._phsoff[-1], 'phsoff':list(self._phsoff)}
         aprms['bp_r'] = list(self.bp_r)
         aprms['bp_i'] = list(self.bp_i)
         aprms['amp'] = self.amp
@@ -332,11 +332,11 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
         except(KeyError): pass
-        try: self._phsoff, changed = prms['phsoff'], True
+        try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
-        try: self.bp_r, changed = prms['bp_r'], True
+        try: self.bp_r, changed = list(prms['bp_r']), True
         except(KeyError): pass
-        try: self.bp_i, changed = prms['bp_i'], True
+        try: self.bp_i, changed = list(prms['bp_i']), True
         except(KeyError): pass
         try: self.amp, changed = prms['amp'], True
         except(KeyError): pass
diff --git a/aipy/pol.py b/aipy/pol.py
index 01d621a..a87927a 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -93,7 +93,7 @@ class Antenna(fit.Antenna):
             aprms.update({
                 'dly_'+p:self._phsoff[p][-2],
                 'off_'+p:self._phsoff[p][-1],
-                'phsoff_'+p:self._phsoff[p]})
+                'phsoff_'+p:list(self._phsoff[p])})
             aprms['bp_r_'+p] = list(self.bp_r[p])
             aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
@@ -119,11 +119,11 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
             except(KeyError): pass
-            try: self._phsoff[p], changed = prms['phsoff_'+p], True
+            try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
-            try: self.bp_r[p], changed = prms['bp_r_'+p], True
+            try: self.bp_r[p], changed = list(prms['bp_r_'+p]), True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i'+p], True
+            try: self.bp_i[p], changed = list(prms['bp_i'+p]), True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 023ec900fd9f1393af594617ec2d5108d9a7cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 053/148] fix: the bp_i of polarized antennas could not be set

---
 aipy/pol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/pol.py b/aipy/pol.py
index a87927a..541fccb 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -123,7 +123,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self.bp_r[p], changed = list(prms['bp_r_'+p]), True
             except(KeyError): pass
-            try: self.bp_i[p], changed = list(prms['bp_i'+p]), True
+            try: self.bp_i[p], changed = list(prms['bp_i_'+p]), True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 13a600eef87914b39e9944c1d6068de1f17fbfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 054/148] fix: setting the gain of one polarized antenna
 changed every antenna made with the same arguments

---
 aipy/amp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 9e19efc..43c3dcb 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -5,6 +5,7 @@ Mostly, this means adding gain/amplitude information vs. frequency.
 
 from __future__ import print_function, division, absolute_import
 
+import copy
 import numpy as np
 import ephem
 from . import phs
@@ -234,9 +235,10 @@ class Antenna(phs.Antenna):
         pointing = antenna pointing (az,alt).  Default is zenith."""
         phs.Antenna.__init__(self, x,y,z, beam=beam, phsoff=phsoff)
         self.set_pointing(*pointing)
-        self.bp_r = bp_r
-        self.bp_i = bp_i
-        self.amp = amp
+        # Not shared with other antennas
+        self.bp_r = copy.deepcopy(bp_r)
+        self.bp_i = copy.deepcopy(bp_i)
+        self.amp = copy.deepcopy(amp)
         self._update_gain()
     def _update_gain(self):
         bp = np.polyval(self.bp_r, self.beam.afreqs) + \
-- 
2.43.0


From 6726d3268c60de955821795287effd8a240d6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 055/148] fix: BeamPolynomial could not be set from a list, and
 reshaped and kept the array it was set from

---
 aipy/fit.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 373e5e5..dcc68de 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -255,9 +255,7 @@ class BeamPolynomial(amp.BeamPolynomial):
         """Set all parameters from a dictionary."""
         changed = False
         try:
-            poly_azfreq = prms['bm_poly']
-            poly_azfreq.shape = self.poly.shape
-            self.poly = poly_azfreq
+            self.poly = np.array(prms['bm_poly']).reshape(self.poly.shape)
             changed = True
         except(KeyError): pass
         if changed: self.update()
-- 
2.43.0


From 9d766e82d8d03ae17063c7e3880fec662697a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 056/148] fix: BeamAlm parameters were read in the reverse of
 the order they are set in

---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index dcc68de..360f7a1 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -268,7 +268,7 @@ class BeamAlm(amp.BeamAlm):
     def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {}
-        for i, a in enumerate(self.alm):
+        for i, a in enumerate(self.alm[::-1]):
             k = 'alm%d' % i
             data = a.get_data()
             aprms[k] = np.array([data.real, data.imag]).transpose().flatten()
-- 
2.43.0


From c56b38e7493d99e0dda799ec6fc27860bfaca921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 057/148] fix: mfreq of a source could not be set

---
 aipy/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/fit.py b/aipy/fit.py
index 360f7a1..73b2438 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -131,6 +131,8 @@ class RadioFixedBody(amp.RadioFixedBody):
         except(KeyError): pass
         try: self.ionref[1] = prms['ddec']
         except(KeyError): pass
+        try: self.mfreq = prms['mfreq']
+        except(KeyError): pass
 
 #  ____           _ _      ____                  _       _
 # |  _ \ __ _  __| (_) ___/ ___| _ __   ___  ___(_) __ _| |
-- 
2.43.0


From b7da56f6d7d12f9a1274a1264d727b627a43e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 058/148] fix: reconstruct_prms turned lists of one parameter
 into numbers, which could not be set, and empty lists into other parameters

---
 aipy/fit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 73b2438..f69fdb5 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -32,7 +32,7 @@ def flatten_prms(prms, prm_list=None):
                 key_list[k] = (len(prm_list), len(prms[k]))
                 prm_list += list(prms[k])
             except(TypeError):
-                key_list[k] = (len(prm_list), 1)
+                key_list[k] = (len(prm_list), None)
                 prm_list.append(prms[k])
     return prm_list, key_list
 
@@ -45,8 +45,8 @@ def reconstruct_prms(prm_list, key_list):
         if type(v) == dict: prms[k] = reconstruct_prms(prm_list, v)
         else:
             i, L = v
-            if L > 1: prms[k] = prm_list[i:i+L]
-            else: prms[k] = prm_list[i]
+            if L is None: prms[k] = prm_list[i]
+            else: prms[k] = prm_list[i:i+L]
     return prms
 
 def print_params(prms, indent='', grad=None):
-- 
2.43.0


From e81ef1ea8611730230f4c8ea5496f67e91c9bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 059/148] fix: phasing to several resolved sources failed for a
 single channel

---
 aipy/phs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 0c4935d..cce7275 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -351,7 +351,7 @@ class AntennaArray(ArrayLocation):
             if srcshape is None:
                 try: srcshape = src.srcshape
                 except(AttributeError): pass
-            if not srcshape is None: phs *= self.resolve_src(u, v, srcshape=srcshape)
+            if not srcshape is None: phs *= np.reshape(self.resolve_src(u, v, srcshape=srcshape), phs.shape)
         return phs.squeeze()
     def resolve_src(self, u, v, srcshape=(0,0,0)):
         """Adjust amplitudes to reflect resolution effects for a uniform
-- 
2.43.0


From d9b612031799dbd972273a78b87ca0e1f2829dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 060/148] fix: phasing changed the shape of the arrays it was
 given

---
 aipy/phs.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index cce7275..83fd025 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -359,11 +359,9 @@ class AntennaArray(ArrayLocation):
         srcshape = (a1,a2,th) where a1,a2 are angular sizes along the
             semimajor, semiminor axes, and th is the angle (in radians) of
             the semimajor axis from E."""
-        a1,a2,th = srcshape
-        try:
-            if len(u.shape) > len(a1.shape):
-                a1.shape += (1,); a2.shape += (1,); th.shape += (1,)
-        except(AttributeError): pass
+        # Sources are along the 1st axis
+        a1,a2,th = [np.reshape(c, np.shape(c) + (1,))
+            if 0 < np.ndim(c) < np.ndim(u) else c for c in srcshape]
         ru = a1 * (u*np.cos(th) - v*np.sin(th))
         rv = a2 * (u*np.sin(th) + v*np.cos(th))
         x = 2 * np.pi * np.sqrt(ru**2 + rv**2)
@@ -382,12 +380,8 @@ class AntennaArray(ArrayLocation):
             freqs (f) along the 2nd."""
         dra,ddec = ionref
         s,f = u_sf.shape
-        try: dra.shape = (s,1)
-        except(AttributeError): pass
-        try: ddec.shape = (s,1)
-        except(AttributeError): pass
-        try: mfreq.shape = (s,1)
-        except(AttributeError): pass
+        dra,ddec,mfreq = [np.reshape(c, (s,1)) if np.ndim(c) > 0 else c
+            for c in (dra,ddec,mfreq)]
         f2 = self.get_afreqs()**2 ; f2.shape = (1, f)
         return (dra*u_sf + ddec*v_sf) * mfreq**2 / f2
     def phs2src(self, data, src, i, j, mfreq=.150, ionref=None, srcshape=None):
-- 
2.43.0


From 0867c7e44810d46c9b6860d56e4f5d89d152379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 061/148] fix: simulating after set_ephemtime used the sources
 and horizon of an earlier time

---
 aipy/amp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 43c3dcb..1556c1a 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -284,15 +284,17 @@ class AntennaArray(phs.AntennaArray):
     def __init__(self, *args, **kwargs):
         phs.AntennaArray.__init__(self, *args, **kwargs)
         self.active_pol = None
+        self._cache = None
     def set_active_pol(self, pol):
         assert(pol in ('xx','yy','xy','yx')) # the only pols supported natively, for now
         self.active_pol = pol
     def get_active_pol(self):
         if self.active_pol is None: raise RuntimeError('No active polarization set (use AntennaArray.set_active_pol)')
         return self.active_pol
-    def set_jultime(self, t=None):
-        """Set current time as a Julian date."""
-        phs.AntennaArray.set_jultime(self, t=t)
+    def set_ephemtime(self, t=None):
+        """Set current time as derived from the ephem package.  Recalculates
+        matrix for projecting source positions into topocentric coordinates."""
+        phs.AntennaArray.set_ephemtime(self, t=t)
         self.eq2top_m = coord.eq2top_m(-self.sidereal_time(), self.lat)
         self._cache = None
     def passband(self, i, j):
-- 
2.43.0


From 403219c34576a9ce8db505afdefaa6833cef3210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 062/148] fix: get_srcs returned None instead of all sources

---
 aipy/phs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 83fd025..fc47418 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -136,7 +136,7 @@ class SrcCatalog(dict):
         for s in srcs: self[s.src_name] = s
     def get_srcs(self, *srcs):
         """Return list of all src objects in catalog."""
-        if len(srcs) == 0: srcs = self.keys()
+        if len(srcs) == 0: return list(self.values())
         elif len(srcs) == 1 and type(srcs[0]) != str:
             return [self[s] for s in srcs[0]]
         else: return [self[s] for s in srcs]
-- 
2.43.0


From f8bfc3e007c4744e77bcf8689e83e052a39ee54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 063/148] fix: printing a source failed before it was computed

---
 aipy/amp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 1556c1a..9ba3361 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -66,7 +66,8 @@ class RadioFixedBody(phs.RadioFixedBody, RadioBody):
         outstr += '\t'+str(self.mfreq)
         try: outstr = outstr +'\t'+ str(self.jys[0])
         except(AttributeError): outstr = outstr + '\t'
-        outstr += '\t'+str(self.afreqs[0])
+        try: outstr += '\t'+str(self.afreqs[0])
+        except(AttributeError): outstr += '\t'
         return outstr
     def compute(self, observer):
         phs.RadioFixedBody.compute(self, observer)
-- 
2.43.0


From 6d4fbc0682a00830dfff5b25b55c20d7a307ebd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 064/148] fix: the delay of an antenna made with a tuple
 phsoff, or with one phsoff for two polarizations, could not be set

---
 aipy/fit.py | 1 +
 aipy/pol.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/aipy/fit.py b/aipy/fit.py
index f69fdb5..0a3ec80 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -328,6 +328,7 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self.pos[2], changed = prms['z'], True
         except(KeyError): pass
+        self._phsoff = list(self._phsoff) # could be a tuple
         try: self._phsoff[-2], changed = prms['dly'], True
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
diff --git a/aipy/pol.py b/aipy/pol.py
index 541fccb..7ea3db7 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -115,6 +115,7 @@ class Antenna(fit.Antenna):
         try: self.pos[2], changed = prms['z'], True
         except(KeyError): pass
         for p in self._phsoff:
+            self._phsoff[p] = list(self._phsoff[p]) # could be a tuple, or shared by polarizations
             try: self._phsoff[p][-2], changed = prms['dly_'+p], True
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
-- 
2.43.0


From 2b1aeac3d4f803890c811ec1b7452785307a4b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 065/148] fix: translating pixel numbers, or copying a map of
 the other ordering, relabelled the ordering of the map without reordering it

---
 aipy/healpix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 9bb8c50..acc2040 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -40,7 +40,6 @@ class HealpixBase(object):
         """Translate an array of pixel numbers to index data in the scheme specified in 'scheme' ('NEST' or 'RING').  Returns px."""
         mode = {'RING':healpy.nest2ring, 'NEST':healpy.ring2nest}
         if scheme != self._scheme: px = mode[scheme](self._nside, px)
-        self._scheme = scheme
         return px
     def set_nside_scheme(self, nside=None, scheme=None):
         """Adjust Nside and Scheme ('RING' or 'NEST')."""
-- 
2.43.0


From f0f08b744c2d9e770d8b6ae436640945497e0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 066/148] fix: initialising a map from a coarser one left
 interpolation switched on in that map

---
 aipy/healpix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index acc2040..b16e862 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -267,6 +267,7 @@ class HealpixMap(HealpixBase):
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
             self[px] = hpm[th,phi].astype(self.get_dtype())
+            hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
-- 
2.43.0


From 301b65335d9adc14c5370ac20aacc99949da68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:24 +0000
Subject: [PATCH 067/148] fix: maps made from spherical harmonics were smoothed
 by the pixel window, or failed

---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index b16e862..bb14652 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -281,7 +281,7 @@ class HealpixMap(HealpixBase):
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-        self.set_map(alm.to_map(self.nside(), self.scheme()))
+        self.set_map(alm.to_map(self.nside()), scheme='RING')
     def to_alm(self, lmax, mmax, iter=1):
         """Return an Alm object containing the spherical harmonic components
         of a map (in RING mode) up to the specified lmax,mmax.  Greater
-- 
2.43.0


From 5f11b4765c83780fd7cb226f1afcfbab4f04fde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 068/148] fix: coefficients outside the range of an Alm were
 those of other l, m

---
 aipy/healpix.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index bb14652..e83d4ec 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -109,13 +109,16 @@ class Alm(object):
     def mmax(self):
         """Return the maximum M."""
         return self._mmax
-    def __getitem__(self, lm):
+    def _index(self, lm):
         l,m = lm
-        i = self._alm.getidx(self._lmax, l, m)
+        if not 0 <= m <= min(l, self._mmax) or l > self._lmax:
+            raise IndexError('No coefficient for l=%d, m=%d' % (l, m))
+        return self._alm.getidx(self._lmax, l, m)
+    def __getitem__(self, lm):
+        i = self._index(lm)
         return self.data[i]
     def __setitem__(self, lm, val):
-        l,m = lm
-        i = self._alm.getidx(self._lmax, l, m)
+        i = self._index(lm)
         self.data[i] = val
     def to_map(self, nside, pixwin=False, fwhm=0.0, sigma=None, 
             pol=True, verbose=False):
-- 
2.43.0


From 242b5fa9fb41f8e92066a7f1f0f146615a1ed8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 069/148] fix: packing points on the sphere failed for some
 numbers of points, and facet_centers for all

---
 aipy/map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 7cd8cfb..3423a80 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -21,10 +21,10 @@ def pack_sphere(N):
     """Clever formula for putting N points nearly equally spaced on
     the sphere.  Return xyz coordinates of each point in order from S to N."""
     dz = 2. / N
-    z = np.arange(-1+dz/2,1, dz)
+    z = -1 + dz * (np.arange(N) + .5)
     r = np.sqrt(1-z**2)
     dL = np.pi * (3 - np.sqrt(5))
-    long = np.arange(0, dL * N, dL)
+    long = dL * np.arange(N)
     return np.array([r*np.cos(long), r*np.sin(long), z])
 
 def _bit_reverse(N, nbits=None):
@@ -34,7 +34,7 @@ def _bit_reverse(N, nbits=None):
     if nbits is None: nbits = int(np.floor(np.log2(N))) + 1
     ans = 0
     for bit in range(nbits):
-        ans += np.bitwise_and(N.astype('int64'), 2**bit) * 2**(nbits-2*bit-1)
+        ans += ((N.astype('int64') >> bit) & 1) << (nbits-bit-1)
     return ans
 
 def _bit_reverse_order(N):
-- 
2.43.0


From ff8fb12fe428b855b52f2902f2d15a6373444c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 070/148] fix: adding to a map at coordinates that share a
 pixel, or with interpolation on, multiplied or replaced what was there

---
 aipy/map.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 3423a80..83f7ba6 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -99,9 +99,15 @@ class Map(object):
         if len(ind) == 0: return fluxes
         return (fluxes, ind)
     def add(self, crds, wgts, fluxes, inds=[]):
-        self.wgt[crds] += wgts
-        self.map[crds] += fluxes * wgts
-        for n,i in enumerate(inds): self.ind[n][crds] += i * wgts
+        self._accumulate(self.wgt, crds, wgts)
+        self._accumulate(self.map, crds, fluxes * wgts)
+        for n,i in enumerate(inds): self._accumulate(self.ind[n], crds, i * wgts)
+    def _accumulate(self, hpm, crds, val):
+        """Add val to the pixels of hpm at crds, which may repeat."""
+        if type(crds) is tuple:
+            px = hpm.crd2px(*[healpix.mk_arr(c) for c in crds])
+        else: px = healpix.mk_arr(crds, dtype=int)
+        np.add.at(hpm.map, px, np.asarray(val).astype(hpm.get_dtype()))
     def put(self, crds, wgts, fluxes, inds=[]):
         self.wgt[crds] = wgts
         self.map[crds] = fluxes * wgts
-- 
2.43.0


From c983ec06aae0f015e1bfc5a2ee6c2af5c4b59fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 071/148] fix: change_scheme reordered a map but not its
 weights

---
 aipy/map.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aipy/map.py b/aipy/map.py
index 83f7ba6..173a797 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -80,6 +80,9 @@ class Map(object):
         self.map.set_interpol(onoff)
         self.wgt.set_interpol(onoff)
         for i in self.ind: i.set_interpol(onoff)
+    def change_scheme(self, scheme):
+        """Reorder the pixels in the map, weights and indices."""
+        for h in [self.map, self.wgt] + self.ind: h.change_scheme(scheme)
     def set_nindices(self, nindices):
         if nindices is None: return
         self.ind = self.ind[:nindices]
-- 
2.43.0


From 6ddd18c105dd509f7f8c8bd5181387ad912f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 072/148] fix: maps could not be copied or pickled

---
 aipy/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 173a797..b929871 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -127,8 +127,8 @@ class Map(object):
         for i in range(min(len(self.ind), len(map.ind))):
             self.ind[i].from_hpm(map.ind[i])
     def __getattr__(self, attr):
-        try: object.__getatr__(self, attr)
-        except(AttributeError): return self.map.__getattribute__(attr)
+        if attr == 'map': raise AttributeError(attr)
+        return getattr(self.map, attr)
     def from_fits(self, filename, hdunum=1):
         self.map.from_fits(filename, hdunum=hdunum, colnum=0)
         self.args = ()
-- 
2.43.0


From e7d719c912c12a94a6343bfd4e2284980efce6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 073/148] fix: copying a RadioSpecial failed

---
 aipy/phs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index fc47418..689e514 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -105,8 +105,8 @@ class RadioSpecial(RadioBody, object):
     def __getattr__(self, nm):
         """First try to access attribute from this class, but if that fails,
         try to get it from the underlying ephem object."""
-        try: return object.__getattr__(self, nm)
-        except(AttributeError): return self.Body.__getattribute__(nm)
+        if nm == 'Body': raise AttributeError(nm)
+        return getattr(self.Body, nm)
     def __setattr__(self, nm, val):
         """First try to set attribute for this class, buf if that fails,
         try to set it for the underlying ephem object."""
-- 
2.43.0


From 252c6ece7f29641f84f10420c37956b26275c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 074/148] fix: maps could not be written to FITS files with any
 current astropy

---
 aipy/healpix.py | 18 +++++++++---------
 aipy/map.py     |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index e83d4ec..7356c3e 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -303,15 +303,15 @@ class HealpixMap(HealpixBase):
         scheme= hdu.header['ORDERING'][:4]
         self.set_map(data, scheme=scheme)
     def _set_fits_header(self, hdr):
-        hdr.update('PIXTYPE', 'HEALPIX', 'HEALPIX pixelisation')
+        hdr['PIXTYPE'] = ('HEALPIX', 'HEALPIX pixelisation')
         scheme = self.scheme()
-        if scheme == 'NEST': scheme == 'NESTED'
-        hdr.update('ORDERING', scheme,
+        if scheme == 'NEST': scheme = 'NESTED'
+        hdr['ORDERING'] = (scheme,
             'Pixel ordering scheme, either RING or NESTED')
-        hdr.update('NSIDE', self.nside(), 'Resolution parameter for HEALPIX')
-        hdr.update('FIRSTPIX', 0, "First pixel # (0 based)")
-        hdr.update('LASTPIX', self.npix()-1, "Last pixel # (0 based)")
-        hdr.update('INDXSCHM', 'IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
+        hdr['NSIDE'] = (self.nside(), 'Resolution parameter for HEALPIX')
+        hdr['FIRSTPIX'] = (0, "First pixel # (0 based)")
+        hdr['LASTPIX'] = (self.npix()-1, "Last pixel # (0 based)")
+        hdr['INDXSCHM'] = ('IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
     def get_dtype(self):
         return self.map.dtype
     def to_fits(self, filename, format=None, clobber=True):
@@ -323,7 +323,7 @@ class HealpixMap(HealpixBase):
         hdu0 = pyfits.PrimaryHDU()
         col0 = pyfits.Column(name='signal', format=format, array=self.map)
         cols = pyfits.ColDefs([col0])
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
-        hdulist.writeto(filename,clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
diff --git a/aipy/map.py b/aipy/map.py
index b929871..e71f33d 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -160,7 +160,7 @@ class Map(object):
         col_inds = [pyfits.Column(name='sp_index%d'%n,format=format,array=i.map)
             for n,i in enumerate(self.ind)]
         cols = pyfits.ColDefs([col0, col1] + col_inds)
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self.map._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
         if history!='':
@@ -173,4 +173,4 @@ class Map(object):
                     else:
                         for subline in img.word_wrap(line,70,5,10,'#').split("\n"):
                             hdulist[0].header.add_history(subline)
-        hdulist.writeto(filename, clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
-- 
2.43.0


From 0ca34324f14b2b401826d7d9f9b4806706b2fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 075/148] fix: reading a NEST map without a weights column gave
 it weights in RING order

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index e71f33d..126facf 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -137,7 +137,7 @@ class Map(object):
             self.wgt.from_fits(filename, hdunum=hdunum, colnum=1)
         except(IndexError):
             self.wgt = healpix.HealpixMap(*self.args, **self.kwargs)
-            self.wgt.set_map(np.ones_like(self.wgt.map))
+            self.wgt.set_map(np.ones_like(self.wgt.map), scheme=self.scheme())
         # Figure out how many cols there are (is there a better way?)
         hdu = pyfits.open(filename)[hdunum]
         nind = 0
-- 
2.43.0


From 3312c474289dd10dad8d7b40949b8ea0943c570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 076/148] fix: images could not be written to FITS files with
 any current astropy, and clobber was ignored

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index 0be048a..b699fb8 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -391,7 +391,7 @@ def to_fits(filename, data, clobber=False,
                         phdu.header.add_history(subline)
     phdu.header['ORIGIN'] = (origin)
     phdu.header['DATE'] = (cur_date,'FILE WRITTEN ON DD/MM/YY')
-    pyfits.writeto(filename,phdu.data,phdu.header,clobber=True)
+    pyfits.writeto(filename, phdu.data, phdu.header, overwrite=clobber)
 
 def from_fits(filename):
     """Read (data,kwds) from a FITS file.  Matches to_fits() above.  Attempts
-- 
2.43.0


From 3995d71c27a3ff4097025891f1dbb544e089ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 077/148] fix: from_fits_to_fits failed with every current
 Python and astropy

---
 aipy/img.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index b699fb8..1739a28 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -483,9 +483,9 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if not delta is None:
             phdu.header['CDELT%d' % (i+1)] = (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
-    for k,v in kwds.iteritems():
+    for k,v in kwds.items():
         try:
-            phdu.header.update(k,v)
+            phdu.header[k] = v
         except(ValueError):
             continue
     if history is None:
@@ -495,4 +495,4 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if len(line)>1:
             for subline in word_wrap(line,70,5,10,'#').split("\n"):
                 phdu.header.add_history(subline)
-    pyfits.writeto(outfile, data, phdu.header, clobber=True)
+    pyfits.writeto(outfile, data, phdu.header, overwrite=True)
-- 
2.43.0


From 94e846dcfcc6ed4595b8ac7034c3916cfc9d68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 078/148] fix: find_axis read the axis number from the axis
 name

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index 1739a28..73d32ea 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -436,7 +436,7 @@ def find_axis(phdu,name):
     for k in phdu.header.items():
         if k[0].lower().startswith('ctype'):
             if k[1].lower().startswith(name):
-                return int(k[1][5])
+                return int(k[0][5:])
 
 def from_fits_to_fits(infile,outfile,data,kwds,history=None):
     """
-- 
2.43.0


From d1f48fb31ef0bd2b23d90ec89912ef8a6495de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 079/148] fix: gridding a single datum with an array of weights
 failed

---
 aipy/img.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 73d32ea..f4746fa 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -128,7 +128,7 @@ class Img:
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         if apply: uv,bm = self.uv,self.bm
         else:
@@ -184,7 +184,7 @@ class Img:
         w = np.concatenate([w, -w], axis=0)
         data = np.concatenate([data, np.conj(data)], axis=0)
         if wgts is None: return np.array((u,v,w)), data
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
         return (u,v,w), data, wgts
@@ -240,7 +240,7 @@ class ImgW(Img):
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         # Sort uvw in order of w
         order = np.argsort(w)
-- 
2.43.0


From 3b3579de1deb11818b28d32c03c3fa31b6d9caa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 080/148] fix: append_hermitian doubled the caller's list of
 weights in place

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index f4746fa..b458d35 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -186,7 +186,7 @@ class Img:
         if wgts is None: return np.array((u,v,w)), data
         if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0): wgts = [wgts]
         assert(len(wgts) == len(self.bm))
-        for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
+        wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in wgts]
         return (u,v,w), data, wgts
     def _gen_img(self, data, center=(0,0)):
         """Return the inverse FFT of the provided data, with the 0,0 point
-- 
2.43.0


From 21fc355b5e3836818db3e0d9b1ecb93fbe71d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 081/148] fix: ImgW.get failed for a single datum

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index b458d35..730c3c2 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -273,7 +273,7 @@ class ImgW(Img):
     def get(self, uvw):
         u,v,w = uvw
         order = np.argsort(w.flat)
-        u_,v_,w_ = u.take(order).squeeze(), v.take(order).squeeze(), w.take(order).squeeze()
+        u_,v_,w_ = u.take(order), v.take(order), w.take(order)
         sqrt_w = np.sqrt(np.abs(w_)) * np.sign(w_)
         i, d_ = 0, []
         while True:
-- 
2.43.0


From afe53940670b95b9e10b56562c6bd3aa131912a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 082/148] fix: ImgW.get returned data from w planes cached
 before the last put

---
 aipy/img.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/img.py b/aipy/img.py
index 730c3c2..a31aeb7 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -235,6 +235,7 @@ class ImgW(Img):
         plane before applying the data to the UV matrix."""
         u,v,w = uvw
         if len(u) == 0: return
+        self.wcache = {}
         if wgts is None:
             wgts = []
             for i in range(len(self.bm)):
-- 
2.43.0


From 41fd6152473e1b1484d292e50b06487e6cb85f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 083/148] fix: from_fits dropped the image center of galactic
 images

---
 aipy/img.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index a31aeb7..6f1a9d7 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -423,8 +423,8 @@ def from_fits(filename):
             axes.append(ax)
             val = phdu.header['CRVAL%d' % (i+1)]
             delta = phdu.header['CDELT%d' % (i+1)]
-            if ax.startswith('ra'): kwds['ra'],kwds['d_ra'] = (val,delta)
-            elif ax.startswith('dec'): kwds['dec'],kwds['d_dec'] = (val,delta)
+            if ax.startswith('ra') or ax.startswith('glon'): kwds['ra'],kwds['d_ra'] = (val,delta)
+            elif ax.startswith('dec') or ax.startswith('glat'): kwds['dec'],kwds['d_dec'] = (val,delta)
             elif ax.startswith('freq'): kwds['freq'],kwds['d_freq']=(val,delta)
             elif ax.startswith('stokes'): pass
             else: pass
-- 
2.43.0


From 99290c6e58a691806e51f7d6b5ccd9fe7904d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 084/148] fix: synthesis of coefficients with mmax < lmax
 smoothed the wrong l, or failed

---
 aipy/healpix.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 7356c3e..d14766f 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -149,9 +149,13 @@ class Alm(object):
         maps : array or list of arrays
           A Healpix map in RING scheme at nside or a list of T,Q,U maps (if
           polarized input)'''
-        return healpy.alm2map(self.get_data(), nside, 
-            lmax=self._lmax, mmax=self._mmax,
-            pixwin=pixwin, fwhm=fwhm, sigma=sigma, pol=pol
+        # healpy.alm2map does not use mmax when it smooths
+        data = healpy.smoothalm(self.get_data(), fwhm=fwhm, sigma=sigma,
+            pol=pol, mmax=self._mmax, inplace=False)
+        if pixwin:
+            data = healpy.almxfl(data, healpy.pixwin(nside), mmax=self._mmax)
+        return healpy.alm2map(data, nside,
+            lmax=self._lmax, mmax=self._mmax, pol=pol
         )
     def from_map(self, data, iter=3, pol=True, use_weights=False, gal_cut=0):
         '''Set the coefficients of this Alm object (with its specified 
-- 
2.43.0


From c39236ca06f8202c8eaaa3735f875b8d2a667873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:26 +0000
Subject: [PATCH 085/148] fix: single-precision coefficients could not be
 synthesised

---
 aipy/healpix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index d14766f..e1aba6e 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -150,8 +150,8 @@ class Alm(object):
           A Healpix map in RING scheme at nside or a list of T,Q,U maps (if
           polarized input)'''
         # healpy.alm2map does not use mmax when it smooths
-        data = healpy.smoothalm(self.get_data(), fwhm=fwhm, sigma=sigma,
-            pol=pol, mmax=self._mmax, inplace=False)
+        data = healpy.smoothalm(self.get_data().astype(np.complex128),
+            fwhm=fwhm, sigma=sigma, pol=pol, mmax=self._mmax, inplace=False)
         if pixwin:
             data = healpy.almxfl(data, healpy.pixwin(nside), mmax=self._mmax)
         return healpy.alm2map(data, nside,
-- 
2.43.0


From e1e42586dac577826a7c8a9c2e3f00e9db2da6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:55 +0000
Subject: [PATCH 086/148] fix: resetting the weights of a map to other than 1
 scaled its averages

---
 aipy/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/map.py b/aipy/map.py
index 126facf..fb64e07 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -117,6 +117,7 @@ class Map(object):
         for n,i in enumerate(inds): self.ind[n][crds] = i * wgts
     def reset_wgt(self, wgt=1):
         w = np.where(self.wgt.map > 0, self.wgt.map, 1)
+        if wgt > 0: w = np.where(self.wgt.map > 0, w / wgt, 1)
         self.map.map /= w
         for i in self.ind: i.map /= w
         self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
-- 
2.43.0


From d52996eeafedc24991e0181c7eca890fd885fcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 087/148] fix: weights added after reset_wgt() were truncated
 to integers

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index fb64e07..f4a0903 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -120,7 +120,7 @@ class Map(object):
         if wgt > 0: w = np.where(self.wgt.map > 0, w / wgt, 1)
         self.map.map /= w
         for i in self.ind: i.map /= w
-        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
+        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0).astype(self.wgt.get_dtype())
     def from_map(self, map):
         """Initialize this Map with data from another."""
         self.map.from_hpm(map.map)
-- 
2.43.0


From 497c3be443c4f94337f616ac94059cdbc1cc7a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 088/148] fix: indices added to a map after change_scheme()
 were ordered in its first scheme

---
 aipy/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/map.py b/aipy/map.py
index f4a0903..8731d8e 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -88,6 +88,7 @@ class Map(object):
         self.ind = self.ind[:nindices]
         for i in range(nindices - len(self.ind)):
             self.ind.append(healpix.HealpixMap(*self.args, **self.kwargs))
+            self.ind[-1].set_nside_scheme(scheme=self.scheme())
     def get(self, crds):
         fluxes = self.map[crds]
         wgts = self.wgt[crds]
-- 
2.43.0


From 5bdba31f83119198adeed7231286b7cdeefec92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:14 +0000
Subject: [PATCH 089/148] fix: images with blank (NaN) or infinite pixels could
 not be written to FITS files

---
 aipy/img.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 6f1a9d7..6563216 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -359,8 +359,10 @@ def to_fits(filename, data, clobber=False,
     phdu.header['BUNIT  '] = ('JY/BEAM ', 'UNITS OF FLUX')
     phdu.header['EQUINOX'] = (epoch,'EQUINOX OF RA DEC')
     phdu.header['EPOCH'] = (epoch,'Epoch of coordinate system')
-    phdu.header['DATAMAX'] = (data.max(), 'MAX PIXEL VALUE')
-    phdu.header['DATAMIN']= (data.min(), 'MIN PIXEL VALUE')
+    valid = data[np.isfinite(data)]
+    if valid.size > 0:
+        phdu.header['DATAMAX'] = (valid.max(), 'MAX PIXEL VALUE')
+        phdu.header['DATAMIN']= (valid.min(), 'MIN PIXEL VALUE')
     for i,ax in enumerate(axes):
         if ax.lower().startswith('ra') or ax.lower().startswith('glon'): val,delta = (ra, d_ra)
         elif ax.lower().startswith('dec') or ax.lower().startswith('glat'): val,delta = (dec, d_dec)
-- 
2.43.0


From bb6b817a183ee16be89c4bdf774d572fb6474770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 090/148] fix: get_aa and get_catalog of calibration modules
 work with Python 3

---
 aipy/cal.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aipy/cal.py b/aipy/cal.py
index b763540..a5e7345 100644
--- a/aipy/cal.py
+++ b/aipy/cal.py
@@ -26,8 +26,9 @@ def get_aa(*args):
         cal_key,sdf,sfreq,nchan = args
         freqs = get_freqs(sdf, sfreq, nchan)
     sys.path.append(os.getcwd())
-    exec('from %s import get_aa as _get_aa' % cal_key)
-    return _get_aa(freqs)
+    namespace = {}
+    exec('from %s import get_aa as _get_aa' % cal_key, namespace)
+    return namespace['_get_aa'](freqs)
 
 def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     '''Return the source catalog specified by cal_key, which should be the
@@ -38,6 +39,9 @@ def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     specified srcs, cutoff.  If no such function is found, src.get_catalog()
     is called instead.'''
     sys.path.append(os.getcwd())
-    try: exec('from %s import get_catalog as _get_catalog' % cal_key)
-    except(ImportError): _get_catalog = src.get_catalog
+    namespace = {'_get_catalog': src.get_catalog}
+    if cal_key is not None:
+        try: exec('from %s import get_catalog as _get_catalog' % cal_key, namespace)
+        except(ImportError): pass
+    _get_catalog = namespace['_get_catalog']
     return _get_catalog(srcs=srcs, cutoff=cutoff, catalogs=catalogs)
-- 
2.43.0


From 29db0b98b420d23e34e4afdeb74a31c71d6cce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 091/148] fix: a catalog whose data file cannot be read is not
 taken as empty afterwards

---
 aipy/_src/culgoora.py | 5 +++--
 aipy/_src/four_c.py   | 5 +++--
 aipy/_src/gbsix.py    | 5 +++--
 aipy/_src/helm.py     | 5 +++--
 aipy/_src/mrt.py      | 5 +++--
 aipy/_src/nvss.py     | 5 +++--
 aipy/_src/paper.py    | 5 +++--
 aipy/_src/parkes.py   | 5 +++--
 aipy/_src/seven_c.py  | 5 +++--
 aipy/_src/six_c.py    | 5 +++--
 aipy/_src/three_c.py  | 5 +++--
 aipy/_src/three_cr.py | 5 +++--
 aipy/_src/txs.py      | 5 +++--
 aipy/_src/vlss.py     | 5 +++--
 aipy/_src/wenss.py    | 5 +++--
 15 files changed, 45 insertions(+), 30 deletions(-)

diff --git a/aipy/_src/culgoora.py b/aipy/_src/culgoora.py
index ce14442..dd55619 100644
--- a/aipy/_src/culgoora.py
+++ b/aipy/_src/culgoora.py
@@ -70,8 +70,9 @@ _culgooracat = None
 def get_srcs(srcs=None, cutoff=None):
     global _culgooracat
     if _culgooracat is None:
-        _culgooracat = CulgooraCatalog()
-        _culgooracat.fromfile(CULGOORAFILE)
+        cat = CulgooraCatalog()
+        cat.fromfile(CULGOORAFILE)
+        _culgooracat = cat
     if srcs is None:
         if cutoff is None: srcs = _culgooracat.keys()
         else:
diff --git a/aipy/_src/four_c.py b/aipy/_src/four_c.py
index d2d94f8..437b879 100644
--- a/aipy/_src/four_c.py
+++ b/aipy/_src/four_c.py
@@ -41,8 +41,9 @@ _fourccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _fourccat
     if _fourccat is None:
-        _fourccat = FourCCatalog()
-        _fourccat.fromfile(FOURCFILE)
+        cat = FourCCatalog()
+        cat.fromfile(FOURCFILE)
+        _fourccat = cat
     if srcs is None:
         if cutoff is None: srcs = _fourccat.keys()
         else:
diff --git a/aipy/_src/gbsix.py b/aipy/_src/gbsix.py
index 08e107b..ff5a1e7 100644
--- a/aipy/_src/gbsix.py
+++ b/aipy/_src/gbsix.py
@@ -40,8 +40,9 @@ _gbsixcat = None
 def get_srcs(srcs=None, cutoff=None):
     global _gbsixcat
     if _gbsixcat is None:
-        _gbsixcat = GBSixCatalog()
-        _gbsixcat.fromfile(GBSIXFILE)
+        cat = GBSixCatalog()
+        cat.fromfile(GBSIXFILE)
+        _gbsixcat = cat
     if srcs is None:
         if cutoff is None: srcs = _gbsixcat.keys()
         else:
diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index f19d5ba..3fffd52 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -114,8 +114,9 @@ def get_srcs(srcs=None, cutoff=None):
     # Mechanism for delaying instantiation of catalog until it is accessed
     global _helmcat
     if _helmcat is None:
-        _helmcat = HelmboldtCatalog()
-        _helmcat.fromfile(POSFILE, FITFILE)
+        cat = HelmboldtCatalog()
+        cat.fromfile(POSFILE, FITFILE)
+        _helmcat = cat
     if srcs is None:
         if cutoff is None: srcs = _helmcat.keys()
         else:
diff --git a/aipy/_src/mrt.py b/aipy/_src/mrt.py
index cf4369f..10ae872 100644
--- a/aipy/_src/mrt.py
+++ b/aipy/_src/mrt.py
@@ -31,8 +31,9 @@ def get_srcs(srcs=None, cutoff=None):
     # Mechanism for delaying instantiation of catalog until it is accessed
     global _mrtcat
     if _mrtcat is None:
-        _mrtcat = MRTCatalog()
-        _mrtcat.fromfile(MRTFILE)
+        cat = MRTCatalog()
+        cat.fromfile(MRTFILE)
+        _mrtcat = cat
     if srcs is None:
         if cutoff is None: srcs = _mrtcat.keys()
         else:
diff --git a/aipy/_src/nvss.py b/aipy/_src/nvss.py
index 4f5ce97..c8c9685 100644
--- a/aipy/_src/nvss.py
+++ b/aipy/_src/nvss.py
@@ -41,8 +41,9 @@ _nvsscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _nvsscat
     if _nvsscat is None:
-        _nvsscat = NVSSCatalog()
-        _nvsscat.fromfile(NVSSFILE)
+        cat = NVSSCatalog()
+        cat.fromfile(NVSSFILE)
+        _nvsscat = cat
     if srcs is None:
         if cutoff is None: srcs = _nvsscat.keys()
         else:
diff --git a/aipy/_src/paper.py b/aipy/_src/paper.py
index 716efc0..7dac393 100644
--- a/aipy/_src/paper.py
+++ b/aipy/_src/paper.py
@@ -34,8 +34,9 @@ _papercat = None
 def get_srcs(srcs=None, cutoff=None):
     global _papercat
     if _papercat is None:
-        _papercat = PAPERCatalog()
-        _papercat.fromfile(PAPERFILE)
+        cat = PAPERCatalog()
+        cat.fromfile(PAPERFILE)
+        _papercat = cat
     if srcs is None:
         if cutoff is None: srcs = _papercat.keys()
         else:
diff --git a/aipy/_src/parkes.py b/aipy/_src/parkes.py
index b6b8e6b..157e6d1 100644
--- a/aipy/_src/parkes.py
+++ b/aipy/_src/parkes.py
@@ -42,8 +42,9 @@ _parkescat = None
 def get_srcs(srcs=None, cutoff=None):
     global _parkescat
     if _parkescat is None:
-        _parkescat = ParkesCatalog()
-        _parkescat.fromfile(PARKESFILE)
+        cat = ParkesCatalog()
+        cat.fromfile(PARKESFILE)
+        _parkescat = cat
     if srcs is None:
         if cutoff is None: srcs = _parkescat.keys()
         else:
diff --git a/aipy/_src/seven_c.py b/aipy/_src/seven_c.py
index 39e5929..39fac83 100644
--- a/aipy/_src/seven_c.py
+++ b/aipy/_src/seven_c.py
@@ -41,8 +41,9 @@ _sevenccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _sevenccat
     if _sevenccat is None:
-        _sevenccat = SevenCCatalog()
-        _sevenccat.fromfile(SEVENCFILE)
+        cat = SevenCCatalog()
+        cat.fromfile(SEVENCFILE)
+        _sevenccat = cat
     if srcs is None:
         if cutoff is None: srcs = _sevenccat.keys()
         else:
diff --git a/aipy/_src/six_c.py b/aipy/_src/six_c.py
index da01330..71fe693 100644
--- a/aipy/_src/six_c.py
+++ b/aipy/_src/six_c.py
@@ -43,8 +43,9 @@ _sixccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _sixccat
     if _sixccat is None:
-        _sixccat = SixCCatalog()
-        for f in SIXCFILES: _sixccat.fromfile(f)
+        cat = SixCCatalog()
+        for f in SIXCFILES: cat.fromfile(f)
+        _sixccat = cat
     if srcs is None:
         if cutoff is None: srcs = _sixccat.keys()
         else:
diff --git a/aipy/_src/three_c.py b/aipy/_src/three_c.py
index fe66bc4..0d17388 100644
--- a/aipy/_src/three_c.py
+++ b/aipy/_src/three_c.py
@@ -41,8 +41,9 @@ _threeccat = None
 def get_srcs(srcs=None, cutoff=None):
     global _threeccat
     if _threeccat is None:
-        _threeccat = ThreeCCatalog()
-        _threeccat.fromfile(THREECFILE)
+        cat = ThreeCCatalog()
+        cat.fromfile(THREECFILE)
+        _threeccat = cat
     if srcs is None:
         if cutoff is None: srcs = _threeccat.keys()
         else:
diff --git a/aipy/_src/three_cr.py b/aipy/_src/three_cr.py
index d8bf1ee..72d414d 100644
--- a/aipy/_src/three_cr.py
+++ b/aipy/_src/three_cr.py
@@ -41,8 +41,9 @@ _threecrcat = None
 def get_srcs(srcs=None, cutoff=None):
     global _threecrcat
     if _threecrcat is None:
-        _threecrcat = ThreeCRCatalog()
-        _threecrcat.fromfile(THREECRFILE)
+        cat = ThreeCRCatalog()
+        cat.fromfile(THREECRFILE)
+        _threecrcat = cat
     if srcs is None:
         if cutoff is None: srcs = _threecrcat.keys()
         else:
diff --git a/aipy/_src/txs.py b/aipy/_src/txs.py
index 28c378b..2071671 100644
--- a/aipy/_src/txs.py
+++ b/aipy/_src/txs.py
@@ -43,8 +43,9 @@ _txscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _txscat
     if _txscat is None:
-        _txscat = TXSCatalog()
-        _txscat.fromfile(TXSFILE)
+        cat = TXSCatalog()
+        cat.fromfile(TXSFILE)
+        _txscat = cat
     if srcs is None:
         if cutoff is None: srcs = _txscat.keys()
         else:
diff --git a/aipy/_src/vlss.py b/aipy/_src/vlss.py
index b5bcaba..3034546 100644
--- a/aipy/_src/vlss.py
+++ b/aipy/_src/vlss.py
@@ -41,8 +41,9 @@ _vlsscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _vlsscat
     if _vlsscat is None:
-        _vlsscat = VLSSCatalog()
-        _vlsscat.fromfile(VLSSFILE)
+        cat = VLSSCatalog()
+        cat.fromfile(VLSSFILE)
+        _vlsscat = cat
     if srcs is None:
         if cutoff is None: srcs = _vlsscat.keys()
         else:
diff --git a/aipy/_src/wenss.py b/aipy/_src/wenss.py
index df0b763..06ffe06 100644
--- a/aipy/_src/wenss.py
+++ b/aipy/_src/wenss.py
@@ -41,8 +41,9 @@ _wensscat = None
 def get_srcs(srcs=None, cutoff=None):
     global _wensscat
     if _wensscat is None:
-        _wensscat = WenssCatalog()
-        _wensscat.fromfile(WENSSFILE)
+        cat = WenssCatalog()
+        cat.fromfile(WENSSFILE)
+        _wensscat = cat
     if srcs is None:
         if cutoff is None: srcs = _wensscat.keys()
         else:
-- 
2.43.0


From 5b59444d80d9ec61b45fe3e3d5306aed0704eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 092/148] fix: get_params of Helmboldt sources without
 arguments

---
 aipy/_src/helm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index 3fffd52..f3bcff8 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -20,7 +20,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         except(TypeError): B,C,D = (self.index,0,0)
         X = np.log10(afreqs / self.mfreq)
         self.jys = 10**(A + B*X + C*np.exp(D*X))
-    def get_params(self, prm_list=None):
+    def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {
             'jys':      float(self._jys),
-- 
2.43.0


From 48edaab1158fb48c8753ec309ac630f02ab9df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 093/148] fix: reading the Helmboldt files again does not
 repeat measurements

---
 aipy/_src/helm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index f3bcff8..0d10c4b 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -67,15 +67,17 @@ class HelmboldtCatalog(a.fit.SrcCatalog):
         srcs = {}
         rms = {}
         ncomp = {}
+        metadata = {}
         # Read RA/DEC
         srclines = [L for L in open(posfile).readlines() if L.startswith('J')]
         for line in srclines:
             srcname = line[:9]
             srcs[srcname] = line[35:57]
             if srcname not in self.ncomp: self.ncomp[srcname] = int(line[33])
-            if srcname not in self.metadata: self.metadata[srcname] = []
+            if srcname not in metadata: metadata[srcname] = []
             md = (float(line[58:64])/1e3,float(line[65:73]),float(line[74:81]))
-            self.metadata[srcname].append(md)
+            metadata[srcname].append(md)
+        self.metadata.update(metadata)
         for s in srcs:
             ra = srcs[s][:10].strip().replace(' ',':')
             dec = srcs[s][11:].strip().replace(' ',':')
-- 
2.43.0


From 79f2b9eadb5d11a6430df5d1d7b36beff9904472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 094/148] fix: Culgoora sources without a measured flux are
 left out

---
 aipy/_src/culgoora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_src/culgoora.py b/aipy/_src/culgoora.py
index dd55619..1d9ce8a 100644
--- a/aipy/_src/culgoora.py
+++ b/aipy/_src/culgoora.py
@@ -59,7 +59,7 @@ class CulgooraCatalog(a.fit.SrcCatalog):
             elif not jys160 is None:
                 addsrcs.append(a.fit.RadioFixedBody(ra, dec, name=name,
                     jys=jys160, index=0, mfreq=0.160))
-            else:
+            elif not jys080 is None:
                 addsrcs.append(a.fit.RadioFixedBody(ra, dec, name=name,
                     jys=jys080, index=0, mfreq=0.080))
         self.add_srcs(addsrcs)
-- 
2.43.0


From da9204a0b52f1fbf7b0451ba7e95f911954faf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 095/148] fix: sources of one catalog are not those of every
 other

---
 aipy/phs.py | 10 ++++++++++
 aipy/src.py |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 689e514..67a92a0 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -83,6 +83,10 @@ class RadioFixedBody(ephem.FixedBody, RadioBody):
     def __str__(self):
         if self._dec<0: return RadioBody.__str__(self) + '\t' + str(self._ra) +'\t'+ str(self._dec)
         else: return RadioBody.__str__(self) + '\t' + str(self._ra) +'\t'+'+' + str(self._dec)
+    def __deepcopy__(self, memo):
+        body = ephem.FixedBody.copy(self)
+        body.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return body
     def compute(self, observer):
         ephem.FixedBody.compute(self, observer)
         RadioBody.compute(self, observer)
@@ -112,6 +116,12 @@ class RadioSpecial(RadioBody, object):
         try to set it for the underlying ephem object."""
         try: object.__setattr__(self, nm, val)
         except(AttributeError): return setattr(self.Body, nm, val)
+    def __deepcopy__(self, memo):
+        body = copy.copy(self)
+        for k in self.__dict__:
+            if k == 'Body': body.Body = self.Body.copy()
+            else: setattr(body, k, copy.deepcopy(self.__dict__[k], memo))
+        return body
     def compute(self, observer):
         self.Body.compute(observer)
         RadioBody.compute(self, observer)
diff --git a/aipy/src.py b/aipy/src.py
index afbc586..4079bbf 100644
--- a/aipy/src.py
+++ b/aipy/src.py
@@ -5,6 +5,7 @@ all catalogs in the _src module of AIPY.
 
 from __future__ import print_function, division, absolute_import
 
+import copy
 from . import fit, _src
 
 def get_catalog(srcs=None, cutoff=None, catalogs=['helm','misc']):
@@ -18,7 +19,8 @@ def get_catalog(srcs=None, cutoff=None, catalogs=['helm','misc']):
         except(AttributeError):
             continue
 
-        srclist += c.get_srcs(srcs=srcs, cutoff=cutoff)
+        # Catalogs are kept for the next call: do not hand out their own sources
+        srclist += copy.deepcopy(c.get_srcs(srcs=srcs, cutoff=cutoff))
 
     # Add in sources that are already made
     if srcs != None: srclist += [s for s in srcs if type(s) != str]
-- 
2.43.0


From 7047ce25d3d192d103b2621ed74bcd32a617e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 096/148] fix: Helmboldt sources know the frequencies of their
 fluxes

---
 aipy/_src/helm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index 0d10c4b..ae755f8 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -19,6 +19,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         try: B,C,D = (list(self.index) + [0,0,0])[:3]
         except(TypeError): B,C,D = (self.index,0,0)
         X = np.log10(afreqs / self.mfreq)
+        self.afreqs = afreqs
         self.jys = 10**(A + B*X + C*np.exp(D*X))
     def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
-- 
2.43.0


From 6b66ff8c503d130e1330d1f80ab649fe1d2c5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 097/148] fix: gen_rfi_thresh works with Python 3 and current
 numpy

---
 aipy/rfi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/rfi.py b/aipy/rfi.py
index 49855f2..dd5d271 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -26,7 +26,7 @@ def gen_rfi_thresh(data, nsig=2, cnt_per_bin=1000):
     try: data = data.compressed()
     except(AttributeError): pass
     data = np.log10(np.abs(data))
-    try: h, bvals = np.histogram(data, bins=data.size/cnt_per_bin)
+    try: h, bvals = np.histogram(data, bins=data.size//cnt_per_bin)
     except(ValueError): return None, None
     if h.size == 0: return None, None
     # Fit a gaussian to histogram (better than just std-dev of data)
@@ -34,7 +34,7 @@ def gen_rfi_thresh(data, nsig=2, cnt_per_bin=1000):
     sig = abs(sig)
     hi_thresh = np.clip(np.round(off + nsig*sig), 0, len(bvals)-1)
     lo_thresh = np.clip(np.round(off - nsig*sig), 0, len(bvals)-1)
-    return 10**bvals[hi_thresh], 10**bvals[lo_thresh]
+    return 10**bvals[int(hi_thresh)], 10**bvals[int(lo_thresh)]
 
 def flag_by_int(preflagged_auto, nsig=1, raw=False):
     """Flag rfi for an autocorrelation.  Iteratively removes outliers and
-- 
2.43.0


From b5b2e86d62ba70bbfb5b16926b1b909e237ddfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 098/148] fix: remove_spikes flags the outliers themselves

---
 aipy/rfi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/rfi.py b/aipy/rfi.py
index dd5d271..f26a197 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -66,7 +66,7 @@ def remove_spikes(data, mask=None, order=6, iter=3, return_poly=False):
     if iter != 0:
         residual = np.abs(ndata - np.polyval(p, nxs))
         sig = np.sqrt(np.average(residual**2))
-        mask.put(np.where(residual > sig), 1)
+        mask.put(nxs.compress(residual > sig), 1)
         p = remove_spikes(data, mask=mask, order=order,
             iter=iter-1, return_poly=True)
     if return_poly: return p
-- 
2.43.0


From 65c78fb8daa9e678493fb9c76d5e5463e7569c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 099/148] fix: flag_by_int works with too little data for a
 threshold

---
 aipy/rfi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/rfi.py b/aipy/rfi.py
index f26a197..6e83842 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -48,6 +48,7 @@ def flag_by_int(preflagged_auto, nsig=1, raw=False):
     else:
         spikey_pwr_vs_t = np.abs(pwr_vs_t - remove_spikes(pwr_vs_t, mask.copy()))
     hi_thr, lo_thr = gen_rfi_thresh(spikey_pwr_vs_t, cnt_per_bin=20, nsig=nsig)
+    if hi_thr is None: hi_thr = np.inf # too little data for a threshold
     spikey_pwr_vs_t = spikey_pwr_vs_t.filled(hi_thr)
     mask = spikey_pwr_vs_t >= hi_thr
     return mask.astype(np.int_)
-- 
2.43.0


From cbbf200c69b9973a6e51fac3e857ecb7d8b884ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 100/148] fix: the window "none" is an array of the length
 asked for

---
 aipy/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/dsp.py b/aipy/dsp.py
index 2538600..c68fcc7 100644
--- a/aipy/dsp.py
+++ b/aipy/dsp.py
@@ -43,7 +43,7 @@ WINDOW_FUNC = {
     'hamming': lambda x,L: .54 - .46 * np.cos(2*np.pi*x/(L-1)),
     'hanning': lambda x,L: .5 - .5 * np.cos(2*np.pi*x/(L-1)),
     'parzen': lambda x,L: 1 - np.abs(L/2. - x) / (L/2.),
-    'none': lambda x,L: 1,
+    'none': lambda x,L: np.ones(L, 'd'),
     'tukey': tukey,
     'barthann': barthann
     }
-- 
2.43.0


From ccf3f5c3e17d1d0325128a1eb1bf29d1f759812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 101/148] fix: windows of length 1 are not NaN

---
 aipy/dsp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/dsp.py b/aipy/dsp.py
index c68fcc7..ee0c0ac 100644
--- a/aipy/dsp.py
+++ b/aipy/dsp.py
@@ -50,4 +50,6 @@ WINDOW_FUNC = {
 
 def gen_window(L, window='hamming', **kwargs):
     '''Return the specified window (see WINDOW_FUNC) for a length L.'''
-    return np.fromfunction(lambda x: WINDOW_FUNC[window](x,L,**kwargs), (L,))
+    func = WINDOW_FUNC[window]
+    if L == 1: return np.ones(1, 'd')
+    return np.fromfunction(lambda x: func(x,L,**kwargs), (L,))
-- 
2.43.0


From c0418a06a3507cff2408eb8093842c809e9b1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 102/148] fix: interpolation by factors such as 6 returns the
 right number of samples

---
 aipy/interp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aipy/interp.py b/aipy/interp.py
index 993474c..7b5ad35 100644
--- a/aipy/interp.py
+++ b/aipy/interp.py
@@ -47,10 +47,9 @@ def interpolate(ys, factor, filter=default_filter, order=4):
     Order should be even to make this an averaging filter.  Internally,
     ys is extended by 2nd degree polynomial in both directions to attempt
     a smooth boundary transition."""
-    step = 1./factor
     ys = polyextend(ys, order)
     ys_ss, wgts = subsample(ys, factor)
-    fir = filter(np.arange(-order,order+step,step))
+    fir = filter(np.arange(-order*factor,order*factor+1) / float(factor))
     ys_ss = np.convolve(ys_ss, fir, mode='valid')
     wgts = np.convolve(wgts, fir, mode='valid')
     return ys_ss / wgts
-- 
2.43.0


From 58946583165e41304a76fb66ba276d528be6774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 103/148] fix: appending to a dataset of auto- and
 cross-correlations changed its obstype

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 8190065..daf2b8f 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -815,6 +815,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
     rdhda_c(*tno,"obstype",line,"",MAXLINE);
     if(!strcmp(line,"autocorrelation"))		uv->flags |= UVF_AUTO;
     else if(!strcmp(line,"crosscorrelation"))	uv->flags |= UVF_CROSS;
+    else if(!strcmp(line,"mixed-auto-cross"))	uv->flags |= UVF_AUTO|UVF_CROSS;
     {
         int8 n;
         rdhdl_c(*tno,"ncorr",&n,-1);
-- 
2.43.0


From 7f044aff0252bcf6db4333f0fdb2721138f9e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 104/148] fix: selections on dazim and delev were ignored when
 combined with selections on polarization, source, lst and others

---
 aipy/_miriad/mir/uvio.c | 84 ++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index daf2b8f..f6f3dcd 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3306,49 +3306,6 @@ private int uvread_select(UV *uv)
       if(discard || n >= sel->noper) goto endloop;
     }
 
-    /* ==PJT== */
-
-/* Apply delta AZIM selection. */
-
-    if(op->type == SEL_DAZIM){
-      discard = !op->discard;
-      if(uv->need_dazim) nants = uv->dazim->length / sizeof(double);
-      else nants=0;
-
-      if(!uv->need_dazim) dazim = 0;
-      else dazim = (double *)uv->dazim->buf;
-      while(n < sel->noper && op->type == SEL_DAZIM){
-	if (dazim==0) break;
-	for (i=0; i<nants; i++) {
-	  if(op->loval <= dazim[i] && dazim[i] <= op->hival) {
-	    discard = op->discard;
-	    /* printf("ant %d: %g  in-ranged %g %g  \n",i+1,dazim[i],op->loval,op->hival);  */
-	  } 
-	}
-        op++; n++;
-      }
-      if(discard || n >= sel->noper) goto endloop;
-    }
-
-/* Apply delta ELEV selection. */
-    if(op->type == SEL_DELEV){
-      discard = !op->discard;
-      if(uv->need_delev) nants = uv->delev->length / sizeof(double);
-      else nants=0;
-
-      if(!uv->need_delev) delev = 0;
-      else delev = (double *)uv->delev->buf;
-      while(n < sel->noper && op->type == SEL_DELEV){
-	if (delev==0) break;
-	for (i=0; i<nants; i++) {
-	  if(op->loval <= delev[i] && delev[i] <= op->hival)
-	    discard = op->discard;
-	}
-	op++; n++;
-      }
-      if(discard || n >= sel->noper) goto endloop;
-    }
-
 /* Apply delta RA selection. */
 
     if(op->type == SEL_DRA){
@@ -3567,6 +3524,47 @@ private int uvread_select(UV *uv)
       if(discard || n >= sel->noper) goto endloop;
     }
 
+    /* ==PJT== */
+
+/* Apply delta AZIM selection. */
+
+    if(op->type == SEL_DAZIM){
+      discard = !op->discard;
+      if(uv->need_dazim) nants = uv->dazim->length / sizeof(double);
+      else nants=0;
+
+      if(!uv->need_dazim) dazim = 0;
+      else dazim = (double *)uv->dazim->buf;
+      while(n < sel->noper && op->type == SEL_DAZIM){
+	for (i=0; i<nants; i++) {
+	  if(op->loval <= dazim[i] && dazim[i] <= op->hival) {
+	    discard = op->discard;
+	    /* printf("ant %d: %g  in-ranged %g %g  \n",i+1,dazim[i],op->loval,op->hival);  */
+	  } 
+	}
+        op++; n++;
+      }
+      if(discard || n >= sel->noper) goto endloop;
+    }
+
+/* Apply delta ELEV selection. */
+    if(op->type == SEL_DELEV){
+      discard = !op->discard;
+      if(uv->need_delev) nants = uv->delev->length / sizeof(double);
+      else nants=0;
+
+      if(!uv->need_delev) delev = 0;
+      else delev = (double *)uv->delev->buf;
+      while(n < sel->noper && op->type == SEL_DELEV){
+	for (i=0; i<nants; i++) {
+	  if(op->loval <= delev[i] && delev[i] <= op->hival)
+	    discard = op->discard;
+	}
+	op++; n++;
+      }
+      if(discard || n >= sel->noper) goto endloop;
+    }
+
 /* We have processed this selection clause. Now determine whether the
    overall selection criteria is to select or discard. Note that we cannot
    get here if sel->and == TRUE and selprev == FALSE. 		*/
-- 
2.43.0


From 31a2203797ce7a49b52c6c587618633b805ab757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 105/148] fix: reading a variable that has no value no longer
 keeps the array made for it

---
 aipy/_miriad/miriad_wrap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 43606ef..9aa306a 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -262,7 +262,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     char *name, *type, value[MAXVAR];
     int length, updated;
     npy_intp dims[1];
-    PyArrayObject *rv;
+    PyArrayObject *rv = NULL;
     int elem_size;
 
     if (!PyArg_ParseTuple(args, "ss", &name, &type))
@@ -337,6 +337,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
                 return NULL; /* can't happen with previous switch */
         }
     } catch (MiriadError &e) {
+        Py_XDECREF(rv); // the array that no value came for
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
     }
-- 
2.43.0


From c5474f6581142dbeb23c0fb93d07917265b008d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 106/148] fix: a variable read back from the dataset being
 written could be stale once it had changed several times

---
 aipy/_miriad/mir/uvio.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index f6f3dcd..c043332 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1749,7 +1749,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
 {
   UV *uv;
   VARIABLE *v;
-  int size,iostat,changed,length,i;
+  int size,iostat,changed,length,i,keep;
   char *in1,*in2;
 
   if(n <= 0){
@@ -1764,6 +1764,13 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     ERROR('f',(message,"Variable %s has changed type, in UVPUTVR",var));
   size = external_size[type];
 
+/* The current value is kept for uvgetvr, whether or not it is checked for
+   changes. The buffers of unchecked correlations and of the preamble variables
+   belong to uvwrite. */
+
+  keep = !(v->flags & UVF_NOCHECK) || !(v == uv->corr || v == uv->wcorr ||
+		v == uv->coord || v == uv->time || v == uv->bl);
+
 /* If the size of this variable has changed, write it out to the file. */
 
   changed = (v->flags & UVF_NOCHECK);
@@ -1776,7 +1783,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwritei_c(uv->item,&v->length,uv->offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length for %s, in UVPUTVR",var));
     uv->offset += UV_ALIGN;
-    if( !(v->flags & UVF_NOCHECK) )
+    if( keep )
       v->buf = Realloc(v->buf,n*internal_size[type]);
   }
 
@@ -1804,9 +1811,9 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwrite_c(uv->item,type,data,uv->offset,v->length,&iostat);
     CHECK(iostat,(message,"Error writing variable-value for %s, in UVPUTVR",var));
     uv->offset = mroundup( uv->offset+v->length, UV_ALIGN);
-    if(v->callno++ > CHECK_THRESH) {
+    if(v->callno++ > CHECK_THRESH)
       v->flags |= UVF_NOCHECK;
-    } else if(!(v->flags & UVF_NOCHECK)){
+    if( keep ){
       length = internal_size[type] * n;
       memcpy(v->buf,data,length);
     } 
-- 
2.43.0


From 829f4675bddc192133ae0ca6ffbce350a7300e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 107/148] fix: pull_ants.py selected no antennas and then
 crashed

---
 scripts/pull_ants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pull_ants.py b/scripts/pull_ants.py
index 2d0042c..0693029 100755
--- a/scripts/pull_ants.py
+++ b/scripts/pull_ants.py
@@ -26,7 +26,7 @@ for filename in args:
         print('File exists, skipping')
         continue
 
-    ants2use = opts.ants.split(',')
+    ants2use = [int(ant) for ant in opts.ants.split(',')]
 
     def mfunc(uv,p,d):
         uvw,t,(i,j) = p
@@ -36,7 +36,7 @@ for filename in args:
     uvi = a.miriad.UV(filename)
     uvo = a.miriad.UV(outfile,status='new')
     uvo.init_from_uv(uvi)
-    histstr = 'PULL ANTS: ants='%opts.refant
+    histstr = 'PULL ANTS: ants='
     for ant in ants2use:
         histstr += str(ant)+','
         if ant == ants2use[-1]: histstr += '\n'
-- 
2.43.0


From 1c1f5d9d056c9320cc2580b0c479d7a3d1a28957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 108/148] fix: pull_pol.py without -p crashed instead of saying
 what was missing

---
 scripts/pull_pol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/pull_pol.py b/scripts/pull_pol.py
index 7562965..d88ffc9 100755
--- a/scripts/pull_pol.py
+++ b/scripts/pull_pol.py
@@ -12,9 +12,13 @@ import sys,os,optparse
 o = optparse.OptionParser()
 o.set_usage('pull_ants.py [options] *.uv')
 o.set_description(__doc__)
-o.add_option('-p','--pols',dest='pols',type='str',default=8,help='Which polarizations do you like?')
+o.add_option('-p','--pols',dest='pols',type='str',default=None,help='Which polarizations do you like?')
 opts,args = o.parse_args(sys.argv[1:])
 
+if opts.pols is None:
+    print('No polarizations specified.  Use -p pol1,pol2,...')
+    sys.exit(1)
+
 for filename in args:
 
     outfile = filename+'P'
-- 
2.43.0


From 4fdb2a25503a5f736a6362d78831874d241f4f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 109/148] fix: combine_freqs.py crashed, gave a wrong sfreq,
 and with --unify lost variables of all but the first file

---
 scripts/combine_freqs.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/scripts/combine_freqs.py b/scripts/combine_freqs.py
index 5530355..bef4eb4 100755
--- a/scripts/combine_freqs.py
+++ b/scripts/combine_freqs.py
@@ -32,8 +32,8 @@ for uvfile in args:
     print(uvfile,'->',uvfile+'m')
     uvi = a.miriad.UV(uvfile)
     sfreq,sdf,nchan = uvi['sfreq'], uvi['sdf'], uvi['nchan']
-    newsfreq = sfreq + ((nchan/opts.nchan) * sdf) / 2
-    newsdf = sdf * (nchan/opts.nchan)
+    newsfreq = sfreq + ((nchan//opts.nchan - 1) * sdf) / 2
+    newsdf = sdf * (nchan//opts.nchan)
 
     if uvo is None:
         uvofile = uvfile+'m'
@@ -41,18 +41,21 @@ for uvfile in args:
             print(uvofile, 'exists, skipping.')
             continue
         uvo = a.miriad.UV(uvofile, status='new')
-        if nchan != opts.nchan:
-            uvo.init_from_uv(uvi, override={'nchan':opts.nchan,
-                'sfreq':newsfreq, 'sdf':newsdf, 'nschan':opts.nchan,
-                'freq':newsfreq, 'nchan0':opts.nchan, },)
-        else: uvo.init_from_uv(uvi)
+        exclude = []
+    else: exclude = uvi.items() # already set from the first file
+    # Every input file must be initialized from, for its variables to be tracked
+    if nchan != opts.nchan:
+        uvo.init_from_uv(uvi, override={'nchan':opts.nchan,
+            'sfreq':newsfreq, 'sdf':newsdf, 'nschan':opts.nchan,
+            'freq':newsfreq, 'nchan0':opts.nchan, }, exclude=exclude)
+    else: uvo.init_from_uv(uvi, exclude=exclude)
 
     if nchan != opts.nchan:
         def mfunc(uv, p, d, f):
             d = np.where(f, 0, d)
-            d.shape = (opts.nchan, nchan/opts.nchan)
+            d.shape = (opts.nchan, nchan//opts.nchan)
             d = d.sum(axis=1)
-            f.shape = (opts.nchan, nchan/opts.nchan)
+            f.shape = (opts.nchan, nchan//opts.nchan)
             f = np.logical_not(f).astype(np.int_).sum(axis=1)
             d /= f.clip(1,np.inf)
             if opts.careful_flag: f = np.where(f < nchan/opts.nchan, 1, 0)
-- 
2.43.0


From 5d26199999b5f33bf5e333b318126078eb70f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 110/148] fix: phs2src.py crashed, and with the wrong phase and
 uvw did not phase to the source

---
 scripts/phs2src.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/phs2src.py b/scripts/phs2src.py
index fbafc6a..9177f8a 100755
--- a/scripts/phs2src.py
+++ b/scripts/phs2src.py
@@ -25,7 +25,7 @@ aa = a.cal.get_aa(opts.cal, uv['sdf'], uv['sfreq'], uv['nchan'])
 if not opts.src is None:
     if not opts.src.startswith('zen'):
         srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
-        src = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values()[0]
+        src = list(a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values())[0]
     else: src = 'z'
 else: src = None
 del(uv)
@@ -44,10 +44,10 @@ def phs(uv, p, d, f):
     if i == j: return p, d, f
     try:
         if opts.setphs: d = aa.unphs2src(np.abs(d), src, i, j)
-        elif src is None: d *= np.exp(-1j*np.pi*aa.get_phs_offset(i,j))
+        elif src is None: d *= np.exp(-2j*np.pi*aa.get_phs_offset(i,j))
         else: d = aa.phs2src(d, src, i, j)
         if opts.rot_uvw:
-            uvw = aa.gen_uvw(i,j,src=src)
+            uvw = aa.get_baseline(i,j,src=src)
             p = (uvw,t,(i,j))
     except(a.phs.PointingError): d *= 0
     return p, d, f
-- 
2.43.0


From 4faede6aa5c5276fa9a1643350a0028ef6fb9b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 111/148] fix: flux_cal.py crashed on every dataset, and when
 the calibrator was below the horizon

---
 scripts/flux_cal.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/scripts/flux_cal.py b/scripts/flux_cal.py
index 8dcc81f..1453a7a 100755
--- a/scripts/flux_cal.py
+++ b/scripts/flux_cal.py
@@ -11,7 +11,6 @@ Author: Aaron Parsons
 from __future__ import print_function, division, absolute_import
 
 import aipy as a, numpy as np, os, sys, optparse, pickle
-from matplotlib import pylab as p
 
 o = optparse.OptionParser()
 o.set_usage('flux_cal.py [options] *.uv')
@@ -31,16 +30,16 @@ freqs = a.cal.get_freqs(uv['sdf'], uv['sfreq'], uv['nchan'])
 aa = a.cal.get_aa(opts.cal, uv['sdf'], uv['sfreq'], uv['nchan'])
 del(uv)
 
-if opts.srcflux:
+if opts.srcflux or opts.beam:
     srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
     cat = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs)
-    s = cat.values()[0]
+    s = list(cat.values())[0]
+src_spec = 1
+if opts.srcflux:
     print('Calibrating for source with', end='')
     print('strength', s._jys, end='')
     print('measured at', s.mfreq, 'GHz', end='')
     print('with index', s.index)
-    src_spec = None
-else: src_spec = 1
 
 curtime = None
 def mfunc(uv, p, d, f):
@@ -51,15 +50,18 @@ def mfunc(uv, p, d, f):
     if t != curtime:
         curtime = t
         aa.set_jultime(t)
-        if opts.srcflux:
+        if opts.srcflux or opts.beam:
             s.compute(aa)
-            src_spec = s.get_jys()
+            if opts.srcflux: src_spec = s.get_jys()
             s_eq = cat.get_crds('eq', ncrd=3)
             aa.sim_cache(s_eq)
     if opts.passband:
         passband = aa.passband(i,j)
     else: passband = 1
-    if opts.beam: bm_resp = aa.bm_response(i,j).squeeze()
+    if opts.beam:
+        # no response to a source below the horizon
+        if s.get_crds('top', ncrd=3)[2] > 0: bm_resp = aa.bm_response(i,j).squeeze()
+        else: bm_resp = 0
     else: bm_resp = 1
     gain = passband * bm_resp * src_spec
     d /= np.where(gain == 0, 1, gain)
-- 
2.43.0


From e7b343491d23f39d33a6ce7891088a75f0c56074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 112/148] fix: xtalk3.py crashed, and misaligned gains when a
 file had no xtalk

---
 scripts/xtalk3.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/scripts/xtalk3.py b/scripts/xtalk3.py
index ecdfecb..2975bed 100755
--- a/scripts/xtalk3.py
+++ b/scripts/xtalk3.py
@@ -36,31 +36,32 @@ opts,args = o.parse_args(sys.argv[1:])
 assert(not opts.infile or not opts.outfile)
 
 if opts.reprocess:
-    chans = map(int, opts.chan.split('_'))
+    chans = [int(c) for c in opts.chan.split('_')]
     xsum, cnt, gain, times = {}, {}, {}, []
     for filename in args:
         uv = a.miriad.UV(filename)
         (uvw,jd,(i,j)),d,f = uv.read(raw=True)
         xfile = '%f.xtalk.npz' % jd
         print(xfile)
-        times.append(jd)
         if not os.path.exists(xfile):
             print(xfile, 'does not exist.  Skipping...')
             continue
+        times.append(jd)
         xtalk = np.load(xfile)
         for bl in xtalk.files:
             dat = np.array(xtalk[bl])
             adat = np.ma.masked_equal(np.abs(dat), 0)
-            if not gain.has_key(bl): gain[bl] = []
-            gain[bl].append(np.average(adat[chans[0]:chans[1]]))
-            dat /= gain[bl][-1]
+            if bl not in gain: gain[bl] = {}
+            gain[bl][jd] = np.average(adat[chans[0]:chans[1]])
+            dat /= gain[bl][jd]
             xsum[bl] = xsum.get(bl, 0) + dat
             cnt[bl] = cnt.get(bl, 0) + np.logical_not(adat.mask).astype(np.int_)
     for bl in xsum: xsum[bl] /= np.where(cnt[bl] == 0, 1, cnt[bl])
-    for c, jd in enumerate(times):
+    for jd in times:
         repfile = '%f.xtalk.rep.npz' % jd
         xtalk = {}
-        for bl in xsum: xtalk[bl] = gain[bl][c] * xsum[bl]
+        for bl in xsum:
+            if jd in gain[bl]: xtalk[bl] = gain[bl][jd] * xsum[bl]
         print('Writing', repfile)
         np.savez(repfile, **xtalk)
     import sys; sys.exit(0)
@@ -87,7 +88,7 @@ for filename in args:
         guess, cnt, xtalk = {}, {}, {}
         for (uvw,t,(i,j)),d,f in uv.all(raw=True):
             bl = str(a.pol.ijp2blp(i,j,uv['pol']))
-            if not guess.has_key(bl): guess[bl], cnt[bl] = 0, 0
+            if bl not in guess: guess[bl], cnt[bl] = 0, 0
             guess[bl] += np.where(f, 0, d)
             cnt[bl] += np.logical_not(f)
         del(uv)
-- 
2.43.0


From 7044bdf4cf9ac3746ca51ce0cebff209e87b7b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 113/148] fix: xrfi.py crashed, and combined masks of all times
 instead of one

---
 scripts/xrfi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/xrfi.py b/scripts/xrfi.py
index a99ae48..6f6bc93 100755
--- a/scripts/xrfi.py
+++ b/scripts/xrfi.py
@@ -38,7 +38,7 @@ def share_mask(mask):
     for pol in mask:
       for bl in mask[pol]:
         for t in mask[pol][bl]:
-            m[t] = m.get(t,0) | mask[pol][bl]
+            m[t] = m.get(t,0) | mask[pol][bl][t]
     for pol in mask:
       for bl in mask[pol]:
         for t in mask[pol][bl]:
@@ -99,6 +99,7 @@ for uvfile in args:
             d = np.ma.array([data[pol][bl][t] for t in data_times],
                 mask=[mask[pol][bl][t] for t in data_times])
             hi_thr, lo_thr = a.rfi.gen_rfi_thresh(d, nsig=opts.nsig)
+            if hi_thr is None: hi_thr = np.inf # too little data for a threshold
             m = np.where(np.abs(d) > hi_thr,1,0)
             for i, t in enumerate(data_times): mask[pol][bl][t] |= m[i]
             # If more than ch_thresh of the data in a channel or
@@ -119,8 +120,7 @@ for uvfile in args:
           for bl in data[pol]:
             i, j = a.miriad.bl2ij(bl)
             if i != j: continue
-            data_times = data[pol][bl].keys()
-            data_times.sort()
+            data_times = sorted(data[pol][bl].keys())
             d = np.ma.array([data[pol][bl][t] for t in data_times],
                 mask=[mask[pol][bl][t] for t in data_times])
             bad_ints = a.rfi.flag_by_int(d, nsig=opts.nsig, raw=opts.raw)
-- 
2.43.0


From 597a4e37231f6744046b1560622adb50f834925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 114/148] fix: xrfi_simple.py crashed on dictionary views

---
 scripts/xrfi_simple.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/xrfi_simple.py b/scripts/xrfi_simple.py
index 2e9b348..00d4f8f 100755
--- a/scripts/xrfi_simple.py
+++ b/scripts/xrfi_simple.py
@@ -74,8 +74,7 @@ for uvfile in args:
         for pol in data:
           for bl in data[pol]:
             i, j = a.miriad.bl2ij(bl)
-            data_times = data[pol][bl].keys()
-            data_times.sort()
+            data_times = sorted(data[pol][bl].keys())
             d = np.array([data[pol][bl][t] for t in data_times])
             m = np.array([mask[pol][bl][t] for t in data_times])
             if opts.df != None:
@@ -114,8 +113,8 @@ for uvfile in args:
     if opts.to_npz:
         print('    Writing flags to', opts.to_npz)
         m = {}
-        _m = mask.values()[0].values()[0]
-        times = np.array(_m.keys())
+        _m = list(list(mask.values())[0].values())[0]
+        times = np.array(list(_m.keys()))
         for cnt,t in enumerate(times): m[str(cnt)] = _m[t]
         m['times'] = times
         np.savez(opts.to_npz, **m)
@@ -125,7 +124,7 @@ for uvfile in args:
             uvw, t, (i,j) = preamble
             bl = a.miriad.ij2bl(i,j)
             if opts.combine:
-                try: m = mask.values()[0].values()[0][t]
+                try: m = list(list(mask.values())[0].values())[0][t]
                 except(KeyError): m = np.ones_like(flags) # default to flagging
             else: m = mask[uv['pol']][bl][t]
             return preamble, np.where(m, 0, data), m
-- 
2.43.0


From bff3734a2466023eafbabe50d0e07a49835d400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 115/148] fix: filter_src.py lost the precision of delays and
 applied the passband wrongly

---
 scripts/filter_src.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index 8482a1c..be4ae1d 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -91,12 +91,12 @@ for uvfile in args:
             if not src is None:
                 d = aa.phs2src(d, src, i, j)
             # Put passband into kernel, where it gets divided out of the data
-            if opts.passband: flags *= aa.passband(i,j)
-            gain = np.sqrt(np.average(flags**2))
+            if opts.passband: flags = flags * aa.passband(i,j)
+            gain = np.sqrt(np.average(np.abs(flags)**2))
             ker = np.fft.ifft(flags)
             d = np.where(f, 0, d)
             src_up = True
-            d = np.fft.ifft(d)
+            d = np.fft.ifft(d).astype(np.complex128)
             if not np.all(d == 0):
                 d, info = a.deconv.clean(d, ker, tol=opts.clean)
                 d += info['res'] / gain
-- 
2.43.0


From 9e6a3adbd0f29517a9e1d78c07d9259c8679e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 116/148] fix: srclist.py crashed with --divstr/-c and
 separated the last source wrongly

---
 scripts/srclist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/srclist.py b/scripts/srclist.py
index 304b930..22864dc 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -71,7 +71,7 @@ else:
     aa.set_jultime(opts.juldate)
 
 for c in [cat, xcat, ccat]:
-    for s in c.keys():
+    for s in list(c.keys()):
         try: ephem.FixedBody.compute(c[s], date)
         except(TypeError):
             if opts.juldate is None: del(c[s])
@@ -112,8 +112,8 @@ else:
         prms = opts.prms.split(',')
         for s in srcs:
             p = cat.get_params({s:prms})
-            if p[s].has_key('ra'):  p[s]['ra'] = ephem.hours(p[s]['ra'])
-            if p[s].has_key('dec'): p[s]['dec'] = ephem.degrees(p[s]['dec'])
+            if 'ra' in p[s]:  p[s]['ra'] = ephem.hours(p[s]['ra'])
+            if 'dec' in p[s]: p[s]['dec'] = ephem.degrees(p[s]['dec'])
             a.fit.print_params(p)
     else:
         prms = opts.prms.split(',')
@@ -128,6 +128,6 @@ else:
             for i,prm in enumerate(p[s].keys()):
                 if i<pcnt-1: outstring += prm+"/"
                 else: outstring += prm
-            if scount<snum-1:outstring += "),"
+            if scount<snum:outstring += "),"
             else: outstring += ")"
         print(outstring)
-- 
2.43.0


From 4a5fb4018909ec5763f66e5b54299d00965d15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 117/148] fix: compress_uv.py passed file names to the shell,
 so that it could compress or delete other files

---
 scripts/compress_uv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/compress_uv.py b/scripts/compress_uv.py
index 1328c43..91317c1 100755
--- a/scripts/compress_uv.py
+++ b/scripts/compress_uv.py
@@ -8,7 +8,7 @@ Date: 8/14/07
 
 from __future__ import print_function, division, absolute_import
 
-import sys, os
+import sys, os, subprocess
 from optparse import OptionParser
 
 p = OptionParser()
@@ -24,16 +24,16 @@ opts, args = p.parse_args(sys.argv[1:])
 for i in args:
     print(i)
     if opts.expand:
-        rv = os.system('tar xjf %s' % i)
+        rv = subprocess.call(['tar', 'xjf', i])
         if rv != 0: break
         continue
     cmp_name = i + '.tar.bz2'
     if os.path.exists(cmp_name):
         print(cmp_name, 'exists; skipping...')
         continue
-    rv = os.system('tar jcf %s %s' % (cmp_name, i))
+    rv = subprocess.call(['tar', 'jcf', cmp_name, i])
     # If tar fails, delete malformed tarball and then exit
     if rv != 0:
-        os.system('rm -rf %s' % (cmp_name))
+        subprocess.call(['rm', '-rf', cmp_name])
         break
-    if opts.delete: os.system('rm -rf %s' % (i))
+    if opts.delete: subprocess.call(['rm', '-rf', i])
-- 
2.43.0


From 0b3e8588a4a7d53e5518eceaf744dde854431497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 118/148] fix: mk_img.py crashed on non-integer indices and
 unsorted keys

---
 scripts/mk_img.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 94f0618..d73c174 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -84,7 +84,7 @@ else:
 
 if opts.list_facets:
     cat.compute(aa)
-    srcs = cat.keys(); srcs.sort()
+    srcs = sorted(cat.keys())
     for cnt, src in enumerate(cat.values()):
         cen = ephem.Equatorial(src.ra, src.dec, epoch=aa.epoch)
         cen = ephem.Equatorial(cen, epoch=ephem.J2000)
@@ -153,10 +153,10 @@ def img_it(im):
     #print('Imaging with %d integrations' % n_ints)
     n_ints = 0
     # Form dirty images/beams
-    uvs = a.img.recenter(np.abs(im.uv).astype(np.float64), (DIM/2,DIM/2))
-    bms = a.img.recenter(np.abs(im.bm[0]).astype(np.float64), (DIM/2,DIM/2))
-    dim = im.image((DIM/2, DIM/2))
-    dbm = im.bm_image(term=0, center=(DIM/2,DIM/2))
+    uvs = a.img.recenter(np.abs(im.uv).astype(np.float64), (DIM//2,DIM//2))
+    bms = a.img.recenter(np.abs(im.bm[0]).astype(np.float64), (DIM//2,DIM//2))
+    dim = im.image((DIM//2, DIM//2))
+    dbm = im.bm_image(term=0, center=(DIM//2,DIM//2))
     return uvs,bms, dim,dbm
 
 # Loop through all specified sources, generating images
-- 
2.43.0


From e72428569292a6ab74ef1a729027869b16a65247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 119/148] fix: mk_map.py crashed, and rotated maps from images
 with negative CDELT

---
 scripts/mk_map.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/mk_map.py b/scripts/mk_map.py
index 0151cdf..34ac0f5 100755
--- a/scripts/mk_map.py
+++ b/scripts/mk_map.py
@@ -53,16 +53,17 @@ for i, filename in enumerate(args):
     if prev_dra != kwds['d_ra']:
         prev_dra = kwds['d_ra']
         DIM = img.shape[0]
-        RES = 1. / (kwds['d_ra'] * a.img.deg2rad * DIM)
+        # RA increases to the left, i.e. FITS files have d_ra < 0
+        RES = 1. / (abs(kwds['d_ra']) * a.img.deg2rad * DIM)
         im = a.img.Img(DIM*RES, RES, mf_order=0)
-        tx,ty,tz = im.get_top(center=(DIM/2,DIM/2))
+        tx,ty,tz = im.get_top(center=(DIM//2,DIM//2))
         # Define a weighting for gridding data into the skymap
         map_wgts = np.exp(-(tx**2+ty**2) / np.sin(opts.fwidth*a.img.deg2rad)**2)
         map_wgts.shape = (map_wgts.size,)
         valid = np.logical_not(map_wgts.mask)
         map_wgts = map_wgts.compress(valid)
     # Get coordinates of image pixels in the epoch of the observation
-    ex,ey,ez = im.get_eq(ra, dec, center=(DIM/2,DIM/2))
+    ex,ey,ez = im.get_eq(ra, dec, center=(DIM//2,DIM//2))
     ex = ex.compress(valid); ey = ey.compress(valid); ez = ez.compress(valid)
     img = img.flatten(); img = img.compress(valid)
     # Precess the pixel coordinates to the (J2000) epoch of the map
-- 
2.43.0


From 41451c23372e198c2e24b331e08152509ba12be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 120/148] fix: cl_img.py crashed on non-integer indices

---
 scripts/cl_img.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/scripts/cl_img.py b/scripts/cl_img.py
index 9d65f85..c550de5 100755
--- a/scripts/cl_img.py
+++ b/scripts/cl_img.py
@@ -38,8 +38,7 @@ opts, args = o.parse_args(sys.argv[1:])
 outputs = opts.output.split(',')
 keys = {}
 for arg in args: keys[arg[:-len('.dim.fits')]] = None
-keys = keys.keys()
-keys.sort()
+keys = sorted(keys.keys())
 
 # Define a quick function writing an image to a FITS file
 def to_fits(prefix,ftag,i,kwds):
@@ -82,14 +81,14 @@ for cnt, k in enumerate(keys):
             uvs /= divisor; bms /= divisor
         elif opts.rewgt.startswith('radial'):
             #x,y = np.indices(dim.shape)
-            #x = a.img.recenter(x - DIM/2, (DIM/2,DIM/2))
-            #y = a.img.recenter(y - DIM/2, (DIM/2,DIM/2))
+            #x = a.img.recenter(x - DIM/2, (DIM//2,DIM//2))
+            #y = a.img.recenter(y - DIM/2, (DIM//2,DIM//2))
             #r = np.sqrt(x**2 + y**2)
             uvs *= r; bms *= r
         elif opts.rewgt.startswith('midrange'):
             x,y = np.indices(dim.shape)
-            x = a.img.recenter(x - DIM/2, (DIM/2,DIM/2))
-            y = a.img.recenter(y - DIM/2, (DIM/2,DIM/2))
+            x = a.img.recenter(x - DIM/2, (DIM//2,DIM//2))
+            y = a.img.recenter(y - DIM/2, (DIM//2,DIM//2))
             wgt = x**2 + y**2
             wgt = wgt.astype(np.float32) / (DIM/2)**2
             wgt = wgt * (1-wgt)
@@ -104,7 +103,7 @@ for cnt, k in enumerate(keys):
     dim = np.fft.ifft2(uvs * mask).real
     dbm = np.fft.ifft2(bms * mask).real
 
-    dbm = a.img.recenter(dbm, (DIM/2,DIM/2))
+    dbm = a.img.recenter(dbm, (DIM//2,DIM//2))
     bm_gain = a.img.beam_gain(dbm)
     print('Gain of dirty beam:', bm_gain)
     if opts.deconv == 'mem':
@@ -126,7 +125,7 @@ for cnt, k in enumerate(keys):
     #Fit a 2d Gaussian to the dirty beam and convolve that with the clean components.
     dbm_fit = np.fft.fftshift(dbm)
     DIM = dbm.shape[0]
-    lo,hi = (DIM-30)/2,(DIM+30)/2
+    lo,hi = max((DIM-30)//2,0),(DIM+30)//2
     dbm_fit = dbm_fit[lo:hi,lo:hi]
     if opts.deconv == 'none': # XXX this is a hack
         rim = info['res']
@@ -134,7 +133,7 @@ for cnt, k in enumerate(keys):
     else:
         # This doesn't work for deconv=none
         cbm = a.twodgauss.twodgaussian(a.twodgauss.moments(dbm_fit),shape=dbm.shape)
-        cbm = a.img.recenter(cbm,(np.ceil((DIM+dbm_fit.shape[0])/2),np.ceil((DIM+dbm_fit.shape[0])/2)))
+        cbm = a.img.recenter(cbm,(int(np.ceil((DIM+dbm_fit.shape[0])/2)),int(np.ceil((DIM+dbm_fit.shape[0])/2))))
         cbm /= np.sum(cbm)
 
         cimc = np.fft.fftshift(np.fft.ifft2(np.fft.fft2(cim)*np.fft.fft2(cbm))).real
-- 
2.43.0


From 467e4c0f85dde3ccc3d2f04123feb93412ed56a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 121/148] fix: fitmdl.py crashed on Python 2 idioms

---
 scripts/fitmdl.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index 2b0530c..01d76ea 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -60,12 +60,12 @@ if opts.maxiter < 0: opts.maxiter = np.inf
 prms, prm_dict, shkeys = {}, {}, []
 # Handle shared parameters
 if opts.shprms:
-    shprms = map(a.scripting.parse_prms, opts.shprms.split(','))
+    shprms = list(map(a.scripting.parse_prms, opts.shprms.split(',')))
     for s in shprms:
-        keys = s.keys(); keys.sort()
+        keys = sorted(s.keys())
         k = keys[0]
         # Only enter one instance of shared parameters (indexed under first key)
-        if prms.has_key(k): prms[k].update(s[k])
+        if k in prms: prms[k].update(s[k])
         else: prms.update({k:s[k]})
         # Add an entry to shkeys for propagating variables to other objects
         shkeys.append((keys, s[k].keys()))
@@ -73,7 +73,7 @@ if opts.shprms:
 if opts.prms:
     pd = a.scripting.parse_prms(opts.prms)
     for k in pd:
-        if prms.has_key(k): prms[k].update(pd[k])
+        if k in prms: prms[k].update(pd[k])
         else: prms[k] = pd[k]
 for prm in prms: prm_dict[prm] = prms[prm].keys()
 start_prms = aa.get_params(prm_dict)
@@ -100,7 +100,7 @@ def fit_func(prms, filelist, decimate, decphs):
     for (skey,sprm) in shkeys:
         k = skey[0]
         for k2 in skey[1:]:
-            if not prms.has_key(k2): prms[k2] = {}
+            if k2 not in prms: prms[k2] = {}
             for sp in sprm:
                 prms[k2][sp] = prms[k][sp]
     if not opts.quiet:
@@ -121,8 +121,8 @@ def fit_func(prms, filelist, decimate, decphs):
             uv.select('decimate', decimate, decphs)
             for (uvw,t,(i,j)),d,f in uv.all(raw=True):
                 bl = a.miriad.ij2bl(i,j)
-                if not dbuf.has_key(t): dbuf[t] = {}
-                if not dbuf[t].has_key(bl): dbuf[t][bl] = {}
+                if t not in dbuf: dbuf[t] = {}
+                if bl not in dbuf[t]: dbuf[t][bl] = {}
                 if not opts.sim_autos and i == j: continue
                 if uvlen(aa.get_baseline(i,j))*0.15 < opts.minuv: continue
                 d = d.take(chans)
@@ -176,7 +176,9 @@ def fit_func(prms, filelist, decimate, decphs):
 
 # Call the optimizer
 if opts.daemon:
-    import SocketServer, struct
+    import struct
+    try: import SocketServer
+    except(ImportError): import socketserver as SocketServer
     class TCPServer(SocketServer.TCPServer):
         allow_reuse_address = True
     class FitHandler(SocketServer.BaseRequestHandler):
-- 
2.43.0


From a2a35808255f2a05eeeceebf6d4b39069523367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:53 +0000
Subject: [PATCH 122/148] fix: modmap.py precessed sources twice when the
 output epoch is not J2000

---
 scripts/modmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index 1591691..1f3b618 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -84,13 +84,13 @@ if not opts.cal is None:
 else:
     cat = a.src.get_catalog(srclist, cutoff, catalogs)
 
-m = a.coord.convert_m('eq', opts.osys, oepoch=opts.oepoch)
+m = a.coord.convert_m('eq', opts.osys, iepoch=opts.oepoch, oepoch=opts.oepoch)
 ths,phis = h.px2crd(np.arange(h.npix()), ncrd=2)
 ras,decs = phis, np.pi/2 - ths
 afreq = np.array([opts.freq])
 for srcname in cat:
     src = cat[srcname]
-    eq = e.Equatorial(src._ra, src._dec, epoch=e.J2000)
+    eq = e.Equatorial(src._ra, src._dec, epoch=src._epoch)
     eq = e.Equatorial(eq, epoch=opts.oepoch)
     ra,dec = eq.get()
     # Account for size of source
-- 
2.43.0


From 19f85b6d3bc4dce1d37a08668092ff3ffc62d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 123/148] fix: modmap.py put extended sources in the wrong
 place of maps that are not equatorial, and lost what crosses 0h

---
 scripts/modmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index 1f3b618..37c50c2 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -85,8 +85,9 @@ else:
     cat = a.src.get_catalog(srclist, cutoff, catalogs)
 
 m = a.coord.convert_m('eq', opts.osys, iepoch=opts.oepoch, oepoch=opts.oepoch)
-ths,phis = h.px2crd(np.arange(h.npix()), ncrd=2)
-ras,decs = phis, np.pi/2 - ths
+# Equatorial coordinates of the pixels
+eqs = np.dot(m.T, h.px2crd(np.arange(h.npix()), ncrd=3))
+ras,decs = a.coord.eq2radec(eqs)
 afreq = np.array([opts.freq])
 for srcname in cat:
     src = cat[srcname]
@@ -95,7 +96,7 @@ for srcname in cat:
     ra,dec = eq.get()
     # Account for size of source
     a1,a2,th = src.srcshape
-    dras,ddecs = ras - ra, decs - dec
+    dras,ddecs = (ras - ra + np.pi) % (2*np.pi) - np.pi, decs - dec
     print('--------------------------------------------------')
     src.update_jys(afreq)
     strength = src.get_jys()[0] * opts.sscale
-- 
2.43.0


From f3b4d00fba8b5fe1681ee4821170faf037521d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 124/148] fix: modmap.py crashed adding sources to a map whose
 number of spectral indices is not the one asked for

---
 scripts/modmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index 37c50c2..8cce2c2 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -114,7 +114,7 @@ for srcname in cat:
         px = h.crd2px(np.array([x]),np.array([y]),np.array([z]))
     str_per_px = strength / len(px)
     print('Putting %f in each of %d pixels' % (str_per_px, len(px)))
-    if opts.nindices == 0:
+    if len(h.ind) == 0:
         for p in px:
             curflux = h[p]
             h.put(p,1,str_per_px+curflux)
-- 
2.43.0


From a4a5e6f7fb146ec8077d0a176d1f7763c1c98ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 125/148] fix: srclist.py and fitmdl.py printed parameters run
 together with their values

---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 0a3ec80..3186351 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -62,7 +62,7 @@ def print_params(prms, indent='', grad=None):
             if grad is None: print_params(v, indent + '  ')
             else: print_params(v, indent + '  ', grad[k])
         else:
-            print(indent, k, end='')
+            print(indent, k, end=' ')
             if grad is None:
                 if not type(v) is list:
                     try: v = [list(v)]
-- 
2.43.0


From 23771edaf0f945d8a1f06f65a488ec9a719cb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 126/148] fix: mk_img.py lost the image when the last data it
 read filled the buffer

---
 scripts/mk_img.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index d73c174..7dcc6b8 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -140,7 +140,7 @@ def to_fits(ftag,i,src,cnt,history=''):
 def grid_it(im,us,vs,ws,ds,wgts):
     #print('Gridding %d integrations' % n_ints)
     sys.stdout.write('|'); sys.stdout.flush()
-    if len(ds) == 0: raise ValueError('No data to use.')
+    if len(ds) == 0: return # everything has been gridded already
     ds,wgts = np.concatenate(ds), np.concatenate(wgts).flatten()
     us,vs,ws = np.concatenate(us), np.concatenate(vs), np.concatenate(ws)
     # Grid data into UV matrix
@@ -151,6 +151,7 @@ def grid_it(im,us,vs,ws,ds,wgts):
 def img_it(im):
     global n_ints
     #print('Imaging with %d integrations' % n_ints)
+    if n_ints == 0: raise ValueError('No data to use.')
     n_ints = 0
     # Form dirty images/beams
     uvs = a.img.recenter(np.abs(im.uv).astype(np.float64), (DIM//2,DIM//2))
-- 
2.43.0


From fadb65a74b38e7a6fd8e1d3fa10240f762c56e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 127/148] fix: the first snapshot of mk_img.py had one
 integration less than asked for

---
 scripts/mk_img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 7dcc6b8..67ff2bf 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -184,7 +184,7 @@ for srccnt, s in enumerate(cat.values()):
           if curtime != t:
               # Make snapshot images (if specified)
               if opts.snap > 0:
-                  snapcnt = (snapcnt + 1) % opts.snap
+                  if curtime != None: snapcnt = (snapcnt + 1) % opts.snap
                   if snapcnt == 0:
                       if curtime != None:
                           try:
-- 
2.43.0


From 97dd6f35a1326317c05edd64974154671d47af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 128/148] fix: snapshots of the zenith by mk_img.py were
 centered on the zenith of the integration before

---
 scripts/mk_img.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 67ff2bf..eedc589 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -202,6 +202,7 @@ for srccnt, s in enumerate(cat.values()):
                       else:
                           im = a.img.ImgW(opts.size, opts.res, mf_order=0, wres=opts.wres)
                       if opts.src == 'zen':
+                          aa.set_jultime(t)
                           s = a.phs.RadioFixedBody(aa.sidereal_time(),
                               aa.lat, name='zen')
                           src = a.fit.SrcCatalog([s])
-- 
2.43.0


From b950d61ae218d5a8606aa0fbd02264c2701ccc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 129/148] fix: cl_img.py --pos_def allowed negative components,
 and its absence forbade them

---
 scripts/cl_img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cl_img.py b/scripts/cl_img.py
index c550de5..d086465 100755
--- a/scripts/cl_img.py
+++ b/scripts/cl_img.py
@@ -115,7 +115,7 @@ for cnt, k in enumerate(keys):
     elif opts.deconv == 'cln':
         cim,info = a.deconv.clean(dim, dbm, gain=opts.gain,
             maxiter=opts.maxiter, stop_if_div=not opts.div,
-            verbose=True, tol=opts.tol,pos_def=not opts.pos_def)
+            verbose=True, tol=opts.tol,pos_def=bool(opts.pos_def))
     elif opts.deconv == 'ann':
         cim,info = a.deconv.anneal(dim, dbm, maxiter=opts.maxiter,
             cooling=lambda i,x: opts.tol*(1-np.cos(i/50.))*(x**2), verbose=True)
-- 
2.43.0


From a329ab2a9ca599e05f10dc9c457a0047ee367dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 130/148] fix: fitmdl.py --daemon 0 did not start a daemon

---
 scripts/fitmdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index 01d76ea..9167aef 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -161,7 +161,7 @@ def fit_func(prms, filelist, decimate, decphs):
                 difsq = np.where(f, 0, difsq)
                 score += difsq.sum()
                 nsamples += nsamp
-    if opts.daemon: return score, nsamples
+    if opts.daemon is not None: return score, nsamples
     if nsamples == 0:
         first_fit = 0.
         return 0.
@@ -175,7 +175,7 @@ def fit_func(prms, filelist, decimate, decphs):
     return score / first_fit
 
 # Call the optimizer
-if opts.daemon:
+if opts.daemon is not None:
     import struct
     try: import SocketServer
     except(ImportError): import socketserver as SocketServer
-- 
2.43.0


From c2d2cb8f2f3b8dbd27257e8070370b67c7998964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 131/148] fix: fitmdl.py in master mode crashed when there is
 no data to fit

---
 scripts/fitmdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index 9167aef..1178708 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -220,10 +220,10 @@ elif opts.master:
             scr, nsp = struct.unpack('<dd', data)
             score += scr; nsamples += nsp
             if not opts.quiet: print(score, nsamples)
-        score = np.sqrt(score / nsamples)
         if nsamples == 0:
             first_fit = 0.
             return 0.
+        score = np.sqrt(score / nsamples)
         if first_fit is None: first_fit = score
         if not opts.quiet:
             print()
-- 
2.43.0


From b611b8345c5362494a063b8ee3c7c69401b883cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 132/148] fix: mk_img.py took the coordinates of the zenith of
 date for those of J2000

---
 scripts/mk_img.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index eedc589..3fbb43a 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -71,7 +71,7 @@ outputs = opts.output.split(',')
 # Get all sources that will be used as phase centers.  If no sources are
 # specified, define phase centers for faceting a sphere.
 if opts.src == 'zen':
-    srcs = [a.phs.RadioFixedBody(aa.sidereal_time(), aa.lat, name='zen')]
+    srcs = [a.phs.RadioFixedBody(aa.sidereal_time(), aa.lat, name='zen', epoch=aa.epoch)]
     cat = a.phs.SrcCatalog(srcs)
 elif not opts.src is None:
     srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
@@ -204,7 +204,7 @@ for srccnt, s in enumerate(cat.values()):
                       if opts.src == 'zen':
                           aa.set_jultime(t)
                           s = a.phs.RadioFixedBody(aa.sidereal_time(),
-                              aa.lat, name='zen')
+                              aa.lat, name='zen', epoch=aa.epoch)
                           src = a.fit.SrcCatalog([s])
               curtime = t
               aa.set_jultime(t)
-- 
2.43.0


From 9f37bfb3dcf57d01204ce3fd3d68fc144391db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 133/148] fix: Img.get_uv gave the last positive cell of an
 odd-sized matrix a negative coordinate

---
 aipy/img.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 6563216..12b1034 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -112,8 +112,8 @@ class Img:
     def get_uv(self):
         """Return the u,v indices of the pixels in the uv matrix."""
         u,v = np.indices(self.shape)
-        u = np.where(u < self.shape[0]//2, u, u - self.shape[0])
-        v = np.where(v < self.shape[1]//2, v, v - self.shape[1])
+        u = np.where(u < (self.shape[0]+1)//2, u, u - self.shape[0])
+        v = np.where(v < (self.shape[1]+1)//2, v, v - self.shape[1])
         return u*self.res, v*self.res
     def put(self, uvw, data, wgts=None, apply=True):
         """Grid uv data (w is ignored) onto a UV plane.  Data should already
-- 
2.43.0


From 75fb4c009e8bcfcd7504d97007af638b9d4f8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 134/148] fix: img.to_fits put the reference pixel one short of
 the image center (and of a frequency axis in its middle, though freq is that
 of the first entry)

---
 aipy/img.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 12b1034..1dc31d9 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -372,9 +372,10 @@ def to_fits(filename, data, clobber=False,
         phdu.header['CTYPE%d' % (i+1)] = (ax.upper())
         if ax.lower().startswith('ra') or ax.lower().startswith('dec')\
         or ax.lower().startswith('glon') or ax.lower().startswith('glat'):
-            phdu.header['CRPIX%d' % (i+1)] = (np.ceil(phdu.data.shape[-(i+1)]/2.))
+            # FITS counts pixels from 1
+            phdu.header['CRPIX%d' % (i+1)] = (phdu.data.shape[-(i+1)]//2 + 1.)
         else:
-            phdu.header['CRPIX%d' % (i+1)] = (np.ceil(phdu.data.shape[-(i+1)]/2.))
+            phdu.header['CRPIX%d' % (i+1)] = (1.)
         phdu.header['CRVAL%d' % (i+1)] = (val)
         if (ax.lower().startswith('ra') or ax.lower().startswith('glon')) and delta>0:
             phdu.header['CDELT%d' % (i+1)]= (delta*-1)
-- 
2.43.0


From 66ad333b8b09a0d0a36346c5c25db9252c4af94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 135/148] fix: mk_img.py centered images of an odd number of
 pixels on another pixel than cl_img.py takes for their center

---
 scripts/mk_img.py | 12 +++++++-----
 scripts/mk_map.py |  5 +++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 3fbb43a..92fdeea 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -99,7 +99,9 @@ if opts.no_w:
 else:
     im = a.img.ImgW(opts.size, opts.res, mf_order=0, wres=opts.wres)
 L,M = im.get_LM()
-DIM = int(opts.size/opts.res)
+DIM = im.shape[0]
+# Where recenter() wants the center, to put it in pixel DIM//2
+CEN = (DIM - DIM//2, DIM - DIM//2)
 n_ints = 0
 
 #print('Calculating image of primary beam')
@@ -154,10 +156,10 @@ def img_it(im):
     if n_ints == 0: raise ValueError('No data to use.')
     n_ints = 0
     # Form dirty images/beams
-    uvs = a.img.recenter(np.abs(im.uv).astype(np.float64), (DIM//2,DIM//2))
-    bms = a.img.recenter(np.abs(im.bm[0]).astype(np.float64), (DIM//2,DIM//2))
-    dim = im.image((DIM//2, DIM//2))
-    dbm = im.bm_image(term=0, center=(DIM//2,DIM//2))
+    uvs = a.img.recenter(np.abs(im.uv).astype(np.float64), CEN)
+    bms = a.img.recenter(np.abs(im.bm[0]).astype(np.float64), CEN)
+    dim = im.image(CEN)
+    dbm = im.bm_image(term=0, center=CEN)
     return uvs,bms, dim,dbm
 
 # Loop through all specified sources, generating images
diff --git a/scripts/mk_map.py b/scripts/mk_map.py
index 34ac0f5..fdba77c 100755
--- a/scripts/mk_map.py
+++ b/scripts/mk_map.py
@@ -56,14 +56,15 @@ for i, filename in enumerate(args):
         # RA increases to the left, i.e. FITS files have d_ra < 0
         RES = 1. / (abs(kwds['d_ra']) * a.img.deg2rad * DIM)
         im = a.img.Img(DIM*RES, RES, mf_order=0)
-        tx,ty,tz = im.get_top(center=(DIM//2,DIM//2))
+        CEN = (DIM - DIM//2, DIM - DIM//2)
+        tx,ty,tz = im.get_top(center=CEN)
         # Define a weighting for gridding data into the skymap
         map_wgts = np.exp(-(tx**2+ty**2) / np.sin(opts.fwidth*a.img.deg2rad)**2)
         map_wgts.shape = (map_wgts.size,)
         valid = np.logical_not(map_wgts.mask)
         map_wgts = map_wgts.compress(valid)
     # Get coordinates of image pixels in the epoch of the observation
-    ex,ey,ez = im.get_eq(ra, dec, center=(DIM//2,DIM//2))
+    ex,ey,ez = im.get_eq(ra, dec, center=CEN)
     ex = ex.compress(valid); ey = ey.compress(valid); ez = ez.compress(valid)
     img = img.flatten(); img = img.compress(valid)
     # Precess the pixel coordinates to the (J2000) epoch of the map
-- 
2.43.0


From dfa69f34a861414c1c9e9575013240c309c9696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 136/148] fix: mk_map.py took an image with the pixel size, but
 not the number of pixels, of the previous one to have its coordinates

---
 scripts/mk_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/mk_map.py b/scripts/mk_map.py
index fdba77c..90b3cd2 100755
--- a/scripts/mk_map.py
+++ b/scripts/mk_map.py
@@ -29,7 +29,7 @@ if os.path.exists(opts.map): skymap = a.map.Map(fromfits=opts.map)
 else: skymap = a.map.Map(nside=opts.nside)
 skymap.set_interpol(opts.interpolate)
 
-prev_dra = None
+prev_dra,prev_shape = None,None
 for i, filename in enumerate(args):
     img, kwds = a.img.from_fits(filename)
     img = img.squeeze()
@@ -50,8 +50,8 @@ for i, filename in enumerate(args):
     print(kwds)
     print('Pointing (ra, dec):', ra, dec)
     print('Image Power:', np.abs(img).sum())
-    if prev_dra != kwds['d_ra']:
-        prev_dra = kwds['d_ra']
+    if prev_dra != kwds['d_ra'] or prev_shape != img.shape:
+        prev_dra,prev_shape = kwds['d_ra'],img.shape
         DIM = img.shape[0]
         # RA increases to the left, i.e. FITS files have d_ra < 0
         RES = 1. / (abs(kwds['d_ra']) * a.img.deg2rad * DIM)
-- 
2.43.0


From b097c74c93c55ba6bf7d52bc5cccbc44853318cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 137/148] fix: cl_img.py displaced the restored components by
 where sidelobes pulled the moments of the dirty beam

---
 scripts/cl_img.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/cl_img.py b/scripts/cl_img.py
index d086465..d8d0407 100755
--- a/scripts/cl_img.py
+++ b/scripts/cl_img.py
@@ -132,11 +132,14 @@ for cnt, k in enumerate(keys):
         bim = rim / bm_gain + cim
     else:
         # This doesn't work for deconv=none
-        cbm = a.twodgauss.twodgaussian(a.twodgauss.moments(dbm_fit),shape=dbm.shape)
-        cbm = a.img.recenter(cbm,(int(np.ceil((DIM+dbm_fit.shape[0])/2)),int(np.ceil((DIM+dbm_fit.shape[0])/2))))
+        prms = a.twodgauss.moments(dbm_fit)
+        # Sidelobes can pull the moments anywhere, but the beam is centered
+        prms[2:4] = [DIM//2, DIM//2]
+        cbm = a.twodgauss.twodgaussian(prms,shape=dbm.shape)
+        cbm = a.img.recenter(cbm,(DIM//2,DIM//2))
         cbm /= np.sum(cbm)
 
-        cimc = np.fft.fftshift(np.fft.ifft2(np.fft.fft2(cim)*np.fft.fft2(cbm))).real
+        cimc = np.fft.ifft2(np.fft.fft2(cim)*np.fft.fft2(cbm)).real
 
         rim = info['res']
 
-- 
2.43.0


From d6cf46afdfb13612a2c2983a18137d99918872bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:27 +0000
Subject: [PATCH 138/148] fix: xrfi.py takes --ch_thresh as a fraction of a
 channel's data, as it says

---
 scripts/xrfi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/xrfi.py b/scripts/xrfi.py
index 6f6bc93..2af9664 100755
--- a/scripts/xrfi.py
+++ b/scripts/xrfi.py
@@ -105,7 +105,7 @@ for uvfile in args:
             # If more than ch_thresh of the data in a channel or
             # integration is flagged, flag the whole thing
             ch_cnt = np.array([mask[pol][bl][t] for t in data_times]).sum(axis=0)
-            ch_msk = np.where(ch_cnt > ch_cnt.max()*opts.ch_thresh,1,0)
+            ch_msk = np.where(ch_cnt > len(data_times)*opts.ch_thresh,1,0)
             for t in mask[pol][bl]:
                 if mask[pol][bl][t].sum() > mask[pol][bl][t].size \
                         * opts.int_thresh:
-- 
2.43.0


From dbc364b25d57636688d90ec10694142dec78f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 139/148] fix: img.from_fits_to_fits put the reference pixel
 one before the center of the image

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index 1dc31d9..c2bf2a0 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -478,7 +478,7 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         else: val,delta = None,None
         phdu.header['CTYPE%d' % (i+1)] = (ax.upper())
         if ax.lower().startswith('ra') or ax.lower().startswith('dec'):
-            phdu.header['CRPIX%d' % (i+1)] = (round(data.shape[-(i+1)]/2.))
+            phdu.header['CRPIX%d' % (i+1)] = (data.shape[-(i+1)]//2 + 1.)
         else:
             phdu.header['CRPIX%d' % (i+1)] = (1)
         print(ax,round(data.shape[-(i+1)]/2.))
-- 
2.43.0


From 010841e0da64b5790a9ee372a4b8e6d935b57038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 140/148] fix: fit.print_params raised TypeError when given a
 gradient

---
 aipy/fit.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 3186351..e49165a 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -73,12 +73,10 @@ def print_params(prms, indent='', grad=None):
                     for i in v: print(indent, ' ', i)
             else:
                 print()
-                print(indent, v, '\t<', grad[k], '>')
-                if not type(v) is list:
-                    try: v = [list(v)]
-                    except(TypeError): v = [v]
-                for i in len(v):
-                    print(indent, ' ', v[i], '\t<', grad[k][i], '>')
+                g = grad[k]
+                if not type(v) is list: v, g = [v], [g]
+                for i in range(len(v)):
+                    print(indent, ' ', v[i], '\t<', g[i], '>')
 
 
 #  ____           _ _       _____ _              _ ____            _
-- 
2.43.0


From fcb9d9b8032cd12eb710ece5741859281f8edccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 141/148] fix: clearing the selection of a dataset does away
 with the variables it needed

---
 aipy/_miriad/mir/uvio.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index c043332..76e93a5 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2364,6 +2364,14 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
   if(!strcmp(object,"clear")){
     uv_free_select(uv->select);
     uv->select = NULL;
+
+/* The variables which only selections needed are not needed any more. */
+
+    uv->need_point = uv->need_on = uv->need_pol = uv->need_src = FALSE;
+    uv->need_bin = uv->need_win = uv->need_uvw = uv->need_lst = FALSE;
+    uv->need_obsra = uv->need_elev = uv->need_ra = uv->need_dec = FALSE;
+    uv->need_dra = uv->need_ddec = uv->need_dazim = uv->need_delev = FALSE;
+    uv->need_skyfreq = (uv->flags & UVF_WAVELENGTH) != 0;
     return;
   }
 
-- 
2.43.0


From 208c2b5f3e0016580afed0ef7fc529d32ba6dbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 142/148] fix: a refused selection leaves the selection of a
 dataset as it was

---
 aipy/_miriad/mir/uvio.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 76e93a5..f7213b5 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -2375,10 +2375,15 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
     return;
   }
 
-/* Ignore "and" and "or" objects if this is the first call. */
+/* Ignore "and" and "or" objects if this is the first call (apart from refused
+   ones, which can leave an empty structure). */
 
   sel = uv->select;
-  if(sel == NULL && (!strcmp(object,"or") || !strcmp(object,"and"))) return;
+  if(!strcmp(object,"or") || !strcmp(object,"and")){
+    if(sel == NULL) return;
+    if(sel->fwd == NULL && sel->noper == 0 && !sel->amp.select &&
+       !sel->selants && !sel->win.select) return;
+  }
 
 /* Either move to the last "SELECT" structure, or create the new structure. */
 
@@ -2569,14 +2574,14 @@ void uvselect_c(int tno,Const char *object,double p1,double p2,int datasel)
 /* Antennae and baseline selection. */
 
   } else if(!strcmp(object,"antennae")){
-    if(!sel->selants){
-      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
-      sel->selants = TRUE;
-    }
     i1 = max(p1, p2) + 0.5;
     i2 = min(p1, p2) + 0.5;
     if(i1 < 0 || i1 > MAXANT) ERROR('f',(message,"bad antennae %d",i1));
     if(i2 < 0 || i2 > MAXANT) ERROR('f',(message,"bad antennae %d",i2));
+    if(!sel->selants){
+      for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = !discard;
+      sel->selants = TRUE;
+    }
     if(i1 == 0){
       for(i=0; i < MAXANT*(MAXANT+1)/2; i++)sel->ants[i] = discard;
     } else if(i2 == 0){
-- 
2.43.0


From df94fe265a34ac7a51d9ac888d06ecb3d0a264e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:00 +0000
Subject: [PATCH 143/148] fix: plot_uv.py failed on any data under Python 3,
 and misplaced its delay and delay-rate axes

dict.has_key, sort(cmp=), lists out of map() and raw_input are gone; delays of an
odd number of channels were drawn half a bin off, two delay rates upside down.
---
 scripts/plot_uv.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index badd14e..2103a2e 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -59,7 +59,7 @@ o.add_option('--window', dest='window', default='blackman-harris',
 def convert_arg_range(arg):
     """Split apart command-line lists/ranges into a list of numbers."""
     arg = arg.split(',')
-    return [map(float, option.split('_')) for option in arg]
+    return [list(map(float, option.split('_'))) for option in arg]
 
 def gen_times(timeopt, uv, coords, decimate):
     if timeopt == 'all':
@@ -100,8 +100,8 @@ opts, args = o.parse_args(sys.argv[1:])
 
 # Parse command-line options
 cmap = p.get_cmap(opts.cmap)
-if not opts.xlim == None: opts.xlim = map(float, opts.xlim.split('_'))
-if not opts.ylim == None: opts.ylim = map(float, opts.ylim.split('_'))
+if not opts.xlim == None: opts.xlim = list(map(float, opts.xlim.split('_')))
+if not opts.ylim == None: opts.ylim = list(map(float, opts.ylim.split('_')))
 uv = a.miriad.UV(args[0])
 a.scripting.uv_selector(uv, opts.ant, opts.pol)
 chans = a.scripting.parse_chans(opts.chan, uv['nchan'])
@@ -120,7 +120,7 @@ time_sel = gen_times(opts.time, uv, opts.time_axis, opts.decimate)
 inttime = uv['inttime'] * opts.decimate
 if not opts.src is None:
     srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
-    src = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values()[0]
+    src = list(a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values())[0]
 del(uv)
 
 # Loop through UV files collecting relevant data
@@ -149,7 +149,7 @@ for uvfile in args:
         if len(times) == 0 or times[-1] != t:
             times.append(t)
             # Implement time selection
-            use_this_time = time_sel(t, (len(times)-1) / opts.decimate)
+            use_this_time = time_sel(t, (len(times)-1) // opts.decimate)
             if use_this_time:
                 if aa == None: lst = uv['lst']
                 else:
@@ -188,17 +188,14 @@ for uvfile in args:
             d = np.fft.fftshift(d, axes=0)
         elif opts.unmask: d = d.data
         d.shape = (1,) + d.shape
-        if not plot_x.has_key(bl): plot_x[bl] = []
+        if not bl in plot_x: plot_x[bl] = []
         plot_x[bl].append(d)
     del(uv)
 
-bls = plot_x.keys()
-def sort_func(a, b):
-    ai,aj,pa = map(int, a.split(','))
-    bi,bj,pb = map(int, b.split(','))
-    if bi > ai or (bi == ai and bj > aj) or (bi == ai and bj == aj and pb < pa): return -1
-    return 1
-bls.sort(cmp=sort_func)
+def sort_key(bl):
+    i,j,pol = map(int, bl.split(','))
+    return i, j, -pol
+bls = sorted(plot_x.keys(), key=sort_key)
 if len(bls) == 0:
     print('No data to plot.')
     sys.exit(0)
@@ -241,13 +238,12 @@ for cnt, bl in enumerate(bls):
         if opts.fringe:
             if opts.time_axis == 'index':
                 drates = np.fft.fftfreq(len(plot_t['cnt']), 1./len(plot_t['cnt']))
-                step = drates[1] - drates[0]
                 ylabel = 'Delay-Rate (bins)'
             else:
                 drates = np.fft.fftfreq(len(plot_t['cnt']), inttime) * 1e3 # mHz
-                step = drates[1] - drates[0]
                 ylabel = 'Delay-Rate (milliHz)'
             drates = np.fft.fftshift(drates)
+            step = drates[1] - drates[0]
             t1,t2 = drates[0]-0.5*step,drates[-1]+0.5*step
         else:
             if opts.time_axis == 'index':
@@ -265,7 +261,7 @@ for cnt, bl in enumerate(bls):
         if opts.delay:
             if opts.chan_axis == 'index':
                 step = 1
-                c1,c2 = len(chans)/2 - len(chans)-0.5*step, len(chans)/2-0.5*step
+                c1,c2 = -(len(chans)//2)-0.5*step, len(chans)-len(chans)//2-0.5*step
                 xlabel = 'Delay (bins)'
             else:
                 step = delays[1] - delays[0]
@@ -296,7 +292,7 @@ for cnt, bl in enumerate(bls):
     elif is_chan_range and not is_time_range:
         if opts.delay:
             if opts.chan_axis == 'index':
-                plot_chans = range(len(chans)/2 - len(chans), len(chans)/2)
+                plot_chans = range(-(len(chans)//2), len(chans)-len(chans)//2)
                 xlabel = 'Delay (bins)'
             else:
                 plot_chans = delays
@@ -377,7 +373,7 @@ else:
     def click(event):
         print([event.key])
         if event.key == 'm':
-            mode = raw_input('Enter new mode: ')
+            mode = input('Enter new mode: ')
             for k in plots:
                 try:
                     d = data_mode(plt_data[k], mode)
@@ -386,10 +382,10 @@ else:
                     print('Unrecognized plot mode')
             p.draw()
         elif event.key == 'd':
-            max = raw_input('Enter new max: ')
+            max = input('Enter new max: ')
             try: max = float(max)
             except(ValueError): max = None
-            drng = raw_input('Enter new drng: ')
+            drng = input('Enter new drng: ')
             try: drng = float(drng)
             except(ValueError): drng = None
             for k in plots:
-- 
2.43.0


From 66613c5b44e0e1cd7e8e69b730d48ed46eb7d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:00 +0000
Subject: [PATCH 144/148] fix: plot_uv.py -u drew flagged data without phasing
 them to the source

---
 scripts/plot_uv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index 2103a2e..ac2373a 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -160,6 +160,8 @@ for uvfile in args:
                 plot_t['cnt'].append(len(times)-1)
         if not use_this_time: continue
         d = d.take(chans)
+        # Unmask now: phasing leaves masked data alone
+        if opts.unmask: d = np.ma.array(d.data)
         if opts.ant.find('%d_%d' % (j,i)) != -1: d = d.conj() # obey antenna ordering, if possible
         #apply cal phases
         if not opts.cal is None:
-- 
2.43.0


From 409c3163ddc4d4aff2b72db141edaed75ab5c432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 145/148] fix: plot_map.py could not label a single source

---
 scripts/plot_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index 16877ab..3c4b007 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -172,7 +172,7 @@ if not opts.src is None:
     scrds = [ephem.Equatorial(s.ra,s.dec,epoch=o.epoch) for s in cat.values()]
     afreqs = np.array([.150])
     cat.update_jys(afreqs)
-    sflxs = cat.get_jys().squeeze()
+    sflxs = cat.get_jys().flatten()
     snams = cat.keys()
     if opts.osys == 'ga':
         scrds = [ephem.Galactic(s, epoch=opts.oepoch) for s in scrds]
-- 
2.43.0


From 400ac337e28993e549fddc28a9b6e8c08bc312fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 146/148] fix: plot_map.py without basemap drew the south pole
 in place of the north pole

---
 scripts/plot_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index 3c4b007..44dac52 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -24,13 +24,13 @@ class Basemap:
             lon = lon.astype(np.float64) * 90 - self.lon_0
             lon = self.wrap(lon, -180, 180)
             lat = lat.astype(np.float64) * 90 - self.lat_0
-            lat = self.wrap(lat, -90, 90)
+            lat = np.clip(lat, -90, 90)
             return lon,lat
         else:
             x = (lon + self.lon_0) / 90.
             x = self.wrap(x, -2, 2)
             y = (lat + self.lat_0) / 90.
-            y = self.wrap(y, -1, 1)
+            y = np.clip(y, -1, 1)
             return x,y
     def wrap(self, data, lo, hi):
         data = np.where(data >= hi, lo + (data - hi), data)
-- 
2.43.0


From 44bdad0b113a9177f4e55a4544c47f706940c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:24 +0000
Subject: [PATCH 147/148] fix: plot_map.py mirrored the labels of sources in
 galactic and ecliptic maps

---
 scripts/plot_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index 44dac52..eff4c7f 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -180,7 +180,7 @@ if not opts.src is None:
         scrds = [ephem.Ecliptic(s, epoch=opts.oepoch) for s in scrds]
     slats = np.array([float(s.get()[1]) for s in scrds]) * a.img.rad2deg
     slons = np.array([float(s.get()[0]) for s in scrds]) * a.img.rad2deg
-    if opts.osys == 'eq': slons = 360 - slons
+    slons = 360 - slons # longitudes increase to the left, as in the map
     slons = np.where(slons < -180, slons + 360, slons)
     slons = np.where(slons >= 180, slons - 360, slons)
 
-- 
2.43.0


From eb6672baff0af1371dec81368594297d0c62aa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:43 +0000
Subject: [PATCH 148/148] fix: rewinding a data set open for writing destroyed
 its data, it is now refused

---
 aipy/_miriad/mir/uvio.c      | 2 ++
 aipy/_miriad/miriad_wrap.cpp | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index f7213b5..953fb0b 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1354,6 +1354,8 @@ void uvrewind_c(int tno)
   int i;
 
   uv = uvs[tno];
+  if(uv->flags & (UVF_NEW|UVF_APPEND))
+    BUG('f',"Attempt to rewind a data set open for writing, in UVREWIND");
 
   uv->callno = uv->mark = 0;
   for(i=0, v = uv->variable; i < uv->nvar; i++, v++) 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 9aa306a..e2da290 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -99,7 +99,12 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
 // Thin wrapper over uvrewind_c
 PyObject * UVObject_rewind(UVObject *self) {
     CHK_OPEN(self);
-    uvrewind_c(self->tno);
+    try {
+        uvrewind_c(self->tno);
+    } catch (MiriadError &e) {
+        PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+        return NULL;
+    }
     self->intcnt = -1;
     self->curtime = -1;
     Py_INCREF(Py_None);
-- 
2.43.0

