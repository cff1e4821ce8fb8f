From 0e63079802b4742737e58ffd134bcc8002ffe7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 01/39] fix: bounds check negative and wrapping offsets/sizes
 and bad indexes of tag reads and writes

---
 src/server/message.c |  6 +++++-
 src/server/tagbase.c | 25 +++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..66eaa70 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -542,7 +542,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size < 0 || size > MSG_DATA_SIZE) {
+        result = ERR_2BIG; /* It would never fit in the reply */
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..3c84d26 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -128,6 +128,15 @@ tag_get_size(tag_index idx)
         return type_size(_db[idx].type)  * _db[idx].count;
 }
 
+/* Returns nonzero if the block of data does not lie completely within the tag */
+static int
+_out_of_bounds(tag_index idx, int offset, int size)
+{
+    int tag_size = tag_get_size(idx);
+
+    return offset < 0 || size < 0 || size > tag_size || offset > tag_size - size;
+}
+
 /* Determine whether or not the tag name is okay */
 static int
 _validate_name(char *name)
@@ -703,23 +712,27 @@ get_tagindex(void) {
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
@@ -753,7 +766,7 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(_out_of_bounds(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -799,7 +812,7 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(_out_of_bounds(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -828,15 +841,15 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
+    if(_out_of_bounds(idx, offset, size)) {
         return ERR_2BIG;
     }
     if(_db[idx].data == NULL) {
-- 
2.43.0


From db46d739b1d2521ce59a36d2bf3dceb919097ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 02/39] fix: honour offset and size when reading the virtual
 system tags

---
 src/server/virtualtag.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..b6450bb 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -53,8 +53,9 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
 {
     dax_time t;
 
+    if(offset < 0 || size < 0 || size > sizeof(t) || offset > sizeof(t) - size) return ERR_2BIG;
     t = xtime();
-    memcpy(data, &t, size);
+    memcpy(data, (uint8_t *)&t + offset, size);
     return 0;
 }
 
@@ -63,13 +64,16 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     int result;
     dax_tag tag;
     dax_module *mod;
+    char name[DAX_TAGNAME_SIZE + 1];
 
+    if(offset < 0 || size < 0 || size > sizeof(name) || offset > sizeof(name) - size) return ERR_2BIG;
     mod = module_find_fd(fd);
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    bzero(name, sizeof(name));
+    strncpy(name, tag.name, DAX_TAGNAME_SIZE);
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
-- 
2.43.0


From ecdb43a3e2c41a039d5a1b9d1229d2811e21244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 03/39] fix: building the _tag_added/_tag_deleted value overran
 the buffer and the tag name

---
 src/server/tagbase.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 3c84d26..6d443b5 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -573,12 +573,12 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = n;
     *((tag_type *)&tag_desc[4]) = type;
     *((dax_udint *)&tag_desc[8]) = count;
     *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
@@ -636,12 +636,12 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = idx;
     *((tag_type *)&tag_desc[4]) = _db[idx].type;
     *((dax_udint *)&tag_desc[8]) = _db[idx].count;
     *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
 
     xfree(_db[idx].name);
-- 
2.43.0


From 02f2f10ec0534601eb7337beda8bb19e4bd11c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:51 +0000
Subject: [PATCH 04/39] fix: initialise attributes and mappings of tags added
 after the database has grown

---
 src/server/tagbase.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 6d443b5..a2f1ef6 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -531,6 +531,9 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     /* Assign everything to the new tag, copy the string and git */
     _db[n].count = count;
     _db[n].type = type;
+    _db[n].attr = 0;
+    _db[n].mappings = NULL;
+    _db[n].ret_file_pointer = 0;
 
     /* If the type is a queue the data area will be allocated in the
      * queue_add() function instead of here */
-- 
2.43.0


From 5f63aa4ef581982b8cc06c9f347f5f94016f2903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:32 +0000
Subject: [PATCH 05/39] fix: growing a tag exposed uninitialised data,
 corrupted queues and left the override areas too small

---
 src/server/tagbase.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index a2f1ef6..4aa4a18 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -20,6 +20,7 @@
 
 #include <ctype.h>
 #include <assert.h>
+#include <limits.h>
 #include <common.h>
 #include "tagbase.h"
 #include "retain.h"
@@ -453,6 +454,24 @@ _set_attribute(tag_index idx, uint32_t attr) {
     }
 }
 
+/* Increase the override data areas of the tag to size bytes.  The tag's count
+ * has to still be the old one */
+static int
+_override_grow(tag_index idx, int size) {
+    int oldsize = tag_get_size(idx);
+    uint8_t *odata, *omask;
+
+    odata = xrealloc(_db[idx].odata, size);
+    if(odata == NULL) return ERR_ALLOC;
+    _db[idx].odata = odata;
+    omask = xrealloc(_db[idx].omask, size);
+    if(omask == NULL) return ERR_ALLOC;
+    _db[idx].omask = omask;
+    memset(&odata[oldsize], 0, size - oldsize);
+    memset(&omask[oldsize], 0, size - oldsize);
+    return 0;
+}
+
 /* This adds a tag to the database. It takes a string for the name
  * of the tag, the type (see opendax.h for types) and a count.  If
  * count is greater than 1 an array is created.  It returns the index
@@ -492,6 +511,8 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     /* Figure the size in bytes */
     if(type == DAX_BOOL) {
         size = count / 8 + 1;
+    } else if((uint64_t)type_size(type) * count > INT_MAX) {
+        return ERR_2BIG;
     } else {
         size = type_size(type) * count;
     }
@@ -505,12 +526,14 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         if(_db[n].type == type && _db[n].count >= count) {
             _set_attribute(n, attr);
             return n;
-        } else if(_db[n].type == type && _db[n].count < count) {
+        } else if(_db[n].type == type && _db[n].count < count && !is_tag_virtual(n)) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
             newdata = xrealloc(_db[n].data, size);
             if(newdata) {
+                memset((uint8_t *)newdata + tag_get_size(n), 0, size - tag_get_size(n));
                 _db[n].data = newdata;
+                if(_db[n].odata != NULL && _override_grow(n, size)) return ERR_ALLOC;
                 _db[n].count = count;
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
-- 
2.43.0


From e53dc551a048515374aaf30f59977f66c0962bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 06/39] fix: override bounds, BOOL tags, merged masks, unset
 counter and cleanup with the tag

---
 src/server/message.c |  6 +++++-
 src/server/tagbase.c | 50 +++++++++++++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 66eaa70..450bde8 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -1030,7 +1030,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > MSG_DATA_SIZE / 2) {
+        result = ERR_2BIG; /* It would never fit in the reply */
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 4aa4a18..d31a5d5 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -670,6 +670,18 @@ tag_del(tag_index idx)
     strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
 
+    /* Get rid of any overrides */
+    override_set(idx, 0);
+    if(_db[idx].odata != NULL) {
+        if(_db[idx].attr & TAG_ATTR_OVERRIDE) {
+            _ovrdinstalled--;
+            tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+        }
+        xfree(_db[idx].odata);
+        xfree(_db[idx].omask);
+        _db[idx].odata = NULL;
+        _db[idx].omask = NULL;
+    }
     xfree(_db[idx].name);
     xfree(_db[idx].data);
     _db[idx].name = NULL;
@@ -1256,7 +1268,7 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
 
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
-    int tag_size;
+    int n, tag_size;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
@@ -1264,7 +1276,9 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    if(is_tag_virtual(idx)) return ERR_ILLEGAL;
+    if(_out_of_bounds(idx, offset, size)) return ERR_2BIG;
+    tag_size = tag_get_size(idx);
 
     if(_db[idx].odata == NULL) {
         _db[idx].odata = malloc(tag_size);
@@ -1276,12 +1290,15 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
+        bzero(_db[idx].odata, tag_size);
+        bzero(_db[idx].omask, tag_size);
+    }
+    /* Bits that are not in the mask keep the override that they may already have */
+    for(n=0;n<size;n++) {
+        _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
+        _db[idx].odata[n+offset] |= ((uint8_t *)data)[n] & ((uint8_t *)mask)[n];
+        _db[idx].omask[n+offset] |= ((uint8_t *)mask)[n];
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
@@ -1307,18 +1324,19 @@ override_del(tag_index idx, int offset, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
+    if(_out_of_bounds(idx, offset, size)) return ERR_2BIG;
     for(n=0;n<size;n++) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
+    override_set(idx, 0);
     /* Remove both of the flags that indicate we have an override installed or set */
     _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
@@ -1338,18 +1356,20 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
-
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
+    if(is_tag_virtual(idx)) return ERR_ILLEGAL;
+    if(_out_of_bounds(idx, offset, size)) return ERR_2BIG;
+    memcpy(data, &_db[idx].data[offset], size);
+    if(_db[idx].omask != NULL) {
+        memcpy(mask, &_db[idx].omask[offset], size);
+    } else {
+        bzero(mask, size); /* No override installed */
+    }
     return 0;
 }
 
-- 
2.43.0


From df1820f4ace1e380e76fc003acac3c632acc54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:33 +0000
Subject: [PATCH 07/39] fix: reject impossible message sizes and never parse
 left over bytes of a short message

---
 src/server/message.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 450bde8..238ceac 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -355,8 +355,13 @@ msg_dispatcher(int fd, unsigned char *buff)
      * byte order. */
     message.msg_type = ntohl(*(uint32_t *)&buff[4]);
 
-    if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
+    if(CHECK_COMMAND(message.msg_type) || message.size > MSG_DATA_SIZE) {
+        buff_free(fd);
+        return ERR_MSG_BAD;
+    }
     message.fd = fd;
+    /* So that the handlers never see left overs in a message that is too short */
+    bzero(message.data, MSG_DATA_SIZE);
     memcpy(message.data, &buff[8], message.size);
     buff_free(fd);
     /* Now call the function to deal with it */
@@ -391,6 +396,7 @@ msg_mod_register(dax_message *msg)
 
         /* Is this the initial registration of the synchronous socket */
         if(flags & CONNECT_SYNC) {
+            msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
             /* TODO: Need to check for errors there */
             mod = module_register(&msg->data[MSG_HDR_SIZE], parint, msg->fd);
             if(!mod) {
@@ -398,7 +404,7 @@ msg_mod_register(dax_message *msg)
                 _message_send(msg->fd, MSG_MOD_REG, &result, sizeof(result) , ERROR);
                 return result;
             } else {
-                tag_read(-1, INDEX_STARTED, 0, &starttime, 4);
+                tag_read(-1, INDEX_STARTED, 0, &starttime, sizeof(starttime));
                 *((uint32_t *)&buff[0]) = (uint32_t)starttime;   /* The lower 32 bits of the servers start time is the ID */
                 /* This puts the test data into the buffer for sending. */
                 *((uint16_t *)&buff[4]) = REG_TEST_INT;    /* 16 bit test data */
@@ -434,6 +440,7 @@ msg_tag_add(dax_message *msg)
     type = *((uint32_t *)&msg->data[0]);
     count = *((uint32_t *)&msg->data[4]);
     attr = *((uint32_t *)&msg->data[8]);
+    msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
 
     dax_log(DAX_LOG_MSG, "Tag Add Message for '%s' from module %d, type 0x%X, count %d", &msg->data[12], msg->fd, type, count);
 
@@ -498,10 +505,9 @@ msg_tag_get(dax_message *msg)
         result = tag_get_name((char *)&msg->data[1], &tag);
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for name '%s'", msg->fd, (char *)msg->data);
     }
-    size = strlen(tag.name) + 15;
-    buff = alloca(size);
-    if(buff == NULL) result = ERR_ALLOC;
     if(!result) {
+        size = strlen(tag.name) + 15;
+        buff = alloca(size);
         *((uint32_t *)&buff[0]) = tag.idx;
         *((uint32_t *)&buff[4]) = tag.type;
         *((uint32_t *)&buff[8]) = tag.count;
-- 
2.43.0


From 8ba48f0d6c650cefd1f3f9f09a43ec940769152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:01 +0000
Subject: [PATCH 08/39] fix: message framing handles partial, oversized and
 back to back messages

---
 src/server/buffer.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..5dec70c 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -137,8 +137,9 @@ int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
+    int left, retval = 0;
 
     node = find_buff_slot(fd);
 
@@ -161,18 +162,26 @@ buff_read(int fd)
 
     node->index += result;
 
-    /* Check the size and let the caller know how it turns out. */
-    /* First four bytes of a message should always be the size of
-       the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+    /* Dispatch every complete message that we have.  First four bytes of a
+       message should always be the size of the message and it should be in
+       network byte order */
+    while(node->index >= sizeof(uint32_t)) {
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            buff_free(fd);
+            return ERR_2BIG;
+        }
+        if(node->index < size) break; /* The rest is still to come */
+        left = node->index - size;
+        result = msg_dispatcher(fd, node->buffer); /* This releases the buffer */
+        if(result) retval = result;
+        if(left == 0) break;
+        /* Keep what we have of the next message */
+        memmove(node->buffer, &node->buffer[size], left);
+        node->fd = fd;
+        node->index = left;
     }
-    return 0;
+    return retval;
 }
 
 /* TODO: Check boundary conditions where min_buffers = 0 or 1.  Shouldn't
-- 
2.43.0


From aa87012beb9fca208e089e651b13da31e9ecff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:35 +0000
Subject: [PATCH 09/39] fix: atomic operations on parts of tags, BOOL ranges
 and TIME, and their bounds checks

---
 src/server/atomic.c  | 72 +++++++++++++++++++++-----------------------
 src/server/message.c |  2 +-
 2 files changed, 36 insertions(+), 38 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..0e5d7e0 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -59,7 +59,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -70,6 +69,7 @@ _atomic_inc(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] += *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -103,7 +103,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -114,6 +113,7 @@ _atomic_dec(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -166,7 +166,7 @@ _atomic_or(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = 0xFF00 >> (7 - (h.bit + h.count - 1) % 8);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -177,7 +177,7 @@ _atomic_or(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -194,7 +194,7 @@ _atomic_and(tag_handle h, void *data) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = 0xFF00 >> (7 - (h.bit + h.count - 1) % 8);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] |= hmask;
@@ -205,7 +205,7 @@ _atomic_and(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -224,30 +224,22 @@ _atomic_nor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = 0xFF00 >> (7 - (h.bit + h.count - 1) % 8);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
         temp[0]      &= ~lmask;
 
         /* To do the NOR with our mask we first apply the mask just like
-           with the OR.  Then XOR the middle bytes with 0xFF to toggle them
-           which makes it a NOR and then we do the same thing to the first
-           and last bytes except with the compliment of the mask.  This
-           keeps the bits that are outside of our range and then toggles
-           the ones that are inside the range. */
+           with the OR.  Then toggle the bits that are inside our range. */
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _atomic_not(h, data);
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -266,7 +258,7 @@ _atomic_nand(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = 0xFF00 >> (7 - (h.bit + h.count - 1) % 8);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] |= hmask;
@@ -275,14 +267,10 @@ _atomic_nand(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _atomic_not(h, data);
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -300,7 +288,7 @@ _atomic_xor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = 0xFF00 >> (7 - (h.bit + h.count - 1) % 8);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -311,7 +299,7 @@ _atomic_xor(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -329,7 +317,7 @@ _atomic_xnor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = 0xFF00 >> (7 - (h.bit + h.count - 1) % 8);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -338,15 +326,11 @@ _atomic_xnor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _atomic_not(h, data);
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -356,6 +340,8 @@ _atomic_xnor(tag_handle h, void *data) {
 int
 atomic_op(tag_handle h, void *data, uint16_t op) {
     int result;
+    uint64_t size;
+
     /* We don't do these on custom data types */
     if(IS_CUSTOM(h.type)) {
         return ERR_BADTYPE;
@@ -364,9 +350,21 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(h.index < 0 || h.index >= get_tagindex()) {
         return ERR_ARG;
     }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
+    /* The amount of data has to agree with the type and the count */
+    if(h.count == 0 || h.bit > 7 || type_size(h.type) < 0) {
+        return ERR_ARG;
+    }
+    if(h.type == DAX_BOOL) {
+        size = ((uint64_t)h.bit + h.count - 1) / 8 + 1;
+    } else {
+        size = (uint64_t)type_size(h.type) * h.count;
+    }
+    if(h.size < size) {
+        return ERR_ARG;
+    }
+    h.size = size;
+    /* Bounds Check Size */
+    if((uint64_t)h.byte + h.size > tag_get_size(h.index)) {
         return ERR_2BIG;
     }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
diff --git a/src/server/message.c b/src/server/message.c
index 238ceac..076903d 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -971,7 +971,7 @@ msg_atomic_op(dax_message *msg) {
     h.type = *(dax_dint *)&msg->data[12];      /* Data type */
     h.bit = msg->data[16];                     /* Bit offset */
     operation = *(dax_uint *)&msg->data[17];   /* Operation */
-    h.size = msg->size - 21; /* Total message size minus the above data */
+    h.size = msg->size > 21 ? msg->size - 21 : 0; /* Total message size minus the above data */
 
     dax_log(DAX_LOG_MSG, "Atomic Operation Message from module %d, index %d, offset %d, size %d", msg->fd, h.index, h.byte, h.size);
     if(is_tag_readonly(h.index) && ! is_tag_owned(msg->fd, h.index)) {
-- 
2.43.0


From 02e7c4d022c7b3e2ee4cfa27ac25aa38b6a9e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 10/39] fix: deleting the newest event of a tag, event
 reference counts and the reply to event requests

---
 src/server/events.c  | 21 ++++++++++++++-------
 src/server/message.c |  8 ++++----
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..88fc5d1 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -687,18 +687,22 @@ event_del(int index, int id, dax_module *module)
             dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
             return ERR_AUTH;
         }
-        _db[index].events = this->next;
-        _free_event(this);
+        last = NULL;
+    } else {
+        last = this;
+        this = this->next;
     }
-    last = this;
-    this = this->next;
     while(this != NULL) {
         if(this->id == id) {
             if(this->notify != module) {
                 dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
                 return ERR_AUTH;
             }
-            last->next = this->next;
+            if(last == NULL) {
+                _db[index].events = this->next;
+            } else {
+                last->next = this->next;
+            }
             _free_event(this);
             result = 0;
             break; /* Uggg */
@@ -710,6 +714,7 @@ event_del(int index, int id, dax_module *module)
     if(_db[index].events == NULL) {
         _db[index].attr &= ~TAG_ATTR_EVENT;
     }
+    if(result) return result;
     module->event_count--;
     dax_log(DAX_LOG_DEBUG, "Deleted event index: %d, id: %d, module: %s", index, id, module->name);
     return result;
@@ -722,6 +727,7 @@ events_del_all(_dax_event *head) {
     this = head;
     while(this != NULL) {
         next = this->next;
+        this->notify->event_count--;
         _free_event(this);
         this = next;
     }
@@ -757,7 +763,7 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
@@ -767,10 +773,11 @@ events_cleanup(dax_module *module) {
         if(_db[n].events != NULL) {
             this = _db[n].events;
             while(this != NULL) {
+                next = this->next;
                 if(this->notify == module) {
                     event_del(n, this->id, module);
                 }
-                this = this->next;
+                this = next;
             }
         }
     }
diff --git a/src/server/message.c b/src/server/message.c
index 076903d..d56b294 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -671,8 +671,8 @@ msg_evnt_del(dax_message *msg)
 
     result = event_del(idx, id, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, msg->data, 8, RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -702,8 +702,8 @@ msg_evnt_opt(dax_message *msg)
 
     result = event_opt(idx, id, options, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, msg->data, 8, RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
-- 
2.43.0


From a599f7c5baf152ca5349e59221d8cdd96bee0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 11/39] fix: event comparisons of TIME tags and deadbands whose
 difference overflows the type

---
 src/server/events.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 88fc5d1..87b0368 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -205,7 +205,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -225,6 +224,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else if(u1.dax_ulint > u2.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = *(dax_lint *)data1;
             u2.dax_lint = *(dax_lint *)data2;
             if(u1.dax_lint < u2.dax_lint) return -1;
@@ -290,8 +290,8 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
         case DAX_SINT:
         case DAX_CHAR:
             db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
+            diff.dax_int = *(dax_sint *)data1 - *(dax_sint *)data2;
+            if(ABS(diff.dax_int) >= db.dax_sint) return 1;
             else return 0;
         case DAX_UINT:
         case DAX_WORD:
@@ -301,31 +301,32 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
             else return 0;
         case DAX_INT:
             db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
+            diff.dax_dint = *(dax_int *)data1 - *(dax_int *)data2;
+            if(ABS(diff.dax_dint) >= db.dax_int) return 1;
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
+            diff.dax_lint = (dax_lint)*(dax_udint *)data1 - *(dax_udint *)data2;
             if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
             else return 0;
         case DAX_DINT:
             db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
+            diff.dax_lint = (dax_lint)*(dax_dint *)data1 - *(dax_dint *)data2;
+            if(ABS(diff.dax_lint) >= db.dax_dint) return 1;
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
             db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
+            diff.dax_ulint = MAX(*(dax_ulint *)data1, *(dax_ulint *)data2) - MIN(*(dax_ulint *)data1, *(dax_ulint *)data2);
+            if(diff.dax_ulint >= db.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             db.dax_lint = *(dax_lint *)event->data;
-            diff.dax_lint = *(dax_lint *)data1 - *(dax_lint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_lint) return 1;
+            /* The difference of two 64 bit numbers can be larger than a LINT can hold */
+            diff.dax_ulint = (dax_ulint)MAX(*(dax_lint *)data1, *(dax_lint *)data2) - (dax_ulint)MIN(*(dax_lint *)data1, *(dax_lint *)data2);
+            if(db.dax_lint < 0 || diff.dax_ulint >= db.dax_lint) return 1;
             else return 0;
         case DAX_REAL:
             db.dax_real = *(dax_real *)event->data;
-- 
2.43.0


From 3f15a6421d85b89058bdde7624499efca51b0c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 12/39] fix: events on parts of items, BOOL ranges across a
 byte, deleted events and inconsistent event requests

---
 src/server/events.c | 51 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 87b0368..42142bc 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -37,7 +37,7 @@ _send_event(tag_index idx, _dax_event *event)
     char buff[DAX_MSGMAX];
     uint32_t msgsize;
 
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    if((event->options & EVENT_OPT_SEND_DATA) && !is_tag_virtual(idx)) {
         msgsize = event->size + 16; /* Calculate the total size of this message */
         *(uint32_t *)(&buff[0])  = htonl(event->size + 8); /* The size that we send */
     } else {
@@ -48,7 +48,7 @@ _send_event(tag_index idx, _dax_event *event)
     *(uint32_t *)(&buff[4])  = htonl(MSG_EVENT | event->eventtype);
     *(uint32_t *)(&buff[8])  = htonl(idx);
     *(uint32_t *)(&buff[12])  = htonl(event->id);
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    if((event->options & EVENT_OPT_SEND_DATA) && !is_tag_virtual(idx)) {
         memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
     }
     dax_log(DAX_LOG_MSG, "Sending %d event to module %d",
@@ -247,6 +247,19 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
     return -2;
 }
 
+/* Extends the area that was written so that it starts and ends on the
+ * boundary of one of the items that the event represents */
+static inline void
+_align_to_items(_dax_event *event, int inc, int *offset, int *size) {
+    int begin = MAX(*offset, event->byte);
+    int end = MIN(event->byte + event->size, *offset + *size);
+
+    begin -= (begin - event->byte) % inc;
+    end += (inc - (end - event->byte) % inc) % inc;
+    *offset = begin;
+    *size = end - begin;
+}
+
 static int
 _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compare) {
     int n, inc, bit, len, result;
@@ -255,6 +268,7 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
+    _align_to_items(event, inc, &offset, &size);
     /* For these 'this' is a bit field */
     bit = MAX(0, (offset - event->byte) / inc);
     this = (uint8_t *)event->test;
@@ -351,6 +365,7 @@ _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
+    _align_to_items(event, inc, &offset, &size);
     this = (uint8_t *)event->test + MAX(0, offset - event->byte);
     that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
     len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
@@ -443,8 +458,8 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
-    /* All datatypes can use Write or Change */
-    if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
+    /* All datatypes can use Write, Change or Deleted */
+    if(etype == EVENT_WRITE || etype == EVENT_CHANGE || etype == EVENT_DELETED) {
         return 0;
     }
     /* Only BOOL can use Set and Reset */
@@ -466,6 +481,10 @@ _verify_event_type(tag_type ttype, int etype)
             return 0;
         }
     }
+    if(etype != EVENT_GREATER && etype != EVENT_LESS && etype != EVENT_DEADBAND) {
+        dax_log(DAX_LOG_ERROR, "Unknown event type %d in new event", etype);
+        return -1;
+    }
     /* At this point the only ones left are < > and deadband.  All
      * except Booleans and Custom datatypes can use these */
     if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
@@ -474,9 +493,6 @@ _verify_event_type(tag_type ttype, int etype)
     } else {
         return 0;
     }
-    /* If we get here then we were given an unknown event type */
-    dax_log(DAX_LOG_ERROR, "Unknown datatype in new event");
-    return -1;
 }
 
 /* This function figures out how big the *data and *test memory blocks need
@@ -500,7 +516,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_CHANGE:
             datasize = 0;
             if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
+                testsize = (event->bit + event->count - 1)/8 + 1;
             } else {
                 testsize = type_size(event->datatype) * event->count;
             }
@@ -513,7 +529,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = (event->bit + event->count - 1)/8 + 1;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
@@ -586,6 +602,9 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
         dax_log(DAX_LOG_ERROR, "Tag index %d for new event is out of bounds", h.index);
         return ERR_ARG;
     }
+    if(_db[h.index].data == NULL) {
+        return ERR_DELETED;
+    }
     /* No events can be assigned to virtual tags unless it's a queue */
     if(is_tag_virtual(h.index) && ! is_tag_queue(h.index)) {
         dax_log(DAX_LOG_ERROR, "Events cannot be added to virtual events");
@@ -595,16 +614,26 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != tag_get_size(h.index)) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
     }
     /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
+    if((uint64_t)h.byte + h.size > tag_get_size(h.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
         return ERR_2BIG;
     }
+    /* The size of the data block has to agree with what it represents */
+    if(h.type == DAX_BOOL) {
+        result = h.bit > 7 || h.size != ((uint64_t)h.bit + h.count - 1) / 8 + 1;
+    } else {
+        result = type_size(h.type) <= 0 || h.size != (uint64_t)type_size(h.type) * h.count;
+    }
+    if(h.count == 0 || (result && !is_tag_queue(h.index))) {
+        dax_log(DAX_LOG_ERROR, "Size of the data in the new event does not match its type and count");
+        return ERR_ARG;
+    }
     if(_verify_event_type(h.type, event_type)) {
         /* error log handled in verify_event_type() function */
         return ERR_ARG;
-- 
2.43.0


From c99c0ac526d688c9e42a1e42eb60c958b5ef3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:41 +0000
Subject: [PATCH 13/39] fix: deleting mappings, bounds of mappings and BOOL
 mappings that cross a byte

---
 src/server/mapping.c | 73 +++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 25 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..97b9bc4 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -60,6 +60,13 @@ _handles_equal(tag_handle h1, tag_handle h2)
            h1.size == h2.size );
 }
 
+/* The number of bytes that are touched by 'count' bits starting at 'bit' */
+static inline uint64_t
+_bit_bytes(uint8_t bit, uint32_t count)
+{
+    return ((uint64_t)bit + count - 1) / 8 + 1;
+}
+
 int
 map_add(tag_handle src, tag_handle dest)
 {
@@ -67,6 +74,7 @@ map_add(tag_handle src, tag_handle dest)
     _dax_datamap *this;
     int bit, offset;
     uint8_t *mask;
+    uint64_t mask_size;
 
     DF("map added index1=%d, byte1, %d, size1=%d, index2=%d, byte2=%d, size2=%d", src.index, src.byte, src.size, dest.index, dest.byte, dest.size);
     /* Bounds check handles */
@@ -89,13 +97,16 @@ map_add(tag_handle src, tag_handle dest)
         dax_log(DAX_LOG_ERROR, "Destination tag is read only");
        return ERR_READONLY;
     }
+    if(_db[src.index].data == NULL || _db[dest.index].data == NULL) {
+        return ERR_DELETED;
+    }
     /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
+    if( ((uint64_t)src.byte + src.size) > tag_get_size(src.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
         return ERR_2BIG;
     }
     /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
+    if( ((uint64_t)dest.byte + dest.size) > tag_get_size(dest.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
         return ERR_2BIG;
     }
@@ -103,6 +114,16 @@ map_add(tag_handle src, tag_handle dest)
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
     }
+    if(src.type == DAX_BOOL) {
+        /* The bits have to be inside the area that was just checked */
+        if(src.bit > 7 || dest.bit > 7 || src.count == 0) {
+            return ERR_ARG;
+        }
+        if(_bit_bytes(src.bit, src.count) > src.size || _bit_bytes(dest.bit, src.count) > dest.size) {
+            dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
+            return ERR_2BIG;
+        }
+    }
     /* Check for duplicates */
     this = _db[src.index].mappings;
     while(this != NULL) {
@@ -123,8 +144,9 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
+        mask_size = _bit_bytes(dest.bit, src.count);
+        mask = (uint8_t *)malloc(mask_size);
+        bzero(mask, mask_size);
         for(int i=0; i<src.count; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
@@ -150,26 +172,24 @@ map_del(tag_index index, int id) {
     if(index < 0 || index >= get_tagindex()) {
         return ERR_ARG;
     }
+    prev = NULL;
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
-        prev = this;
-        this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
+    while(this != NULL) {
+        if(this->id == id) {  /* Found it */
+            if(prev == NULL) {
+                _db[index].mappings = this->next;
+            } else {
                 prev->next = this->next;
-                _free_map(this);
-                return 0;
             }
-            this = this->next;
+            _free_map(this);
+            /* If there are no more mappings reset the attribute flag */
+            if(_db[index].mappings == NULL) {
+                _db[index].attr &= ~TAG_ATTR_MAPPING;
+            }
+            return 0;
         }
-    }
-    /* If there are no more mappings reset the attribute flag */
-    if(_db[index].mappings == NULL) {
-        _db[index].attr &= ~TAG_ATTR_MAPPING;
+        prev = this;
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -210,8 +230,9 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
+    uint64_t mask_size;
     int srcByte;
     int srcBit;
     int destByte;
@@ -222,6 +243,7 @@ map_check(tag_index idx, int offset, int size) {
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
+        next = this->next; /* The map may be deleted below */
 
         if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
@@ -233,12 +255,13 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                mask_size = _bit_bytes(this->dest.bit, this->source.count);
+                new_data = (uint8_t *)malloc(mask_size);
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
+                bzero(new_data, mask_size);
                 for(int n=0; n<this->source.count; n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
@@ -254,7 +277,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, mask_size);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
@@ -269,7 +292,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
-- 
2.43.0


From 68473536e334fe2c8a96588d298a541c6592afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:41 +0000
Subject: [PATCH 14/39] fix: tag groups: deleting, bad group indexes, read only
 members, BOOL members and unregistered modules

---
 src/server/groups.c  | 88 ++++++++++++++++++++++++++++++--------------
 src/server/groups.h  |  2 +-
 src/server/message.c | 30 ++++++++++-----
 3 files changed, 83 insertions(+), 37 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..a9f531b 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -79,48 +79,62 @@ _group_add(dax_module *mod) {
  */
 int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
-    int index, datasize, offset;
+    int index, offset;
+    uint64_t datasize;
+    tag_handle *members;
 
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
     if(index < 0) return index; /* Pass the error on up */
-    mod->tag_groups[index].members = (tag_handle *)malloc(sizeof(tag_handle) * count);
-    if(mod->tag_groups[index].members == NULL) return ERR_ALLOC;
+    members = (tag_handle *)malloc(sizeof(tag_handle) * count);
+    if(members == NULL) return ERR_ALLOC;
     /* Check to make sure the size of the group is within bounds */
     datasize = 0;
     for(int n=0; n<count; n++) {
         offset = 21*n;
-        memcpy(&mod->tag_groups[index].members[n].index, &handles[offset], 4);
-        memcpy(&mod->tag_groups[index].members[n].byte, &handles[offset+4], 4);
-        mod->tag_groups[index].members[n].bit = handles[offset+8];
-        memcpy(&mod->tag_groups[index].members[n].count, &handles[offset+9], 4);
-        memcpy(&mod->tag_groups[index].members[n].size, &handles[offset+13], 4);
-        memcpy(&mod->tag_groups[index].members[n].type, &handles[offset+17], 4);
-
-        datasize += mod->tag_groups[index].members[n].size;
+        memcpy(&members[n].index, &handles[offset], 4);
+        memcpy(&members[n].byte, &handles[offset+4], 4);
+        members[n].bit = handles[offset+8];
+        memcpy(&members[n].count, &handles[offset+9], 4);
+        memcpy(&members[n].size, &handles[offset+13], 4);
+        memcpy(&members[n].type, &handles[offset+17], 4);
+
+        datasize += members[n].size;
         if(datasize > MSG_TAG_GROUP_DATA_SIZE) {
-            free(mod->tag_groups[index].members);
-            mod->tag_groups[index].members = NULL;
+            free(members);
             return ERR_2BIG;
         }
     }
 
+    mod->tag_groups[index].members = members;
     mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
     mod->tag_groups[index].count = count;
+    mod->tag_groups[index].size = datasize;
     dax_log(DAX_LOG_MSG, "Group Add message from %s", mod->name);
     return index;
 }
 
 
+/* Returns the given group of the module or NULL if there is no such group */
+static tag_group *
+_get_group(dax_module *mod, uint32_t index) {
+    if(index >= mod->groups_size) return NULL;
+    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return NULL;
+    return &mod->tag_groups[index];
+}
+
+
 /* Deletes a single tag group from the given module */
 int
 group_del(dax_module *mod, int index) {
-    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    tag_group *group;
 
-    free(mod->tag_groups[index].members);
-    mod->tag_groups[index].flags = 0x00;
-    mod->tag_groups[index].count = 0;
-    mod->groups_size--;
+    group = _get_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
+
+    free(group->members);
+    _init_group(group);
+    group->count = 0;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
@@ -132,29 +146,49 @@ group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
 
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    group = _get_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        result = tag_read(mod->fd, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
         offset += group->members[n].size;
     }
     return offset;
 }
 
-/* loop through the array of members and populate buff with
- * the data.*/
+/* Write a single member of a group.  Only the bits of a BOOL member are
+ * written, the other bits in those bytes are not part of the group */
+static int
+_member_write(dax_module *mod, tag_handle *h, uint8_t *buff) {
+    uint8_t mask[MSG_TAG_GROUP_DATA_SIZE];
+    uint64_t n;
+
+    if(is_tag_readonly(h->index) && ! is_tag_owned(mod->fd, h->index)) return ERR_READONLY;
+    if(h->type != DAX_BOOL || is_tag_virtual(h->index)) {
+        return tag_write(mod->fd, h->index, h->byte, buff, h->size);
+    }
+    bzero(mask, h->size);
+    for(n = h->bit; n < (uint64_t)h->bit + h->count && n < (uint64_t)h->size * 8; n++) {
+        mask[n/8] |= 0x01 << (n%8);
+    }
+    return tag_mask_write(mod->fd, h->index, h->byte, buff, mask, h->size);
+}
+
+/* loop through the array of members and write the data from buff
+ * to each of them. */
 int
-group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
+group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
 
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    group = _get_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
+    if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        result = _member_write(mod, &group->members[n], &buff[offset]);
         if(result) return result;
+        map_check(group->members[n].index, group->members[n].byte, group->members[n].size);
         offset += group->members[n].size;
     }
     return offset;
diff --git a/src/server/groups.h b/src/server/groups.h
index f70506d..45dbe5a 100644
--- a/src/server/groups.h
+++ b/src/server/groups.h
@@ -38,7 +38,7 @@
 int group_add(dax_module *mod, uint8_t *handles, uint8_t count);
 int group_del(dax_module *mod, int index);
 int group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size);
-int group_write(dax_module *mod, uint32_t index, uint8_t *buff);
+int group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size);
 int groups_cleanup(dax_module *mod);
 
 #endif /* !__DAX_GROUPS_H */
diff --git a/src/server/message.c b/src/server/message.c
index d56b294..82f958c 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -833,7 +833,7 @@ int msg_map_get(dax_message *msg)
 {
     int result;
     dax_id id;
-    tag_handle src, dest;
+    tag_handle src = {0}, dest = {0};
     uint8_t buff[sizeof(tag_handle) * 2];
 
     id.index = *(dax_dint *)msg->data;
@@ -873,11 +873,17 @@ msg_group_add(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     count = msg->data[0];
     //options = msg->data[1]; /* Might use this in the future to indicate maskable groups */
-    id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    if(mod == NULL) {
+        id = ERR_AUTH;
+    } else if(msg->size < 2 + 21 * count) { /* Not all of the handles are there */
+        id = ERR_ARG;
+    } else {
+        id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    }
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message for module on fd %d Returning Error %d", msg->fd, id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
@@ -893,10 +899,10 @@ msg_group_del(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_del(mod, index);
+    result = mod == NULL ? ERR_AUTH : group_del(mod, index);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message for module on fd %d Returning Error %d", msg->fd, result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
@@ -913,10 +919,10 @@ msg_group_read(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
+    result = mod == NULL ? ERR_AUTH : group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message for module on fd %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
@@ -933,10 +939,16 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    if(mod == NULL) {
+        result = ERR_AUTH;
+    } else if(msg->size < sizeof(uint32_t)) {
+        result = ERR_ARG;
+    } else {
+        result = group_write(mod, index, (uint8_t *)&msg->data[4], msg->size - sizeof(uint32_t));
+    }
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message for module on fd %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
-- 
2.43.0


From bb5cb1f95c550d30ac12168299c7299746ec9737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:41 +0000
Subject: [PATCH 15/39] fix: growing a queue reused uninitialised and aliased
 buffers, partial reads overran the caller

---
 src/server/virtualtag.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index b6450bb..f568dc8 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -96,10 +96,13 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         new_queue = realloc(q->queue, sizeof(void *) * newqsize);
         if(new_queue == NULL) return ERR_ALLOC;
         q->queue = (void **)new_queue;
+        /* The new area doesn't have any buffers yet */
+        bzero(&q->queue[q->qsize], q->qsize * sizeof(void *));
         /* After the queue size is increased we need to move the fragment that is now
          * at the beginning of the queue to the start of the new area */
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
+            bzero(&q->queue[0], q->qread*sizeof(void *));
         }
         q->qsize = newqsize;
     }
@@ -120,7 +123,9 @@ int
 read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userdata) {
     tag_queue *q;
 
+    /* Just like writing we only allow reading the entire tag */
     q = (tag_queue *)userdata;
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From b6f30cdb8bf9d7729b713b6555ff96d1c44c74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:41 +0000
Subject: [PATCH 16/39] fix: malformed compound datatype definitions, queues of
 compound types and overlapping mappings

---
 src/libcommon.h      |  2 +-
 src/server/tagbase.c | 52 +++++++++++++++++++++++++++++++-------------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/libcommon.h b/src/libcommon.h
index c2d8199..a812c28 100644
--- a/src/libcommon.h
+++ b/src/libcommon.h
@@ -88,7 +88,7 @@
 #define CDT_GET_TYPE    0x02 /* Retrieve the type by it's type */
 
 /* Some Macros for manipulating CDT types */
-#define CDT_TO_INDEX(TYPE) (TYPE & ~DAX_CUSTOM)
+#define CDT_TO_INDEX(TYPE) ((TYPE) & ~(DAX_CUSTOM | DAX_QUEUE))
 #define CDT_TO_TYPE(INDEX) (INDEX | DAX_CUSTOM)
 
 /* Maximum size allowed for a single message */
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index d31a5d5..a948d5e 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -325,8 +325,8 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     vf.userdata = (uint8_t *)q;
     _db[idx].data = malloc(sizeof(virt_functions));
     if(_db[idx].data == NULL) {
-        free(q);
         free(q->queue);
+        free(q);
         return ERR_ALLOC;
     }
     memcpy(_db[idx].data, &vf, sizeof(virt_functions));
@@ -860,8 +860,9 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
             result = special_tag_write(fd, idx, offset, data, size);
             if(result) return result;
         }
-        /* Copy the data into the right place. */
-        memcpy(&(_db[idx].data[offset]), data, size);
+        /* Copy the data into the right place.  The data may be another part
+         * of this same tag if it comes from a mapping. */
+        memmove(&(_db[idx].data[offset]), data, size);
         event_check(idx, offset, size);
     }
 
@@ -936,7 +937,8 @@ _cdt_destroy(datatype *cdt) {
 static int
 cdt_append(datatype *cdt, char *str)
 {
-    int retval, count;
+    int retval;
+    long count;
     cdt_member *this, *new;
     char *name, *typestr, *countstr, *last;
     tag_type type;
@@ -949,6 +951,7 @@ cdt_append(datatype *cdt, char *str)
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
     count = strtol(countstr, NULL, 0);
+    if(count < 1 || count > INT_MAX) return ERR_ARG;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -1014,7 +1017,9 @@ cdt_create(char *str, int *error) {
     char *name, *member, *last, *tmp, *serial;
     datatype cdt;
     datatype *new_datatype;
+    cdt_member *this;
     tag_type type;
+    uint64_t bits; /* Size of the new datatype in bits */
 
     /* We need a duplicate of the string to help check if this exact
      * CDT has been added before.  In that case we don't return error */
@@ -1028,21 +1033,21 @@ cdt_create(char *str, int *error) {
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
     /* Check that the name is okay */
-    if( (result = _validate_name(name)) ) {
+    result = name == NULL ? ERR_ARG : _validate_name(name);
+    if(result) {
         if(error != NULL) *error = result;
         free(tmp);
         return 0;
     }
     if((type = cdt_get_type(name))) {
+        serial = NULL;
         serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
-            if(error != NULL) *error = ERR_DUPL;
-            free(tmp);
-            return 0;
-        } else { /* If it's the same then just return it */
-            free(tmp);
-            return type;
-        }
+        result = serial == NULL || strcmp(serial, str) ? ERR_DUPL : 0;
+        free(serial);
+        free(tmp);
+        if(error != NULL) *error = result;
+        /* If it's the same then just return it otherwise the two CDT's are not equal */
+        return result ? 0 : type;
     }
     /* Initialize the new datatype */
     cdt.name = strdup(name);
@@ -1051,6 +1056,7 @@ cdt_create(char *str, int *error) {
         return 0;
     }
     cdt.members = NULL;
+    bits = 0;
 
     while((member = strtok_r(NULL, ":", &last))) {
         result = cdt_append(&cdt, member);
@@ -1063,6 +1069,22 @@ cdt_create(char *str, int *error) {
     }
     free(tmp);
 
+    /* A datatype needs at least one member and has to be small enough that
+     * we can calculate with the size */
+    for(this = cdt.members; this != NULL; this = this->next) {
+        if(this->type == DAX_BOOL) {
+            bits += this->count;
+        } else {
+            bits = (bits + 7) / 8 * 8 + (uint64_t)type_size(this->type) * this->count * 8;
+        }
+        if(bits > INT_MAX) break;
+    }
+    if(bits == 0 || bits > INT_MAX) {
+        _cdt_destroy(&cdt);
+        if(error != NULL) *error = bits == 0 ? ERR_ARG : ERR_2BIG;
+        return 0;
+    }
+
     /* Do we have space in the array */
     if(_datatype_index == _datatype_size) {
         /* Allocate more space for the array */
@@ -1198,7 +1220,7 @@ cdt_get_entry(tag_type type) {
     int index;
 
     index = CDT_TO_INDEX(type);
-    if(IS_CUSTOM(type) && index > 0 && index < _datatype_size) {
+    if(IS_CUSTOM(type) && index >= 0 && index < _datatype_index) {
         return &_datatypes[index];
     } else {
         return NULL;
@@ -1418,7 +1440,7 @@ serialize_datatype(tag_type type, char **str)
 
     cdt_index = CDT_TO_INDEX(type);
 
-    if(cdt_index < 0 || cdt_index >= _datatype_index) {
+    if(!IS_CUSTOM(type) || cdt_index < 0 || cdt_index >= _datatype_index) {
         return ERR_ARG;
     }
 
-- 
2.43.0


From 708c6d10e633d198a63c86513939c8e0f0c823c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:12 +0000
Subject: [PATCH 17/39] fix: a module without a tag deleted _tagcount when it
 left, module tags were shared by same named modules

---
 src/server/module.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..d6cde08 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -230,7 +230,7 @@ module_register(char *name, uint32_t timeout, int fd)
 {
     dax_module *mod, *test;
     char tagname[DAX_TAGNAME_SIZE + 1];
-    int result, x;
+    int result, x, length;
     dax_time starttime;
 
     bzero(tagname, DAX_TAGNAME_SIZE + 1);
@@ -254,13 +254,13 @@ module_register(char *name, uint32_t timeout, int fd)
             warning generated */
             strcpy(tagname, "_m");
             strncat(tagname, name, DAX_TAGNAME_SIZE - 2);
-            result = tag_get_name(tagname, NULL);
-            if(result==0) {
+            length = strlen(tagname);
+            while(tag_get_name(tagname, NULL) == 0) {
                 if(_mod_uuid < 1000) {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -3);
+                    x = MIN(length, DAX_TAGNAME_SIZE -3);
                     sprintf(&tagname[x], "%03d", _mod_uuid++);
                 } else {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -5);
+                    x = MIN(length, DAX_TAGNAME_SIZE -5);
                     sprintf(&tagname[x], "%05d", _mod_uuid++);
                 }
                 dax_log(DAX_LOG_WARN, "Duplicate module name.  Module tag being modified - %s", tagname);
@@ -268,9 +268,9 @@ module_register(char *name, uint32_t timeout, int fd)
             result = tag_add(-1, tagname, cdt_get_type("_module"), 1, 0);
             if(result < 0) {
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
-            } else {
-                mod->tagindex = result;
+                return mod;
             }
+            mod->tagindex = result;
             starttime = xtime();
             tag_write(-1, result, 0, &starttime, sizeof(dax_time));
             tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
@@ -307,7 +307,8 @@ module_unregister(int fd)
                 tag_del(n);
             }
         }
-        tag_del(mod->tagindex);
+        /* Index zero means that there is no tag for this module */
+        if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
-- 
2.43.0


From f29811fff49fc16b6bf62bf3688daed480b60ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:56 +0000
Subject: [PATCH 18/39] fix: retained tags lost their value, count and BOOLs on
 restart and came back after they were deleted

---
 src/server/retain.c  | 26 +++++++++++++++++++++-----
 src/server/tagbase.c |  3 +++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 9175c1d..1ad58f8 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -98,7 +98,9 @@ _create_tags(void) {
         if(tag_index < 0) {
             dax_log(DAX_LOG_ERROR, "Retained tag not created properly");
         } else {
-            memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            if(data != NULL && !is_tag_virtual(tag_index)) {
+                memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            }
         }
     }
     if(result != SQLITE_DONE) {
@@ -203,7 +205,7 @@ _add_type(tag_type type) {
     serialize_datatype(type, &type_str);
     if(_sql == NULL) return ERR_FILE_CLOSED;
 
-    snprintf(query, 256, "INSERT INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
+    snprintf(query, 256, "INSERT OR REPLACE INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
     if(result != SQLITE_OK) {
@@ -214,6 +216,7 @@ _add_type(tag_type type) {
     result = sqlite3_step(stmt);
     if(result != SQLITE_DONE) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
+        sqlite3_finalize(stmt);
         return -1;
     }
     sqlite3_finalize(stmt);
@@ -229,12 +232,14 @@ ret_add_tag(int index) {
     char query[256];
 
     dax_log(DAX_LOG_DEBUG, "Adding Retained Tag at index %d", index);
+    if(is_tag_virtual(index)) return ERR_ILLEGAL; /* There is no data to retain */
     /* TODO: Implement retaining custom data type tags */
     if(IS_CUSTOM(_db[index].type)) {
         _add_type(_db[index].type);
     }
     if(_sql == NULL) return ERR_FILE_CLOSED;
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,NULL);",
+    /* If the tag is already there then this is the new count of that tag */
+    snprintf(query, 256, "INSERT OR REPLACE INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,?1);",
                          _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
@@ -242,6 +247,8 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
         return result;
     }
+    /* The tag may already have data, if it was retained for example */
+    sqlite3_bind_blob(stmt, 1, _db[index].data, tag_get_size(index), NULL);
     result = sqlite3_step(stmt);
     if(result == SQLITE_DONE) {
         /* This might be a race condition if we ever multi thread the server */
@@ -249,6 +256,7 @@ ret_add_tag(int index) {
         _db[index].ret_file_pointer = id; /* We'll use this on tag writes */
     } else {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
+        sqlite3_finalize(stmt);
         return -1;
     }
     sqlite3_finalize(stmt);
@@ -257,9 +265,17 @@ ret_add_tag(int index) {
 
 int
 ret_del_tag(int index) {
+    int result;
+    char query[64];
 
     dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
-
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    snprintf(query, 64, "DELETE FROM main.tags WHERE id = %d;", (int)_db[index].ret_file_pointer);
+    result = sqlite3_exec(_sql, query, NULL, 0, NULL);
+    if(result != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Problem deleting retained tag");
+        return -1;
+    }
     return 0;
 }
 
@@ -267,7 +283,7 @@ int
 ret_tag_write(int index) {
     int result;
 
-    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, type_size(_db[index].type) * _db[index].count, NULL);
+    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, tag_get_size(index), NULL);
     if(result) {
         DF("Problem with bind_blob %d", result);
     }
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index a948d5e..f4872df 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -536,6 +536,9 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 if(_db[n].odata != NULL && _override_grow(n, size)) return ERR_ALLOC;
                 _db[n].count = count;
                 _set_attribute(n, attr);
+                if((_db[n].attr & TAG_ATTR_RETAIN) && !(attr & TAG_ATTR_RETAIN)) {
+                    ret_add_tag(n); /* Retain the new count too */
+                }
                 /* Since it changed we update this tag so the write event will trigger */
                 tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
                 return n;
-- 
2.43.0


From 1b1a82a6827aec3eed2a1e88c603c955e5ed842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:53 +0000
Subject: [PATCH 19/39] fix: the owner of a read only tag can use masked writes
 too

---
 src/server/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index 82f958c..c158e7c 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -608,7 +608,7 @@ msg_tag_mask_write(dax_message *msg)
     mask = &msg->data[8 + size];
 
     dax_log(DAX_LOG_MSG, "Tag Masked Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx)) {
+    if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
         result =  ERR_READONLY;
     } else {
         result = tag_mask_write(msg->fd, idx, offset, data, mask, size);
-- 
2.43.0


From d752b263b80af8fef119d434478e495a10b1ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:51 +0000
Subject: [PATCH 20/39] fix: _dbsize and _tag_added were not kept up to date
 when the database or a tag grows

---
 src/server/tagbase.c | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index f4872df..2d48839 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -472,6 +472,21 @@ _override_grow(tag_index idx, int size) {
     return 0;
 }
 
+/* Write the description of the tag at idx to one of the system tags that
+ * tell the modules what has happened to a tag */
+static void
+_write_tag_desc(tag_index systag, tag_index idx) {
+    uint8_t tag_desc[47];
+
+    memset(tag_desc, 0, sizeof(tag_desc));
+    *((tag_index *)tag_desc) = idx;
+    *((tag_type *)&tag_desc[4]) = _db[idx].type;
+    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
+    *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
+    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
+    tag_write(-1, systag, 0, tag_desc, sizeof(tag_desc));
+}
+
 /* This adds a tag to the database. It takes a string for the name
  * of the tag, the type (see opendax.h for types) and a count.  If
  * count is greater than 1 an array is created.  It returns the index
@@ -483,7 +498,6 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     void *newdata;
     unsigned int size;
     int result;
-    uint8_t tag_desc[47];
 
     if(count == 0) {
         dax_log(DAX_LOG_ERROR, "tag_add() called with count = 0");
@@ -496,6 +510,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
             return ERR_ALLOC;
         } else {
             dax_log(DAX_LOG_MINOR, "Database increased to %d items", _dbsize);
+            set_dbsize(_dbsize);
         }
     }
     result = _checktype(type);
@@ -540,7 +555,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                     ret_add_tag(n); /* Retain the new count too */
                 }
                 /* Since it changed we update this tag so the write event will trigger */
-                tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
+                _write_tag_desc(INDEX_ADDED_TAG, n);
                 return n;
             } else {
                 dax_log(DAX_LOG_ERROR, "Unable to allocate memory to grow the size of tag %s", name);
@@ -602,13 +617,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(tag_desc, 0, sizeof(tag_desc));
-    *((tag_index *)tag_desc) = n;
-    *((tag_type *)&tag_desc[4]) = type;
-    *((dax_udint *)&tag_desc[8]) = count;
-    *((uint16_t *)&tag_desc[12]) = attr;
-    strncpy((char *)&tag_desc[14], name, DAX_TAGNAME_SIZE);
-    tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_ADDED_TAG, n);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
 
@@ -640,8 +649,6 @@ tag_clr_attribute(tag_index index, uint32_t attr) {
 int
 tag_del(tag_index idx)
 {
-    uint8_t tag_desc[47];
-
     if(idx >= _tagnextindex || idx < 0) {
         dax_log(DAX_LOG_ERROR, "tag_del() pass index out of range %d", idx);
         return ERR_ARG;
@@ -665,13 +672,7 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(tag_desc, 0, sizeof(tag_desc));
-    *((tag_index *)tag_desc) = idx;
-    *((tag_type *)&tag_desc[4]) = _db[idx].type;
-    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
-    *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
-    tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_DELETED_TAG, idx);
 
     /* Get rid of any overrides */
     override_set(idx, 0);
-- 
2.43.0


From a460044165e421c70f1c6b6e0af85d9a80ee2a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 21/39] fix: do not write a byte too many for bits that are not
 byte aligned

The size of a handle already includes the last, partially used byte.  One
more byte makes the server refuse the write, mask or override when the bits
are the last ones of a tag.
---
 src/lib/libdata.c | 10 ++++------
 src/lib/libmsg.c  | 10 ----------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 3d3e7b9..97fe968 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -525,9 +525,8 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
         size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
+        /* In case the size does not include the last byte that the bits reach into */
+        if(handle.bit + handle.count > size * 8) {
             size++;
         }
         mask = malloc(size);
@@ -619,9 +618,8 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
         size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
+        /* In case the size does not include the last byte that the bits reach into */
+        if(handle.bit + handle.count > size * 8) {
             size++;
         }
         newmask = malloc(size);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 19c7ab3..60377f2 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -838,11 +838,6 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -913,11 +908,6 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         bzero(mask, size);
-- 
2.43.0


From 0b49bc42eee23f21e0f4ae0c8a42107a800e15ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 22/39] fix: dax_tag_mask() ignored the mask of unaligned bits

All the bits of the handle were written, whatever the mask said.
---
 src/lib/libdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 97fe968..5e26fdc 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -637,7 +637,9 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
             }
-            newmask[i / 8] |= (1 << (i % 8));
+            if( (0x01 << (n % 8)) & ((uint8_t *)mask)[n / 8] ) {
+                newmask[i / 8] |= (1 << (i % 8));
+            }
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-- 
2.43.0


From 1e4a78dbf58f218a8102bec2ea7c74d5f1592482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:12 +0000
Subject: [PATCH 23/39] fix: a reply never overruns the buffer it is received
 into

_message_recv() copied whatever the server had sent.  dax_event_del() and
dax_event_options() received the 8 bytes of the answer into an integer, and
dax_group_read() used buffers shorter than four bytes for its request.
---
 src/lib/libmsg.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 60377f2..1070ea8 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -143,9 +143,9 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         pthread_mutex_unlock(&ds->msg_lock);
         return result;
     }  else if(ds->last_msg->msg_type == (command | (response ? MSG_RESPONSE : 0))) {
-        if(size) {
-            memcpy(payload, ds->last_msg->data, ds->last_msg->size);
-            *size = ds->last_msg->size;
+        if(size) { /* On entry this is the room that there is in payload */
+            *size = MIN(*size, ds->last_msg->size);
+            memcpy(payload, ds->last_msg->data, *size);
         }
         free(ds->last_msg);
         ds->last_msg = NULL;
@@ -1189,6 +1189,7 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_ADD, &result, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
@@ -1241,7 +1242,7 @@ dax_event_del(dax_state *ds, dax_id id)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
-        test = _message_recv(ds, MSG_EVNT_DEL, &result, &size, 1);
+        test = _message_recv(ds, MSG_EVNT_DEL, buff, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
             return test;
@@ -1296,7 +1297,7 @@ dax_event_options(dax_state *ds, dax_id id, uint32_t options)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
-        test = _message_recv(ds, MSG_EVNT_OPT, &result, &size, 1);
+        test = _message_recv(ds, MSG_EVNT_OPT, buff, &size, 1);
         pthread_mutex_unlock(&ds->lock);
         return test;
     }
@@ -1722,16 +1723,14 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
 
     if(size < id->size) return ERR_ARG;
     u_temp = mtos_udint(id->index);
-    memcpy(data, &u_temp, 4);
 
     pthread_mutex_lock(&ds->lock);
-    result = _message_send(ds, MSG_GRP_READ, data, 4);
+    result = _message_send(ds, MSG_GRP_READ, &u_temp, 4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
 
-    size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_GRP_READ, data, &size, 1);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From 8fd1f93a83fa6d81ddaf7dec4de21aa73de79003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 24/39] fix: dax_tag_add() overflowed its buffer with long tag
 names

The attributes were not counted.
---
 src/lib/libmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 1070ea8..ee36e59 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -469,14 +469,14 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
     int result;
     size_t size;
     dax_tag tag;
-    char buff[DAX_TAGNAME_SIZE + 8 + 1];
+    char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
     if(name) {
         if((size = strlen(name)) > DAX_TAGNAME_SIZE) {
             return ERR_2BIG;
         }
-        /* Add the 8 bytes for type and count to one byte for NULL */
+        /* Add the 12 bytes for type, count and attributes to one byte for NULL */
         size += 13;
         /* TODO Need to do some more error checking here */
         *((uint32_t *)&buff[0]) = mtos_udint(type);
-- 
2.43.0


From 8c807bad0210d58b61da9e93477af099f2de04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 25/39] fix: client messages whose header arrives in pieces

_message_get() read a whole header again after a short read, which is the
beginning of the payload, and it trusted any size.
---
 src/lib/libmsg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index ee36e59..4882bef 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -68,7 +68,7 @@ _message_get(int fd, dax_message *msg) {
 
     while( index < MSG_HDR_SIZE) {
     	/* Start by reading the header */
-        result = read(fd, &buff[index], MSG_HDR_SIZE);
+        result = read(fd, &buff[index], MSG_HDR_SIZE - index);
         if(result < 0) {
             if(errno == EWOULDBLOCK) {
                 return ERR_TIMEOUT;
@@ -84,6 +84,7 @@ _message_get(int fd, dax_message *msg) {
     /* At this point we should have the size and the message type */
     msg->size = ntohl(*(uint32_t *)buff);
     msg->msg_type = ntohl(*((uint32_t *)&buff[4]));
+    if(msg->size > MSG_DATA_SIZE) return ERR_MSG_BAD;
     /* Now we get the rest of the message */
     index = 0;
     while( index < msg->size) {
-- 
2.43.0


From b2d94fe4a02cd7a13a0a864fedcabc9eaea75d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 26/39] fix: overrides that are too big for a message

The size was checked after the message buffer had been overrun, and then
the buffers were freed twice.
---
 src/lib/libmsg.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 4882bef..84d8fda 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -835,6 +835,12 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     uint8_t buff[MSG_DATA_SIZE];
 
     size = handle.size;
+    /* In case the size does not include the last byte that the bits reach into */
+    if(handle.type == DAX_BOOL && handle.bit + handle.count > size * 8) {
+        size++;
+    }
+    sendsize = size * 2 + 12;
+    if(sendsize > MSG_DATA_SIZE) return ERR_2BIG;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
@@ -868,11 +874,6 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     }
 
     memcpy(&buff[12 + size], mask, size);
-    sendsize = size * 2 + 12;
-    if(sendsize > MSG_DATA_SIZE) {
-        if(newdata != NULL) free(newdata);
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_ADD_OVRD, buff, sendsize);
@@ -904,6 +905,12 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     uint8_t *mask = NULL;
     uint8_t buff[MSG_DATA_SIZE];
     size = handle.size;
+    /* In case the size does not include the last byte that the bits reach into */
+    if(handle.type == DAX_BOOL && handle.bit + handle.count > size * 8) {
+        size++;
+    }
+    sendsize = size + 8;
+    if(sendsize > MSG_DATA_SIZE) return ERR_2BIG;
 
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
@@ -927,10 +934,6 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     }
 
     memcpy(&buff[8], mask, size);
-    sendsize = size + 8;
-    if(sendsize > MSG_DATA_SIZE) {
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_DEL_OVRD, buff, sendsize);
@@ -970,6 +973,7 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
     *((uint32_t *)&buff[8]) = mtos_dint(handle.size);
 
+    if(handle.size > MSG_DATA_SIZE / 2) return ERR_2BIG;
     sendsize = 12;
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_GET_OVRD, buff, sendsize);
-- 
2.43.0


From af2c717905ed28af44fbe5a3afc5e55f9958ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 27/39] fix: DWORD and TIME event values were cut to 16 bits

The conversion macros of these types named the 16 bit functions.
---
 src/lib/libdax.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 4061973..e50e36e 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -153,10 +153,8 @@ dax_int stom_int(dax_int);
 dax_uint stom_uint(dax_uint);
 
 /* 32 Bit conversion functions */
-#define mtos_dword mtos_uint
-#define stom_dword stom_uint
-#define mtos_time mtos_uint
-#define stom_time stom_uint
+#define mtos_dword mtos_udint
+#define stom_dword stom_udint
 
 dax_dint mtos_dint(dax_dint);
 dax_udint mtos_udint(dax_udint);
@@ -169,6 +167,8 @@ dax_real stom_real(dax_real);
 /* 64 bit Conversions */
 #define mtos_lword mtos_ulint
 #define stom_lword stom_ulint
+#define mtos_time mtos_lint
+#define stom_time stom_lint
 
 dax_lint mtos_lint(dax_lint);
 dax_ulint mtos_ulint(dax_ulint);
-- 
2.43.0


From 273e18e2e50bd8c8af58649e7ed8b2e013a9df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:39 +0000
Subject: [PATCH 28/39] fix: a deleted tag stayed in the tag cache of the
 client

The module that deleted a tag was still told that it exists.
---
 src/lib/libmsg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 84d8fda..6d6ff50 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -550,6 +550,9 @@ dax_tag_del(dax_state* ds, tag_index index)
 
     size = 4; /* we just need the handle */
     result = _message_recv(ds, MSG_TAG_DEL, buff, &size, 1);
+    if(result == 0) {
+        cache_tag_del(ds, index);
+    }
     pthread_mutex_unlock(&ds->lock);
     return result;
 }
-- 
2.43.0


From 006dff3a409b5754514fa37f3e0ac5aee41b5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:09 +0000
Subject: [PATCH 29/39] fix: handles of members that follow or are BOOL arrays

The bit offset was kept in eight bits, the index into a BOOL member was
added without a carry, and compound members were not aligned to a byte
after BOOLs.
---
 src/lib/libcdt.c | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c65251c..37c2000 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -552,7 +552,7 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
 static int
 _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, int count)
 {
-    int index, result, size;
+    int index, result, size, bits;
     char *name = str;
     char *nextname;
     cdt_member *this;
@@ -577,19 +577,15 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
          * one we are looking for */
         if(strcmp(name, this->name)) {
             if(this->type == DAX_BOOL) {
-                h->bit += this->count;
-                if(h->bit > 7) {
-                    h->byte += h->bit / 8;
-                    h->bit %= 8;
-                }
+                bits = h->bit + this->count;
+                h->byte += bits / 8;
+                h->bit = bits % 8;
             } else {
                 /* Gotta step up one if the last member was a bool */
-                if(h->type == DAX_BOOL && h->bit > 0) { h->byte++; }
+                if(h->bit > 0) { h->byte++; }
                 h->byte += dax_get_typesize(ds, this->type) * this->count;
                 h->bit = 0;
             }
-            h->type = this->type; /* We need to keep track of the last type */
-
             this = this->next;
         } else { /* Here we have found it */
             break;
@@ -597,6 +593,11 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
 
     }
     if(this == NULL) return ERR_NOTFOUND;
+    /* Everything but a BOOL starts on a byte boundary */
+    if(this->type != DAX_BOOL && h->bit > 0) {
+        h->byte++;
+        h->bit = 0;
+    }
 
     if(nextname) { /* Not the last item */
         if(isdigit(nextname[0])) {
@@ -613,18 +614,14 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
             h->byte += dax_get_typesize(ds, this->type) * index;
         }
     } else { /* We are the last item */
-        if(h->type == DAX_BOOL && this->type != DAX_BOOL && h->bit > 0) {
-            h->byte++;
-            h->bit = 0;
-        }
-
         h->type = this->type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
             if((index + count) > this->count ) return ERR_2BIG;
             if(this->type == DAX_BOOL) {
-                h->byte += index / 8;
-                h->bit += index % 8;
+                bits = h->bit + index;
+                h->byte += bits / 8;
+                h->bit = bits % 8;
                 /* Two bits across the byte boundry require two bytes */
                 h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
                 h->count = count;
-- 
2.43.0


From d2d456c1dea207194ea0d38df575d36a2942687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:09 +0000
Subject: [PATCH 30/39] fix: handles that are not inside their tag

Indexes were not checked when a member or a bit followed, very big indexes
and bits and negative counts were cut down to acceptable ones, and members
of something that is not compound were looked up in other memory.
---
 src/lib/libcdt.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 37c2000..feacc64 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -21,6 +21,7 @@
 #include <libdax.h>
 #include <libcommon.h>
 #include <ctype.h>
+#include <limits.h>
 
 /* This defines the starting size of the datatype array.
  * It is also the amount that the datatype array will
@@ -499,6 +500,7 @@ static inline int
 _get_index(char *str)
 {
     int i, k, len, index;
+    long number;
     len = strlen(str);
     for(i = 0; i < len && str[i] != '['; i++);
     if(i < len) {
@@ -506,7 +508,9 @@ _get_index(char *str)
         for(k = i+1; k < len && str[k] != ']'; k++) {
             if(str[k] < '0' || str[k] > '9') return ERR_ARG;
         }
-        index = atoi(str + i + 1);
+        number = strtol(str + i + 1, NULL, 10);
+        if(number > INT_MAX) return ERR_2BIG;
+        index = number;
     } else {
         index = ERR_NOTFOUND;
     }
@@ -520,6 +524,7 @@ static int
 _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int index, int count)
 {
     char *endptr;
+    long bit;
     int size;
 
     if(type == DAX_BOOL || type == DAX_TIME ||
@@ -528,21 +533,21 @@ _parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int i
            return ERR_BADTYPE;
        }
     if(index < 0) index = 0;
-    h->bit = strtol(digit, &endptr, 10);
+    bit = strtol(digit, &endptr, 10);
     /* This indicates that there is extra text past the number */
     if(endptr[0] != '\0') {
         return ERR_ARG;
     }
     size = dax_get_typesize(ds, type);
-    if(h->bit > size*8) {
+    if(bit >= size*8) {
         return ERR_2BIG;
     }
     if(count == 0) count = 1;
-    if((h->bit + count) > size*8) {
+    if(count > size*8 - bit) {
         return ERR_2BIG;
     }
-    h->byte += size * index + (h->bit / 8);
-    h->bit = h->bit % 8;
+    h->byte += size * index + (bit / 8);
+    h->bit = bit % 8;
     h->type = DAX_BOOL;
     h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
     h->count = count;
@@ -566,6 +571,7 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         return index;
     }
 
+    if(!IS_CUSTOM(lasttype)) return ERR_ARG; /* Has no members */
     if(dax_type_to_string(ds, lasttype) == NULL) {
         return ERR_NOTFOUND; /* This is a serious problem here */
     }
@@ -599,6 +605,8 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         h->bit = 0;
     }
 
+    if(index != ERR_NOTFOUND && index >= this->count) return ERR_2BIG;
+
     if(nextname) { /* Not the last item */
         if(isdigit(nextname[0])) {
             if(this->count > 1 && index <0) {
@@ -609,15 +617,13 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         result = _parse_next_member(ds, this->type, h, nextname, count);
         if(result) return result;
         if(index != ERR_NOTFOUND) {
-            if(count == 0) count = 1;
-            if((index + count) > this->count) return ERR_2BIG;
             h->byte += dax_get_typesize(ds, this->type) * index;
         }
     } else { /* We are the last item */
         h->type = this->type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
-            if((index + count) > this->count ) return ERR_2BIG;
+            if(count > this->count - index) return ERR_2BIG;
             if(this->type == DAX_BOOL) {
                 bits = h->bit + index;
                 h->byte += bits / 8;
@@ -669,6 +675,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
     result = dax_tag_byname(ds, &tag, tagname);
     if(result) return ERR_NOTFOUND;
     h->index = tag.idx; /* This index is the database index */
+    if(index != ERR_NOTFOUND && index >= tag.count) return ERR_2BIG;
 
     if(membername) {
         /* This is the case where the .x is a number referring to a bit */
@@ -695,7 +702,7 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
         h->type = tag.type;
         if(index != ERR_NOTFOUND){
             if(count == 0 ) count = 1;
-            if((index + count) > tag.count ) return ERR_2BIG;
+            if(count > tag.count - index) return ERR_2BIG;
             if(tag.type == DAX_BOOL) {
                 h->byte = index / 8;
                 h->bit = index % 8;
@@ -747,7 +754,7 @@ int
 dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int count)
 {
     int result;
-    if(h == NULL || ds == NULL || str == NULL) {
+    if(h == NULL || ds == NULL || str == NULL || count < 0) {
         return ERR_ARG;
     }
     bzero(h, sizeof(tag_handle)); /* Initialize h */
-- 
2.43.0


From 21a8f30319e8ce917a9e6074cec8d2c5a9b29c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:22 +0000
Subject: [PATCH 31/39] fix: writing nested compound data converted the wrong
 bytes

The offset of the member was added twice, so that memory behind the data of
the caller was read and written.
---
 src/lib/libdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 5e26fdc..5573bd5 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -432,7 +432,7 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
             return ERR_NOTFOUND;
         }
         while(this != NULL) {
-            result = _write_format(ds, this->type, this->count, newdata, pos);
+            result = _write_format(ds, this->type, this->count, data, pos);
             if(result) return result;
             if(IS_CUSTOM(this->type)) {
                 pos += (dax_get_typesize(ds, this->type) * this->count);
-- 
2.43.0


From eac95201db16382972c1ff06022e88dca5b6b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 32/39] fix: a late reply was taken for the answer to the next
 request

When a request timed out its reply was still stored when it came in later,
and the next request returned it as its own.
---
 src/lib/libdax.h  | 1 +
 src/lib/libinit.c | 1 +
 src/lib/libmsg.c  | 9 ++++++++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index e50e36e..5568878 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -129,6 +129,7 @@ struct dax_state {
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
     dax_message *last_msg;   /* The last message received on the socket */
+    unsigned int late_msgs;  /* Replies still to come to requests that timed out */
     void (*disconnect_callback)(int result);
 };
 
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 58c05c4..8b7e307 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -69,6 +69,7 @@ dax_init(const char *name)
         return NULL;
     }
     ds->last_msg = NULL;
+    ds->late_msgs = 0;
     ds->event_size = 1;
     ds->event_count = 0;
     /* Event Message FIFO Queue */
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 6d6ff50..bb0859b 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -131,6 +131,7 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         result = pthread_cond_timedwait(&ds->msg_cond, &ds->msg_lock, &timeout);
         if(result == ETIMEDOUT) {
             DF("message_recv() Timeout");
+            ds->late_msgs++; /* Nobody waits for this reply any more */
             pthread_mutex_unlock(&ds->msg_lock);
             return ERR_TIMEOUT;
         }
@@ -337,7 +338,12 @@ _read_next_message(dax_state *ds)
         pthread_cond_signal(&ds->event_cond);
     } else { /* All other messages we put here */
         pthread_mutex_lock(&ds->msg_lock);
-        ds->last_msg = msg;
+        if(ds->late_msgs > 0) { /* The server answers every request in order */
+            ds->late_msgs--;
+            free(msg);
+        } else {
+            ds->last_msg = msg;
+        }
         pthread_mutex_unlock(&ds->msg_lock);
         pthread_cond_signal(&ds->msg_cond);
     }
@@ -349,6 +355,7 @@ _connection_cleanup(dax_state *ds) {
     ds->sfd = -1;
     if(ds->last_msg != NULL) free(ds->last_msg);
     ds->last_msg = NULL;
+    ds->late_msgs = 0;
     free_tag_cache(ds);
     /* TODO: Free up the event FIFO too */
 }
-- 
2.43.0


From 23264a15a42d309e9ad3e22bf8e1eea023902e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 33/39] fix: invalid timeouts of exactly 1000000000 ns aborted
 the module

---
 src/lib/libevent.c | 2 +-
 src/lib/libmsg.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 0fdbd3c..daabc80 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -215,7 +215,7 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
         clock_gettime(CLOCK_REALTIME, &ts);
         ts.tv_sec += timeout/1000;
         ts.tv_nsec += timeout%1000 * 1e6;
-        if(ts.tv_nsec > 1e9) {
+        if(ts.tv_nsec >= 1e9) {
             ts.tv_sec++;
             ts.tv_nsec -= 1e9;
         }
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index bb0859b..1966bba 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -124,7 +124,7 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         clock_gettime(CLOCK_REALTIME, &timeout);
         timeout.tv_sec += ds->msgtimeout/1000;
         timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
-        if(timeout.tv_nsec>1e9) {
+        if(timeout.tv_nsec>=1e9) {
             timeout.tv_sec++;
             timeout.tv_nsec-=1e9;
         }
-- 
2.43.0


From 2fc8caa6a818d7a0c5a22e3ad7512a9ef8ff0df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 34/39] fix: client messages that pause for longer than the
 timeout

The part that was already read was thrown away and the rest was then taken
for the beginning of the next message.
---
 src/lib/libmsg.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 1966bba..6e8019a 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -70,7 +70,9 @@ _message_get(int fd, dax_message *msg) {
     	/* Start by reading the header */
         result = read(fd, &buff[index], MSG_HDR_SIZE - index);
         if(result < 0) {
+            if(errno == EINTR) continue;
             if(errno == EWOULDBLOCK) {
+                if(index > 0) continue; /* Wait for the rest of it */
                 return ERR_TIMEOUT;
             } else {
                 return ERR_MSG_RECV;
@@ -91,11 +93,8 @@ _message_get(int fd, dax_message *msg) {
     	/* Read the rest of the message */
         result = read(fd, &buff[index], msg->size-index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
-            } else {
-                return ERR_MSG_RECV;
-            }
+            if(errno == EINTR || errno == EWOULDBLOCK) continue; /* Wait for the rest of it */
+            return ERR_MSG_RECV;
         } else if(result == 0) {
             return ERR_DISCONNECTED;
         } else {
-- 
2.43.0


From 4d1db404200fdd72f68779b5183e81164dd8068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 35/39] fix: adding a tag that exists cached a wrong count and
 attributes

The server leaves a tag that has more items than asked for as it is, but
handles for these items were refused from then on.
---
 src/lib/libmsg.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 6e8019a..2d597f6 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -475,7 +475,6 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
 {
     int result;
     size_t size;
-    dax_tag tag;
     char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
@@ -518,14 +517,9 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
                 h->size = count * dax_get_typesize(ds, type);
             }
         }
-        strcpy(tag.name, name);
-        tag.idx = *(tag_index *)buff;
-        tag.type = type;
-        tag.count = count;
-        tag.attr = attr;
-        /* Just in case this call modifies the tag */
-        cache_tag_del(ds, tag.idx);
-        cache_tag_add(ds, &tag);
+        /* Just in case this call modifies the tag.  It is not cached here because
+         * a tag that was already there might be larger and have other attributes */
+        cache_tag_del(ds, *(tag_index *)buff);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
-- 
2.43.0


From 2ccad03bf56578206b7c06eb6362c465a8c0f0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 36/39] fix: dax_map_get() returned garbage handles on errors

---
 src/lib/libmsg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 2d597f6..45a8a49 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1555,6 +1555,7 @@ dax_map_get(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id id) {
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_MAP_GET, buff, &size, 1);
     pthread_mutex_unlock(&ds->lock);
+    if(result) return result;
 
     src->index = *(dax_dint *)buff;
     src->byte = *(dax_dint *)&buff[4];
-- 
2.43.0


From c32b2d58ef72da0be4cdca166884476aa5671912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 37/39] fix: dax_tag_byname() kept the lock when memory ran out

---
 src/lib/libmsg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 45a8a49..c71a106 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -584,7 +584,10 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
         /* We make buff big enough for the outgoing message and the incoming
            response message which would have 4 additional int32s */
         buff = malloc(size + 18);
-        if(buff == NULL) return ERR_ALLOC;
+        if(buff == NULL) {
+            pthread_mutex_unlock(&ds->lock);
+            return ERR_ALLOC;
+        }
         buff[0] = TAG_GET_NAME;
         strcpy(&buff[1], name);
         /* Send the message to the server.  Add 2 to the size for the subcommand and the NULL */
-- 
2.43.0


From f5ad4e6b55a4f4fcfc03c0ca3b91bab36ecc6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:08 +0000
Subject: [PATCH 38/39] fix: dax_cdt_get() overflowed its buffer with long
 names

---
 src/lib/libmsg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index c71a106..1155fff 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1428,6 +1428,7 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = sizeof(tag_type);
     if(name != NULL) {
+        if(strlen(name) > MSG_DATA_SIZE - 2) return ERR_2BIG;
         buff[0] = CDT_GET_NAME;
         size = strlen(name) + 1;
         strncpy(&(buff[1]), name, size); /* Pass the cdt name in this subcommand */
-- 
2.43.0


From 251989c1952fb357c2264eef4895ca3dc6109ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:51 +0000
Subject: [PATCH 39/39] fix: dax_event_add() overflowed its buffer with some
 compound types

The size of the data was taken from the index of the compound type.
---
 src/lib/libmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 1155fff..5570b05 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1187,7 +1187,7 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
     memcpy(&buff[20], &u_temp, 4);
     buff[24]=h->bit;                 /* Bit offset */
 
-    if(data != NULL) {
+    if(data != NULL && ! IS_CUSTOM(h->type)) {
         mtos_generic(h->type, &buff[25], data);
         size = 25 + TYPESIZE(h->type) / 8;
     } else {
-- 
2.43.0

