From 56eef868ef7c200337fd95fdbf848ebed1341fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:06 +0000
Subject: [PATCH 01/71] fix: only dispatch complete messages of a valid size
 and keep pipelined ones

buff_read() kept the read() result in an unsigned variable so errors were
never seen, dispatched a message one byte before it was complete, never
rejected an impossible length (the dispatcher then copied that many bytes
onto its stack) and threw away any message that followed in the same read.
---
 src/server/buffer.c  | 33 +++++++++++++++++++++------------
 src/server/message.c |  1 -
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..e92d0fd 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -137,8 +137,9 @@ int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
+    int retval = 0;
 
     node = find_buff_slot(fd);
 
@@ -152,6 +153,7 @@ buff_read(int fd)
     //--result = xread(fd, &node->buffer[node->index], size);
 
     if(result < 0) {
+        if(errno == EINTR || errno == EAGAIN) return 0; /* Try again later */
         dax_log(DAX_LOG_ERROR, "Unable to read data from socket %d", fd);
         return ERR_MSG_RECV;
     } if(result == 0) { /* EOF means the other guy is closed */
@@ -161,18 +163,25 @@ buff_read(int fd)
 
     node->index += result;
 
-    /* Check the size and let the caller know how it turns out. */
-    /* First four bytes of a message should always be the size of
-       the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+    /* Handle every complete message that is in the buffer.  What is left
+     * over is the beginning of the next message and stays in the buffer */
+    while(node->index >= (int)MSG_HDR_SIZE) {
+        /* First four bytes of a message should always be the size of
+           the message and it should be in network byte order */
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            /* There is no way to find the start of the next message */
+            buff_free(fd);
+            return size > DAX_MSGMAX ? ERR_2BIG : ERR_MSG_BAD;
+        }
+        if(node->index < (int)size) break; /* It's not all here yet */
+        result = msg_dispatcher(fd, node->buffer);
+        if(result) retval = result;
+        node->index -= size;
+        memmove(node->buffer, &node->buffer[size], node->index);
     }
-    return 0;
+    if(node->index == 0) buff_free(fd);
+    return retval;
 }
 
 /* TODO: Check boundary conditions where min_buffers = 0 or 1.  Shouldn't
diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..753e434 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -358,7 +358,6 @@ msg_dispatcher(int fd, unsigned char *buff)
     if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
-    buff_free(fd);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
-- 
2.43.0


From 9b812d681873cfcc9cea437da502b19cca08f164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 02/71] fix: validate request sizes and send exactly one
 truthful reply per request

The dispatcher copied any length onto its stack and left the rest of the
message uninitialised; strings were not terminated; tag and override reads
overran the reply buffer; event delete/option reported success for failures
and sent 8 bytes of a 4 byte variable; tag list, event get and unknown
commands were never answered; group requests of unregistered modules
dereferenced NULL; failed map requests stalled the receive loop.
---
 src/server/message.c | 118 ++++++++++++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 36 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 753e434..2115b3e 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -347,6 +347,7 @@ int
 msg_dispatcher(int fd, unsigned char *buff)
 {
     dax_message message;
+    int result;
 
     /* The first four bytes are the size and the size is always
      * sent in network order */
@@ -355,9 +356,16 @@ msg_dispatcher(int fd, unsigned char *buff)
      * byte order. */
     message.msg_type = ntohl(*(uint32_t *)&buff[4]);
 
-    if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
+    if(message.size > MSG_DATA_SIZE) return ERR_2BIG;
+    if(CHECK_COMMAND(message.msg_type)) {
+        result = ERR_MSG_BAD;
+        _message_send(fd, message.msg_type, &result, sizeof(result), ERROR);
+        return result;
+    }
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
+    /* A handler never sees anything that the module didn't send */
+    memset(&message.data[message.size], 0, MSG_DATA_SIZE - message.size);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
@@ -383,6 +391,7 @@ msg_mod_register(dax_message *msg)
     dax_time starttime;
 
     if(msg->size > 0) {
+        msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
         parint = ntohl(*((uint32_t *)&msg->data[0]));
@@ -395,7 +404,6 @@ msg_mod_register(dax_message *msg)
             if(!mod) {
                 result = ERR_NOTFOUND;
                 _message_send(msg->fd, MSG_MOD_REG, &result, sizeof(result) , ERROR);
-                return result;
             } else {
                 tag_read(-1, INDEX_STARTED, 0, &starttime, 4);
                 *((uint32_t *)&buff[0]) = (uint32_t)starttime;   /* The lower 32 bits of the servers start time is the ID */
@@ -433,6 +441,7 @@ msg_tag_add(dax_message *msg)
     type = *((uint32_t *)&msg->data[0]);
     count = *((uint32_t *)&msg->data[4]);
     attr = *((uint32_t *)&msg->data[8]);
+    msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
 
     dax_log(DAX_LOG_MSG, "Tag Add Message for '%s' from module %d, type 0x%X, count %d", &msg->data[12], msg->fd, type, count);
 
@@ -497,10 +506,9 @@ msg_tag_get(dax_message *msg)
         result = tag_get_name((char *)&msg->data[1], &tag);
         dax_log(DAX_LOG_MSG, "Tag Get Message from %d for name '%s'", msg->fd, (char *)msg->data);
     }
-    size = strlen(tag.name) + 15;
-    buff = alloca(size);
-    if(buff == NULL) result = ERR_ALLOC;
     if(!result) {
+        size = strlen(tag.name) + 15;
+        buff = alloca(size);
         *((uint32_t *)&buff[0]) = tag.idx;
         *((uint32_t *)&buff[4]) = tag.type;
         *((uint32_t *)&buff[8]) = tag.count;
@@ -519,7 +527,10 @@ msg_tag_get(dax_message *msg)
 int
 msg_tag_list(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
     dax_log(DAX_LOG_MSG, "Tag List Message from %d", msg->fd);
+    _message_send(msg->fd, MSG_TAG_LIST, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -541,7 +552,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size < 0 || size > (int)MSG_DATA_SIZE) {
+        result = ERR_2BIG; /* The data has to fit in one message */
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
@@ -658,10 +673,14 @@ msg_evnt_del(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Event Delete Message from %d", msg->fd);
 
-    result = event_del(idx, id, module);
+    if(module == NULL) {
+        result = ERR_GENERIC;
+    } else {
+        result = event_del(idx, id, module);
+    }
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result >= 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, &idx, sizeof(idx), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -671,6 +690,9 @@ msg_evnt_del(dax_message *msg)
 int
 msg_evnt_get(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
+    _message_send(msg->fd, MSG_EVNT_GET, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -689,10 +711,14 @@ msg_evnt_opt(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Event Set Option Message from %d", msg->fd);
 
-    result = event_opt(idx, id, options, module);
+    if(module == NULL) {
+        result = ERR_GENERIC;
+    } else {
+        result = event_opt(idx, id, options, module);
+    }
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result >= 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, &idx, sizeof(idx), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
@@ -815,7 +841,7 @@ msg_map_del(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_DEL, &result, sizeof(int), RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int msg_map_get(dax_message *msg)
@@ -832,25 +858,25 @@ int msg_map_get(dax_message *msg)
 
     result = map_get(&src, &dest, id.index, id.id);
 
-    *(dax_dint *)buff = src.index;
-    *(dax_dint *)&buff[4] = src.byte;
-    buff[8] = src.bit;
-    *(dax_dint *)&buff[9] = src.count;
-    *(dax_udint *)&buff[13] = src.size;
-    *(dax_dint *)&buff[17] = src.type;
-    *(dax_dint *)&buff[21] = dest.index;
-    *(dax_dint *)&buff[25] = dest.byte;
-    buff[29] = dest.bit;
-    *(dax_dint *)&buff[30] = dest.count;
-    *(dax_udint *)&buff[34] = dest.size;
-    *(dax_dint *)&buff[38] = dest.type;
-
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_MAP_GET, &result, sizeof(int), ERROR);
     } else {
+        bzero(buff, sizeof(buff));
+        *(dax_dint *)buff = src.index;
+        *(dax_dint *)&buff[4] = src.byte;
+        buff[8] = src.bit;
+        *(dax_dint *)&buff[9] = src.count;
+        *(dax_udint *)&buff[13] = src.size;
+        *(dax_dint *)&buff[17] = src.type;
+        *(dax_dint *)&buff[21] = dest.index;
+        *(dax_dint *)&buff[25] = dest.byte;
+        buff[29] = dest.bit;
+        *(dax_dint *)&buff[30] = dest.count;
+        *(dax_udint *)&buff[34] = dest.size;
+        *(dax_dint *)&buff[38] = dest.type;
         _message_send(msg->fd, MSG_MAP_GET, &buff, sizeof(tag_handle) * 2, RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int
@@ -862,11 +888,15 @@ msg_group_add(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     count = msg->data[0];
     //options = msg->data[1]; /* Might use this in the future to indicate maskable groups */
-    id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    if(mod == NULL) {
+        id = ERR_GENERIC; /* Only registered modules have groups */
+    } else {
+        id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    }
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message from %d Returning Error %d", msg->fd, id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
@@ -882,10 +912,14 @@ msg_group_del(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_del(mod, index);
+    if(mod == NULL) {
+        result = ERR_GENERIC; /* Only registered modules have groups */
+    } else {
+        result = group_del(mod, index);
+    }
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message from %d Returning Error %d", msg->fd, result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
@@ -902,10 +936,14 @@ msg_group_read(dax_message *msg) {
 
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
-    result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
+    if(mod == NULL) {
+        result = ERR_GENERIC; /* Only registered modules have groups */
+    } else {
+        result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
+    }
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message from %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
@@ -922,10 +960,14 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    if(mod == NULL) {
+        result = ERR_GENERIC; /* Only registered modules have groups */
+    } else {
+        result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    }
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message from %d Returning Error %d", msg->fd, result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
         dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
@@ -1025,7 +1067,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > (int)(MSG_DATA_SIZE / 2)) {
+        result = ERR_2BIG; /* Both the data and the mask have to fit in one message */
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
-- 
2.43.0


From 998fe47ac9e13895139c4490485736cc5e7c7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:54 +0000
Subject: [PATCH 03/71] fix: bounds check tag index, offset and size without
 overflow

The attribute queries and the masked write used the index before checking
it, and offset + size could wrap or be negative.
---
 src/server/tagbase.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..236e9be 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -128,6 +128,17 @@ tag_get_size(tag_index idx)
         return type_size(_db[idx].type)  * _db[idx].count;
 }
 
+/* Checks that the size bytes at offset are all within the tag.  The index
+ * has to be good.  Returns zero if they are. */
+static int
+_check_range(tag_index idx, int offset, int size)
+{
+    if(offset < 0 || size < 0 || size > tag_get_size(idx) || offset > tag_get_size(idx) - size) {
+        return ERR_2BIG;
+    }
+    return 0;
+}
+
 /* Determine whether or not the tag name is okay */
 static int
 _validate_name(char *name)
@@ -579,12 +590,14 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 
 int
 tag_set_attribute(tag_index index, uint32_t attr) {
+    if(index < 0 || index >= _tagnextindex) return ERR_ARG;
     _db[index].attr |= attr;
     return 0;
 }
 
 int
 tag_clr_attribute(tag_index index, uint32_t attr) {
+    if(index < 0 || index >= _tagnextindex) return ERR_ARG;
     _db[index].attr &= ~attr;
     return 0;
 }
@@ -703,23 +716,27 @@ get_tagindex(void) {
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
@@ -753,7 +770,7 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(_check_range(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -799,7 +816,7 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(_check_range(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -828,15 +845,15 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
+    if(_check_range(idx, offset, size)) {
         return ERR_2BIG;
     }
     if(_db[idx].data == NULL) {
-- 
2.43.0


From 85b15d8a33f0e420b08aac8458df223053c94c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 04/71] fix: keep tag overrides inside the tag and clean them
 up

Override storage was sized 0 for BOOL tags, only partly zeroed, allocated
before the bounds check, deleted without one, read at the wrong offset or
through NULL, left behind when the tag was deleted, and the count of set
overrides was never decremented when the last override was removed.
---
 src/server/tagbase.c | 65 +++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 236e9be..c3c18ff 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -58,6 +58,7 @@ static unsigned int _datatype_size;
 
 
 /* Private function definitions */
+static void _override_remove(tag_index idx);
 
 /* These functions are convienience for setting status tags */
 void
@@ -632,6 +633,7 @@ tag_del(tag_index idx)
     if(_db[idx].attr & TAG_ATTR_RETAIN) {
         ret_del_tag(idx);
     }
+    _override_remove(idx);
     events_del_all(_db[idx].events);
     _db[idx].events = NULL;
     map_del_all(_db[idx].mappings);
@@ -1242,7 +1244,13 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) {
+        return ERR_ILLEGAL; /* There is no data to override */
+    }
+    if(_check_range(idx, offset, size)) {
+        return ERR_2BIG;
+    }
+    tag_size = tag_get_size(idx);
 
     if(_db[idx].odata == NULL) {
         _db[idx].odata = malloc(tag_size);
@@ -1254,10 +1262,9 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
+        bzero(_db[idx].odata, tag_size);
+        bzero(_db[idx].omask, tag_size);
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
     memcpy(&_db[idx].odata[offset], data, size);
     memcpy(&_db[idx].omask[offset], mask, size);
 
@@ -1274,6 +1281,25 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     return 0;
 }
 
+/* Removes everything about the override of the given tag */
+static void
+_override_remove(tag_index idx) {
+    /* Counts the override as not set anymore */
+    override_set(idx, 0);
+    if(_db[idx].attr & TAG_ATTR_OVERRIDE) {
+        _ovrdinstalled--;
+        if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
+            tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+        }
+    }
+    /* Remove both of the flags that indicate we have an override installed or set */
+    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
+    xfree(_db[idx].odata);
+    _db[idx].odata = NULL;
+    xfree(_db[idx].omask);
+    _db[idx].omask = NULL;
+}
+
 int
 override_del(tag_index idx, int offset, void *mask, int size) {
     int tag_size;
@@ -1285,30 +1311,23 @@ override_del(tag_index idx, int offset, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
+    if(_check_range(idx, offset, size)) {
+        return ERR_2BIG;
+    }
     for(n=0;n<size;n++) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
-    /* Remove both of the flags that indicate we have an override installed or set */
-    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
      * tag so we'll free the memory */
-    _ovrdinstalled--;
-    if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
-        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
-    }
-    xfree(_db[idx].odata);
-    _db[idx].odata = NULL;
-    xfree(_db[idx].omask);
-    _db[idx].omask = NULL;
+    _override_remove(idx);
 
     return 0;
 }
@@ -1316,18 +1335,20 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
-
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
+    if(_db[idx].omask == NULL) {
+        return ERR_GENERIC;
+    }
+    if(_check_range(idx, offset, size)) {
+        return ERR_2BIG;
+    }
+    memcpy(data, &_db[idx].data[offset], size);
+    memcpy(mask, &_db[idx].omask[offset], size);
     return 0;
 }
 
-- 
2.43.0


From 61820741cc3d1ec2fb024cf49dfd490e61852dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 05/71] fix: tag creation keeps the database consistent and in
 bounds

Growing a tag left the new bytes uninitialised and broke queue and
overridden tags, the size computation could wrap, the tag descriptor was
cleared and filled past its end, a failed queue allocation was ignored, and
growing the database lost the old array on failure and left new entries
uninitialised.
---
 src/server/tagbase.c | 60 ++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index c3c18ff..c026712 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -209,24 +209,17 @@ _database_grow(void)
     _dax_tag_index *new_index;
     _dax_tag_db *new_db;
 
+    /* If only one of these gets bigger that is okay.  The old pointer is no
+     * good once xrealloc() has succeeded so it has to be replaced right away */
     new_index = xrealloc(_index, (_dbsize *2) * sizeof(_dax_tag_index));
+    if(new_index == NULL) return ERR_ALLOC;
+    _index = new_index;
     new_db = xrealloc(_db, (_dbsize *2) * sizeof(_dax_tag_db));
-
-    if(new_index != NULL && new_db != NULL) {
-        _index = new_index;
-        _db = new_db;
-        _dbsize *= 2;
-        return 0;
-    } else {
-        /* This is to shrink the one that didn't get allocated
-         so that they won't be lop sided */
-        if(new_index)
-            _index = xrealloc(_index, _dbsize * sizeof(_dax_tag_index));
-        if(new_db)
-            _db = xrealloc(_db, _dbsize * sizeof(_dax_tag_db));
-
-        return ERR_ALLOC;
-    }
+    if(new_db == NULL) return ERR_ALLOC;
+    _db = new_db;
+    memset(&_db[_dbsize], 0, _dbsize * sizeof(_dax_tag_db));
+    _dbsize *= 2;
+    return 0;
 }
 
 
@@ -327,8 +320,8 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     vf.userdata = (uint8_t *)q;
     _db[idx].data = malloc(sizeof(virt_functions));
     if(_db[idx].data == NULL) {
-        free(q);
         free(q->queue);
+        free(q);
         return ERR_ALLOC;
     }
     memcpy(_db[idx].data, &vf, sizeof(virt_functions));
@@ -349,6 +342,7 @@ virtual_tag_add(char *name, tag_type type, unsigned int count, vfunction *rf, vf
     virt_functions vf;
 
     idx = tag_add(-1, name, type, count, 0);
+    if(idx < 0) return idx;
     /* We just allocated this data but that was just for convenience */
     free(_db[idx].data);
     vf.rf = rf;
@@ -379,7 +373,7 @@ initialize_tagbase(void)
     /* Allocate the primary database */
     _index = (_dax_tag_index *)xmalloc(sizeof(_dax_tag_index)
             * DAX_TAGLIST_SIZE);
-    if(!_db) {
+    if(!_index) {
         dax_log(DAX_LOG_FATAL, "Unable to allocate the database");
         kill(getpid(), SIGQUIT);
     }
@@ -465,7 +459,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 {
     int n;
     void *newdata;
-    unsigned int size;
+    unsigned int size, oldsize;
     int result;
     uint8_t tag_desc[47];
 
@@ -497,6 +491,11 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         size = count / 8 + 1;
     } else {
         size = type_size(type) * count;
+        /* The size of a tag has to be representable */
+        if((uint64_t)type_size(type) * count > INT_MAX) {
+            dax_log(DAX_LOG_MSGERR, "tag_add() count %u is too large for tag %s", count, name);
+            return ERR_2BIG;
+        }
     }
 
     /* Check for an existing tagname in the database */
@@ -511,8 +510,14 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         } else if(_db[n].type == type && _db[n].count < count) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
+            if(_db[n].attr & (TAG_ATTR_VIRTUAL | TAG_ATTR_OVERRIDE)) {
+                /* These keep more than just the data */
+                return ERR_ILLEGAL;
+            }
             newdata = xrealloc(_db[n].data, size);
             if(newdata) {
+                oldsize = tag_get_size(n);
+                memset((uint8_t *)newdata + oldsize, 0, size - oldsize);
                 _db[n].data = newdata;
                 _db[n].count = count;
                 _set_attribute(n, attr);
@@ -534,11 +539,17 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     /* Assign everything to the new tag, copy the string and git */
     _db[n].count = count;
     _db[n].type = type;
+    _db[n].attr = 0;
+    _db[n].mappings = NULL;
 
     /* If the type is a queue the data area will be allocated in the
      * queue_add() function instead of here */
     if(IS_QUEUE(type)) {
-        _queue_add(n, type, count);
+        result = _queue_add(n, type, count);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to allocate memory for tag %s", name);
+            return result;
+        }
     } else {
         /* Allocate the data area */
         if((_db[n].data = xmalloc(size)) == NULL){
@@ -558,6 +569,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     if(_add_index(name, n)) {
         /* free up our previous allocation if we can't put this in the __index */
         free(_db[n].data);
+        _db[n].data = NULL;
         dax_log(DAX_LOG_ERROR, "Unable to allocate data for the tag database index");
         return ERR_ALLOC;
     }
@@ -576,12 +588,12 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = n;
     *((tag_type *)&tag_desc[4]) = type;
     *((dax_udint *)&tag_desc[8]) = count;
     *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
@@ -642,12 +654,12 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = idx;
     *((tag_type *)&tag_desc[4]) = _db[idx].type;
     *((dax_udint *)&tag_desc[8]) = _db[idx].count;
     *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
+    strncpy((char *)&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE);
     tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
 
     xfree(_db[idx].name);
-- 
2.43.0


From 8742fbb71d649e999cf8bec6c032d7eeeabb951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 06/71] fix: creating a datatype always reports a result and
 bad ones are refused

cdt_create() crashed on a definition without a name or one named like a
base type, left the error unset and leaked when the type already existed,
accepted member counts below one, and looked types up past the end of the
table; a queue of a compound type indexed the table with the queue bit, and
a member of an empty type aborted the server.
---
 src/libcommon.h      |  2 +-
 src/server/tagbase.c | 28 +++++++++++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/libcommon.h b/src/libcommon.h
index c2d8199..a812c28 100644
--- a/src/libcommon.h
+++ b/src/libcommon.h
@@ -88,7 +88,7 @@
 #define CDT_GET_TYPE    0x02 /* Retrieve the type by it's type */
 
 /* Some Macros for manipulating CDT types */
-#define CDT_TO_INDEX(TYPE) (TYPE & ~DAX_CUSTOM)
+#define CDT_TO_INDEX(TYPE) ((TYPE) & ~(DAX_CUSTOM | DAX_QUEUE))
 #define CDT_TO_TYPE(INDEX) (INDEX | DAX_CUSTOM)
 
 /* Maximum size allowed for a single message */
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index c026712..3e3e926 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -929,6 +929,7 @@ cdt_append(datatype *cdt, char *str)
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
     count = strtol(countstr, NULL, 0);
+    if(count <= 0) return ERR_ARG;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -1007,6 +1008,11 @@ cdt_create(char *str, int *error) {
      * and that is okay because the calling function doesn't need it anymore
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
+    if(name == NULL) {
+        if(error != NULL) *error = ERR_ARG;
+        free(tmp);
+        return 0;
+    }
     /* Check that the name is okay */
     if( (result = _validate_name(name)) ) {
         if(error != NULL) *error = result;
@@ -1014,13 +1020,19 @@ cdt_create(char *str, int *error) {
         return 0;
     }
     if((type = cdt_get_type(name))) {
-        serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
+        free(tmp);
+        result = serialize_datatype(type, &serial);
+        if(result < 0) { /* The name of a built in type */
+            if(error != NULL) *error = result == ERR_ALLOC ? ERR_ALLOC : ERR_DUPL;
+            return 0;
+        }
+        result = strcmp(serial, str);
+        free(serial);
+        if(result) { /* This means the two CDT's are not equal */
             if(error != NULL) *error = ERR_DUPL;
-            free(tmp);
             return 0;
         } else { /* If it's the same then just return it */
-            free(tmp);
+            if(error != NULL) *error = 0;
             return type;
         }
     }
@@ -1028,6 +1040,7 @@ cdt_create(char *str, int *error) {
     cdt.name = strdup(name);
     if(cdt.name == NULL) {
         if(error != NULL) *error = ERR_ALLOC;
+        free(tmp);
         return 0;
     }
     cdt.members = NULL;
@@ -1052,6 +1065,7 @@ cdt_create(char *str, int *error) {
             _datatypes = new_datatype;
             _datatype_size += DAX_DATATYPE_SIZE;
         } else {
+            _cdt_destroy(&cdt);
             if(error) *error = ERR_ALLOC;
             return 0;
         }
@@ -1178,7 +1192,7 @@ cdt_get_entry(tag_type type) {
     int index;
 
     index = CDT_TO_INDEX(type);
-    if(IS_CUSTOM(type) && index > 0 && index < _datatype_size) {
+    if(IS_CUSTOM(type) && index >= 0 && index < _datatype_index) {
         return &_datatypes[index];
     } else {
         return NULL;
@@ -1409,7 +1423,7 @@ serialize_datatype(tag_type type, char **str)
 
     cdt_index = CDT_TO_INDEX(type);
 
-    if(cdt_index < 0 || cdt_index >= _datatype_index) {
+    if(!IS_CUSTOM(type) || cdt_index < 0 || cdt_index >= _datatype_index) {
         return ERR_ARG;
     }
 
@@ -1477,7 +1491,7 @@ type_size(tag_type type)
                 }
                 if(IS_CUSTOM(this->type)) {
                     result = type_size(this->type);
-                    assert(result > 0); /* The types within other types should be okay */
+                    if(result < 0) return result;
                     pos += (result * this->count) * 8;
                 } else {
                     /* This gets the size in bits */
-- 
2.43.0


From af84e7dab7e026f3add77119c2e22bdcb3f124f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 07/71] fix: keep mappings inside their tags and delete them
 safely

Offsets could wrap past the size check, bits could overrun the mask when
the destination starts at a higher bit, map_del() crashed on an empty list,
unlinked the wrong node and never cleared the flag, and map_check() used a
mapping after deleting it.
---
 src/server/mapping.c | 64 +++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..0b970a3 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -32,6 +32,7 @@ _new_map(tag_handle src, tag_handle dest)
     _dax_datamap *new;
 
     new = (_dax_datamap *)malloc(sizeof(_dax_datamap));
+    if(new == NULL) return NULL;
     new->id = _db[src.index].nextmap++;
     new->source = src;
     new->dest = dest;
@@ -79,6 +80,9 @@ map_add(tag_handle src, tag_handle dest)
        dax_log(DAX_LOG_ERROR, "Destination tag index %d for new mapping is out of bounds", dest.index);
        return ERR_ARG;
     }
+    if(_db[src.index].data == NULL || _db[dest.index].data == NULL) {
+        return ERR_DELETED;
+    }
     if(is_tag_virtual(src.index)){
         return ERR_ILLEGAL;
     }
@@ -90,12 +94,12 @@ map_add(tag_handle src, tag_handle dest)
        return ERR_READONLY;
     }
     /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
+    if( src.size > tag_get_size(src.index) || src.byte > tag_get_size(src.index) - src.size) {
         dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
         return ERR_2BIG;
     }
     /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
+    if( dest.size > tag_get_size(dest.index) || dest.byte > tag_get_size(dest.index) - dest.size) {
         dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
         return ERR_2BIG;
     }
@@ -103,6 +107,12 @@ map_add(tag_handle src, tag_handle dest)
         dax_log(DAX_LOG_ERROR, "Size of the source data in the new mapping is too large");
         return ERR_2BIG;
     }
+    /* If we are mapping bits then they all have to be within the data */
+    if(src.type == DAX_BOOL && (src.bit > 7 || dest.bit > 7 || src.count > src.size * 8 ||
+       src.bit + src.count > src.size * 8 || dest.bit + src.count > dest.size * 8)) {
+        dax_log(DAX_LOG_ERROR, "Number of bits in the new mapping is too large");
+        return ERR_2BIG;
+    }
     /* Check for duplicates */
     this = _db[src.index].mappings;
     while(this != NULL) {
@@ -114,6 +124,7 @@ map_add(tag_handle src, tag_handle dest)
     }
 
     new_map = _new_map(src, dest);
+    if(new_map == NULL) return ERR_ALLOC;
 
     if(src.type == DAX_BOOL) {
         /* This basically creates a mask to write the bits that we want.
@@ -123,8 +134,12 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
+        mask = (uint8_t *)malloc(dest.size);
+        if(mask == NULL) {
+            _free_map(new_map);
+            return ERR_ALLOC;
+        }
+        bzero(mask, dest.size);
         for(int i=0; i<src.count; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
@@ -151,25 +166,23 @@ map_del(tag_index index, int id) {
         return ERR_ARG;
     }
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
-        prev = this;
-        this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
+    prev = NULL;
+    while(this != NULL) {
+        if(this->id == id) {  /* Found it */
+            if(prev == NULL) {
+                _db[index].mappings = this->next;
+            } else {
                 prev->next = this->next;
-                _free_map(this);
-                return 0;
             }
-            this = this->next;
+            _free_map(this);
+            /* If there are no more mappings reset the attribute flag */
+            if(_db[index].mappings == NULL) {
+                _db[index].attr &= ~TAG_ATTR_MAPPING;
+            }
+            return 0;
         }
-    }
-    /* If there are no more mappings reset the attribute flag */
-    if(_db[index].mappings == NULL) {
-        _db[index].attr &= ~TAG_ATTR_MAPPING;
+        prev = this;
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -210,7 +223,7 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
     int srcByte;
     int srcBit;
@@ -222,6 +235,7 @@ map_check(tag_index idx, int offset, int size) {
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
+        next = this->next; /* This map might get deleted below */
 
         if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
@@ -233,12 +247,12 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                new_data = (uint8_t *)malloc(this->dest.size);
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
+                bzero(new_data, this->dest.size);
                 for(int n=0; n<this->source.count; n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
@@ -254,7 +268,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->dest.size);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
@@ -269,7 +283,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
-- 
2.43.0


From fb87a1834f6fb9f526dba47aad45416a33850184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:17 +0000
Subject: [PATCH 08/71] fix: group requests obey bounds, access rights and
 mappings

Group numbers were not checked, deleting a group shrank the array, member
sizes could wrap the total, a group write ignored read only tags and was
made anonymously, and mappings were not updated.
---
 src/server/groups.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..2dff7b4 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -79,7 +79,8 @@ _group_add(dax_module *mod) {
  */
 int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
-    int index, datasize, offset;
+    int index, offset;
+    uint32_t datasize;
 
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
@@ -97,14 +98,15 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
         memcpy(&mod->tag_groups[index].members[n].size, &handles[offset+13], 4);
         memcpy(&mod->tag_groups[index].members[n].type, &handles[offset+17], 4);
 
-        datasize += mod->tag_groups[index].members[n].size;
-        if(datasize > MSG_TAG_GROUP_DATA_SIZE) {
+        if(mod->tag_groups[index].members[n].size > MSG_TAG_GROUP_DATA_SIZE - datasize) {
             free(mod->tag_groups[index].members);
             mod->tag_groups[index].members = NULL;
             return ERR_2BIG;
         }
+        datasize += mod->tag_groups[index].members[n].size;
     }
 
+    mod->tag_groups[index].size = datasize;
     mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
     mod->tag_groups[index].count = count;
     dax_log(DAX_LOG_MSG, "Group Add message from %s", mod->name);
@@ -115,12 +117,13 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
 /* Deletes a single tag group from the given module */
 int
 group_del(dax_module *mod, int index) {
+    if(index < 0 || index >= mod->groups_size) return ERR_NOTFOUND;
     if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
 
     free(mod->tag_groups[index].members);
+    mod->tag_groups[index].members = NULL;
     mod->tag_groups[index].flags = 0x00;
     mod->tag_groups[index].count = 0;
-    mod->groups_size--;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
@@ -132,11 +135,13 @@ group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
 
+    if(index >= mod->groups_size) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        if(group->members[n].size > (uint32_t)(size - offset)) return ERR_2BIG;
+        result = tag_read(mod->fd, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
         offset += group->members[n].size;
     }
@@ -150,11 +155,17 @@ group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
     int n, offset=0, result;
     tag_group *group;
 
+    if(index >= mod->groups_size) return ERR_NOTFOUND;
     group = &mod->tag_groups[index];
     if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        if(group->members[n].size > MSG_TAG_GROUP_DATA_SIZE - offset) return ERR_2BIG;
+        if(is_tag_readonly(group->members[n].index) && ! is_tag_owned(mod->fd, group->members[n].index)) {
+            return ERR_READONLY;
+        }
+        result = tag_write(mod->fd, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
         if(result) return result;
+        map_check(group->members[n].index, group->members[n].byte, group->members[n].size);
         offset += group->members[n].size;
     }
     return offset;
-- 
2.43.0


From f0c4cfdf0708bdf7534793162280e02c3d16b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 09/71] fix: unregistering a module without a tag does not
 delete a system tag

An excluded module has no tag and tag index zero is _tagcount.  Also don't
write through the error code when the module tag can't be added.
---
 src/server/module.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..2a2af11 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -258,10 +258,10 @@ module_register(char *name, uint32_t timeout, int fd)
             if(result==0) {
                 if(_mod_uuid < 1000) {
                     x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -3);
-                    sprintf(&tagname[x], "%03d", _mod_uuid++);
+                    snprintf(&tagname[x], sizeof(tagname) - x, "%03d", _mod_uuid++);
                 } else {
                     x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -5);
-                    sprintf(&tagname[x], "%05d", _mod_uuid++);
+                    snprintf(&tagname[x], sizeof(tagname) - x, "%05d", _mod_uuid++);
                 }
                 dax_log(DAX_LOG_WARN, "Duplicate module name.  Module tag being modified - %s", tagname);
             }
@@ -270,13 +270,13 @@ module_register(char *name, uint32_t timeout, int fd)
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
             } else {
                 mod->tagindex = result;
+                starttime = xtime();
+                tag_write(-1, result, 0, &starttime, sizeof(dax_time));
+                tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
+                /* We wait until after we have written what we want to set the special flag.
+                From now on we'll let the special functions handle the tag */
+                tag_set_attribute(result, TAG_ATTR_SPECIAL);
             }
-            starttime = xtime();
-            tag_write(-1, result, 0, &starttime, sizeof(dax_time));
-            tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
-            /* We wait until after we have written what we want to set the special flag.
-            From now on we'll let the special functions handle the tag */
-            tag_set_attribute(result, TAG_ATTR_SPECIAL);
             tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
         }
     } else {
@@ -307,7 +307,8 @@ module_unregister(int fd)
                 tag_del(n);
             }
         }
-        tag_del(mod->tagindex);
+        /* Not every module has a tag */
+        if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
-- 
2.43.0


From f4d5f2af0ec7460d42591d4d9a1aeae9d3d31fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:24 +0000
Subject: [PATCH 10/71] fix: virtual tag reads obey offset and size, growing a
 queue keeps its items

_time and _my_tagname ignored the requested size, a queue read always copied
a whole item, and a grown queue had uninitialised and duplicated slots.
---
 src/server/virtualtag.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..0a5db04 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -53,8 +53,9 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
 {
     dax_time t;
 
+    if(offset < 0 || size < 0 || offset > (int)sizeof(t) || size > (int)sizeof(t) - offset) return ERR_2BIG;
     t = xtime();
-    memcpy(data, &t, size);
+    memcpy(data, (uint8_t *)&t + offset, size);
     return 0;
 }
 
@@ -63,13 +64,16 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     int result;
     dax_tag tag;
     dax_module *mod;
+    char name[DAX_TAGNAME_SIZE + 1];
 
+    if(offset < 0 || size < 0 || offset > (int)sizeof(name) || size > (int)sizeof(name) - offset) return ERR_2BIG;
     mod = module_find_fd(fd);
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    bzero(name, sizeof(name));
+    strncpy(name, tag.name, DAX_TAGNAME_SIZE);
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
@@ -94,8 +98,11 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         q->queue = (void **)new_queue;
         /* After the queue size is increased we need to move the fragment that is now
          * at the beginning of the queue to the start of the new area */
+        bzero(&q->queue[q->qsize], (newqsize - q->qsize)*sizeof(void *));
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
+            /* These items have moved so there is nothing here anymore */
+            bzero(&q->queue[0], q->qread*sizeof(void *));
         }
         q->qsize = newqsize;
     }
@@ -117,6 +124,7 @@ read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userda
     tag_queue *q;
 
     q = (tag_queue *)userdata;
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From 53c0d992cb3d28b284bbc4e4ddf0ff5846499dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:12 +0000
Subject: [PATCH 11/71] fix: atomic operations stay inside their handle and use
 their own operand

The size check compared bytes with bits, operands were read at the tag's
offset, NOR/NAND/XNOR on bits changed bytes of the tag outside the handle,
the bit masks were wrong when a handle ended on a byte boundary or fit in
one byte, and TIME was treated as 32 bits.
---
 src/server/atomic.c | 206 +++++++++++++++-----------------------------
 1 file changed, 68 insertions(+), 138 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..ce364d1 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -38,10 +38,31 @@ _left_shift(dax_byte *dest, dax_byte *src, size_t size, uint8_t bit) {
 }
 
 
+/* Puts the operand in temp so that it lines up with the tag data and sets
+ * the bits of mask that are part of the handle.  Both are h.size long */
+static void
+_get_operand(dax_byte *temp, dax_byte *mask, tag_handle h, dax_byte *data) {
+    if(h.type == DAX_BOOL) {
+        _left_shift(temp, data, h.size, h.bit);
+        for(int n=0; n<h.size; n++) {
+            mask[n] = 0xFF;
+            if(n == 0) mask[n] &= 0xFF << h.bit;
+            if(n == h.size-1) mask[n] &= 0xFF >> (h.size * 8 - h.bit - h.count);
+        }
+    } else {
+        for(int n=0; n<h.size; n++) {
+            temp[n] = data[n];
+            mask[n] = 0xFF;
+        }
+    }
+}
+
+
 static int
 _atomic_inc(tag_handle h, void *data) {
     /* We only operate on one member at a time */
     if(h.count != 1) return ERR_ILLEGAL;
+    if(h.size < TYPESIZE(h.type) / 8) return ERR_ARG;
     switch(h.type) {
         case DAX_BYTE:
             *(dax_byte *)&_db[h.index].data[h.byte] += *(dax_byte *)data;
@@ -59,7 +80,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -67,6 +87,7 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_ULINT:
         case DAX_LWORD:
+        case DAX_TIME:
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
@@ -86,6 +107,7 @@ static int
 _atomic_dec(tag_handle h, void *data) {
     /* We only operate on one member at a time */
     if(h.count != 1) return ERR_ILLEGAL;
+    if(h.size < TYPESIZE(h.type) / 8) return ERR_ARG;
     switch(h.type) {
         case DAX_BYTE:
             *(dax_byte *)&_db[h.index].data[h.byte] -= *(dax_byte *)data;
@@ -103,7 +125,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -111,6 +132,7 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_ULINT:
         case DAX_LWORD:
+        case DAX_TIME:
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
@@ -158,27 +180,14 @@ _atomic_not(tag_handle h, void *data) {
 static int
 _atomic_or(tag_handle h, void *data) {
     int n;
-    dax_byte temp[h.size];
-    dax_byte hmask, lmask;
+    dax_byte temp[h.size], mask[h.size];
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
-    } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        _left_shift(temp, data, h.size, h.bit);
-
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[h.size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
-        for(n=0; n<h.size; n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
-        }
-    } else {
-        for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
-        }
+    }
+    _get_operand(temp, mask, h, data);
+    for(n=0; n<h.size; n++) {
+        _db[h.index].data[h.byte+n] |= temp[n] & mask[n];
     }
     return 0;
 }
@@ -187,26 +196,14 @@ _atomic_or(tag_handle h, void *data) {
 static int
 _atomic_and(tag_handle h, void *data) {
     int n;
-    dax_byte temp[h.size];
-    dax_byte hmask, lmask;
+    dax_byte temp[h.size], mask[h.size];
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
-    } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[h.size-1] |= hmask;
-        temp[0]      |= lmask;
-
-        for(n=0; n<h.size; n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
-        }
-    } else {
-        for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
-        }
+    }
+    _get_operand(temp, mask, h, data);
+    for(n=0; n<h.size; n++) {
+        _db[h.index].data[h.byte+n] &= temp[n] | ~mask[n];
     }
     return 0;
 }
@@ -215,40 +212,16 @@ _atomic_and(tag_handle h, void *data) {
 static int
 _atomic_nor(tag_handle h, void *data) {
     int n;
-    dax_byte temp[h.size];
-    dax_byte hmask, lmask;
-    size_t size;
+    dax_byte temp[h.size], mask[h.size];
+    dax_byte x;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
-    } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        size = h.size;
-        _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
-        /* To do the NOR with our mask we first apply the mask just like
-           with the OR.  Then XOR the middle bytes with 0xFF to toggle them
-           which makes it a NOR and then we do the same thing to the first
-           and last bytes except with the compliment of the mask.  This
-           keeps the bits that are outside of our range and then toggles
-           the ones that are inside the range. */
-        for(n=0;n< size;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
-        }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
-
-    } else {
-        for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
-        }
+    }
+    _get_operand(temp, mask, h, data);
+    for(n=0; n<h.size; n++) {
+        x = ~(_db[h.index].data[h.byte+n] | temp[n]);
+        _db[h.index].data[h.byte+n] = (x & mask[n]) | (_db[h.index].data[h.byte+n] & ~mask[n]);
     }
     return 0;
 }
@@ -257,33 +230,16 @@ _atomic_nor(tag_handle h, void *data) {
 static int
 _atomic_nand(tag_handle h, void *data) {
     int n;
-    dax_byte temp[h.size];
-    dax_byte hmask, lmask;
-    size_t size;
+    dax_byte temp[h.size], mask[h.size];
+    dax_byte x;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
-    } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        size = h.size;
-        _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[size-1] |= hmask;
-        temp[0]      |= lmask;
-
-        for(n=0;n< size;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
-        }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
-    } else {
-        for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
-        }
+    }
+    _get_operand(temp, mask, h, data);
+    for(n=0; n<h.size; n++) {
+        x = ~(_db[h.index].data[h.byte+n] & temp[n]);
+        _db[h.index].data[h.byte+n] = (x & mask[n]) | (_db[h.index].data[h.byte+n] & ~mask[n]);
     }
     return 0;
 }
@@ -292,27 +248,14 @@ _atomic_nand(tag_handle h, void *data) {
 static int
 _atomic_xor(tag_handle h, void *data) {
     int n;
-    dax_byte temp[h.size];
-    dax_byte hmask, lmask;
+    dax_byte temp[h.size], mask[h.size];
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
-    } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        _left_shift(temp, data, h.size, h.bit);
-
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[h.size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
-        for(n=0; n<h.size; n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
-        }
-    } else {
-        for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
-        }
+    }
+    _get_operand(temp, mask, h, data);
+    for(n=0; n<h.size; n++) {
+        _db[h.index].data[h.byte+n] ^= temp[n] & mask[n];
     }
     return 0;
 }
@@ -320,34 +263,16 @@ _atomic_xor(tag_handle h, void *data) {
 static int
 _atomic_xnor(tag_handle h, void *data) {
     int n;
-    dax_byte temp[h.size];
-    dax_byte hmask, lmask;
-    size_t size;
+    dax_byte temp[h.size], mask[h.size];
+    dax_byte x;
 
     if(h.type == DAX_REAL || h.type == DAX_LREAL) {
         return ERR_BADTYPE;
-    } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
-        size = h.size;
-        _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
-        lmask = 0xFF >> (8-h.bit);
-
-        temp[size-1] &= ~hmask;
-        temp[0]      &= ~lmask;
-
-        for(n=0;n< size;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
-        }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
-
-    } else {
-        for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
-        }
+    }
+    _get_operand(temp, mask, h, data);
+    for(n=0; n<h.size; n++) {
+        x = ~(_db[h.index].data[h.byte+n] ^ temp[n]);
+        _db[h.index].data[h.byte+n] = (x & mask[n]) | (_db[h.index].data[h.byte+n] & ~mask[n]);
     }
     return 0;
 }
@@ -364,11 +289,16 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(h.index < 0 || h.index >= get_tagindex()) {
         return ERR_ARG;
     }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
+    /* Bounds Check Size */
+    if(h.size > tag_get_size(h.index) || h.byte > tag_get_size(h.index) - h.size) {
         return ERR_2BIG;
     }
+    if(h.size == 0) return ERR_ARG;
+    /* The bits have to end in the last byte of the handle */
+    if(h.type == DAX_BOOL && (h.bit > 7 || h.count == 0 || h.count > h.size * 8 ||
+       (h.bit + h.count - 1) / 8 + 1 != h.size)) {
+        return ERR_ARG;
+    }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
        special tags.*/
     if(_db[h.index].attr & (TAG_ATTR_VIRTUAL | TAG_ATTR_SPECIAL)) {
-- 
2.43.0


From 8f0de23a9e44534fc09da0ef82e97af3309f7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 12/71] fix: events stay inside their tag and survive deletion

Event handles could wrap past the size check or be put on deleted tags, the
queue size was looked up with the type as tag index, the state area was too
small for handles that start inside a byte, partial writes were compared
past the end of the data, an invalid type aborted the server, TIME was
compared as 32 bits, the deadband difference overflowed, deleting the first
event used freed memory and reported not found, and cleaning up a module's
events walked freed nodes or stopped early.
---
 src/server/events.c | 142 +++++++++++++++++++++++---------------------
 1 file changed, 74 insertions(+), 68 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..0bd61b9 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -36,19 +36,22 @@ _send_event(tag_index idx, _dax_event *event)
     int result;
     char buff[DAX_MSGMAX];
     uint32_t msgsize;
+    int send_data;
 
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    /* The data of a virtual tag (a queue) isn't stored in the database */
+    send_data = (event->options & EVENT_OPT_SEND_DATA) && !is_tag_virtual(idx);
+    if(send_data) {
+        if(event->size > DAX_MSGMAX - 16) return ERR_2BIG;
         msgsize = event->size + 16; /* Calculate the total size of this message */
         *(uint32_t *)(&buff[0])  = htonl(event->size + 8); /* The size that we send */
     } else {
         msgsize = 16; /* Calculate the total size of this message */
         *(uint32_t *)(&buff[0])  = htonl(8); /* The size that we send */
     }
-    if(msgsize > DAX_MSGMAX) return ERR_2BIG;
     *(uint32_t *)(&buff[4])  = htonl(MSG_EVENT | event->eventtype);
     *(uint32_t *)(&buff[8])  = htonl(idx);
     *(uint32_t *)(&buff[12])  = htonl(event->id);
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    if(send_data) {
         memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
     }
     dax_log(DAX_LOG_MSG, "Sending %d event to module %d",
@@ -205,7 +208,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -219,6 +221,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
+        case DAX_TIME:
             u1.dax_ulint = *(dax_ulint *)data1;
             u2.dax_ulint = *(dax_ulint *)data2;
             if(u1.dax_ulint < u2.dax_ulint) return -1;
@@ -249,18 +252,18 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
 
 static int
 _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compare) {
-    int n, inc, bit, len, result;
+    int n, inc, bit, result;
     uint8_t *this, *that;
     uint8_t mask;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
     /* For these 'this' is a bit field */
-    bit = MAX(0, (offset - event->byte) / inc);
+    bit = MAX(0, offset - event->byte) / inc;
     this = (uint8_t *)event->test;
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
-    for(n = 0; n < len; n += inc) {
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    /* Check every element that has at least one byte in the written range */
+    for(n = bit * inc; n <= (int)event->size - inc && event->byte + n < offset + size; n += inc) {
         mask = 0x01<<(bit%8);
         if(_generic_compare(event->datatype, event->data, &(that[n])) == compare) {
             if(!(this[bit/8] & mask)) {
@@ -290,8 +293,8 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
         case DAX_SINT:
         case DAX_CHAR:
             db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
+            diff.dax_int = *(dax_sint *)data1 - *(dax_sint *)data2;
+            if(ABS(diff.dax_int) >= db.dax_sint) return 1;
             else return 0;
         case DAX_UINT:
         case DAX_WORD:
@@ -301,26 +304,27 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
             else return 0;
         case DAX_INT:
             db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
+            diff.dax_dint = *(dax_int *)data1 - *(dax_int *)data2;
+            if(ABS(diff.dax_dint) >= db.dax_int) return 1;
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
+            diff.dax_lint = (dax_lint)*(dax_udint *)data1 - (dax_lint)*(dax_udint *)data2;
             if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
             else return 0;
         case DAX_DINT:
             db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
+            diff.dax_lint = (dax_lint)*(dax_dint *)data1 - (dax_lint)*(dax_dint *)data2;
+            if(ABS(diff.dax_lint) >= db.dax_dint) return 1;
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
+        case DAX_TIME:
             db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
+            if(*(dax_ulint *)data1 > *(dax_ulint *)data2) diff.dax_ulint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
+            else diff.dax_ulint = *(dax_ulint *)data2 - *(dax_ulint *)data1;
+            if(diff.dax_ulint >= db.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
             db.dax_lint = *(dax_lint *)event->data;
@@ -345,16 +349,17 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
 static inline int
 _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
-    int n, inc, len, result;
+    int n, inc, result;
     uint8_t *this, *that;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    this = (uint8_t *)event->test + MAX(0, offset - event->byte);
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
+    this = (uint8_t *)event->test;
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
 
-    for(n = 0; n < len; n += inc) {
+    /* Check every element that has at least one byte in the written range */
+    n = MAX(0, offset - event->byte) / inc * inc;
+    for(; n <= (int)event->size - inc && event->byte + n < offset + size; n += inc) {
         if(_generic_deadband(event, &this[n], &that[n])) {
             result = 1;
             memcpy(&this[n], &that[n], inc);
@@ -442,6 +447,10 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
+    /* There is no data to look at in a queue */
+    if(IS_QUEUE(ttype) && etype != EVENT_WRITE) {
+        return -1;
+    }
     /* All datatypes can use Write or Change */
     if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
         return 0;
@@ -488,7 +497,7 @@ _verify_event_type(tag_type ttype, int etype)
  * code otherwise. */
 int
 _set_event_data(_dax_event *event, tag_index index, void *data) {
-    int datasize = 0, testsize = 0, size;
+    int datasize = 0, testsize = 0;
 
     /* Figure out how much memory to allocate */
     switch(event->eventtype) {
@@ -498,27 +507,22 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
             break;
         case EVENT_CHANGE:
             datasize = 0;
-            if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
-            } else {
-                testsize = type_size(event->datatype) * event->count;
-            }
+            testsize = event->size;
             break;
         case EVENT_DEADBAND:
-            size = type_size(event->datatype);
-            datasize = size;
-            testsize = size * event->count;
+            datasize = type_size(event->datatype);
+            testsize = event->size;
             break;
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = event->size;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
         case EVENT_LESS:
             datasize = type_size(event->datatype);
-            testsize = (event->count - 1)/8 + 1;
+            testsize = event->size / 8 + 1; /* One bit for each item */
             break;
     }
     /* Allocate the memory that we need */
@@ -585,6 +589,9 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
         dax_log(DAX_LOG_ERROR, "Tag index %d for new event is out of bounds", h.index);
         return ERR_ARG;
     }
+    if(_db[h.index].data == NULL) {
+        return ERR_DELETED;
+    }
     /* No events can be assigned to virtual tags unless it's a queue */
     if(is_tag_virtual(h.index) && ! is_tag_queue(h.index)) {
         dax_log(DAX_LOG_ERROR, "Events cannot be added to virtual events");
@@ -594,16 +601,23 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != tag_get_size(h.index)) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
     }
     /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
+    if( h.size == 0 || h.size > tag_get_size(h.index) || h.byte > tag_get_size(h.index) - h.size) {
         dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
         return ERR_2BIG;
     }
+    if(type_size(h.type) < 0) {
+        return ERR_BADTYPE;
+    }
+    /* All of the bits have to be within the data */
+    if(h.type == DAX_BOOL && (h.bit > 7 || h.count > h.size * 8 || h.bit + h.count > h.size * 8)) {
+        return ERR_2BIG;
+    }
     if(_verify_event_type(h.type, event_type)) {
         /* error log handled in verify_event_type() function */
         return ERR_ARG;
@@ -674,45 +688,37 @@ int
 event_del(int index, int id, dax_module *module)
 {
     _dax_event *this, *last;
-    int result = ERR_NOTFOUND;
 
     if(index >= get_tagindex() || index < 0) {
         dax_log(DAX_LOG_ERROR, "event_del() - index %d is out of range\n", index);
         return ERR_2BIG;
     }
+    last = NULL;
     this = _db[index].events;
-    if(this == NULL) return ERR_NOTFOUND;
-    if(this->id == id) {
-        if(this->notify != module) {
-            dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-            return ERR_AUTH;
-        }
-        _db[index].events = this->next;
-        _free_event(this);
-    }
-    last = this;
-    this = this->next;
     while(this != NULL) {
         if(this->id == id) {
             if(this->notify != module) {
                 dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
                 return ERR_AUTH;
             }
-            last->next = this->next;
+            if(last == NULL) {
+                _db[index].events = this->next;
+            } else {
+                last->next = this->next;
+            }
             _free_event(this);
-            result = 0;
-            break; /* Uggg */
+            /* If there are no more events on this tag then reset the attibute flag */
+            if(_db[index].events == NULL) {
+                _db[index].attr &= ~TAG_ATTR_EVENT;
+            }
+            module->event_count--;
+            dax_log(DAX_LOG_DEBUG, "Deleted event index: %d, id: %d, module: %s", index, id, module->name);
+            return 0;
         }
         last = this;
         this = this->next;
     }
-    /* If there are no more events on this tag then reset the attibute flag */
-    if(_db[index].events == NULL) {
-        _db[index].attr &= ~TAG_ATTR_EVENT;
-    }
-    module->event_count--;
-    dax_log(DAX_LOG_DEBUG, "Deleted event index: %d, id: %d, module: %s", index, id, module->name);
-    return result;
+    return ERR_NOTFOUND;
 }
 
 /* Traverse the linked list of events and delete them all */
@@ -722,6 +728,7 @@ events_del_all(_dax_event *head) {
     this = head;
     while(this != NULL) {
         next = this->next;
+        this->notify->event_count--;
         _free_event(this);
         this = next;
     }
@@ -757,21 +764,20 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
      * more likely that our modules events are associated with tags at the
      * bottom of the list.  This should prove more efficient */
-    for(n = count-1; n >= 0 && module->event_count > 0; n--) {
-        if(_db[n].events != NULL) {
-            this = _db[n].events;
-            while(this != NULL) {
-                if(this->notify == module) {
-                    event_del(n, this->id, module);
-                }
-                this = this->next;
+    for(n = count-1; n >= 0; n--) {
+        this = _db[n].events;
+        while(this != NULL) {
+            next = this->next;
+            if(this->notify == module) {
+                event_del(n, this->id, module);
             }
+            this = next;
         }
     }
     return 0;
-- 
2.43.0


From ddf6921a0775c565f2c55e51460f05d7c1bb5dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 13/71] fix: retained tags keep their whole value and deleted
 ones are forgotten

---
 src/server/retain.c  | 38 +++++++++++++++++++++++++++++---------
 src/server/tagbase.c |  2 ++
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 9175c1d..c126d52 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -98,7 +98,10 @@ _create_tags(void) {
         if(tag_index < 0) {
             dax_log(DAX_LOG_ERROR, "Retained tag not created properly");
         } else {
-            memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            /* The value of a virtual tag isn't kept in its data area */
+            if(data != NULL && !is_tag_virtual(tag_index)) {
+                memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            }
         }
     }
     if(result != SQLITE_DONE) {
@@ -189,6 +192,7 @@ _add_type(tag_type type) {
 
     if(dt == NULL) {
         dax_log(DAX_LOG_ERROR, "Bad type passed");
+        return ERR_BADTYPE;
     }
     /* Loop through all the members and recursively add any
        compound data types that we find */
@@ -200,23 +204,25 @@ _add_type(tag_type type) {
         next = next->next;
     }
     /* Turn the type into a string that we can use to reload it later */
-    serialize_datatype(type, &type_str);
     if(_sql == NULL) return ERR_FILE_CLOSED;
+    if(serialize_datatype(type, &type_str) < 0) return ERR_ALLOC;
 
-    snprintf(query, 256, "INSERT INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
+    snprintf(query, 256, "INSERT OR REPLACE INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
     if(result != SQLITE_OK) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
+        free(type_str);
         return result;
     }
     sqlite3_bind_text(stmt, 1, type_str, -1, NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    free(type_str);
     if(result != SQLITE_DONE) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
 
     return 0;
 }
@@ -234,7 +240,7 @@ ret_add_tag(int index) {
         _add_type(_db[index].type);
     }
     if(_sql == NULL) return ERR_FILE_CLOSED;
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,NULL);",
+    snprintf(query, 256, "INSERT OR REPLACE INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,?1);",
                          _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
@@ -242,7 +248,10 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
         return result;
     }
+    /* The tag may already have a value */
+    sqlite3_bind_blob(stmt, 1, _db[index].data, tag_get_size(index), NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
     if(result == SQLITE_DONE) {
         /* This might be a race condition if we ever multi thread the server */
         id = sqlite3_last_insert_rowid(_sql);
@@ -251,15 +260,22 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
     return 0;
 }
 
 int
 ret_del_tag(int index) {
+    int result;
+    char query[256];
 
     dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
-
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    snprintf(query, 256, "DELETE FROM main.tags WHERE id = %d;", _db[index].ret_file_pointer);
+    result = sqlite3_exec(_sql, query, NULL, 0, NULL);
+    if(result != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Unable to delete tag from retention");
+        return result;
+    }
     return 0;
 }
 
@@ -267,7 +283,8 @@ int
 ret_tag_write(int index) {
     int result;
 
-    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, type_size(_db[index].type) * _db[index].count, NULL);
+    if(update_stmt == NULL) return ERR_FILE_CLOSED;
+    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, tag_get_size(index), NULL);
     if(result) {
         DF("Problem with bind_blob %d", result);
     }
@@ -276,8 +293,11 @@ ret_tag_write(int index) {
         DF("Problem with bind_int %d", result);
     }
     result = sqlite3_step(update_stmt);
+    if(result != SQLITE_DONE) {
+        dax_log(DAX_LOG_ERROR, "Unable to write the retained data of tag at index %d", index);
+    }
     result = sqlite3_reset(update_stmt);
-    return 0;
+    return result;
 }
 
 int
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 3e3e926..986ea64 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -439,6 +439,8 @@ _set_attribute(tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
         /* TODO: add tag retention */;
+        /* The data area of a virtual tag doesn't hold its value */
+        if(_db[idx].attr & TAG_ATTR_VIRTUAL) return;
         ret_add_tag(idx);
         _db[idx].attr |= TAG_ATTR_RETAIN;
     } else {
-- 
2.43.0


From 03cf36eeabb311b5902ff8d48a4ef8e82e5beb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:15 +0000
Subject: [PATCH 14/71] fix: dax_tag_byname() kept the lock when it ran out of
 memory

---
 src/lib/libmsg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 19c7ab3..1840755 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -580,7 +580,10 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
         /* We make buff big enough for the outgoing message and the incoming
            response message which would have 4 additional int32s */
         buff = malloc(size + 18);
-        if(buff == NULL) return ERR_ALLOC;
+        if(buff == NULL) {
+            pthread_mutex_unlock(&ds->lock);
+            return ERR_ALLOC;
+        }
         buff[0] = TAG_GET_NAME;
         strcpy(&buff[1], name);
         /* Send the message to the server.  Add 2 to the size for the subcommand and the NULL */
-- 
2.43.0


From e827ef6ef3cb8722f67c9d9688654df57f51914a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:35 +0000
Subject: [PATCH 15/71] fix: deadlock when the library retrieves a datatype
 while it holds its lock

---
 src/lib/libinit.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 58c05c4..5935d53 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -39,6 +39,8 @@ dax_state *
 dax_init(const char *name)
 {
     dax_state *ds;
+    pthread_mutexattr_t attr;
+
     ds = malloc(sizeof(dax_state));
     if(ds == NULL) return NULL;
 
@@ -77,7 +79,12 @@ dax_init(const char *name)
     ds->emsg_queue_count = 0;    /* number of entries in the event message queue */
     ds->disconnect_callback = NULL;
     /* Initialize locks and condition variables */
-    pthread_mutex_init(&ds->lock, NULL);
+    /* Some of the functions call other library functions while they hold this
+     * lock.  For instance to retrieve a datatype that is not in the cache yet */
+    pthread_mutexattr_init(&attr);
+    pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+    pthread_mutex_init(&ds->lock, &attr);
+    pthread_mutexattr_destroy(&attr);
     pthread_mutex_init(&ds->event_lock, NULL);
     pthread_mutex_init(&ds->msg_lock, NULL);
     pthread_cond_init(&ds->event_cond, NULL);
@@ -102,7 +109,6 @@ dax_init(const char *name)
 int
 dax_free(dax_state *ds)
 {
-    pthread_mutex_unlock(&ds->lock);
     pthread_mutex_destroy(&ds->lock);
     free(ds->modulename);
     /* TODO: gotta loop through and free the udata in the events. */
-- 
2.43.0


From d4880fb08748142f3cbe3df7f962c23c5b0513f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:36 +0000
Subject: [PATCH 16/71] fix: the tag and datatype caches and the last message
 were changed without holding their lock

---
 src/lib/libmsg.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 1840755..64c4bf5 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -346,9 +346,13 @@ _read_next_message(dax_state *ds)
 static void
 _connection_cleanup(dax_state *ds) {
     ds->sfd = -1;
+    pthread_mutex_lock(&ds->msg_lock);
     if(ds->last_msg != NULL) free(ds->last_msg);
     ds->last_msg = NULL;
+    pthread_mutex_unlock(&ds->msg_lock);
+    pthread_mutex_lock(&ds->lock);
     free_tag_cache(ds);
+    pthread_mutex_unlock(&ds->lock);
     /* TODO: Free up the event FIFO too */
 }
 
@@ -701,10 +705,10 @@ dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
     result = _message_recv(ds, MSG_TAG_READ, (char *)data, &size, 1);
 
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -756,10 +760,10 @@ dax_write(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size
     }
     result = _message_recv(ds, MSG_TAG_WRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -812,10 +816,10 @@ dax_mask(dax_state *ds, tag_index idx, uint32_t offset, void *data, void *mask,
     }
     result = _message_recv(ds, MSG_TAG_MWRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1124,10 +1128,10 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     }
     result = _message_recv(ds, MSG_ATOMIC_OP, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, h.index);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1449,11 +1453,11 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_CDT_GET, buff, &size, 1);
-    pthread_mutex_unlock(&ds->lock);
     if(result == 0) {
         type = stom_udint(*((tag_type *)buff));
         result = add_cdt_to_cache(ds, type, &(buff[4]));
     }
+    pthread_mutex_unlock(&ds->lock);
     return result;
 }
 
-- 
2.43.0


From 380ca686aa00180066f28773d6db9f0de93e56c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:37 +0000
Subject: [PATCH 17/71] fix: the event list was searched without holding the
 lock that protects it

---
 src/lib/libevent.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 0fdbd3c..060ac0e 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -151,6 +151,7 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
 {
     int n;
     uint32_t idx, eid;
+    event_db event;
 
     idx =      ntohl(*(uint32_t *)(&msg->data[0]));
     eid =      ntohl(*(uint32_t *)(&msg->data[4]));
@@ -158,10 +159,14 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
      * This data can be retrieved in the callback by dax_event_get_data() */
     ds->event_data = &msg->data[8];
     ds->event_data_size = msg->size-8;
+    pthread_mutex_lock(&ds->lock);
     for(n = 0; n < ds->event_count; n ++) {
         if(ds->events[n].idx == idx && ds->events[n].id == eid) {
-            if(ds->events[n].callback != NULL) {
-                ds->events[n].callback(ds, ds->events[n].udata);
+            /* The array can move when the callback or another thread adds an event */
+            event = ds->events[n];
+            pthread_mutex_unlock(&ds->lock);
+            if(event.callback != NULL) {
+                event.callback(ds, event.udata);
             }
             if(id != NULL) {
                 id->id = eid;
@@ -171,6 +176,7 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
             return 0;
         }
     }
+    pthread_mutex_unlock(&ds->lock);
     ds->event_data = NULL; /* This indicates that the data is out of scope now */
     dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received an event that does not exist in database");
     return ERR_GENERIC;
-- 
2.43.0


From 8ec3d1ffe48b820429b74e4f806920655473542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:52 +0000
Subject: [PATCH 18/71] fix: the library lost its place in the message stream
 and overran its buffer on messages that are too large

---
 src/lib/libmsg.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 64c4bf5..567614f 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -68,9 +68,11 @@ _message_get(int fd, dax_message *msg) {
 
     while( index < MSG_HDR_SIZE) {
     	/* Start by reading the header */
-        result = read(fd, &buff[index], MSG_HDR_SIZE);
+        result = read(fd, &buff[index], MSG_HDR_SIZE - index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
+            if(errno == EINTR || (errno == EWOULDBLOCK && index > 0)) {
+                ; /* The rest of the message is still on its way */
+            } else if(errno == EWOULDBLOCK) {
                 return ERR_TIMEOUT;
             } else {
                 return ERR_MSG_RECV;
@@ -84,14 +86,16 @@ _message_get(int fd, dax_message *msg) {
     /* At this point we should have the size and the message type */
     msg->size = ntohl(*(uint32_t *)buff);
     msg->msg_type = ntohl(*((uint32_t *)&buff[4]));
+    /* We would not know where the next message starts */
+    if(msg->size > MSG_DATA_SIZE) return ERR_MSG_BAD;
     /* Now we get the rest of the message */
     index = 0;
     while( index < msg->size) {
     	/* Read the rest of the message */
         result = read(fd, &buff[index], msg->size-index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
+            if(errno == EINTR || errno == EWOULDBLOCK) {
+                ; /* The rest of the message is still on its way */
             } else {
                 return ERR_MSG_RECV;
             }
@@ -376,7 +380,7 @@ _connection_thread(void *arg)
         /* dax_disconnect() will set this to zero to get us out of this loop */
         while(ds->sfd >= 0) { /* Main connection loop */
             result = _read_next_message(ds);
-            if(result == ERR_DISCONNECTED) {
+            if(result == ERR_DISCONNECTED || result == ERR_MSG_BAD) {
                 if(ds->disconnect_callback) {
                     ds->disconnect_callback(result);
                 }
-- 
2.43.0


From 6cf12d43305b1b79b3e6dd02ed29d5f77dfd7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:53 +0000
Subject: [PATCH 19/71] fix: a reply that is larger than the buffer of the
 caller was copied into it

---
 src/lib/libmsg.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 567614f..b53a707 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -147,14 +147,19 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         pthread_mutex_unlock(&ds->msg_lock);
         return result;
     }  else if(ds->last_msg->msg_type == (command | (response ? MSG_RESPONSE : 0))) {
-        if(size) {
-            memcpy(payload, ds->last_msg->data, ds->last_msg->size);
-            *size = ds->last_msg->size;
+        result = 0;
+        if(size) { /* On the way in this is the size of the buffer */
+            if(ds->last_msg->size > *size) {
+                result = ERR_2BIG;
+            } else {
+                memcpy(payload, ds->last_msg->data, ds->last_msg->size);
+                *size = ds->last_msg->size;
+            }
         }
         free(ds->last_msg);
         ds->last_msg = NULL;
         pthread_mutex_unlock(&ds->msg_lock);
-        return 0;
+        return result;
     } else {
         free(ds->last_msg);
         ds->last_msg = NULL;
@@ -990,6 +995,7 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
     *((uint32_t *)&buff[8]) = mtos_dint(handle.size);
 
+    if(handle.size > MSG_DATA_SIZE / 2) return ERR_2BIG;
     sendsize = 12;
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_GET_OVRD, buff, sendsize);
@@ -1210,6 +1216,7 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_ADD, &result, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
@@ -1262,6 +1269,7 @@ dax_event_del(dax_state *ds, dax_id id)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_DEL, &result, &size, 1);
         if(test) {
             pthread_mutex_unlock(&ds->lock);
@@ -1317,6 +1325,7 @@ dax_event_options(dax_state *ds, dax_id id, uint32_t options)
         pthread_mutex_unlock(&ds->lock);
         return result;
     } else {
+        size = sizeof(result);
         test = _message_recv(ds, MSG_EVNT_OPT, &result, &size, 1);
         pthread_mutex_unlock(&ds->lock);
         return test;
@@ -1741,7 +1750,7 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
     int result;
     uint32_t u_temp;
 
-    if(size < id->size) return ERR_ARG;
+    if(size < id->size || size < sizeof(u_temp)) return ERR_ARG;
     u_temp = mtos_udint(id->index);
     memcpy(data, &u_temp, 4);
 
@@ -1752,7 +1761,6 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
         return result;
     }
 
-    size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_GRP_READ, data, &size, 1);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
-- 
2.43.0


From 71f9e4d232a69b5050e8ed7525c1ba1fc33c491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:53 +0000
Subject: [PATCH 20/71] fix: requests were written past the message buffer or
 sent only in part

---
 src/lib/libmsg.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index b53a707..3aaa3d7 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -38,23 +38,30 @@ static int
 _message_send(dax_state *ds, int command, void *payload, size_t size)
 {
     int result;
+    size_t sent;
     char buff[DAX_MSGMAX];
 
     if(ds->sfd < 0) {
     	return ERR_DISCONNECTED;
     }
+    if(size > MSG_DATA_SIZE) {
+        return ERR_2BIG;
+    }
     /* We always send the size and command in network order */
     ((uint32_t *)buff)[0] = htonl(size + MSG_HDR_SIZE);
     ((uint32_t *)buff)[1] = htonl(command);
-    memcpy(&buff[MSG_HDR_SIZE], payload, size);
+    if(size > 0) memcpy(&buff[MSG_HDR_SIZE], payload, size);
 
     /* TODO: We need to set some kind of timeout here.  This could block
        forever if something goes wrong.  It may be a signal or something too. */
-    result = write(ds->sfd, buff, size + MSG_HDR_SIZE);
-    if(result < 0) {
-    /* TODO: Should we handle the case when this returns due to a signal */
-        dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
-        return ERR_MSG_SEND;
+    for(sent = 0; sent < size + MSG_HDR_SIZE; sent += result) {
+        result = write(ds->sfd, &buff[sent], size + MSG_HDR_SIZE - sent);
+        if(result < 0 && errno == EINTR) {
+            result = 0;
+        } else if(result < 0) {
+            dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
+            return ERR_MSG_SEND;
+        }
     }
     return 0;
 }
-- 
2.43.0


From c3f5002938ae2390ebf38074ec39b457550136f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:54 +0000
Subject: [PATCH 21/71] fix: dax_tag_add() buffer was too small for long tag
 names

---
 src/lib/libmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 3aaa3d7..f4c7d90 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -489,14 +489,14 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
     int result;
     size_t size;
     dax_tag tag;
-    char buff[DAX_TAGNAME_SIZE + 8 + 1];
+    char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
     if(name) {
         if((size = strlen(name)) > DAX_TAGNAME_SIZE) {
             return ERR_2BIG;
         }
-        /* Add the 8 bytes for type and count to one byte for NULL */
+        /* Add the 12 bytes for type, count and attributes to one byte for NULL */
         size += 13;
         /* TODO Need to do some more error checking here */
         *((uint32_t *)&buff[0]) = mtos_udint(type);
-- 
2.43.0


From 848ab16b33445cbc57d079d70e5e20d8130e91de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:03 +0000
Subject: [PATCH 22/71] fix: dax_group_read() used four bytes of the buffer of
 the caller for the request

---
 src/lib/libmsg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index f4c7d90..b9db54b 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1757,12 +1757,11 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
     int result;
     uint32_t u_temp;
 
-    if(size < id->size || size < sizeof(u_temp)) return ERR_ARG;
+    if(size < id->size) return ERR_ARG;
     u_temp = mtos_udint(id->index);
-    memcpy(data, &u_temp, 4);
 
     pthread_mutex_lock(&ds->lock);
-    result = _message_send(ds, MSG_GRP_READ, data, 4);
+    result = _message_send(ds, MSG_GRP_READ, &u_temp, 4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
-- 
2.43.0


From 0ec298f48fe15d8b7ad901847be035972f8dbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:03 +0000
Subject: [PATCH 23/71] fix: overrides of large tags overran the message buffer
 and freed their memory twice

---
 src/lib/libmsg.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index b9db54b..c5d2272 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -884,22 +884,22 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
             mask[i / 8] |= (1 << (i % 8));
             i++;
         }
-        memcpy(&buff[12], newdata, size);
     } else {
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         for(n = 0; n < size; n++) {
             mask[n] = 0xFF;
         }
-        memcpy(&buff[12], data, size);
     }
 
-    memcpy(&buff[12 + size], mask, size);
-    sendsize = size * 2 + 12;
-    if(sendsize > MSG_DATA_SIZE) {
+    if((size_t)size > (MSG_DATA_SIZE - 12) / 2) {
         if(newdata != NULL) free(newdata);
         free(mask);
+        return ERR_2BIG;
     }
+    memcpy(&buff[12], newdata != NULL ? newdata : data, size);
+    memcpy(&buff[12 + size], mask, size);
+    sendsize = size * 2 + 12;
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_ADD_OVRD, buff, sendsize);
@@ -958,11 +958,12 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
         }
     }
 
-    memcpy(&buff[8], mask, size);
-    sendsize = size + 8;
-    if(sendsize > MSG_DATA_SIZE) {
+    if((size_t)size > MSG_DATA_SIZE - 8) {
         free(mask);
+        return ERR_2BIG;
     }
+    memcpy(&buff[8], mask, size);
+    sendsize = size + 8;
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_DEL_OVRD, buff, sendsize);
-- 
2.43.0


From eb718e3638dc8c7453bd50d6bd10c66f6d188de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:04 +0000
Subject: [PATCH 24/71] fix: dax_map_get() filled in the handles when the
 request had failed

---
 src/lib/libmsg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index c5d2272..4e9b5ac 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1584,6 +1584,7 @@ dax_map_get(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id id) {
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_MAP_GET, buff, &size, 1);
     pthread_mutex_unlock(&ds->lock);
+    if(result) return result;
 
     src->index = *(dax_dint *)buff;
     src->byte = *(dax_dint *)&buff[4];
-- 
2.43.0


From 5c327bd1ac684d4cdcb7e7b612e6698ff6c8dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:05 +0000
Subject: [PATCH 25/71] fix: a deleted tag stayed in the tag cache

---
 src/lib/libmsg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 4e9b5ac..79c17c5 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -569,6 +569,7 @@ dax_tag_del(dax_state* ds, tag_index index)
 
     size = 4; /* we just need the handle */
     result = _message_recv(ds, MSG_TAG_DEL, buff, &size, 1);
+    if(result == 0) cache_tag_del(ds, index);
     pthread_mutex_unlock(&ds->lock);
     return result;
 }
-- 
2.43.0


From a67e83dd52d653edf771bc136da9307c0448314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:06 +0000
Subject: [PATCH 26/71] fix: the connection thread read from standard input
 after dax_disconnect()

---
 src/lib/libmsg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 79c17c5..0584f24 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -454,14 +454,14 @@ dax_disconnect(dax_state *ds)
 
     pthread_mutex_lock(&ds->lock);
     /* Tells the connection thread to exit */
-    if(ds->sfd) {
+    if(ds->sfd >= 0) {
         result = _message_send(ds, MSG_MOD_REG, NULL, 0);
         if(! result ) {
             len = 0;
             result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
         }
         close(ds->sfd);
-        ds->sfd = 0;
+        ds->sfd = -1;
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
-- 
2.43.0


From f2d38127bdbb20d7c09094effa4334208c34b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:07 +0000
Subject: [PATCH 27/71] fix: dax_tag_mask() ignored the mask of bits

---
 src/lib/libdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 3d3e7b9..e18afc6 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -639,7 +639,9 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
             }
-            newmask[i / 8] |= (1 << (i % 8));
+            if( (0x01 << (n % 8)) & ((uint8_t *)mask)[n / 8] ) {
+                newmask[i / 8] |= (1 << (i % 8));
+            }
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-- 
2.43.0


From c1097966682c358c1b3b4ed62305f1739b50f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:07 +0000
Subject: [PATCH 28/71] fix: members of nested datatypes were formatted at the
 wrong offset

---
 src/lib/libdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index e18afc6..ddc6068 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -432,7 +432,7 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
             return ERR_NOTFOUND;
         }
         while(this != NULL) {
-            result = _write_format(ds, this->type, this->count, newdata, pos);
+            result = _write_format(ds, this->type, this->count, data, pos);
             if(result) return result;
             if(IS_CUSTOM(this->type)) {
                 pos += (dax_get_typesize(ds, this->type) * this->count);
-- 
2.43.0


From 4e6e38010b4ae6c3e51afb5dd0e44d87d4e177ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:55 +0000
Subject: [PATCH 29/71] fix: daxlua kept the queue locked while it waited for
 room in the queue

---
 src/modules/daxlua/threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 715852b..6f24892 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -278,6 +278,7 @@ _run_queue_scripts(void) {
                 pthread_mutex_unlock(&q_lock);
                 n++;
             } else { /* If the queue is full */
+                pthread_mutex_unlock(&q_lock); /* so that the workers can empty it */
                 usleep(50000);
             }
         } else { /* Not an event script */
-- 
2.43.0


From 3cc1a4759a2ec5e202c958764b52ae4a9629478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 30/71] fix: the script queue of daxlua lost scripts when it
 was full and missed wakeups

---
 src/modules/daxlua/threads.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 6f24892..84a57d9 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -41,7 +41,7 @@ static pthread_attr_t attr;
 
 static script_t **script_queue;
 static int q_first, q_last;
-static int q_full, q_empty;
+static int q_full, q_empty = 1;
 static int q_exit;
 
 
@@ -71,9 +71,9 @@ _q_push(script_t *script) {
     //DF("pushing %s, q_first = %d, q_last = %d",script->name, q_first, q_last);
     script_queue[q_last] = script;
     q_last++;
+    if(q_last >= queue_size) q_last = 0;
     if(q_last == q_first) q_full = 1;
     q_empty = 0;
-    if(q_last >= queue_size) q_last = 0;
     return 0;
 }
 
@@ -225,7 +225,8 @@ __queue_thread(void *num) {
     pthread_mutex_lock(&q_lock);
     while(1) {
         if(q_exit) break;
-        pthread_cond_wait(&q_cond, &q_lock);
+        /* The queue may already have been filled before we got the lock */
+        if(q_empty) pthread_cond_wait(&q_cond, &q_lock);
 
         while(! q_empty) {
             script = _q_pop(); // Get the job off of the queue <<sorta>>
-- 
2.43.0


From 2ac9489e2d5a7dc45fd487788e6e4b6d09e84031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:56 +0000
Subject: [PATCH 31/71] fix: daxlua truncated the trigger values of TIME tags

---
 src/modules/daxlua/threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 84a57d9..a3145f4 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -361,7 +361,6 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             dest->dax_udint = (dax_udint)x;
             return;
         case DAX_DINT:
@@ -372,6 +371,7 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
             dest->dax_ulint = (dax_ulint)x;
             return;
         case DAX_LINT:
+        case DAX_TIME:
             dest->dax_lint = (dax_lint)x;
             return;
         case DAX_REAL:
-- 
2.43.0


From e01f137fc6092710aae3fcee7e1f8ff593eff87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:21 +0000
Subject: [PATCH 32/71] fix: the library aborted when the deadline of a wait
 fell on a full second

---
 src/lib/libevent.c | 2 +-
 src/lib/libmsg.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 060ac0e..71b80a9 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -221,7 +221,7 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
         clock_gettime(CLOCK_REALTIME, &ts);
         ts.tv_sec += timeout/1000;
         ts.tv_nsec += timeout%1000 * 1e6;
-        if(ts.tv_nsec > 1e9) {
+        if(ts.tv_nsec >= 1e9) {
             ts.tv_sec++;
             ts.tv_nsec -= 1e9;
         }
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 0584f24..28b2d95 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -134,7 +134,7 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         clock_gettime(CLOCK_REALTIME, &timeout);
         timeout.tv_sec += ds->msgtimeout/1000;
         timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
-        if(timeout.tv_nsec>1e9) {
+        if(timeout.tv_nsec>=1e9) {
             timeout.tv_sec++;
             timeout.tv_nsec-=1e9;
         }
-- 
2.43.0


From d9c99ada04dc40dd9b389036b809c317a42a7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:59 +0000
Subject: [PATCH 33/71] fix: modbus ports with different protocols overwrote
 each other's protocol functions

---
 src/modules/modbus/modbus.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 27870b6..e3c5c84 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -661,8 +661,8 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     uint8_t buff[MB_FRAME_LEN]; /* Modbus Frame buffer */
     int try = 1;
     int result, msglen;
-    static int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
-    static int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
+    int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
+    int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
 
     if(!mc->enable) return 0; /* If we are not enabled we don't send */
   /* This sets up the function pointers so we don't have to constantly check
-- 
2.43.0


From 3619b993a8b0c27f8c7a6fd89ad105cb95fc6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:59 +0000
Subject: [PATCH 34/71] fix: daxlua raised a Lua error outside of a script,
 with the script locked

---
 src/modules/daxlua/luaif.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/daxlua/luaif.c b/src/modules/daxlua/luaif.c
index 8249427..f4be949 100644
--- a/src/modules/daxlua/luaif.c
+++ b/src/modules/daxlua/luaif.c
@@ -66,13 +66,13 @@ send_tag(lua_State *L, tag_handle h)
 
     data = malloc(h.size);
     if(data == NULL) {
-        luaL_error(L, "tag_write() unable to allocate data area");
+        return ERR_ALLOC;
     }
 
     mask = malloc(h.size);
     if(mask == NULL) {
         free(data);
-        luaL_error(L, "tag_write() unable to allocate mask memory");
+        return ERR_ALLOC;
     }
     bzero(mask, h.size);
 
-- 
2.43.0


From 7a7668b17694930682bbec667c62a1696b8779fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 35/71] fix: a long datatype name overran the buffer of the
 request

---
 src/lib/libmsg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 28b2d95..6f0a850 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1457,6 +1457,7 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
     if(name != NULL) {
         buff[0] = CDT_GET_NAME;
         size = strlen(name) + 1;
+        if(size > MSG_DATA_SIZE - 1) return ERR_2BIG;
         strncpy(&(buff[1]), name, size); /* Pass the cdt name in this subcommand */
         size++; /* Add one for the sub command */
     } else {
-- 
2.43.0


From ce6addf9227265a0abf70c38ec9711f5497b10e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:20 +0000
Subject: [PATCH 36/71] fix: dax_connect() reported success when the server had
 refused the registration

---
 src/lib/libmsg.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 6f0a850..511d74b 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -277,6 +277,10 @@ _mod_register(dax_state *ds, char *name)
     if(result) {
     	return result;
     }
+    if(msg.msg_type != (MSG_MOD_REG | MSG_RESPONSE)) { /* The server has refused us */
+        result = stom_dint(*(int32_t *)&msg.data[0]);
+        return (msg.msg_type & MSG_ERROR) && result ? result : ERR_GENERIC;
+    }
 
     /* Store the unique ID that the server has sent us. */
     ds->id =  *((uint32_t *)&msg.data[0]);
@@ -385,6 +389,13 @@ _connection_thread(void *arg)
     ds->sfd = _get_connection(ds);
     if(ds->sfd >= 0) {
         result = _mod_register(ds, ds->modulename);
+        if(result) {
+            close(ds->sfd);
+            ds->sfd = -1;
+            ds->error_code = result;
+            pthread_barrier_wait(&ds->connect_barrier);
+            return NULL;
+        }
         init_tag_cache(ds);
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
-- 
2.43.0


From 3bd4a6a3c7c8c2c6adb32069aee781c186e09e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 37/71] fix: conversion of DWORD and TIME values for events
 kept only 16 bits

---
 src/lib/libdax.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 4061973..0cb1417 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -153,10 +153,10 @@ dax_int stom_int(dax_int);
 dax_uint stom_uint(dax_uint);
 
 /* 32 Bit conversion functions */
-#define mtos_dword mtos_uint
-#define stom_dword stom_uint
-#define mtos_time mtos_uint
-#define stom_time stom_uint
+#define mtos_dword mtos_udint
+#define stom_dword stom_udint
+#define mtos_time mtos_lint
+#define stom_time stom_lint
 
 dax_dint mtos_dint(dax_dint);
 dax_udint mtos_udint(dax_udint);
-- 
2.43.0


From a3d684a894371df0c9934c9902ff566c5097be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 38/71] fix: TIME tags were converted as 32 bit values

---
 src/lib/libdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index ddc6068..2018c26 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -298,7 +298,6 @@ _read_format(dax_state *ds, tag_type type, int count, void *data, int offset)
                 break;
             case DAX_DWORD:
             case DAX_UDINT:
-            case DAX_TIME:
                 for(n = 0; n < count; n++) {
                     ((dax_udint *)newdata)[n] = stom_udint(((dax_udint *)newdata)[n]);
                 }
@@ -320,6 +319,7 @@ _read_format(dax_state *ds, tag_type type, int count, void *data, int offset)
                 }
                 break;
             case DAX_LINT:
+            case DAX_TIME:
                 for(n = 0; n < count; n++) {
                     ((dax_lint *)newdata)[n] = stom_lint(((dax_lint *)newdata)[n]);
                 }
@@ -462,7 +462,6 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
                 break;
             case DAX_DWORD:
             case DAX_UDINT:
-            case DAX_TIME:
                 for(n = 0; n < count; n++) {
                     ((dax_udint *)newdata)[n] = mtos_udint(((dax_udint *)newdata)[n]);
                 }
@@ -484,6 +483,7 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
                 }
                 break;
             case DAX_LINT:
+            case DAX_TIME:
                 for(n = 0; n < count; n++) {
                     ((dax_lint *)newdata)[n] = mtos_lint(((dax_lint *)newdata)[n]);
                 }
-- 
2.43.0


From 637016db0d38b7854add88dee5a506bfe39b074c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 39/71] fix: Lua scripts lost the fraction of REAL tags and the
 upper bits of 64 bit tags

---
 src/lib/lua/libdaxlua.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 5e08c39..43eb7f3 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -64,11 +64,11 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
             lua_pushinteger(L, (lua_Integer)*((dax_dint *)buff));
             break;
         case DAX_REAL:
-            lua_pushnumber(L, (lua_Integer)*((dax_real *)buff));
+            lua_pushnumber(L, (lua_Number)*((dax_real *)buff));
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            lua_pushnumber(L, (lua_Integer)*((dax_ulint *)buff));
+            lua_pushinteger(L, (lua_Integer)*((dax_ulint *)buff));
             break;
         case DAX_TIME:
         case DAX_LINT:
@@ -244,7 +244,6 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             break;
         case DAX_DWORD:
         case DAX_UDINT:
-        case DAX_TIME:
             ((dax_udint *)data)[index] = lua_tonumber(L, -1);
             ((dax_udint *)mask)[index] = 0xFFFFFFFF;
             break;
@@ -258,11 +257,20 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            ((dax_ulint *)data)[index] = lua_tonumber(L, -1);
+            if(lua_isinteger(L, -1)) {
+                ((dax_ulint *)data)[index] = lua_tointeger(L, -1);
+            } else {
+                ((dax_ulint *)data)[index] = lua_tonumber(L, -1);
+            }
             ((dax_ulint *)mask)[index] = DAX_64_ONES;
             break;
         case DAX_LINT:
-            ((dax_lint *)data)[index] = lua_tonumber(L, -1);
+        case DAX_TIME:
+            if(lua_isinteger(L, -1)) {
+                ((dax_lint *)data)[index] = lua_tointeger(L, -1);
+            } else {
+                ((dax_lint *)data)[index] = lua_tonumber(L, -1);
+            }
             ((dax_lint *)mask)[index] = DAX_64_ONES;
             break;
         case DAX_LREAL:
@@ -948,7 +956,6 @@ _convert_lua_number(tag_type datatype, void **data, lua_Number x) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = (dax_udint)x;
             *data = &u1.dax_udint;
             return;
@@ -962,6 +969,7 @@ _convert_lua_number(tag_type datatype, void **data, lua_Number x) {
             *data = &u1.dax_ulint;
             return;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = (dax_lint)x;
             *data = &u1.dax_lint;
             return;
-- 
2.43.0


From 56dee8004e68011ea6573c058ea432f109a1bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 40/71] fix: daxc did not carry out INC and DEC without a value
 and cut TIME values to 32 bits

---
 src/modules/daxc/daxc_event.c |  2 +-
 src/modules/daxc/daxc_tag.c   | 22 +++++++++++-----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/modules/daxc/daxc_event.c b/src/modules/daxc/daxc_event.c
index d046b56..560fd06 100644
--- a/src/modules/daxc/daxc_event.c
+++ b/src/modules/daxc/daxc_event.c
@@ -69,7 +69,6 @@ _convert_data_str(tag_type datatype, dax_type_union *dest, char *str) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             dest->dax_udint = (dax_udint)strtoul(str, NULL, 0);
             return;
         case DAX_DINT:
@@ -80,6 +79,7 @@ _convert_data_str(tag_type datatype, dax_type_union *dest, char *str) {
             dest->dax_ulint = (dax_ulint)strtoull(str, NULL, 0);
             return;
         case DAX_LINT:
+        case DAX_TIME:
             dest->dax_lint = (dax_lint)strtoll(str, NULL, 0);
             return;
         case DAX_REAL:
diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 6d72844..9a96cc0 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -861,39 +861,39 @@ atomic_op(char **tokens, int count)
             switch(handle.type) {
                 case DAX_BYTE:
                     *(dax_byte *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_SINT:
                 case DAX_CHAR:
                     *(dax_sint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UINT:
                 case DAX_WORD:
                     *(dax_uint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_INT:
                     *(dax_int *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UDINT:
                 case DAX_DWORD:
-                case DAX_TIME:
                     *(dax_udint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_DINT:
                     *(dax_dint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_ULINT:
                 case DAX_LWORD:
                     *(dax_ulint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_LINT:
+                case DAX_TIME:
                     *(dax_lint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_REAL:
                     *(dax_real *)buff = 1.0;
-                    return 0;
+                    break;
                 case DAX_LREAL:
                     *(dax_lreal *)buff = 1.0;
-                    return 0;
+                    break;
                 default:
                     fprintf(stderr, "ERROR: Bad type");
                     free(buff);
-- 
2.43.0


From 155bc8da144b8262e61d7c2084f2b1c23fa08c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 41/71] fix: the history log compared UINT, UDINT, ULINT and
 TIME tags in the wrong width or sign

---
 src/modules/histlog/histlog.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 0e944b5..aac29f5 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -45,24 +45,28 @@ _test_difference(void *data1, void *data2, tag_type datatype, double threshold)
             else return 0;
         case DAX_UINT:
         case DAX_WORD:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
+            if(ABS(*(dax_uint *)data1 - *(dax_uint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_INT:
             if(ABS(*(dax_int *)data1 - *(dax_int *)data2) >= threshold) return 1;
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            if(ABS(*(dax_udint *)data1 - *(dax_udint *)data2) >= threshold) return 1;
+            if(ABS((dax_lint)*(dax_udint *)data1 - (dax_lint)*(dax_udint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_DINT:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
+            if(ABS((dax_lint)*(dax_dint *)data1 - (dax_lint)*(dax_dint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
-            if(ABS(*(dax_ulint *)data1 - *(dax_ulint *)data2) >= threshold) return 1;
-            else return 0;
+            if(*(dax_ulint *)data1 > *(dax_ulint *)data2) {
+                if(*(dax_ulint *)data1 - *(dax_ulint *)data2 >= threshold) return 1;
+            } else {
+                if(*(dax_ulint *)data2 - *(dax_ulint *)data1 >= threshold) return 1;
+            }
+            return 0;
         case DAX_LINT:
+        case DAX_TIME:
             if(ABS(*(dax_lint *)data1 - *(dax_lint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_REAL:
-- 
2.43.0


From c4eb7ad91d1287375fff9b98221466fea2806e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:53 +0000
Subject: [PATCH 42/71] fix: the master ran processes with its own user and
 group when it could not change them

---
 src/master/process.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index 0ee7746..cd913b8 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -237,7 +237,9 @@ process_start_all(void)
     }
 }
 
-static void
+/* The group has to be changed first because we may not have the permission
+ * to do it after the user id has been changed.  Returns zero on success. */
+static int
 _set_user_group(dax_process *proc)
 {
     int result;
@@ -247,20 +249,23 @@ _set_user_group(dax_process *proc)
     uid = geteuid();
     gid = getegid();
 
-    if(proc->uid >= 0 && proc->uid != uid) {
-        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
-        result = setuid(proc->uid);
-        if(result) {
-            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
-        }
-    }
-    if(proc->gid >= 0 && proc->gid != gid) {
+    if(proc->gid != gid) {
         dax_log(DAX_LOG_MINOR, "Changing group id to %d process %s", proc->gid, proc->name);
         result = setgid(proc->gid);
         if(result) {
             dax_log(DAX_LOG_ERROR, "Unable to set gid %d - %s", proc->gid, strerror(errno));
+            return -1;
         }
     }
+    if(proc->uid != uid) {
+        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
+        result = setuid(proc->uid);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
+            return -1;
+        }
+    }
+    return 0;
 }
 
 /* This function is used to start a module */
@@ -272,6 +277,10 @@ process_start(dax_process *proc)
 
     if(proc) { /* We are the parent */
         if(result) dax_log(DAX_LOG_ERROR,"Unable to properly set up pipes for %s\n", proc->name);
+        if(proc->uid < 0 || proc->gid < 0) {
+            dax_log(DAX_LOG_ERROR, "Process %s not started because it's user or group is unknown", proc->name);
+            return 0;
+        }
         child_pid = fork();
         if(child_pid > 0) { /* This is the parent */
             proc->pid = child_pid;
@@ -283,11 +292,13 @@ process_start(dax_process *proc)
             return child_pid;
         } else if(child_pid == 0) { /* Child */
             /* TODO: Environment???? */
-            _set_user_group(proc);
+            if(_set_user_group(proc)) {
+                _exit(EPERM);
+            }
             if(execvp(proc->path, proc->arglist)) {
                 dax_log(DAX_LOG_ERROR, "process_start exec failed - %s - %s",
                        proc->path, strerror(errno));
-                exit(errno);
+                _exit(errno);
             }
         } else { /* Error on the fork */
             dax_log(DAX_LOG_ERROR, "process_start fork failed - %s - %s", proc->path, strerror(errno));
-- 
2.43.0


From 92313a4e9b15001b73ca3e265331eca42280c8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:53 +0000
Subject: [PATCH 43/71] fix: the master killed its whole process group when a
 process that it watches had already died

---
 src/master/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/master/process.c b/src/master/process.c
index cd913b8..d1b3dc6 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -464,7 +464,7 @@ process_scan(void)
                     restart = this->restartdelay - interval;
                 }
             }
-        } else {
+        } else if(this->pid > 0) {
             /* approximately every minute we'll get cpu stats and deal with
              * the processes that misbehave.  We add the pid so that we don't
              * do every process in the same scan */
-- 
2.43.0


From b3400b5045a30eef3b727dd855cd1fe72d5b6563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:31 +0000
Subject: [PATCH 44/71] fix: the master wrote past its queue of dead processes
 and lost processes when many died at once

---
 src/master/master.c  | 16 +++-------------
 src/master/process.c | 35 ++++++-----------------------------
 src/master/process.h |  6 ------
 3 files changed, 9 insertions(+), 48 deletions(-)

diff --git a/src/master/master.c b/src/master/master.c
index 0c418ac..c5d77c4 100644
--- a/src/master/master.c
+++ b/src/master/master.c
@@ -24,7 +24,6 @@
 #include <common.h>
 #include <syslog.h>
 #include <signal.h>
-#include <sys/wait.h>
 #include <opendax.h>
 
 static int quitflag = 0;
@@ -111,22 +110,13 @@ quit_signal(int sig)
 void
 catch_signal(int sig)
 {
-    // TODO: No printfs in signal handlers
-    dax_log(DAX_LOG_MINOR, "Master received signal %d", sig);
+    /* Nothing to do.  We only keep the signal from stopping us */
 }
 
 
-/* Clean up any child modules that have shut down */
+/* The signal only has to end the sleep of the main loop.  The processes
+   that have shut down are collected by process_scan() */
 void
 child_signal(int sig)
 {
-    int status;
-    pid_t pid;
-
-    do {
-        pid = waitpid(-1, &status, WNOHANG);
-        if(pid > 0) {
-            process_dpq_add(pid, status);
-        }
-    } while(pid > 0);
 }
diff --git a/src/master/process.c b/src/master/process.c
index d1b3dc6..d64e997 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -25,14 +25,8 @@
 #include <sys/time.h>
 #include <unistd.h>
 #include <signal.h>
+#include <sys/wait.h>
 
-/* This array is the dead process list.
-   TODO: This should be improved to allow it to grow when needed.
-*/
-#ifndef DPQ_SIZE
-  #define DPQ_SIZE 10
-#endif
-static dead_process _dpq[DPQ_SIZE];
 static dax_process *_process_list = NULL;
 
 #ifdef HAVE_PROCDIR
@@ -433,18 +427,16 @@ _process_restart(dax_process *proc)
 int
 process_scan(void)
 {
-    int n, restart, interval;
+    int status, restart, interval;
+    pid_t pid;
     long runtime;
     dax_process *this;
     struct timeval now;
     static unsigned int count;
 
-    /* Check the dead module queue for pid's that need cleaning */
-    for(n = 0; n < DPQ_SIZE; n++) {
-        if(_dpq[n].pid != 0) {
-            _cleanup_process(_dpq[n].pid, _dpq[n].status);
-            _dpq[n].pid = 0;
-        }
+    /* Clean up all of the processes that have shut down */
+    while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
+        _cleanup_process(pid, status);
     }
 
     this = _process_list;
@@ -509,21 +501,6 @@ process_stop(dax_process *proc)
     return 0;
 }
 
-/* Adds the dead module to the first blank spot in the list.  If the list
-   is overflowed then it'll just overwrite the last one.
-   TODO: If more than DMQ_SIZE modules dies all at once this will cause
-         problems.  Should be fixed. */
-void
-process_dpq_add(pid_t pid, int status)
-{
-    int n = 0;
-    while(_dpq[n].pid != 0 && n < DPQ_SIZE) {
-        n++;
-    }
-    _dpq[n].pid = pid;
-    _dpq[n].status = status;
-}
-
 void
 _print_process_list(void)
 {
diff --git a/src/master/process.h b/src/master/process.h
index 7bb1f4e..c8cb09b 100644
--- a/src/master/process.h
+++ b/src/master/process.h
@@ -77,16 +77,10 @@ typedef struct dax_process {
     struct dax_process *next;
 } dax_process;
 
-typedef struct {
-    pid_t pid;
-    int status;
-} dead_process;
-
 void process_init(void);
 void process_start_all(void);
 pid_t process_start(dax_process *);
 int process_scan(void);
-void process_dpq_add(pid_t, int);
 dax_process *process_add(char *name, char *path, char *arglist, unsigned int flags);
 void _print_process_list(void);
 
-- 
2.43.0


From cadef446eb7bd3117c0368e2367f326c321d6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:53 +0000
Subject: [PATCH 45/71] fix: modbus gave up its user id before its group id,
 and crashed when only a group was configured

---
 src/modules/modbus/modmain.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 8ca98fb..9ee0850 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -387,31 +387,32 @@ _demote_wait(void)
 
     user = dax_get_attr(ds, "user");
     group = dax_get_attr(ds, "group");
-    if(user != NULL) {
-        pw = getpwnam(user);
-        if(pw != NULL) {
-            dax_log(DAX_LOG_MINOR, "Setting user to '%s' %d", user, pw->pw_uid);
-            result = setuid(pw->pw_uid);
+    /* The group first, we may not be allowed to once we are the other user */
+    if(group != NULL) {
+        gr = getgrnam(group);
+        if(gr != NULL) {
+            dax_log(DAX_LOG_MINOR, "Setting group to '%s' %d", group, gr->gr_gid);
+            result = setgid(gr->gr_gid);
             if(result) {
-                dax_log(DAX_LOG_FATAL, "Unable to set uid %d - %s", pw->pw_uid, strerror(errno));
+                dax_log(DAX_LOG_FATAL, "Unable to set gid %d - %s", gr->gr_gid, strerror(errno));
                 retval++;
             }
         } else {
-            dax_log(DAX_LOG_FATAL, "Unable to find uid for user %s", user);
+            dax_log(DAX_LOG_FATAL, "Unable to find uid for group %s", group);
             retval++;
         }
     }
-    if(group != NULL) {
-        gr = getgrnam(group);
+    if(user != NULL) {
+        pw = getpwnam(user);
         if(pw != NULL) {
-            dax_log(DAX_LOG_MINOR, "Setting group to '%s' %d", group, gr->gr_gid);
-            result = setgid(gr->gr_gid);
+            dax_log(DAX_LOG_MINOR, "Setting user to '%s' %d", user, pw->pw_uid);
+            result = setuid(pw->pw_uid);
             if(result) {
-                dax_log(DAX_LOG_FATAL, "Unable to set gid %d - %s", gr->gr_gid, strerror(errno));
+                dax_log(DAX_LOG_FATAL, "Unable to set uid %d - %s", pw->pw_uid, strerror(errno));
                 retval++;
             }
         } else {
-            dax_log(DAX_LOG_FATAL, "Unable to find uid for group %s", group);
+            dax_log(DAX_LOG_FATAL, "Unable to find uid for user %s", user);
             retval++;
         }
     }
-- 
2.43.0


From 6272d4df41b3d6e2b8beb7bdecb1f8a8508acfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 46/71] fix: the argument list of a process without arguments
 had no end

---
 src/master/process.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index d64e997..74d3461 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -99,10 +99,9 @@ _arglist_tok(char *path, char *str)
             arr[index++] = strdup(token); /* TODO: ERROR CHECK THIS */
             token = strtok_r(NULL, " ", &save);
         }
-        arr[index] = NULL;
-
         free(temp);
     }
+    arr[index] = NULL;
     return arr;
 }
 
@@ -510,6 +509,7 @@ _print_process_list(void)
     int n = 0;
 
     while(this != NULL) {
+        n = 0;
         printf("Process %s\n", this->name);
         printf("  path    = %s\n", this->path);
         args = this->arglist;
-- 
2.43.0


From a36dc057e982fdf1f59351761e5315826bc6d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 47/71] fix: the state of a process was not initialised, so
 that one that was never started could be taken for dead

---
 src/master/process.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/master/process.c b/src/master/process.c
index 74d3461..bfdab89 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -116,6 +116,8 @@ process_add(char *name, char *path, char *arglist, unsigned int flags)
         new->fd = 0;
         new->efd = 0;
         new->pid = 0;
+        new->state = 0;
+        new->exit_status = 0;
 
         /* Add the module path to the struct */
         if(path) {
-- 
2.43.0


From 89489cf65abc3d424213c5220554d09eb048a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 48/71] fix: modbus masters wrote and read past their buffers
 on responses and commands with a wrong length

---
 src/modules/modbus/modbus.c | 78 ++++++++++++++++++++++++++++++-------
 1 file changed, 63 insertions(+), 15 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index e3c5c84..3b16b94 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -223,13 +223,51 @@ master_loop(mb_port *mp)
     return MB_ERR_PORTFAIL;
 }
 
+/* Makes sure that the data area of the command is large enough for the
+ * request that it describes.  The asynchronous commands come from a tag that
+ * any module can write so they can contain anything. Returns zero if the
+ * command can be sent. */
+static int
+_check_command(mb_cmd *cmd)
+{
+    int size;
+
+    switch(cmd->function) {
+        case 1:
+        case 2:
+        case 15:
+            size = (cmd->length - 1) / 8 + 1;
+            break;
+        case 3:
+        case 4:
+        case 16:
+            size = cmd->length * 2;
+            break;
+        case 5:
+            size = 1;
+            break;
+        case 6:
+            size = 2;
+            break;
+        default:
+            return MB_ERR_FUNCTION;
+    }
+    /* The size has to fit in a single byte of the request */
+    if(size > 250 || size > cmd->datasize) return MB_ERR_BAD_ARG;
+    return 0;
+}
+
 /* This function formulates and sends the Modbus RTU master request */
 static int
 sendRTUrequest(mb_port *mp, mb_cmd *cmd)
 {
-    uint8_t buff[MB_FRAME_LEN], length;
-    uint16_t crc, temp;
+    uint8_t buff[MB_FRAME_LEN];
+    uint16_t crc, temp, length;
 
+    if(_check_command(cmd)) {
+        cmd->lasterror = ME_BAD_ADDRESS;
+        return -1;
+    }
     /* build the request message */
     buff[0]=cmd->node;
     buff[1]=cmd->function;
@@ -286,12 +324,11 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[2], &cmd->m_register);
                 COPYWORD(&buff[4], &cmd->length);
                 buff[6] = (cmd->length-1)/8 + 1;
-                printf("Bytes = %d\n", buff[7]);
-                for(int n = 0; n < buff[7]; n++) {
+                for(int n = 0; n < buff[6]; n++) {
                     buff[7+n] = cmd->data[n];
                 }
                 cmd->lastcrc = crc; /* Store for next time */
-                length = 7 + buff[7];
+                length = 7 + buff[6];
                 break;
             } else {
                 return 0;
@@ -354,9 +391,10 @@ getRTUresponse(uint8_t *buff, mb_port *mp)
 
     while(1) {
         usleep(mp->frame * 1000);
-        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN);
+        /* Once the buffer is full the message is finished */
+        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN - buffptr);
         if(result > 0) { /* Get some data */
-            buffptr += result; // TODO: WE NEED A BOUNDS CHECK HERE.  Seg Fault Commin'
+            buffptr += result;
         } else { /* Message is finished, good or bad */
             if(buffptr > 0) { /* Is there any data in buffer? */
 
@@ -402,6 +440,10 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
     uint8_t buff[MB_FRAME_LEN];
     uint16_t crc, temp, length;
 
+    if(_check_command(cmd)) {
+        cmd->lasterror = ME_BAD_ADDRESS;
+        return -1;
+    }
     /* build the request message */
     /* MBAP Header minus the length.  We'll set it later */
     buff[0] = _req_tid>>8;  /* Transaction ID */
@@ -464,7 +506,6 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[8], &cmd->m_register);
                 COPYWORD(&buff[10], &cmd->length);
                 buff[12] = (cmd->length-1)/8 + 1;
-                printf("Bytes = %d\n", buff[12]);
                 for(int n = 0; n < buff[12]; n++) {
                     buff[13+n] = cmd->data[n];
                 }
@@ -540,6 +581,7 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
         }
         /* We have to convert the TCP message to it's RTU equivalent,
          * because that is what the calling function is expecting. */
+        if(result <= 6) return -1; /* Not even a complete header */
         result -= 6;
         memcpy(buff, &tempbuff[6], result);
     }
@@ -558,13 +600,13 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
  * like an RTU message so the ASCII & TCP response functions should translate
  * the their responses into RTUish messages
  */
-/* TODO: There is all kinds of buffer overflow potential here.  It should all be checked */
 static int
-handleresponse(uint8_t *buff, mb_cmd *cmd)
+handleresponse(uint8_t *buff, int size, mb_cmd *cmd)
 {
-    int n;
+    int n, count;
 
     cmd->responses++;
+    if(size < 3) return ME_CHECKSUM; /* Too short to be a response */
     if(buff[1] >= 0x80)
         return buff[2];
     if(buff[0] != cmd->node)
@@ -575,12 +617,18 @@ handleresponse(uint8_t *buff, mb_cmd *cmd)
     switch (cmd->function) {
         case 1:
         case 2:
-            memcpy(cmd->data, &buff[3], buff[2]);
+            count = buff[2];
+            if(count > size - 3) return ME_CHECKSUM;
+            if(count > cmd->datasize) count = cmd->datasize;
+            memcpy(cmd->data, &buff[3], count);
             break;
         case 3:
         case 4:
-            /* TODO: There may be times when we get more data than cmd->length but how to deal with that? */
-            for(n = 0; n < (buff[2] / 2); n++) {
+            count = buff[2];
+            if(count > size - 3) return ME_CHECKSUM;
+            /* There may be times when we get more data than cmd->length, it's ignored */
+            if(count > cmd->datasize) count = cmd->datasize;
+            for(n = 0; n < count / 2; n++) {
                 COPYWORD(&((uint16_t *)cmd->data)[n], &buff[(n * 2) + 3]);
             }
             break;
@@ -711,7 +759,7 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
         }
 
         if(msglen > 0) {
-            result = handleresponse(buff, mc); /* Returns 0 on success + on failure */
+            result = handleresponse(buff, msglen, mc); /* Returns 0 on success + on failure */
             if(result > 0) {
                 mc->exceptions++;
                 mc->lasterror = result | ME_EXCEPTION;
-- 
2.43.0


From 172832511456b3b31797652c6502900215d9f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 49/71] fix: modbus masters sent only the low byte of a
 register and a random byte after a coil

---
 src/modules/modbus/modbus.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 3b16b94..13a399f 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -297,7 +297,7 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
             }
             break;
         case 6:
-            temp = *cmd->data;
+            temp = *(uint16_t *)cmd->data;
             /* If the command is contiunous go, if conditional then
              check the last checksum against the current datatable[] */
             if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc)) {
@@ -469,7 +469,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[8], &cmd->m_register);
                 if(temp) buff[10] = 0xff;
                 else     buff[10] = 0x00;
-                buff[5] = 0x00;
+                buff[11] = 0x00;
                 cmd->firstrun = 1;
                 cmd->lastcrc = temp;
                 length = 6;
@@ -479,7 +479,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
             }
             break;
         case 6: /* Write single Holding Register */
-            temp = *cmd->data;
+            temp = *(uint16_t *)cmd->data;
             /* If the command is continuous go, if conditional then
              check the last checksum against the current datatable[] */
             if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc)) {
-- 
2.43.0


From 7343af20821d315f3a9f47a1a58d2d0ecf04ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 50/71] fix: modbus slaves and servers overran their buffers on
 requests for too many registers

---
 src/modules/modbus/mbslave.c |  2 +-
 src/modules/modbus/modbus.c  | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/modules/modbus/mbslave.c b/src/modules/modbus/mbslave.c
index 4af37c1..210fd17 100644
--- a/src/modules/modbus/mbslave.c
+++ b/src/modules/modbus/mbslave.c
@@ -82,7 +82,7 @@ _mb_read(mb_port *port, int fd)
         /* Check the checksum here. */
         result = crc16check(buff, buffindex);
         if(result) {
-            result = create_response(port, buff, MB_BUFF_SIZE);
+            result = create_response(port, buff, MB_BUFF_SIZE - 2); /* Leave room for the checksum */
             if(result > 0) { /* We have a response */
                 checksum = crc16(buff, result);
                 COPYWORD(&(buff[result]), &checksum);
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 13a399f..46c17a8 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -810,10 +810,8 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of disc/coils requested */
 
     if(mbreg == MB_REG_COIL) {
-        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->coil_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->disc_size;
     }
 
@@ -823,6 +821,11 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if(mbreg == MB_REG_COIL) {
+        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
+    } else {
+        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
+    }
     buff[2] = (count - 1)/8+1;
 
     bit = 0;
@@ -860,10 +863,8 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of words/coils */
 
     if(mbreg == MB_REG_HOLDING) {
-        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->hold_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
         regsize = port->nodes[nodeid]->input_size;
     }
 
@@ -873,6 +874,11 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if(mbreg == MB_REG_HOLDING) {
+        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
+    } else {
+        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
+    }
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
         COPYWORD(&buff[3+(n*2)], &reg[n]);
@@ -924,7 +930,7 @@ create_response(mb_port *port, unsigned char *buff, int size)
     uint16_t index, value, count;
     uint16_t data[128]; /* should be the largest Modbus data size */
     int word, bit, n;
-    int8_t result, retval;
+    int result = 0, retval;
     lua_State *L;
 
     node = buff[0]; /* Node Number */
@@ -1008,6 +1014,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
             if((index + count) > port->nodes[node]->coil_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(((count - 1)/8+1) > (size - 7)) { /* More than a message can carry */
+                return MB_ERR_OVERFLOW;
+            }
             word = 0;
             bit = 0;
             for(n = 0; n < count; n++) {
@@ -1028,6 +1037,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
             if((index + count) > port->nodes[node]->hold_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if((count * 2) > (size - 7)) { /* More than a message can carry */
+                return MB_ERR_OVERFLOW;
+            }
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
-- 
2.43.0


From 8a974b5105ad675ad93c3f91ff40967bb6eb0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 51/71] fix: a client that reset its connection ended the
 modbus server, and buffers of closed connections were kept

---
 src/modules/modbus/mbserver.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f41af70..82c2b27 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -94,9 +94,21 @@ _clear_buffers(mb_port *port)
 static int
 _del_connection(mb_port *port, int fd)
 {
+    struct client_buffer **this, *old;
 
     close(fd);
     _del_fd(port, fd);
+    /* Take the buffer out of the list */
+    this = &port->buff_head;
+    while(*this != NULL) {
+        if((*this)->fd == fd) {
+            old = *this;
+            *this = old->next;
+            free(old);
+        } else {
+            this = &(*this)->next;
+        }
+    }
     return 0;
 }
 
@@ -155,8 +167,9 @@ _mb_read(mb_port *port, int fd)
                     port->out_callback(port, cc->buff, result + 6);
                 }
                 write(cc->fd, cc->buff, result + 6);
-                cc->buffindex = 0;
-            } else if(result < 0) {
+            }
+            cc->buffindex = 0; /* We are done with this request */
+            if(result < 0) {
                 dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
                 return result;
             }
@@ -248,7 +261,7 @@ _receive(mb_port *port)
                     }
                 } else {
                     result = _mb_read(port, n);
-                    if(result == MB_ERR_NO_SOCKET) { /* This is the end of file */
+                    if(result == MB_ERR_NO_SOCKET || result == MB_ERR_RECV_FAIL) { /* This is the end of file */
                         dax_log(DAX_LOG_MAJOR, "Disconnected socket on fd %d", n);
                         _del_connection(port, n);
                     } else if(result < 0) {
-- 
2.43.0


From e72d577721ce14bbe3eacf8fa9cba337e86aa511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 52/71] fix: modbus wrote in front of the connection pool when
 the pool was full

---
 src/modules/modbus/mbports.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index ca38732..c652cf8 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -437,6 +437,10 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     fd = openIPport(mp, address, port);
     if(fd>=0) {
         n = _get_unused_connection(mp);
+        if(n < 0) { /* The pool is full */
+            close(fd);
+            return n;
+        }
         mp->connections[n].addr = address;
         mp->connections[n].port = port;
         mp->connections[n].fd = fd;
-- 
2.43.0


From d01d2371460dd4c879562761edd0e35c39eb927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:46 +0000
Subject: [PATCH 53/71] fix: the command tags of all but the first modbus port
 had a random type, and their size was not checked

---
 src/modules/modbus/modmain.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 9ee0850..0259495 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -95,6 +95,8 @@ _enable_callback(dax_state *_ds, void *ud) {
 }
 
 #define MOD_DATA_REG_COUNT 120
+/* Size of the command tag without the data */
+#define MOD_COMMAND_SIZE 15
 
 /* This is the callback function that gets called when the 'send' bit
  * of the ports command tag gets set.  It should send the command on
@@ -103,7 +105,7 @@ _enable_callback(dax_state *_ds, void *ud) {
 static void
 _async_command_callback(dax_state *_ds, void *ud) {
     mb_port *port = (mb_port *)ud;
-    uint8_t buff[port->command_h.size];
+    uint8_t buff[MOD_COMMAND_SIZE];
     int result;
 
     result = dax_read_tag(_ds, port->command_h, buff);
@@ -135,7 +137,7 @@ _add_async_command_tag(mb_port *port) {
     char ctag[256];
     static int type_added;
     dax_cdt *cdt;
-    tag_type type;
+    static tag_type type;
     tag_handle h;
 
     if(type_added == 0) { /* First time we're called we add the CDT */
@@ -158,8 +160,10 @@ _add_async_command_tag(mb_port *port) {
     result = dax_tag_add(ds, &port->command_h, ctag, type, 1, 0x00);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to add tag %s", ctag);
+    } else if(port->command_h.size != MOD_COMMAND_SIZE + MOD_DATA_REG_COUNT*2) {
+        dax_log(DAX_LOG_ERROR, "Tag %s does not have the type of a command", ctag);
     } else {
-        port->command_h.size -= MOD_DATA_REG_COUNT*2; /* shrink handle to not include the data */
+        port->command_h.size = MOD_COMMAND_SIZE; /* shrink handle to not include the data */
         port->cmd = mb_new_cmd(NULL); /* Allocate a command for the port */
         if(port->cmd == NULL) {
             dax_log(DAX_LOG_ERROR, "Unable to allocate command to send");
@@ -168,6 +172,7 @@ _add_async_command_tag(mb_port *port) {
             dax_tag_handle(ds, &port->cmd->data_h, ctag, MOD_DATA_REG_COUNT);
             /* Allocate the data area to hold the whole data part of the command */
             port->cmd->data = malloc(port->cmd->data_h.size);
+            port->cmd->datasize = port->cmd->data_h.size;
             if(port->cmd->data == NULL) {
                 dax_log(DAX_LOG_ERROR, "Unable to allocate data for command");
                 mb_destroy_cmd(port->cmd);
-- 
2.43.0


From d2f1e2cb4d8d77fcc1e823b6e232cb3b498fb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:38 +0000
Subject: [PATCH 54/71] fix: a modbus client took a socket error for a response

---
 src/modules/modbus/modbus.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 46c17a8..a654ed8 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -574,6 +574,8 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
     if(FD_ISSET(mp->fd, &readfs)) {
         /* TODO Can we really assume that we'll get the whole thing in one read() */
         result = read(mp->fd, tempbuff, MB_BUFF_SIZE);
+    } else if(result > 0) { /* No data, only an error */
+        return -1;
     }
     if(result > 0) { /* Is there any data in buffer? */
         if(mp->in_callback) {
-- 
2.43.0


From 24292363fe56be1f654aecc1627d6739311b43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:17 +0000
Subject: [PATCH 55/71] fix: modbus wrote stack memory to trigger tags that are
 larger than a bit

---
 src/modules/modbus/modmain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 0259495..cc89272 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -68,7 +68,11 @@ _trigger_callback(dax_state *_ds, void *ud) {
     uint8_t bit=0;
     event_ud *event = (event_ud *)ud;
     mb_send_command(event->port, event->cmd);
-    dax_write_tag(_ds, event->h, &bit);
+    if(event->h.size > sizeof(bit)) {
+        dax_log(DAX_LOG_ERROR, "Trigger tag is not a BOOL");
+    } else {
+        dax_write_tag(_ds, event->h, &bit);
+    }
 }
 
 static void
@@ -108,6 +112,7 @@ _async_command_callback(dax_state *_ds, void *ud) {
     uint8_t buff[MOD_COMMAND_SIZE];
     int result;
 
+    if(port->command_h.size != MOD_COMMAND_SIZE) return;
     result = dax_read_tag(_ds, port->command_h, buff);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to read commadn tag for port %s", port->name);
-- 
2.43.0


From 97a040ab8b212aca5506a8e744902462188210cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:55 +0000
Subject: [PATCH 56/71] fix: a modbus slave answered requests it does not know
 with a random length

---
 src/modules/modbus/modbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index a654ed8..b45be84 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -932,7 +932,7 @@ create_response(mb_port *port, unsigned char *buff, int size)
     uint16_t index, value, count;
     uint16_t data[128]; /* should be the largest Modbus data size */
     int word, bit, n;
-    int result = 0, retval;
+    int result = 0, retval = 0;
     lua_State *L;
 
     node = buff[0]; /* Node Number */
-- 
2.43.0


From fd80b6d7a5f90e7914b54cb5f6a0bd74df901b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:55 +0000
Subject: [PATCH 57/71] fix: modbus read a command tag of any size into a
 buffer of a fixed size

---
 src/modules/modbus/modmain.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index cc89272..857dddf 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -110,10 +110,11 @@ static void
 _async_command_callback(dax_state *_ds, void *ud) {
     mb_port *port = (mb_port *)ud;
     uint8_t buff[MOD_COMMAND_SIZE];
+    tag_handle h = port->command_h;
     int result;
 
-    if(port->command_h.size != MOD_COMMAND_SIZE) return;
-    result = dax_read_tag(_ds, port->command_h, buff);
+    if(h.size != MOD_COMMAND_SIZE) return;
+    result = dax_read_tag(_ds, h, buff);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to read commadn tag for port %s", port->name);
     } else {
@@ -126,7 +127,7 @@ _async_command_callback(dax_state *_ds, void *ud) {
         result = mb_send_command(port, port->cmd);
         buff[0] = 0;
         *(dax_int *)&buff[1] = port->cmd->lasterror;
-        dax_write_tag(_ds, port->command_h, buff);
+        dax_write_tag(_ds, h, buff);
     }
 
 }
-- 
2.43.0


From be41b49d92931ac2a54b94c5dbf6bda8a5d4e377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:15 +0000
Subject: [PATCH 58/71] fix: the module tag functions of the library allowed
 for more data than their buffers hold

---
 src/lib/libutil.c | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/lib/libutil.c b/src/lib/libutil.c
index 1af4742..0ba2258 100644
--- a/src/lib/libutil.c
+++ b/src/lib/libutil.c
@@ -48,11 +48,11 @@ dax_set_running(dax_state *ds, uint8_t val) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return result;
-    if(h.size > 255) return ERR_2BIG;
+    if(h.size > sizeof(tagname)) return ERR_2BIG;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return result;
-    snprintf(runtag, 256, "%s.running", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.running", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return result;
     if(val) {
@@ -60,6 +60,7 @@ dax_set_running(dax_state *ds, uint8_t val) {
     } else {
         byte = 0x00;
     }
+    if(h.size > sizeof(byte)) return ERR_2BIG;
     result = dax_write_tag(ds, h, &byte);
     return result;
 }
@@ -81,11 +82,11 @@ dax_set_status(dax_state *ds, const char *val) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return result;
-    if(h.size > 255) return ERR_2BIG;
+    if(h.size > sizeof(tagname)) return ERR_2BIG;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return result;
-    snprintf(runtag, 256, "%s.status", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.status", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return result;
     buff = malloc(h.size);
@@ -117,11 +118,11 @@ dax_set_faulted(dax_state *ds, uint8_t val) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return result;
-    if(h.size > 255) return ERR_2BIG;
+    if(h.size > sizeof(tagname)) return ERR_2BIG;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return result;
-    snprintf(runtag, 256, "%s.faulted", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.faulted", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return result;
     if(val) {
@@ -129,6 +130,7 @@ dax_set_faulted(dax_state *ds, uint8_t val) {
     } else {
         byte = 0x00;
     }
+    if(h.size > sizeof(byte)) return ERR_2BIG;
     result = dax_write_tag(ds, h, &byte);
     return result;
 }
@@ -154,14 +156,15 @@ dax_default_run(dax_state *ds, void *ud) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return;
-    if(h.size > 255) return;
+    if(h.size > sizeof(tagname)) return;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return;
-    snprintf(runtag, 256, "%s.run", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.run", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return;
     byte = 0x00;
+    if(h.size > sizeof(byte)) return;
     result = dax_write_tag(ds, h, &byte);
     dax_set_running(ds, 1);
 }
@@ -185,14 +188,15 @@ dax_default_stop(dax_state *ds, void *ud) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return;
-    if(h.size > 255) return;
+    if(h.size > sizeof(tagname)) return;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return;
-    snprintf(runtag, 256, "%s.stop", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.stop", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return;
     byte = 0x00;
+    if(h.size > sizeof(byte)) return;
     result = dax_write_tag(ds, h, &byte);
     dax_set_running(ds, 0);
 }
@@ -215,14 +219,15 @@ dax_default_kill(dax_state *ds, void *ud) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return;
-    if(h.size > 255) return;
+    if(h.size > sizeof(tagname)) return;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return;
-    snprintf(runtag, 256, "%s.kill", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.kill", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return;
     byte = 0x00;
+    if(h.size > sizeof(byte)) return;
     result = dax_write_tag(ds, h, &byte);
 }
 
@@ -263,11 +268,11 @@ dax_set_run_callback(dax_state *ds, void f(dax_state *, void *)) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return result;
-    if(h.size > 255) return ERR_2BIG;
+    if(h.size > sizeof(tagname)) return ERR_2BIG;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return result;
-    snprintf(runtag, 256, "%s.run", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.run", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return result;
     result = dax_event_add(ds, &h, EVENT_SET, NULL, NULL,f, NULL, NULL);
@@ -291,11 +296,11 @@ dax_set_stop_callback(dax_state *ds, void f(dax_state *, void *)) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return result;
-    if(h.size > 255) return ERR_2BIG;
+    if(h.size > sizeof(tagname)) return ERR_2BIG;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return result;
-    snprintf(runtag, 256, "%s.stop", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.stop", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return result;
     result = dax_event_add(ds, &h, EVENT_SET, NULL, NULL,f, NULL, NULL);
@@ -320,11 +325,11 @@ dax_set_kill_callback(dax_state *ds, void f(dax_state *, void *)) {
     /* Get a handle to our module tagname */
     result = dax_tag_handle(ds, &h, _MY_TAGNAME, 0);
     if(result) return result;
-    if(h.size > 255) return ERR_2BIG;
+    if(h.size > sizeof(tagname)) return ERR_2BIG;
     /* Read the tagname */
     result = dax_read_tag(ds, h, tagname);
     if(result) return result;
-    snprintf(runtag, 256, "%s.kill", tagname);
+    snprintf(runtag, sizeof(runtag), "%s.kill", tagname);
     result = dax_tag_handle(ds, &h, runtag, 0);
     if(result) return result;
     result = dax_event_add(ds, &h, EVENT_SET, NULL, NULL,f, NULL, NULL);
-- 
2.43.0


From ada7efc7dacc34fa6a3885ad9540f9d78d86e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:15 +0000
Subject: [PATCH 59/71] fix: dax_fqn() gave snprintf() and strncat() the wrong
 sizes

---
 src/lib/libcdt.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c65251c..2c1e4ab 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -932,11 +932,11 @@ static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn
             i = (data->final_byte - data->byte_position) / dax_get_typesize(ds, data->member.type);
             data->byte_position += i * dax_get_typesize(ds, data->member.type);
         }
-        snprintf(temp, FQN_TAG_SIZE, ".%s[%d]", data->member.name, i);
-        strncat(str, temp, FQN_TAG_SIZE);
+        snprintf(temp, sizeof(temp), ".%s[%d]", data->member.name, i);
+        strncat(str, temp, FQN_TAG_SIZE - strlen(str) - 1);
     } else {
-        strncat(str, ".", FQN_TAG_SIZE);
-        strncat(str, data->member.name, FQN_TAG_SIZE);
+        strncat(str, ".", FQN_TAG_SIZE - strlen(str) - 1);
+        strncat(str, data->member.name, FQN_TAG_SIZE - strlen(str) - 1);
     }
     /* see if we need to go any further */
     if(data->byte_position != data->final_byte || data->bit_position != data->final_bit) {
@@ -951,8 +951,8 @@ static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn
                if we have any bits left */
             if(data->member.type != DAX_BOOL) {
                 i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-                snprintf(temp, FQN_TAG_SIZE, ".%d", i);
-                strncat(str, temp, FQN_TAG_SIZE);
+                snprintf(temp, sizeof(temp), ".%d", i);
+                strncat(str, temp, FQN_TAG_SIZE - strlen(str) - 1);
             }
         }
     }
@@ -1016,7 +1016,7 @@ dax_fqn(dax_state *ds, tag_handle h) {
             _fqn_cdt_member(ds, s, tag.type, &data);
         } else if(h.type == DAX_BOOL) {
             snprintf(d, 64, ".%d", h.bit + (h.byte - offset)*8);
-            strncat(s, d, FQN_TAG_SIZE);
+            strncat(s, d, FQN_TAG_SIZE - strlen(s) - 1);
         }
     }
 
-- 
2.43.0


From 91853da627fdcb4cb0ccbb89d6a9bbc8384faa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:15 +0000
Subject: [PATCH 60/71] fix: a module name that does not fit into a message was
 registered without an end

---
 src/lib/libmsg.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 511d74b..6087bd1 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -254,12 +254,9 @@ _mod_register(dax_state *ds, char *name)
     char buff[DAX_MSGMAX];
     dax_message msg;
 
-/* TODO: Boundary check that a name that is longer than data size will
-   be handled correctly. */
     len = strlen(name) + 1;
     if(len > (MSG_DATA_SIZE - CON_HDR_SIZE)) {
-        len = MSG_DATA_SIZE - CON_HDR_SIZE;
-        name[len] = '\0';
+        return ERR_2BIG;
     }
 
     /* For registration we send the data in network order no matter what */
-- 
2.43.0


From ee428eee90ebba81007b0177a780dc5087be9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:15 +0000
Subject: [PATCH 61/71] fix: dax_tag_byname() copied a name of any length from
 the reply

---
 src/lib/libmsg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 6087bd1..60f7d05 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -631,6 +631,11 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
             pthread_mutex_unlock(&ds->lock);
             return result;
         }
+        if(size < 15 || size > DAX_TAGNAME_SIZE + 15) { /* Three integers, the attributes and the name */
+            free(buff);
+            pthread_mutex_unlock(&ds->lock);
+            return ERR_MSG_BAD;
+        }
         tag->idx = stom_dint( *((int *)&buff[0]) );
         tag->type = stom_udint(*((uint32_t *)&buff[4]));
         tag->count = stom_udint(*((uint32_t *)&buff[8]));
-- 
2.43.0


From f05619332df2e5445b5da1ccf873c78b5b8cb099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:15 +0000
Subject: [PATCH 62/71] fix: the size check of dax_atomic_op() could overflow

---
 src/lib/libmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 60f7d05..9de2602 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1134,7 +1134,7 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     uint8_t buff[MSG_DATA_SIZE];
 
     /* This calculates the amount of data that we can send with a single message */
-    sendsize = h.size + 21;
+    sendsize = (size_t)h.size + 21;
     if(sendsize > MSG_DATA_SIZE) {
         return ERR_2BIG;
     }
-- 
2.43.0


From dc3716fbfd39927e9bc7ef8bcde4d726ebd7f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:54 +0000
Subject: [PATCH 63/71] fix: the server logged from a signal handler

---
 src/server/server.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index e3c98b7..8b7916d 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -110,6 +110,5 @@ quit_signal(int sig)
 void
 catch_signal(int sig)
 {
-    /* TODO: Shouldn't really have printfs in signal handlers */
-    dax_log(DAX_LOG_MINOR, "Received signal %d", sig);
+    /* Nothing to do.  We only keep the signal from stopping us */
 }
-- 
2.43.0


From 10e13b713a8f324d8e3c091f5085ee09ec47ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:54 +0000
Subject: [PATCH 64/71] fix: modbus forgot to stop when another signal followed

---
 src/modules/modbus/modmain.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 857dddf..5828f6c 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -40,6 +40,7 @@ pthread_barrier_t port_barrier;
 pthread_mutex_t port_lock;
 
 static int _caught_signal;
+static int _quit_signal;
 
 void catchsignal(int sig);
 void catchpipe(int sig);
@@ -506,15 +507,15 @@ main (int argc, const char * argv[]) {
             }
         }
         dax_event_wait(ds, 500, NULL);
+        if(_quit_signal) {
+            dax_log(DAX_LOG_FATAL, "Exiting with signal %d", _quit_signal);
+            getout(0);
+        }
         if(_caught_signal) {
             if(_caught_signal == SIGHUP) {
                 dax_log(DAX_LOG_MINOR, "Should be Reconfiguring Now");
                 //--reconfigure();
                 _caught_signal = 0;
-            } else if(_caught_signal == SIGTERM || _caught_signal == SIGINT ||
-                      _caught_signal == SIGQUIT) {
-                dax_log(DAX_LOG_FATAL, "Exiting with signal %d", _caught_signal);
-                getout(0);
             } else if(_caught_signal == SIGCHLD) {
                 dax_log(DAX_LOG_MINOR, "Got SIGCHLD");
                 /* TODO: Figure out which thread quit and restart it */
@@ -536,7 +537,11 @@ main (int argc, const char * argv[]) {
 /* This function is used as the signal handler for all the signals
  * that are going to be caught by the program */
 void catchsignal(int sig) {
-    _caught_signal = sig;
+    if(sig == SIGTERM || sig == SIGINT || sig == SIGQUIT) {
+        _quit_signal = sig; /* Other signals must not hide this one */
+    } else {
+        _caught_signal = sig;
+    }
 }
 
 void
-- 
2.43.0


From f267cbd42f9162e1c8b78f79cdc29f93d5370531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 65/71] fix: an override of some bits removed those of the
 other bits in the same byte

---
 src/server/tagbase.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 986ea64..19ff660 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1264,7 +1264,8 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
 
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
-    int tag_size;
+    int tag_size, n;
+    uint8_t x;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
@@ -1293,8 +1294,13 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
         bzero(_db[idx].odata, tag_size);
         bzero(_db[idx].omask, tag_size);
     }
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
+    /* Only the bits that are set in the mask are added.  The other bits of
+     * these bytes may belong to overrides that are already installed */
+    for(n=0;n<size;n++) {
+        x = ((uint8_t *)mask)[n];
+        _db[idx].odata[n+offset] = (_db[idx].odata[n+offset] & ~x) | (((uint8_t *)data)[n] & x);
+        _db[idx].omask[n+offset] |= x;
+    }
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
-- 
2.43.0


From 059a199a5ae7b62be200842978f68ad327d98c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:04 +0000
Subject: [PATCH 66/71] fix: a message that came in slowly was forgotten after
 a second without others

---
 src/server/buffer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index e92d0fd..ed740dc 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -204,7 +204,7 @@ buff_free(int fd)
     }
 }
 
-/* This function essentially marks all of the buffers as free.  If there are
+/* This function essentially marks all of the empty buffers as free.  If there are
  * more than min_buffers it'll free() the last one.  Kindof a poor boy
  * garbage collection. */
 void
@@ -218,12 +218,12 @@ buff_freeall(void)
     last = NULL;
 
     while(node != NULL) {
-        node->fd = 0;
-        node->index = 0;
+        /* One that holds the beginning of a message is still needed */
+        if(node->index == 0) node->fd = 0;
         n++;
         /* If we are the last node, there are more than min_buffers nodes in the list
            and last is not NULL then free the last node */
-        if(node->next == NULL && n > opt_min_buffers() && last != NULL) {
+        if(node->next == NULL && node->fd == 0 && n > opt_min_buffers() && last != NULL) {
             free(node);
             node = NULL;
             last->next = NULL;
-- 
2.43.0


From 0b1c2d04365c1ac2566e35ade65fb0e60713cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 67/71] fix: a socket that could not be created was put into
 the set of sockets

---
 src/server/message.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/message.c b/src/server/message.c
index 2115b3e..505c199 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -131,6 +131,7 @@ _msg_setup_local_socket(void)
     if(fd < 0) {
         dax_log(DAX_LOG_FATAL, "Unable to create local socket - %s", strerror(errno));
         kill(getpid(), SIGQUIT);
+        return ERR_NO_SOCKET;
     }
 
     bzero(&addr, sizeof(addr));
@@ -165,6 +166,7 @@ _msg_setup_remote_socket(struct in_addr ipaddress, in_port_t ipport)
     fd = socket(AF_INET, SOCK_STREAM, 0);
     if(fd < 0) {
         dax_log(DAX_LOG_FATAL, "Unable to create remote socket - %s", strerror(errno));
+        return ERR_NO_SOCKET;
     }
 
     bzero(&addr, sizeof(addr));
-- 
2.43.0


From 5228e99eb55dfb58f8f61754b2ec8202fed75846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 68/71] fix: a connection beyond the size of a descriptor set
 corrupted memory

---
 src/server/message.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/message.c b/src/server/message.c
index 505c199..efb3bcb 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -321,6 +321,9 @@ msg_receive(void)
                     if(fd < 0) {
                         /* TODO: Need to handle these errors */
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
+                    } else if(fd >= FD_SETSIZE) {
+                        dax_log(DAX_LOG_ERROR, "Too many sockets, connection refused");
+                        close(fd);
                     } else {
                         dax_log(DAX_LOG_COMM, "Accepted socket on fd %d", n);
                         msg_add_fd(fd);
-- 
2.43.0


From 9c97b8e93e8cf0234681c21ca1f05fec5b6217df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 69/71] fix: a bad message of one module kept the others
 waiting for a second

---
 src/server/message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/message.c b/src/server/message.c
index efb3bcb..03b1c50 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -335,7 +335,8 @@ msg_receive(void)
                         module_unregister(n);
                         msg_del_fd(n);
                     } else if(result < 0) {
-                        return result; /* Pass the error up */
+                        /* It's this module's problem, the others still have to be served */
+                        dax_log(DAX_LOG_ERROR, "Message received on fd %d with error: %d", n, result);
                     }
                 }
             }
-- 
2.43.0


From 5bf0bc59c42baf69c3ecde341968dfb63acc8a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 70/71] fix: a tag owned by a connection that never registered
 passed to the next connection

---
 src/server/module.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index 2a2af11..afaac90 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -300,19 +300,20 @@ module_unregister(int fd)
         dax_log(DAX_LOG_MAJOR,"Removing module '%s' at file descriptor %d", mod->name, fd);
         events_cleanup(mod);
         groups_cleanup(mod);
-        /* This deletes any tag that is owned by this module. */
-        tag_count = get_tagindex();
-        for(tag_index n=0;n<tag_count;n++) {
-            if(is_tag_owned(fd, n)) {
-                tag_del(n);
-            }
-        }
         /* Not every module has a tag */
         if(mod->tagindex > 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
     }
+    /* This deletes any tag that is owned by this connection.  It may own
+     * tags even if it never registered as a module. */
+    tag_count = get_tagindex();
+    for(tag_index n=0;n<tag_count;n++) {
+        if(is_tag_owned(fd, n)) {
+            tag_del(n);
+        }
+    }
 }
 
 
-- 
2.43.0


From f17310cf72a2750ddceab3f7d256e2dbc9a4585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 71/71] fix: a tag that already existed was remembered with the
 count and attributes that were asked for

---
 src/lib/libmsg.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 9de2602..4d18ae2 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -496,7 +496,6 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
 {
     int result;
     size_t size;
-    dax_tag tag;
     char buff[DAX_TAGNAME_SIZE + 12 + 1];
 
     if(count == 0) return ERR_ARG;
@@ -539,14 +538,9 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
                 h->size = count * dax_get_typesize(ds, type);
             }
         }
-        strcpy(tag.name, name);
-        tag.idx = *(tag_index *)buff;
-        tag.type = type;
-        tag.count = count;
-        tag.attr = attr;
-        /* Just in case this call modifies the tag */
-        cache_tag_del(ds, tag.idx);
-        cache_tag_add(ds, &tag);
+        /* Just in case this call modifies the tag.  An existing tag may be larger
+           and have other attributes than we asked for so we can't cache it here */
+        cache_tag_del(ds, *(tag_index *)buff);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
-- 
2.43.0

