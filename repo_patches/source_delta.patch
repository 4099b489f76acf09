From bf28efbe7ebb72298c5a7ce554d104a19c4dd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 01/70] fix: sequential lookup of an id which was never
 generated reached another entry

---
 libzdb/index_get.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..e13754d 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -24,6 +24,12 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     memcpy(&key, id, sizeof(seqid_t));
     // key = be64toh(key);
 
+    // this id was never generated
+    if(key >= index_next_id(index)) {
+        zdb_debug("[-] index: sequential get: key out of range\n");
+        return NULL;
+    }
+
     // resolving key into file id
     index_seqmap_t *seqmap = index_fileid_from_seq(index, key);
 
@@ -37,6 +43,14 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
         return NULL;
 
+    // this position is used by a previous version of another
+    // key (see index_update_entry_sequential), it's not an id
+    if(item->idlength != idlength || memcmp(item->id, id, idlength)) {
+        zdb_debug("[-] index: sequential get: position doesn't match requested key\n");
+        free(item);
+        return NULL;
+    }
+
     memcpy(index_reusable_entry->id, item->id, item->idlength);
     index_reusable_entry->idlength = item->idlength;
     index_reusable_entry->offset = item->offset;
-- 
2.43.0


From 6dc1f11b0a72e45d6a844bf87475b653f082081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 02/70] fix: sequential ids were lost after jumping from a file
 without any entry

---
 libzdb/index_loader.c | 23 ++++++++++-------------
 libzdb/index_seq.c    |  7 +++++++
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..f5ef4b1 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,7 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
 
     // reading the index, populating memory
     //
@@ -314,6 +313,15 @@ static size_t index_load_file(index_root_t *root) {
     // this file, starting from zero
     root->nextid = 0;
 
+    // checking if we are in sequential mode, we need to populate
+    // our mapping with the first key of this file, even if this file
+    // doesn't contain any key (yet)
+    //
+    // the set operation will update 'nextentry' counter
+    // we need to update seqid before inserting keys
+    if(root->seqid)
+        index_seqid_push(root, root->nextentry, root->indexid);
+
     while(seeker < filebuf + fullsize) {
         index_entry_t *fresh = NULL;
 
@@ -337,17 +345,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..66854b3 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,13 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // the last file mapped doesn't contain any entry, this id
+    // (the next one) will be stored in this new file
+    if(root->seqid->length > 0 && root->seqid->seqmap[root->seqid->length - 1].seqid == id) {
+        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;
+        return;
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From 423686223b205d4d7db2b70434f8584b936a452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 03/70] fix: SCAN and RSCAN reported timestamps after 2038 as
 negative numbers

---
 zdbd/commands_scan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..85ec070 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -142,10 +142,10 @@ static int command_scan_send_scanlist(scan_list_t *scanlist, redis_client_t *cli
         offset += entry->idlength;
 
         // adding the length of the payload
-        offset += sprintf(response + offset, "\r\n:%d\r\n", entry->length);
+        offset += sprintf(response + offset, "\r\n:%u\r\n", entry->length);
 
         // adding the timestamp to the payload
-        offset += sprintf(response + offset, ":%d\r\n", entry->timestamp);
+        offset += sprintf(response + offset, ":%u\r\n", entry->timestamp);
     }
 
     redis_reply_heap(client, response, offset, free);
-- 
2.43.0


From d128d9b925bb98a8451c1183ca3de10b6a62161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 04/70] fix: STOP crashed in mixed mode when the default
 namespace is sequential

---
 libzdb/namespace.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..aaa8065 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -507,13 +507,12 @@ void namespace_free(namespace_t *namespace) {
 // let's clean all indices, data and namespace arrays
 int namespaces_destroy() {
     // freeing the big index buffer
-    // since branches want an index as argument, let's use
-    // the first namespace (default), since they all share
-    // the same buffer
+    // all namespaces share the same buffer (the default namespace
+    // could not use it, when running in sequential mode)
     if(nsroot->branches) {
         zdb_debug("[+] namespaces: cleaning branches\n");
         for(uint32_t b = 0; b < buckets_branches; b++)
-            index_branch_free(nsroot->namespaces[0]->index->branches, b);
+            index_branch_free(nsroot->branches, b);
 
         // freeing the big index array
         free(nsroot->branches);
-- 
2.43.0


From 579c7f4705c8746e853014ff7a929abe0ebf7b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 05/70] fix: RSCAN stopped on index files without any entry

---
 libzdb/index_scan.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e3480d0..891fdff 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -75,6 +75,12 @@ void __ditry_seqmode_fix(index_item_t *source, off_t original) {
         source->previous = 1;
 }
 
+// check if an index file doesn't contains any entry, this happens
+// when data were rotated (jump) without new insertion
+static int index_scan_empty(int fd) {
+    return (lseek(fd, 0, SEEK_END) <= (off_t) sizeof(index_header_t));
+}
+
 // RSCAN implementation
 static index_scan_t index_previous_header_real(index_scan_t scan) {
     index_item_t source;
@@ -195,6 +201,14 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
             return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
         }
 
+        // target comes from the next file and this file have no
+        // entry, the previous entry is in an earlier file
+        if(scan.target && scan.fileid > 0 && index_scan_empty(scan.fd)) {
+            index_release_fileid(root, scan.fileid, scan.fd);
+            scan.fileid = scan.fileid - 1;
+            continue;
+        }
+
         // trying to get entry
         scan = index_previous_header_real(scan);
 
@@ -518,6 +532,13 @@ index_scan_t index_last_header(index_root_t *root) {
         }
 
         // trying to get entry
+        // no entry in that file, last entry is in an earlier file
+        if(scan.fileid > 0 && index_scan_empty(scan.fd)) {
+            index_release_fileid(root, scan.fileid, scan.fd);
+            scan.fileid = scan.fileid - 1;
+            continue;
+        }
+
         scan = index_last_header_real(scan);
 
         // release fileid
-- 
2.43.0


From 1b411821a7b4e67451b90502d88d826233510897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 06/70] fix: scan cursor validation could read past the entry
 and lost sequential ids after update

---
 libzdb/index.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..429ae52 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -644,7 +644,25 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->length != key->length || item->crc != key->crc) {
+    // item read is only as long as requested, length needs to be exact
+    int valid = (item->idlength == key->idlength);
+
+    if(root->mode == ZDB_MODE_SEQUENTIAL) {
+        // in sequential mode, entries are overwritten in place on update, fields
+        // can changes during life-time of the key, but each entry have a fixed-length
+        size_t entrylength = sizeof(index_item_t) + sizeof(seqid_t);
+
+        if(key->idxoffset < sizeof(index_header_t) || key->idlength != sizeof(seqid_t))
+            valid = 0;
+
+        else if((key->idxoffset - sizeof(index_header_t)) % entrylength)
+            valid = 0;
+
+    } else if(item->length != key->length || item->crc != key->crc) {
+        valid = 0;
+    }
+
+    if(!valid) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
-- 
2.43.0


From ab6c4793451d37cf65203f5ff985ebd60f513c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 07/70] fix: HISTORY read wrong datafile for first versions,
 crashed on invalid requests

---
 zdbd/commands_history.c | 16 ++++++++++++++--
 zdbd/commands_set.c     |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..61006f9 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -110,7 +110,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     if(!response.payload.buffer) {
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
-        free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
@@ -178,9 +178,21 @@ int command_history(redis_client_t *client) {
 
         index_item_t *item = index_item_get_disk(index, entry->indexid, entry->idxoffset, entry->idlength);
 
+        if(!item) {
+            zdbd_debug("[-] command: history: cannot read index entry\n");
+            redis_hardsend(client, "-Internal Error");
+            return 1;
+        }
+
         return history_send(client, item, &ekey);
     }
 
+    // keys are never longer than maximum allowed
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid arguments (invalid key)");
+        return 1;
+    }
+
     // user requested an older entry
     // let's fetch the requested entry on the index file
     // and check if this is a legitim request
@@ -211,7 +223,7 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From e8ca8ee9242b01145dafc89a123c3a842696bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 08/70] fix: failed writes left partial records and lost the
 updated entry

---
 libzdb/data.c      | 13 +++++++++++--
 libzdb/index.c     | 10 +++++-----
 libzdb/index_set.c | 17 +++++++++++++----
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 7e7aac3..0a43808 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -589,6 +589,15 @@ int data_check(data_root_t *root, size_t offset, fileid_t dataid) {
 
 
 
+// drop what was partially written by a failed insertion, next
+// entries needs to follow the last valid one
+static size_t data_insert_rollback(data_root_t *root, size_t offset) {
+    if(ftruncate(root->datafd, offset) < 0)
+        zdb_warnp("data insert: rollback");
+
+    return 0;
+}
+
 // insert data to the datafile and return it's offset
 // size_t data_insert(data_root_t *root, unsigned char *data, uint32_t datalength, void *vid, uint8_t idlength, uint8_t flags, uint32_t crc) {
 size_t data_insert(data_root_t *root, data_request_t *source) {
@@ -615,14 +624,14 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
     if(!data_write(root->datafd, header, headerlength, 0, root)) {
         zdb_verbose("[-] data header: write failed\n");
         free(header);
-        return 0;
+        return data_insert_rollback(root, offset);
     }
 
     free(header);
 
     if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {
         zdb_verbose("[-] data payload: write failed\n");
-        return 0;
+        return data_insert_rollback(root, offset);
     }
 
     // set this current offset as the latest
diff --git a/libzdb/index.c b/libzdb/index.c
index 429ae52..1be1f9f 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -539,10 +539,6 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // compute this object size on disk
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
-    // mark entry as deleted
-    // this affect the memory object (runtime)
-    entry->flags |= INDEX_ENTRY_DELETED;
-
     // (re-)open the expected index file, in read-write mode
     if((fd = index_open_file_readwrite(root, entry->indexid)) < 0)
         return 1;
@@ -561,7 +557,7 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     index_item_header_dump(index_transition);
 
     // update the flags
-    index_transition->flags = entry->flags;
+    index_transition->flags = entry->flags | INDEX_ENTRY_DELETED;
 
     // rollback to point to the entry again
     zdb_debug("[+] index: delete: overwriting key\n");
@@ -582,6 +578,10 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
 
     close(fd);
 
+    // mark entry as deleted
+    // this affect the memory object (runtime)
+    entry->flags |= INDEX_ENTRY_DELETED;
+
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, entry->indexid, 1);
 
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..cc5e24d 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -147,19 +147,24 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
 
     index_item_t *item = index_item_from_set(root, set);
 
-    // updating global previous
-    root->previous = curoffset;
-
     // writing data on the disk
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
 
+        // drop what was partially written, next entries
+        // needs to follow the last valid one
+        if(ftruncate(root->indexfd, curoffset) < 0)
+            zdb_warnp("index append: rollback");
+
         // it's easier to flag the entry as deleted than
         // removing it from the list
         entry->flags |= INDEX_ENTRY_DELETED;
         return 1;
     }
 
+    // updating global previous
+    root->previous = curoffset;
+
     return 0;
 }
 
@@ -344,13 +349,17 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
 
     // since we added a new entry on the index, the next id needs
     // to be incremented to skip this position in the futur
     root->nextid += 1;
     root->nextentry += 1;
 
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite entry\n");
+        return NULL;
+    }
+
     // update statistics
     root->stats.datasize -= previous->length;
     root->stats.datasize += set->entry->length;
-- 
2.43.0


From fcd75e7f67fcd4302e4384f4c668cfa50dc2d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 09/70] fix: interrupted update lost the key

---
 libzdb/index_loader.c |  9 +++++++++
 libzdb/index_set.c    | 25 ++++++++++++-------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index f5ef4b1..0cadcca 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -345,6 +345,15 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
+        // previous entry of that key should be flagged as deleted already, except
+        // if the update was interrupted before flagging it
+        if(root->mode == ZDB_MODE_KEY_VALUE && !(root->status & INDEX_READ_ONLY)) {
+            index_entry_t *older = index_get(root, entry->id, entry->idlength);
+
+            if(older && index_entry_delete_disk(root, older) == 0)
+                zdb_debug("[+] index: loader: outdated entry flagged as deleted\n");
+        }
+
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index cc5e24d..2b2c6a9 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -307,24 +307,23 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
-
-    // update memory state
-    index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
-
-    index_set_t updated = {
-        .entry = entry,
-        .id = set->id,
-    };
+    // linking new entry with the previous one (history)
+    set->entry->dataid = root->indexid;
+    set->entry->parentid = previous->indexid;
+    set->entry->parentoff = previous->idxoffset;
 
-    // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
+    // append the data on the disk first, if this fails (or is interrupted)
+    // the previous entry is still valid
+    if(index_append_entry_on_disk(root, set)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
         return NULL;
     }
 
-    return entry;
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    index_entry_delete_disk(root, previous);
+
+    // update memory state
+    return index_update_memory_handler_memkey(root, set, previous);
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-- 
2.43.0


From 4a1ed9085a4c47c0f3c39f6088667232e585f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 10/70] fix: interrupted writes made the server refuse to start
 or misplaced the next entries

---
 libzdb/data.c         | 34 ++++++++++++++++++++++++--
 libzdb/data.h         |  2 ++
 libzdb/index.h        |  2 ++
 libzdb/index_loader.c | 56 ++++++++++++++++++++++++++-----------------
 libzdb/namespace.c    |  8 +++++++
 5 files changed, 78 insertions(+), 24 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 0a43808..c1fd4d2 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -303,17 +303,46 @@ static void data_open_final(data_root_t *root) {
 
     zdb_debug("[+] data: reading file, finding last entry\n");
 
+    off_t fullsize = lseek(root->datafd, 0, SEEK_END);
+    off_t current = lseek(root->datafd, sizeof(data_header_t), SEEK_SET);
+
     while(read(root->datafd, &header, sizeof(data_entry_header_t)) == sizeof(data_entry_header_t)) {
-        root->previous = lseek(root->datafd, 0, SEEK_CUR) - sizeof(data_entry_header_t);
-        lseek(root->datafd, header.datalength + header.idlength, SEEK_CUR);
+        off_t next = current + sizeof(data_entry_header_t) + header.datalength + header.idlength;
+
+        // last entry incomplete
+        if(next > fullsize)
+            break;
+
+        root->previous = current;
+        current = lseek(root->datafd, next, SEEK_SET);
 
         entries += 1;
     }
 
+    // keep where the valid entries ends
+    root->validsize = current;
+
     zdb_debug("[+] data: entries read: %d, last offset: %lu\n", entries, root->previous);
     zdb_verbose("[+] data: active file: %s\n", root->datafile);
 }
 
+// discard an incomplete entry at the end of the current datafile, this can happen
+// if writing it was interrupted, next entries needs to follow the last valid one
+//
+// the length known by the index is needed, if the index knows something
+// after the last valid entry, that's not an interruption, file is corrupted
+void data_discard_incomplete(data_root_t *root, size_t indexed) {
+    off_t fullsize = lseek(root->datafd, 0, SEEK_END);
+
+    if((size_t) fullsize <= root->validsize || indexed > root->validsize)
+        return;
+
+    zdb_logerr("[-] data: %s: last entry incomplete, discarding\n", root->datafile);
+
+    if(ftruncate(root->datafd, root->validsize) < 0)
+        zdb_warnp(root->datafile);
+}
+
 data_raw_t data_raw_error(data_raw_t raw) {
     free(raw.id);
     free(raw.payload.buffer);
@@ -705,6 +734,7 @@ data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t d
     root->synctime = settings->synctime;
     root->lastsync = 0;
     root->previous = 0;
+    root->validsize = 0;
     root->secure = settings->secure;
 
     memset(&root->stats, 0x00, sizeof(data_stats_t));
diff --git a/libzdb/data.h b/libzdb/data.h
index 425706d..e4282dd 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -26,6 +26,7 @@
         int synctime;       // force to sync data after this timeout (on next write)
         time_t lastsync;    // keep track when the last sync was explictly made
         size_t previous;    // keep latest offset inserted to the datafile
+        size_t validsize;   // end of the last valid entry when opened
         int secure;         // enable some safety (see secure zdb_settings_t)
         data_stats_t stats; // data statistics (session time)
 
@@ -126,6 +127,7 @@
 
     } data_request_t;
 
+    void data_discard_incomplete(data_root_t *root, size_t indexed);
     data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid);
     data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t dataid);
     int data_open_id_mode(data_root_t *root, fileid_t id, int mode);
diff --git a/libzdb/index.h b/libzdb/index.h
index 138622c..1c0bfe9 100644
--- a/libzdb/index.h
+++ b/libzdb/index.h
@@ -210,6 +210,8 @@
         // for 16384 index files, this would consume 2048 bytes
 
         size_t previous;    // keep latest offset inserted to the indexfile
+        fileid_t lastdata;  // highest datafile id used by loaded entries
+        size_t lastdatalen; // length of that datafile needed by loaded entries
 
     } index_root_t;
 
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 0cadcca..e7dc086 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -203,28 +203,14 @@ static size_t index_load_file(index_root_t *root) {
             return 1;
         }
 
-        if(length > 0) {
-            // we read something, but not the expected header, at least
-            // not this amount of data, which is a completly undefined behavior
-            // let's just stopping here
-            zdb_logerr("[-] index: header corrupted or incomplete\n");
-            zdb_logerr("[-] index: expected %lu bytes, %ld read\n", sizeof(index_header_t), length);
-            exit(EXIT_FAILURE);
-        }
-
-        // we could not read anything, which basicly means that
-        // the file is empty, we probably just created it
-        //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
-        // this is the initial index file we need to create
-        if(root->indexid > 0) {
-            zdb_verbose("[+] index: discarding file\n");
-            close(root->indexfd);
-            return 0;
-        }
-
-        // if we are here, it's the first index file found
+        // we could not read the header, which basicly means that
+        // the file is empty, we probably just created it, or we were
+        // interrupted before the header was (completly) written, in any
+        // case there is no entry in that file
+        if(length > 0)
+            zdb_logerr("[-] index: incomplete header: expected %lu bytes, %ld read\n", sizeof(index_header_t), length);
+
+        // if we are here, there is no usable index file
         // and we are in read-only mode, we can't write on the index
         // and it's empty, there is no use in doing anything
         // let's crash
@@ -235,6 +221,7 @@ static size_t index_load_file(index_root_t *root) {
         }
 
         zdb_verbose("[+] index: creating empty file\n");
+        lseek(root->indexfd, 0, SEEK_SET);
         header = index_initialize(root->indexfd, root->indexid, root);
     }
 
@@ -328,6 +315,18 @@ static size_t index_load_file(index_root_t *root) {
         entry = (index_item_t *) seeker;
         off_t offset = seeker - filebuf;
 
+        // last entry incomplete, writing it was interrupted
+        size_t remain = fullsize - offset;
+        if(remain < sizeof(index_item_t) || remain < sizeof(index_item_t) + entry->idlength) {
+            zdb_logerr("[-] index: %s: last entry incomplete, discarded\n", root->indexfile);
+
+            // next entries needs to follow the last valid one
+            if(!(root->status & INDEX_READ_ONLY) && ftruncate(root->indexfd, offset) < 0)
+                zdb_warnp(root->indexfile);
+
+            break;
+        }
+
         // create a gateway struct to fill our index memory
         // this is not nice (lot of copy) but make things more
         // generic and clear
@@ -368,6 +367,19 @@ static size_t index_load_file(index_root_t *root) {
         if(index_entry_is_deleted(fresh))
             index_entry_delete_memory(root, fresh);
 
+        // keep track of the end of the last payload known
+        if(entry->dataid > root->lastdata) {
+            root->lastdata = entry->dataid;
+            root->lastdatalen = 0;
+        }
+
+        if(entry->dataid == root->lastdata) {
+            size_t end = (size_t) entry->offset + sizeof(data_entry_header_t) + entry->idlength + entry->length;
+
+            if(end > root->lastdatalen)
+                root->lastdatalen = end;
+        }
+
         // set the previous pointing to this entry
         // this is the last one we added
         root->previous = seeker - filebuf;
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index aaa8065..6f8e8b5 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -230,6 +230,14 @@ static int namespace_load_lazy(ns_root_t *nsroot, namespace_t *namespace) {
     namespace->index = index_init(nsroot->settings, namespace->indexpath, namespace, nsroot->branches);
     namespace->data = data_init(nsroot->settings, namespace->datapath, namespace->index->indexid);
 
+    // last insertion was maybe interrupted
+    size_t indexed = 0;
+
+    if(namespace->index->lastdata == namespace->data->dataid)
+        indexed = namespace->index->lastdatalen;
+
+    data_discard_incomplete(namespace->data, indexed);
+
     return 0;
 }
 
-- 
2.43.0


From 493f79cad66e4d9c3780b4ebe628f194eed4897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 11/70] fix: FLUSH removed nothing, lost the mode of the
 namespace and ignored lock, freeze and read-only access

---
 libzdb/filesystem.c       | 26 +++++++++++++++-----------
 libzdb/namespace.c        |  8 ++++++++
 zdbd/commands_namespace.c | 11 +++++++++++
 3 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 7190c62..839929e 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -70,21 +70,25 @@ int zdb_dir_remove(char *path) {
     return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
+// check if a filename is a data or index file (eg: d0, i12)
+static int dir_is_payload(const char *name) {
+    if(name[0] != 'd' && name[0] != 'i')
+        return 0;
+
+    size_t digits = strspn(name + 1, "0123456789");
+
+    return (digits > 0 && name[digits + 1] == '\0');
+}
+
 static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
     (void) sb;
-    (void) ftwbuf;
-    (void) tflag;
-    char *fullpath = (char *) fpath;
-    size_t length = strlen(fullpath);
 
-    if(strncmp(fullpath + length - 14, "zdb-data-", 9) == 0) {
-        zdb_debug("[+] filesystem: removing datafile: %s\n", fullpath);
-        unlink(fullpath);
-    }
+    if(tflag != FTW_F || ftwbuf->level != 1)
+        return 0;
 
-    if(strncmp(fullpath + length - 15, "zdb-index-", 10) == 0) {
-        zdb_debug("[+] filesystem: removing indexfile: %s\n", fullpath);
-        unlink(fullpath);
+    if(dir_is_payload(fpath + ftwbuf->base)) {
+        zdb_debug("[+] filesystem: removing file: %s\n", fpath);
+        unlink(fpath);
     }
 
     return 0;
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 6f8e8b5..b6e8b8c 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -639,6 +639,7 @@ int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: cleaning index\n");
     index_clean_namespace(namespace->index, namespace);
 
+    index_mode_t mode = namespace->index->mode;
     char *indexpath = strdup(namespace->index->indexdir);
     char *datapath = strdup(namespace->data->datadir);
 
@@ -653,6 +654,13 @@ int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
 
+    // namespace keeps its mode
+    if(namespace->index->mode != mode) {
+        namespace->index->mode = mode;
+        index_switch_mode(namespace->index);
+        index_rehash(namespace->index);
+    }
+
     free(indexpath);
     free(datapath);
 
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..bbf6797 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -647,6 +647,17 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    if(!client->writable) {
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
-- 
2.43.0


From b099a217baa99472a955cbcb0d00ac43ee5cf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 12/70] fix: KSCAN answered on a frozen namespace

---
 zdbd/commands_scan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 85ec070..588b48e 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -466,6 +466,9 @@ int command_kscan(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     resp_object_t *key = request->argv[1];
     list_t keys = list_init(NULL);
 
-- 
2.43.0


From 44d579067e3e7be68f746e68feb682fd1282a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 13/70] fix: an interrupted NSSET left a namespace descriptor
 without its password

---
 libzdb/namespace.c        | 51 +++++++++++++++++++++++++++++----------
 libzdb/namespace.h        |  2 +-
 zdbd/commands_namespace.c |  5 +++-
 3 files changed, 43 insertions(+), 15 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index b6e8b8c..3278538 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -66,9 +66,11 @@ namespace_t *namespace_get(char *name) {
     return NULL;
 }
 
-// FIXME: no error handled externally
-void namespace_descriptor_update(namespace_t *namespace, int fd) {
+// write namespace settings, in a single shot
+int namespace_descriptor_update(namespace_t *namespace, int fd) {
+    uint8_t buffer[sizeof(ns_header_t) + (UINT8_MAX * 2)];
     ns_header_t header;
+    size_t length = sizeof(ns_header_t);
 
     zdb_debug("[+] namespaces: updating header\n");
 
@@ -84,19 +86,25 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
-    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t))
-        zdb_warnp("namespace legacy header write");
+    memcpy(buffer, &header, sizeof(ns_header_t));
 
-    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength)
-        zdb_warnp("namespace header name write");
+    memcpy(buffer + length, namespace->name, header.namelength);
+    length += header.namelength;
 
-    if(namespace->password) {
-        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
-            zdb_warnp("namespace header password write");
+    if(header.passlength) {
+        memcpy(buffer + length, namespace->password, header.passlength);
+        length += header.passlength;
+    }
+
+    if(write(fd, buffer, length) != (ssize_t) length) {
+        zdb_warnp("namespace header write");
+        return 1;
     }
 
     // ensure metadata are written
     fsync(fd);
+
+    return 0;
 }
 
 static int namespace_descriptor_open(namespace_t *namespace) {
@@ -177,16 +185,33 @@ static void namespace_commit_hook(namespace_t *namespace) {
 // update persistence data of a namespace
 // basically, this rewrites it's metadata on disk
 int namespace_commit(namespace_t *namespace) {
+    char pathname[ZDB_PATH_MAX], temporary[ZDB_PATH_MAX];
     int fd;
 
-    if((fd = namespace_descriptor_open(namespace)) < 0)
-        return fd;
+    snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
+    snprintf(temporary, ZDB_PATH_MAX, "%s/zdb-namespace.tmp", namespace->indexpath);
 
-    // update metadata
-    namespace_descriptor_update(namespace, fd);
+    // write the new metadata aside then replace the previous one, in
+    // order to never leave an incomplete descriptor (eg: without password)
+    if((fd = open(temporary, O_CREAT | O_TRUNC | O_WRONLY, 0600)) < 0) {
+        zdb_warnp(temporary);
+        return -1;
+    }
+
+    if(namespace_descriptor_update(namespace, fd)) {
+        close(fd);
+        unlink(temporary);
+        return -1;
+    }
 
     close(fd);
 
+    if(rename(temporary, pathname) < 0) {
+        zdb_warnp(pathname);
+        unlink(temporary);
+        return -1;
+    }
+
     // trigger updated hook
     namespace_commit_hook(namespace);
 
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 5bafc73..8cf7213 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -71,7 +71,7 @@
 
     size_t namespace_length();
     int namespace_valid_name(char *name);
-    void namespace_descriptor_update(namespace_t *namespace, int fd);
+    int namespace_descriptor_update(namespace_t *namespace, int fd);
 
     namespace_t *namespace_iter();
     namespace_t *namespace_iter_next(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index bbf6797..2be25d3 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -574,7 +574,10 @@ int command_nsset(redis_client_t *client) {
     }
 
     // update persistant setting
-    namespace_commit(namespace);
+    if(namespace_commit(namespace) < 0) {
+        redis_hardsend(client, "-Internal Server Error");
+        return 1;
+    }
 
     // confirmation
     redis_hardsend(client, "+OK");
-- 
2.43.0


From a17e1c4bb29d9e0b5e2666130114dd1b9f47a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 14/70] fix: an interrupted namespace creation was made worse
 by the next start

---
 libzdb/namespace.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 3278538..8cdbe9e 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -96,6 +96,8 @@ int namespace_descriptor_update(namespace_t *namespace, int fd) {
         length += header.passlength;
     }
 
+    lseek(fd, 0, SEEK_SET);
+
     if(write(fd, buffer, length) != (ssize_t) length) {
         zdb_warnp("namespace header write");
         return 1;
@@ -132,7 +134,8 @@ static int namespace_descriptor_load(namespace_t *namespace) {
         return fd;
 
     if(read(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
-        // probably new file, let's write initial namespace information
+        // probably new file (or creation was interrupted), let's write
+        // initial namespace information
         namespace_descriptor_update(namespace, fd);
         close(fd);
         return 0;
-- 
2.43.0


From 82e9658e8c9da196d3a34592dea91580108ef581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 15/70] fix: key updated before an interruption was counted
 twice after the next start

---
 libzdb/index_loader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index e7dc086..38b17e9 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -349,8 +349,10 @@ static size_t index_load_file(index_root_t *root) {
         if(root->mode == ZDB_MODE_KEY_VALUE && !(root->status & INDEX_READ_ONLY)) {
             index_entry_t *older = index_get(root, entry->id, entry->idlength);
 
-            if(older && index_entry_delete_disk(root, older) == 0)
+            if(older && index_entry_delete_disk(root, older) == 0) {
                 zdb_debug("[+] index: loader: outdated entry flagged as deleted\n");
+                index_entry_delete_memory(root, older);
+            }
         }
 
         // insert this entry like it was inserted by a user
-- 
2.43.0


From 498fa90829d555dcad404ea063c5cbf58320e32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 16/70] fix: a refused NSNEW left directories which became a
 namespace at the next start

---
 libzdb/namespace.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 8cdbe9e..b961855 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -373,6 +373,20 @@ static void namespace_create_hook(namespace_t *namespace) {
     hook_execute(hook);
 }
 
+// remove directories of a namespace which could not be created
+// only empty directories are removed, this never touch any contents
+static void namespace_create_rollback(char *name) {
+    char *roots[] = {nsroot->settings->indexpath, nsroot->settings->datapath};
+    char *pathname;
+
+    for(int i = 0; i < 2; i++) {
+        if((pathname = namespace_path(roots[i], name)))
+            rmdir(pathname);
+
+        free(pathname);
+    }
+}
+
 //
 // create (load) a new namespace
 //
@@ -387,8 +401,10 @@ int namespace_create(char *name) {
     zdb_log("[+] namespace: creating: %s\n", name);
 
     // call the generic namespace loader
-    if(!(namespace = namespace_load(nsroot, name)))
+    if(!(namespace = namespace_load(nsroot, name))) {
+        namespace_create_rollback(name);
         return 0;
+    }
 
     // append the namespace to the main list
     if(!namespace_push(nsroot, namespace))
-- 
2.43.0


From aa79a6e3fefc4e7ead22fface90b4fed874779f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 17/70] fix: passwords followed by a null byte and anything
 else were accepted

---
 zdbd/auth.c               |  6 ++----
 zdbd/commands_namespace.c | 12 ++++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/zdbd/auth.c b/zdbd/auth.c
index 0d4b947..6fdc106 100644
--- a/zdbd/auth.c
+++ b/zdbd/auth.c
@@ -8,10 +8,8 @@
 // check if user input (buffer with buffer length)
 // does match with expected password string, unified way
 int zdbd_password_check(char *input, int length, char *expected) {
-    char password[192];
-    sprintf(password, "%.*s", length, input);
-
-    if(strcmp(password, expected) == 0) {
+    // input is binary and can contain null bytes, length needs to match
+    if(length == (int) strlen(expected) && memcmp(input, expected, length) == 0) {
         zdbd_debug("[+] password: access granted\n");
         return 1;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 2be25d3..857882e 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -162,19 +162,15 @@ int command_select(redis_client_t *client) {
 
             // SELECT namespace password
             if(request->argc == 3) {
-                char password[256];
-
-                if(request->argv[2]->length > (ssize_t) sizeof(password) - 1) {
+                if(request->argv[2]->length > 255) {
                     redis_hardsend(client, "-Password too long");
                     return 1;
                 }
 
-                // copy password to a temporary variable
-                // to check password match using strcmp and no any strncmp
-                // to ensure we check exact password
-                sprintf(password, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
+                // ensure we check exact password
+                resp_object_t *user = request->argv[2];
 
-                if(strcmp(password, namespace->password) != 0) {
+                if(!zdbd_password_check(user->buffer, user->length, namespace->password)) {
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
-- 
2.43.0


From bd32efb774686017d1676e4990dafe6dac0aad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 18/70] fix: NSINFO space_available wrapped around when the
 limit is below what is used

---
 zdbd/commands_namespace.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 857882e..952d9f4 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -293,7 +293,12 @@ int command_nsinfo(redis_client_t *client) {
     uint64_t nextid = zdb_index_next_id(namespace->index);
 
     // compute free space available
-    size_t available = namespace->maxsize - namespace->index->stats.datasize;
+    // (the limit can be lowered below what is already used)
+    size_t available = 0;
+
+    if(namespace->maxsize > namespace->index->stats.datasize)
+        available = namespace->maxsize - namespace->index->stats.datasize;
+
     int len = 0;
 
     len += sprintf(info, "# namespace\n");
-- 
2.43.0


From a52c11b3a353405a2588c1ef8ec7318efb38de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 19/70] fix: malformed requests corrupted memory or left the
 connection stuck, complete requests could stay unread

---
 zdbd/redis.c | 81 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..341de08 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -402,6 +402,33 @@ static void redis_free_request(resp_request_t *request) {
     request->argv = NULL;
 }
 
+// parse the number announced on a header line, line ends
+// on the 'end' pointer (which points to the new line)
+//
+// returns -1 if this is not a valid positive number
+static int resp_header_number(char *line, char *end) {
+    int value = 0;
+
+    if(end > line && *(end - 1) == '\r')
+        end -= 1;
+
+    if(line >= end)
+        return -1;
+
+    for(; line < end; line++) {
+        if(*line < '0' || *line > '9')
+            return -1;
+
+        value = (value * 10) + (*line - '0');
+
+        // way above any limit, avoid overflow
+        if(value > 100000000)
+            value = 100000000;
+    }
+
+    return value;
+}
+
 static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
@@ -432,30 +459,39 @@ static resp_status_t redis_handle_resp_empty(redis_client_t *client) {
     }
 
     // reading the amount of arguments
-    request->argc = atoi(buffer->reader + 1);
-    zdbd_debug("[+] redis: resp: %d arguments\n", request->argc);
+    int argc = resp_header_number(buffer->reader + 1, match);
+    zdbd_debug("[+] redis: resp: %d arguments\n", argc);
 
-    if(request->argc == 0) {
+    // the request boundaries are not known anymore when
+    // the request is malformed, we can't keep this client
+    if(argc < 0) {
+        resp_discard(client, "Malformed request, invalid array length");
+        return RESP_STATUS_DISCARD;
+    }
+
+    if(argc == 0) {
         resp_discard(client, "Missing arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // we don't have any command
     // with more than like 4 or 5 arguments
     // but let put a higher limit, just in case
-    if(request->argc > 1024) {
+    if(argc > 1024) {
         resp_discard(client, "Too many arguments");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
     }
 
     // allocating needed requests per arguments announced
     // (this is basicly why we limit the number or items)
-    if(!(request->argv = (resp_object_t **) calloc(sizeof(resp_type_t *), request->argc))) {
+    if(!(request->argv = (resp_object_t **) calloc(sizeof(resp_type_t *), argc))) {
         zdbd_warnp("request argv malloc");
         resp_discard(client, "Internal memory error");
         return RESP_STATUS_DISCARD;
     }
 
+    request->argc = argc;
+
     // next step if reading the first
     // header of the first argument
     request->state = RESP_FILLIN_HEADER;
@@ -494,7 +530,14 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     if(*buffer->reader != '$') {
         zdbd_debug("[-] resp: request is not a string, rejecting\n");
         resp_discard(client, "Malformed query string");
-        return RESP_STATUS_ABNORMAL;
+        return RESP_STATUS_DISCARD;
+    }
+
+    int length = resp_header_number(buffer->reader + 1, match);
+
+    if(length < 0) {
+        resp_discard(client, "Malformed query string, invalid length");
+        return RESP_STATUS_DISCARD;
     }
 
     if(!(request->argv[request->fillin] = calloc(sizeof(resp_object_t), 1))) {
@@ -506,7 +549,7 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     resp_object_t *argument = request->argv[request->fillin];
 
     // reading the length of the array
-    argument->length = atoi(buffer->reader + 1);
+    argument->length = length;
     // real size is the length + 2 (\r\n)
     argument->size = argument->length + 2;
 
@@ -785,6 +828,11 @@ go_again:
         if(request->fillin == request->argc) {
             pzdbd_debug("[+] redis: request completed, executing\n");
             value = redis_handle_resp_finished(client);
+
+            // this client (or the server) is going away, following
+            // requests won't be executed
+            if(value == RESP_STATUS_DISCARD || value == RESP_STATUS_SHUTDOWN)
+                break;
         }
     }
 
@@ -800,15 +848,12 @@ go_again:
         return value;
     }
 
-    // not suceed, let's try again
-    if(value != RESP_STATUS_SUCCESS) {
-        pzdbd_debug("[+] redis: parsing didn't suceed, trying again\n");
-        goto go_again;
-    }
-
-    // success
-    pzdbd_debug("[+] redis: socket parsing succeed\n");
-    return RESP_STATUS_SUCCESS;
+    // sockets are edge-triggered: if there are still something available
+    // on that socket, we won't be notified again for that, let's read
+    // until there is nothing more to read (or buffer could contain exactly
+    // complete requests and next requests would never be read)
+    pzdbd_debug("[+] redis: parsing done, trying to read more\n");
+    goto go_again;
 }
 
 void socket_nonblock(int fd) {
-- 
2.43.0


From bd936612e7f14e9b9f588335e93ecf4971049157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 20/70] fix: command names were matched by prefix (empty and
 abbreviated names ran commands)

---
 zdbd/commands.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..865aa44 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -157,6 +157,19 @@ static command_t commands_handlers[] = {
     {.command = "FLUSH",   .handler = command_flush},    // custom command to reset a namespace
 };
 
+// find the handler which exactly match the command name
+static command_t *command_lookup(resp_object_t *key) {
+    for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
+        if(key->length != (int) strlen(commands_handlers[i].command))
+            continue;
+
+        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0)
+            return &commands_handlers[i];
+    }
+
+    return NULL;
+}
+
 int redis_dispatcher(redis_client_t *client) {
     resp_request_t *request = client->request;
     resp_object_t *key = request->argv[0];
@@ -183,17 +196,17 @@ int redis_dispatcher(redis_client_t *client) {
 
     zdbd_debug("[+] command: '%.*s' [+%d args]\n", key->length, (char *) key->buffer, request->argc - 1);
 
-    for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
-            // save last command executed
-            client->executed = &commands_handlers[i];
+    command_t *command = command_lookup(key);
 
-            // update statistics
-            zdbd_rootsettings.stats.cmdsvalid += 1;
+    if(command) {
+        // save last command executed
+        client->executed = command;
 
-            // execute handler
-            return commands_handlers[i].handler(client);
-        }
+        // update statistics
+        zdbd_rootsettings.stats.cmdsvalid += 1;
+
+        // execute handler
+        return command->handler(client);
     }
 
     // unknown command
@@ -210,7 +223,7 @@ int redis_dispatcher(redis_client_t *client) {
 // set the client to wait on a special handler to be triggered
 int command_wait(redis_client_t *client) {
     resp_request_t *request = client->request;
-    command_t *handler = NULL;
+    command_t *handler;
 
     if(client->request->argc != 2 && client->request->argc != 3) {
         redis_hardsend(client, "-Invalid arguments");
@@ -221,14 +234,7 @@ int command_wait(redis_client_t *client) {
     resp_object_t *key = request->argv[1];
 
     // checking if the requested command is supported
-    for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
-            handler = &commands_handlers[i];
-            break;
-        }
-    }
-
-    if(handler == NULL) {
+    if(!(handler = command_lookup(key))) {
         redis_hardsend(client, "-Unknown command to watch");
         return 0;
     }
-- 
2.43.0


From 7056c8476f76f1905238a7cb5bdedec0c7019e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 21/70] fix: a challenge answered with SELECT SECURE could be
 used again

---
 zdbd/commands_namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 952d9f4..1247ada 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -209,6 +209,10 @@ int command_select(redis_client_t *client) {
 
                 zdbd_debug("[+] namespace: auth: expected hash: %s\n", expected);
 
+                // challenge can be used only one time
+                free(client->nonce);
+                client->nonce = NULL;
+
                 resp_object_t *user = request->argv[3];
 
                 if(zdbd_password_check(user->buffer, user->length, expected) == 0) {
-- 
2.43.0


From 9a2a6694b4a8b779bb578e865558157b51248289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 22/70] fix: an empty namespace name reached the root
 directories

---
 libzdb/namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index b961855..297fd72 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -417,6 +417,10 @@ int namespace_create(char *name) {
 }
 
 int namespace_valid_name(char *name) {
+    // empty name would be the root directory itself
+    if(strlen(name) == 0)
+        return 0;
+
     if(strcmp(name, ".") == 0 || strcmp(name, "..") == 0)
         return 0;
 
-- 
2.43.0


From ca67d4b66b0c89760c30f8a31bd7626de531d021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 23/70] fix: responses waiting for a client which left were
 never released

---
 zdbd/redis.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 341de08..4b0117f 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -970,6 +970,14 @@ void socket_client_free(int fd) {
     // closing socket
     close(client->fd);
 
+    // discard responses which were still waiting to be sent
+    redis_response_t *response = client->responses;
+    while(response) {
+        redis_response_t *next = response->next;
+        redis_response_free(response);
+        response = next;
+    }
+
     // cleaning client memory usage
     redis_free_request(client->request);
     buffer_free(&client->buffer);
-- 
2.43.0


From ff5ca51d327c2965532e422fadcb5c3c15848feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 24/70] fix: owner of mirrored requests was uninitialized
 memory (some were never mirrored)

---
 zdbd/redis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 4b0117f..b4a7444 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -649,7 +649,7 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // it's a normal client, there is nothing special to do
     // just set the owner id as our own id
     if(!client->master) {
-        // client->request->owner = zdbd_rootsettings.iid; // FIXME
+        client->request->owner = zdb_instanceid_get();
         return 0;
     }
 
-- 
2.43.0


From bf6cdd8b6e9cd81a7ca1ec18a53eaaba5cc49320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 25/70] fix: a client of a removed namespace notified and
 mirrored its previous command again (crash with a mirror)

---
 zdbd/commands.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index 865aa44..1e8a46e 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -182,6 +182,7 @@ int redis_dispatcher(redis_client_t *client) {
     // is not available anymore and we disconnect it
     if(client->ns == NULL) {
         zdbd_debug("[-] command: request fd: %d, no namespace, disconnecting.\n", client->fd);
+        client->executed = NULL; // nothing executed, no one to notify
         redis_hardsend(client, "-Your active namespace is not available anymore (probably removed).");
         return RESP_STATUS_DISCARD;
     }
-- 
2.43.0


From b94a023b80d937730f0a4678a05ae6e1761f3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 26/70] fix: a request without owner id from a master client
 used freed memory

---
 zdbd/redis.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index b4a7444..8153318 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -657,8 +657,9 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     // extracting the owner id (which is the last argument)
     // and checking if it's a replay of our own database
     resp_object_t *ownobj = client->request->argv[client->request->argc - 1];
-    if(ownobj->length > 32) {
-        zdbd_debug("[-] redis: owner check: malformed owner, id is too long, dropping\n");
+    if(client->request->argc < 2 || ownobj->length > 32) {
+        zdbd_debug("[-] redis: owner check: missing or malformed owner, dropping\n");
+        redis_hardsend(client, "-Invalid owner id");
         return 1;
     }
 
-- 
2.43.0


From 4f19f8a6cbaafe3b56331e69869cbb3c0ff19a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 27/70] fix: refused requests were mirrored and applied on the
 replica

---
 zdbd/redis.c | 12 +++++++++++-
 zdbd/redis.h |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 8153318..629b31c 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -285,6 +285,10 @@ int redis_reply_heap(redis_client_t *client, void *payload, size_t length, void
 int redis_reply_stack(redis_client_t *client, void *payload, size_t length) {
     redis_response_t response;
 
+    // keep track of refused requests
+    if(length > 0 && *((char *) payload) == '-')
+        client->refused = 1;
+
     response.buffer = payload;
     response.reader = payload;
     response.length = length;
@@ -704,6 +708,7 @@ static resp_status_t redis_handle_resp_finished(redis_client_t *client) {
     }
 
     zdbd_debug("[+] redis: request parsed, calling dispatcher\n");
+    client->refused = 0;
     value = redis_dispatcher(client);
     zdbd_debug("[+] redis: dispatcher done, return code: %d\n", value);
 
@@ -911,6 +916,7 @@ redis_client_t *socket_client_new(int fd) {
     client->watching = NULL;
     client->mirror = 0;
     client->master = 0;
+    client->refused = 0;
     client->nonce = NULL;
 
     // initialize wait timeout
@@ -1199,7 +1205,11 @@ int redis_posthandler_client(redis_client_t *client) {
             continue;
 
         if(checking->mirror) {
-            redis_mirror_client(client, checking);
+            // do not forward request which was refused, the remote
+            // side doesn't know the rights of that client
+            if(!client->refused)
+                redis_mirror_client(client, checking);
+
             continue;
         }
 
diff --git a/zdbd/redis.h b/zdbd/redis.h
index 0fc8d22..fc13934 100644
--- a/zdbd/redis.h
+++ b/zdbd/redis.h
@@ -120,6 +120,7 @@
         int admin;        // is the client is admin
         int mirror;       // does this client needs a mirroring
         int master;       // does this client is a 'master' (forwarder)
+        int refused;      // does the current request was refused (error replied)
         char *nonce;      // nonce challenge used by secure auth
         buffer_t buffer;  // per-client buffer
 
-- 
2.43.0


From 1d2a2ea1568cfcb6a8c51a9843e47af5a240ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 28/70] fix: an interrupted namespace creation left an
 incomplete descriptor

---
 libzdb/namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 297fd72..1b74f51 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -162,6 +162,10 @@ static int namespace_descriptor_load(namespace_t *namespace) {
 
         if(read(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
             zdb_warnp("namespace password read");
+
+    } else if(lseek(fd, 0, SEEK_END) < (off_t) (sizeof(ns_header_t) + header.namelength)) {
+        // creation was interrupted while writing the name
+        namespace_descriptor_update(namespace, fd);
     }
 
     zdb_log("[+] namespace: [%s] opened, analyzing...\n", namespace->name);
-- 
2.43.0


From 15df92bede166d313e5519edf7eb0bea6720b0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 29/70] fix: deletions and sequential updates were not synced
 with --sync

---
 libzdb/index.c        | 8 +-------
 libzdb/index_loader.c | 2 +-
 libzdb/index_set.c    | 2 +-
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 1be1f9f..3cc62f1 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -564,14 +564,8 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     lseek(fd, entry->idxoffset, SEEK_SET);
 
     // overwrite the key
-    // FIXME: why not using index_write ?
-    if(write(fd, index_transition, entrylength) != (ssize_t) entrylength) {
+    if(!index_write(fd, index_transition, entrylength, root)) {
         zdb_warnp("index_entry_delete write");
-
-        // FIXME: not needed if using index_write
-        root->stats.errors += 1;
-        root->stats.lasterr = time(NULL);
-
         close(fd);
         return 1;
     }
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 38b17e9..0a7cd0c 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -699,7 +699,7 @@ int index_switch_mode(index_root_t *root) {
     // rewrite header
     lseek(fd, 0, SEEK_SET);
 
-    if(write(fd, &header, sizeof(header)) != sizeof(header)) {
+    if(!index_write(fd, &header, sizeof(header), root)) {
         zdb_warnp("index_switch_mode: write");
         close(fd);
         return 1;
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 2b2c6a9..7976485 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -95,7 +95,7 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
     // overwrite the key
     lseek(fd, offset, SEEK_SET);
 
-    if(write(fd, item, entrylength) != (ssize_t) entrylength) {
+    if(!index_write(fd, item, entrylength, root)) {
         zdb_warnp("index_seq_overwrite re-write");
         close(fd);
         return 1;
-- 
2.43.0


From 73c16f85ec43fd1682007eb9df52416b9e0bacdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 30/70] fix: a running hook kept the locks, files and clients
 of the server opened

---
 libzdb/hook.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index dd17c78..757dbf9 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -138,6 +138,11 @@ pid_t hook_execute(hook_t *hook) {
     // child process now
     zdb_debug("[+] hooks: executing hook <%s> (%lu args)\n", hook->argv[0], hook->argc);
 
+    // do not share locks, files and clients with the hook, they
+    // would stay in use as long as the hook is running
+    for(long fd = STDERR_FILENO + 1; fd < sysconf(_SC_OPEN_MAX); fd++)
+        close(fd);
+
     execv(zdb_rootsettings.hook, hook->argv);
     zdb_warnp("hook: execv");
 
-- 
2.43.0


From b7f7ab8ad2b7714fa4169427114674aa92f265b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 31/70] fix: a client sending its next request quickly kept the
 others waiting

---
 zdbd/redis.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 629b31c..d58b18a 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -732,6 +732,7 @@ resp_status_t redis_chunk_read(int fd) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
     ssize_t length;
+    char discard;
 
     // default return value
     int value = RESP_STATUS_SUCCESS;
@@ -743,6 +744,9 @@ go_again:
         return RESP_STATUS_DISCARD;
     }
 
+    // a shorter read means nothing more is available right now
+    size_t available = buffer->remain;
+
     pzdbd_debug("[+] redis: perform read on the socket\n");
     if((length = recv(fd, buffer->writer, buffer->remain, 0)) < 0) {
         if(errno != EAGAIN && errno != EWOULDBLOCK) {
@@ -858,8 +862,21 @@ go_again:
     // on that socket, we won't be notified again for that, let's read
     // until there is nothing more to read (or buffer could contain exactly
     // complete requests and next requests would never be read)
-    pzdbd_debug("[+] redis: parsing done, trying to read more\n");
-    goto go_again;
+    if((size_t) length == available) {
+        pzdbd_debug("[+] redis: parsing done, trying to read more\n");
+        goto go_again;
+    }
+
+    // nothing more right now: do not wait for what this client will
+    // send next (following its response), others are waiting too, but it
+    // could already be gone and we won't be notified again for that
+    if(recv(fd, &discard, sizeof(discard), MSG_PEEK) == 0) {
+        zdbd_debug("[+] resp: client disconnected after its request\n");
+        return RESP_STATUS_DISCONNECTED;
+    }
+
+    pzdbd_debug("[+] redis: parsing done, socket is empty\n");
+    return value;
 }
 
 void socket_nonblock(int fd) {
-- 
2.43.0


From 007c8206b29bc381e98bed5745c2b581ba28c365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 32/70] fix: RSCAN never returned on an index entry linked to
 itself

---
 libzdb/index_scan.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index 891fdff..8c583ee 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -119,6 +119,11 @@ static index_scan_t index_previous_header_real(index_scan_t scan) {
         // rollback special case when pointing to the first entry
         if(scan.target == 1)
             scan.target = sizeof(index_header_t);
+
+        // previous entry is always before the current one, never
+        // follow a corrupted link which points to itself
+        if(scan.target >= (size_t) current)
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
     }
 
     zdb_debug("[+] index rscan: previous-header: offset: %u\n", source.previous);
-- 
2.43.0


From e76d87ffc23ecb53a04c81cde6e9f956bc73f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 33/70] fix: long namespace directory names overflowed path
 buffers

---
 libzdb/bootstrap.c    | 2 +-
 libzdb/index.c        | 4 ++--
 libzdb/index_loader.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 4c2b089..2138396 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -93,7 +93,7 @@ static int zdb_lock(char *lockpath) {
 }
 
 zdb_settings_t *zdb_open(zdb_settings_t *zdb_settings) {
-    char lockpath[512];
+    char lockpath[ZDB_PATH_MAX];
 
     //
     // ensure default directories exists
diff --git a/libzdb/index.c b/libzdb/index.c
index 3cc62f1..e706e11 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -175,10 +175,10 @@ void index_set_id(index_root_t *root, fileid_t fileid) {
 //
 // open index _without_ changing internal fd
 static int index_open_file_mode(index_root_t *root, fileid_t fileid, int mode) {
-    char filename[512];
+    char filename[ZDB_PATH_MAX];
     int fd;
 
-    sprintf(filename, "%s/i%u", root->indexdir, fileid);
+    snprintf(filename, sizeof(filename), "%s/i%u", root->indexdir, fileid);
     zdb_debug("[+] index: opening file: %s (ro: %s)\n", filename, (mode & O_RDONLY) ? "yes" : "no");
 
     if((fd = open(filename, mode)) < 0) {
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 0a7cd0c..1345494 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -431,8 +431,8 @@ void index_internal_load(index_root_t *root) {
 
     // legacy check:
     // check for old database file
-    char legacy[256];
-    sprintf(legacy, "%s/zdb-index-00000", root->indexdir);
+    char legacy[ZDB_PATH_MAX];
+    snprintf(legacy, sizeof(legacy), "%s/zdb-index-00000", root->indexdir);
     if(zdb_file_exists(legacy) == ZDB_FILE_EXISTS) {
         zdb_danger("[-] index: =================================");
         zdb_danger("[-] index: unsupported database detected");
-- 
2.43.0


From e3237da9f664f70f74b6a3cbf6a5b3bddb4ab0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 34/70] fix: integrity-check refused real data files and
 reported success after 256 errors

---
 tools/integrity-check/integrity-check.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 4644a60..2969a46 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -127,16 +127,21 @@ int main(int argc, char *argv[]) {
     char *filedir = dirname(strdup(filename));
     char *datafile = basename(filename);
 
-    if(strncmp(datafile, "zdb-data-", 9)) {
+    // datafiles are named 'd' followed by the file id
+    char *endptr = datafile;
+    fileid_t dataid = 0;
+
+    if(datafile[0] == 'd' && datafile[1] >= '0' && datafile[1] <= '9')
+        dataid = strtoul(datafile + 1, &endptr, 10);
+
+    if(endptr == datafile || *endptr != '\0') {
         fprintf(stderr, "[-] integrity-check: data filename seems wrong\n");
         exit(EXIT_FAILURE);
     }
 
-    fileid_t dataid = atoi(datafile + 9);
-
     printf("[+] datafile path: %s\n", filedir);
     printf("[+] datafile name: %s\n", datafile);
-    printf("[+] datafile id  : %d\n", dataid);
+    printf("[+] datafile id  : %u\n", dataid);
 
     zdb_settings_t *zdb_settings = zdb_initialize();
     zdb_id_set("integrity-checker");
@@ -162,6 +167,6 @@ int main(int argc, char *argv[]) {
     if((val = data_integrity(zdbdata)))
         fprintf(stderr, "[-] data file inconsistency: %d error(s)\n", val);
 
-    return val;
+    return val ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
-- 
2.43.0


From fa296e620d9bf1f4e97c98027e16ce96b32cd555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 35/70] fix: DATA RAW refused the record of deleted keys and of
 empty values

---
 libzdb/data.c          | 4 ++--
 zdbd/commands_system.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index c1fd4d2..400acd2 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -395,7 +395,7 @@ data_raw_t data_raw_get_real(int fd, off_t offset) {
 
     if(raw.header.flags & DATA_ENTRY_DELETED) {
         zdb_debug("[+] data: raw: entry deleted\n");
-        return data_raw_error(raw);
+        return raw;
     }
 
     zdb_debug("[+] data: raw: fetching payload from header offset\n");
@@ -427,7 +427,7 @@ data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset) {
 
     // acquire data id fd
     if((fd = data_grab_dataid(root, dataid)) < 0)
-        return raw;
+        return data_raw_error(raw);
 
     raw = data_raw_get_real(fd, offset);
 
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..a9ffc17 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -281,7 +281,7 @@ static int command_data_raw(redis_client_t *client) {
         return 1;
     }
 
-    if(raw.header.datalength == 0 || raw.header.datalength != raw.payload.length) {
+    if(raw.header.datalength != raw.payload.length) {
         if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
             // something went wrong when fetching data from file
             zdb_log("[-] command: data: raw: invalid read at specified data/offset\n");
@@ -322,7 +322,7 @@ static int command_data_raw(redis_client_t *client) {
     length += sprintf(response + length, ":%u\r\n", raw.header.flags);
     length += sprintf(response + length, ":%u\r\n", raw.header.timestamp);
 
-    if(raw.payload.length > 0) {
+    if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
         length += sprintf(response + length, "$%lu\r\n", raw.payload.length);
         memcpy(response + length, raw.payload.buffer, raw.payload.length);
         length += raw.header.datalength;
-- 
2.43.0


From 12ee25295ee063b2331394e3b6c9d0d5da8012e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 36/70] fix: a hook which cannot be executed ran the exit
 handlers of the server

---
 libzdb/hook.c | 10 ++++++++--
 libzdb/hook.h |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index 757dbf9..bc6e8f0 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -140,13 +140,19 @@ pid_t hook_execute(hook_t *hook) {
 
     // do not share locks, files and clients with the hook, they
     // would stay in use as long as the hook is running
-    for(long fd = STDERR_FILENO + 1; fd < sysconf(_SC_OPEN_MAX); fd++)
+    long maxfd = sysconf(_SC_OPEN_MAX);
+
+    if(maxfd < 0 || maxfd > ZDB_HOOKS_MAX_DESCRIPTORS)
+        maxfd = ZDB_HOOKS_MAX_DESCRIPTORS;
+
+    for(long fd = STDERR_FILENO + 1; fd < maxfd; fd++)
         close(fd);
 
     execv(zdb_rootsettings.hook, hook->argv);
     zdb_warnp("hook: execv");
 
-    exit(EXIT_FAILURE);
+    // this is still a copy of the server, do not run any exit handler
+    _exit(EXIT_FAILURE);
     return 0;
 }
 
diff --git a/libzdb/hook.h b/libzdb/hook.h
index 9bcc1f6..778120a 100644
--- a/libzdb/hook.h
+++ b/libzdb/hook.h
@@ -3,6 +3,7 @@
 
     #define ZDB_HOOKS_INITIAL_LENGTH  8
     #define ZDB_HOOKS_EXPIRE_SECONDS  300
+    #define ZDB_HOOKS_MAX_DESCRIPTORS 65536
 
     // a hook is called when an external application/script
     // is provided at runtime, this hook executable
-- 
2.43.0


From 4f71c781d8aadbe07be9d1699b86eefd4f956d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:12 +0000
Subject: [PATCH 37/70] fix: a hook killed by a signal was considered as
 successful

---
 libzdb/hook.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index bc6e8f0..e8aff3c 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -5,6 +5,7 @@
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <stdint.h>
+#include <errno.h>
 #include <time.h>
 #include "libzdb.h"
 #include "libzdb_private.h"
@@ -116,6 +117,15 @@ int hook_append(hook_t *hook, char *argument) {
     return (int) hook->argidx;
 }
 
+// exit code of the hook, hook which did not exit by itself
+// never succeed (like shells do: 128 and the signal number)
+static int hook_status(int status) {
+    if(WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+
+    return WEXITSTATUS(status);
+}
+
 pid_t hook_execute(hook_t *hook) {
     pid_t pid;
 
@@ -126,6 +136,10 @@ pid_t hook_execute(hook_t *hook) {
             zdb_warnp("hook: fork");
             pid = 0;
 
+            // nothing to wait for
+            hook->finished = hook->created;
+            hook->status = EXIT_FAILURE;
+
         } else {
             // adding one pending child
             zdb_rootsettings.stats.childwait += 1;
@@ -158,16 +172,25 @@ pid_t hook_execute(hook_t *hook) {
 
 int hook_execute_wait(hook_t *hook) {
     pid_t child;
-    int status;
+    int status = 0;
+
+    // hook could not be started
+    if((child = hook_execute(hook)) == 0)
+        return hook->status;
 
-    child = hook_execute(hook);
     zdb_debug("[+] hooks: waiting for hook to finish: %d\n", child);
 
-    if(waitpid(child, &status, 0) < 0)
+    while(waitpid(child, &status, 0) < 0) {
+        if(errno == EINTR)
+            continue;
+
         zdb_warnp("waitpid");
+        status = -1;
+        break;
+    }
 
     hook->finished = time(NULL);
-    hook->status = WEXITSTATUS(status);
+    hook->status = (status == -1) ? EXIT_FAILURE : hook_status(status);
 
     // update stats, since we wait, this won't be handled
     // by recurring scrubber
@@ -240,10 +263,14 @@ void libzdb_hooks_cleanup() {
         for(size_t i = 0; i < hooks->length; i++) {
             hook_t *hook = hooks->hooks[i];
 
+            // slot released by a previous cleanup
+            if(hook == NULL)
+                continue;
+
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
-                hook->status = WEXITSTATUS(status);
+                hook->status = hook_status(status);
                 break;
             }
         }
-- 
2.43.0


From 9fa531961c6bee011a6d72898b50fb9f0cb8798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 38/70] fix: HOOKS overflowed its response when hooks have long
 arguments

---
 zdbd/commands_system.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index a9ffc17..98ff4a8 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -132,8 +132,22 @@ int command_hooks(redis_client_t *client) {
     if(!command_admin_authorized(client))
         return 1;
 
-    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024)))
+    // fixed fields, then each arguments with their length
+    size_t allocate = (hooks->active + 1) * 512;
+
+    for(size_t i = 0; i < hooks->length; i++) {
+        if(!(hook = hooks->hooks[i]))
+            continue;
+
+        for(size_t s = 1; s < hook->argc - 1; s++)
+            if(hook->argv[s])
+                allocate += strlen(hook->argv[s]) + 32;
+    }
+
+    if(!(info = calloc(sizeof(char), allocate))) {
+        redis_hardsend(client, "-Internal Memory Error");
         return 1;
+    }
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
 
@@ -157,7 +171,7 @@ int command_hooks(redis_client_t *client) {
         //  - 3rd argument: which is the instance id
         //  - last argument: which is always null
         for(size_t s = 3; s < hook->argc - 1; s++) {
-            char *arg = hook->argv[s];
+            char *arg = hook->argv[s] ? hook->argv[s] : "";
             len += sprintf(info + len, "$%lu\r\n%s\r\n", strlen(arg), arg);
         }
 
-- 
2.43.0


From 33f2c3699237fcb109709ea39522bbe99c4aa66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 39/70] fix: hooks crashed the host program when no instance id
 was set

---
 libzdb/data.c  | 4 ++--
 libzdb/index.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 400acd2..037a365 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -117,7 +117,7 @@ int data_open_notfound_hook(char *filename) {
     zdb_debug("[+] data: trying to fetch missing datafile: %s\n", filename);
 
     hook = hook_new("missing-data", 2);
-    hook_append(hook, zdb_rootsettings.zdbid);
+    hook_append(hook, zdb_rootsettings.zdbid ? zdb_rootsettings.zdbid : "unknown-id");
     hook_append(hook, filename);
     retval = hook_execute_wait(hook);
 
@@ -446,7 +446,7 @@ size_t data_jump_next(data_root_t *root, fileid_t newid) {
 
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-data", 3);
-        hook_append(hook, zdb_rootsettings.zdbid);
+        hook_append(hook, zdb_rootsettings.zdbid ? zdb_rootsettings.zdbid : "unknown-id");
         hook_append(hook, root->datafile);
     }
 
diff --git a/libzdb/index.c b/libzdb/index.c
index e706e11..2b6706b 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -346,7 +346,7 @@ size_t index_jump_next(index_root_t *root) {
 
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-index", 4);
-        hook_append(hook, zdb_rootsettings.zdbid);
+        hook_append(hook, zdb_rootsettings.zdbid ? zdb_rootsettings.zdbid : "unknown-id");
         hook_append(hook, root->indexfile);
 
         // generate dirty list string
-- 
2.43.0


From 81f777e0ecae71c9dd4f3fb389b22924ce8b1256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 40/70] fix: each identical update leaked the stored payload

---
 zdbd/commands_set.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index a293264..fd40823 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -65,12 +65,13 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
         return 0;
 
     // check if data are the same
-    if(memcmp(payload.buffer, dreq->data, dreq->datalength) == 0) {
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    if(matching)
         zdbd_debug("[+] command: set: matching data, ignoring update\n");
-        return 1;
-    }
 
-    return 0;
+    return matching;
 }
 
 static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *existing) {
-- 
2.43.0


From 81c7cb4578e57bc67bc51f4b8e5ad42847d88890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 41/70] fix: an argument of 256 bytes overflowed INDEX, DATA
 and NSSET buffers

---
 zdbd/commands_namespace.c | 2 +-
 zdbd/commands_system.c    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 1247ada..839c732 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -511,7 +511,7 @@ int command_nsset(redis_client_t *client) {
     if(!command_args_namespace(client, 1))
         return 1;
 
-    if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
         return 1;
 
     // limit size of the value
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 98ff4a8..d4acd57 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -200,7 +200,7 @@ static int command_index_dirty(redis_client_t *client) {
     char *response;
 
     if(request->argc == 3) {
-        if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+        if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
             return 1;
 
         sprintf(subcommand, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
@@ -251,7 +251,7 @@ int command_index(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
@@ -363,7 +363,7 @@ int command_data(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From f00ced120f6e615d5ec22b10071d36ca8d453875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 42/70] fix: the previous password of a namespace was leaked
 when changed

---
 zdbd/commands_get.c       | 1 +
 zdbd/commands_namespace.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/zdbd/commands_get.c b/zdbd/commands_get.c
index e311b17..7f7f116 100644
--- a/zdbd/commands_get.c
+++ b/zdbd/commands_get.c
@@ -45,6 +45,7 @@ static int command_get_single(redis_client_t *client, char *buffer, int length)
 
     redis_bulk_t response = redis_bulk(payload.buffer, payload.length);
     if(!response.buffer) {
+        free(payload.buffer);
         redis_hardsend(client, "$-1");
         return 0;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 839c732..7a1a404 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -407,6 +407,7 @@ static int command_nsset_password(namespace_t *namespace, char *value) {
 
     } else {
         // updating password
+        free(namespace->password);
         namespace->password = strdup(value);
         zdbd_debug("[+] command: nsset: password set and updated\n");
     }
-- 
2.43.0


From ea98ecd405819e071c1f2ddf164789e190d37b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 43/70] fix: a client leaving while a hook starts crashed the
 server

---
 libzdb/hook.c | 80 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 28 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index e8aff3c..25fa2de 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -4,6 +4,8 @@
 #include <unistd.h>
 #include <sys/types.h>
 #include <sys/wait.h>
+#include <sys/syscall.h>
+#include <signal.h>
 #include <stdint.h>
 #include <errno.h>
 #include <time.h>
@@ -126,48 +128,70 @@ static int hook_status(int status) {
     return WEXITSTATUS(status);
 }
 
+// close everything inherited from the server: locks, files and clients
+// would stay in use as long as the hook is running
+static void hook_close_descriptors() {
+    #ifdef SYS_close_range
+    if(syscall(SYS_close_range, STDERR_FILENO + 1, ~0U, 0) == 0)
+        return;
+    #endif
+
+    long maxfd = sysconf(_SC_OPEN_MAX);
+
+    if(maxfd < 0 || maxfd > ZDB_HOOKS_MAX_DESCRIPTORS)
+        maxfd = ZDB_HOOKS_MAX_DESCRIPTORS;
+
+    for(long fd = STDERR_FILENO + 1; fd < maxfd; fd++)
+        close(fd);
+}
+
 pid_t hook_execute(hook_t *hook) {
+    sigset_t blocked, original;
     pid_t pid;
 
     hook->created = time(NULL);
 
-    if((pid = fork()) != 0) {
-        if(pid < 0) {
-            zdb_warnp("hook: fork");
-            pid = 0;
+    zdb_debug("[+] hooks: executing hook <%s> (%lu args)\n", hook->argv[0], hook->argc);
 
-            // nothing to wait for
-            hook->finished = hook->created;
-            hook->status = EXIT_FAILURE;
+    // the server is suspended until the hook is really started (vfork), it
+    // cannot close a client while the child still holds a copy of it: events
+    // would still be reported for that client. signals need to be blocked, our
+    // handlers can't be executed by the child
+    sigfillset(&blocked);
+    sigprocmask(SIG_SETMASK, &blocked, &original);
 
-        } else {
-            // adding one pending child
-            zdb_rootsettings.stats.childwait += 1;
-        }
+    if((pid = vfork()) == 0) {
+        // child process now (sharing memory with the server)
+        hook_close_descriptors();
 
-        hook->pid = pid;
-        return pid;
-    }
+        signal(SIGINT, SIG_DFL);
+        signal(SIGTERM, SIG_DFL);
+        sigprocmask(SIG_SETMASK, &original, NULL);
 
-    // child process now
-    zdb_debug("[+] hooks: executing hook <%s> (%lu args)\n", hook->argv[0], hook->argc);
+        execv(zdb_rootsettings.hook, hook->argv);
+        zdb_warnp("hook: execv");
 
-    // do not share locks, files and clients with the hook, they
-    // would stay in use as long as the hook is running
-    long maxfd = sysconf(_SC_OPEN_MAX);
+        // do not run any exit handler of the server
+        _exit(EXIT_FAILURE);
+    }
 
-    if(maxfd < 0 || maxfd > ZDB_HOOKS_MAX_DESCRIPTORS)
-        maxfd = ZDB_HOOKS_MAX_DESCRIPTORS;
+    sigprocmask(SIG_SETMASK, &original, NULL);
 
-    for(long fd = STDERR_FILENO + 1; fd < maxfd; fd++)
-        close(fd);
+    if(pid < 0) {
+        zdb_warnp("hook: fork");
+        pid = 0;
 
-    execv(zdb_rootsettings.hook, hook->argv);
-    zdb_warnp("hook: execv");
+        // nothing to wait for
+        hook->finished = hook->created;
+        hook->status = EXIT_FAILURE;
+
+    } else {
+        // adding one pending child
+        zdb_rootsettings.stats.childwait += 1;
+    }
 
-    // this is still a copy of the server, do not run any exit handler
-    _exit(EXIT_FAILURE);
-    return 0;
+    hook->pid = pid;
+    return pid;
 }
 
 int hook_execute_wait(hook_t *hook) {
-- 
2.43.0


From 20adc9bd46ea5b1b69dbc830a040254f90d1aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 44/70] fix: hooks executed when the server stops ignored the
 same signal

---
 libzdb/hook.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index 25fa2de..89c6f49 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -166,7 +166,10 @@ pid_t hook_execute(hook_t *hook) {
 
         signal(SIGINT, SIG_DFL);
         signal(SIGTERM, SIG_DFL);
-        sigprocmask(SIG_SETMASK, &original, NULL);
+
+        // some are still blocked when called from a signal handler
+        sigemptyset(&blocked);
+        sigprocmask(SIG_SETMASK, &blocked, NULL);
 
         execv(zdb_rootsettings.hook, hook->argv);
         zdb_warnp("hook: execv");
-- 
2.43.0


From ece93cdd56328927d5baf233c6f1da82d096a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 45/70] fix: library: set used the mode of the instance,
 unknown in mixed mode

---
 libzdb/api.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..82f5362 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -302,7 +302,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
         data_jump_next(ns->data, newid);
     }
 
-    return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
+    return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
 }
 
 
-- 
2.43.0


From b9eb7bcbe2690822c7d94773be5869fe71c0a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 46/70] fix: library: set did not save the data file id on the
 index

---
 libzdb/api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index 82f5362..02c1e8f 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From 6d20bab6e6360fecdcf6fd46768830f48d9b827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 47/70] fix: library: an update with the same checksum was
 ignored

---
 libzdb/api.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 02c1e8f..8ceff9a 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,25 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+
+// different data can share the same checksum, an update is
+// ignored only if the contents are really the same
+static int api_data_matching(index_entry_t *existing, data_request_t *dreq, data_root_t *data) {
+    if(existing->length != dreq->datalength)
+        return 0;
+
+    index_entry_t *x = existing; // shortcut
+    data_payload_t payload = data_get(data, x->offset, x->length, x->dataid, x->idlength);
+
+    if(!payload.buffer)
+        return 0;
+
+    int matching = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    return matching;
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -126,7 +145,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
+    if(existing && existing->crc == dreq.crc && api_data_matching(existing, &dreq, ns->data)) {
         zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
@@ -207,7 +226,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
+    if(existing && existing->crc == dreq.crc && api_data_matching(existing, &dreq, ns->data)) {
         zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
-- 
2.43.0


From a320d38a8591c014e931fcf7e80e5f973877bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 48/70] fix: library: check reported a missing payload as valid

---
 libzdb/api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libzdb/api.c b/libzdb/api.c
index 8ceff9a..7d95339 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -404,6 +404,9 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: get: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
+    if(status < 0)
+        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+
     return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
-- 
2.43.0


From 3a6ed2de18338d7e40192aff45d56b9b65a5769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 49/70] fix: library: keys larger than 255 bytes were truncated

---
 libzdb/api.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 7d95339..17b8eec 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -106,6 +106,16 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 // api
 //
 
+// length of a key is stored on one byte, without this
+// check a larger key would match another one
+static index_entry_t *api_index_get(namespace_t *ns, void *key, size_t ksize) {
+    if(ksize > MAX_KEY_LENGTH)
+        return NULL;
+
+    return index_get(ns->index, key, ksize);
+}
+
+
 // different data can share the same checksum, an update is
 // ignored only if the contents are really the same
 static int api_data_matching(index_entry_t *existing, data_request_t *dreq, data_root_t *data) {
@@ -290,6 +300,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     index_entry_t *entry = NULL;
     size_t floating = 0;
 
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply_error("Invalid argument, key too large");
+
     // if the user want to override an existing key
     // and the maxsize of the namespace is reached, we need
     // to know if the replacement data is shorter, this is
@@ -334,7 +347,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry = NULL;
 
     // fetching index entry for this key
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
@@ -368,7 +381,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
 // DATASET
 //
 zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
@@ -385,7 +398,7 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
 }
 
 zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     // key not found at all
     if(!entry) {
@@ -414,7 +427,7 @@ zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry;
 
     // grabbing original entry
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
-- 
2.43.0


From 94ec4f60d54fcefe1322d99d78bce1295239453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 50/70] fix: quick-compact: files were named like in the
 previous version

---
 tools/quick-compaction/quick-compact.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 90a3bb1..c6783aa 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -144,13 +144,13 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     uint32_t dataoffset = sizeof(data_header_t);
 
     // create target index and data files
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-index-%05d", output->indexpath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/i%d", output->indexpath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target index: %s\n", filebuf);
     if((indexfd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
         diep(filebuf);
 
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", output->datapath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/d%d", output->datapath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target data: %s\n", filebuf);
     if((datafd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
@@ -229,7 +229,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         if(truedid != fileid) {
             printf("[+] quick-compact: opening another datafile\n");
 
-            snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", input->datapath, output->nsname, truedid);
+            snprintf(filebuf, sizeof(filebuf), "%s/%s/d%d", input->datapath, output->nsname, truedid);
 
             if((transfd = open(filebuf, O_RDONLY, 0600)) < 0)
                 diep(buffer);
-- 
2.43.0


From de90e2d743926f0a7acc6cacaaa723f792318afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 51/70] fix: quick-compact: index pointed to the previous data
 entry

---
 tools/quick-compaction/quick-compact.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index c6783aa..bb5e470 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -273,12 +273,14 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
 
         // saving current position as previous entry
         session->dataprev = lseek(datafd, 0, SEEK_CUR);
-        dataoffset = session->dataprev;
 
         // writing new data
         if(write(datafd, dataentry, writelen) != writelen)
             diep("data payload write");
 
+        // location of the next entry
+        dataoffset = lseek(datafd, 0, SEEK_CUR);
+
         printf("<<<< new next offset: %lu\n", lseek(datafd, 0, SEEK_CUR));
         free(dataentry);
 
-- 
2.43.0


From 2d29eb01089a4fe48d6b083b7f85bb5367efbd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 52/70] fix: quick-compact: empty payloads were flagged as
 truncated

---
 tools/quick-compaction/quick-compact.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index bb5e470..df2d3ba 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -259,7 +259,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         printf("original id len = %d\n", dataentry->idlength);
         printf("original data len = %d\n", dataentry->datalength);
 
-        if(item->length == 0) {
+        if(item->flags & INDEX_ENTRY_DELETED) {
             dataentry->datalength = 0;
             dataentry->flags |= DATA_ENTRY_TRUNCATED;
             dataentry->integrity = 0;
-- 
2.43.0


From 6f14bff127ee91dd4b1ab1960e7971c4647d6154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 53/70] fix: index-rebuild: crash when a key was deleted twice

---
 tools/index-rebuild/index-rebuild.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 931ea73..d5f6e0c 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -105,7 +105,9 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
         index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength);
 
         if(entry->flags & DATA_ENTRY_DELETED) {
-            if(index_entry_delete(zdbindex, existing)) {
+            // nothing to delete if the key is already deleted, this
+            // is possible if the server was interrupted
+            if(existing && index_entry_delete(zdbindex, existing)) {
                 fprintf(stderr, "[-] index-rebuild: could not delete index item\n");
                 return -1;
             }
-- 
2.43.0


From 4b289f44bd33eab3f2362241efa9f8212a8389df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 54/70] fix: index-rebuild: entries removed by compaction came
 back empty

---
 tools/index-rebuild/index-rebuild.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index d5f6e0c..ca9b321 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -112,6 +112,21 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
                 return -1;
             }
 
+        } else if(entry->flags & DATA_ENTRY_TRUNCATED) {
+            // payload discarded by the compaction, it was deleted or overwritten, only
+            // the position matters, on sequential mode, to keep the next ids
+            idxreq.flags = INDEX_ENTRY_DELETED;
+
+            if(zdbindex->mode == ZDB_MODE_SEQUENTIAL) {
+                if(index_append_entry_on_disk(zdbindex, &setter)) {
+                    fprintf(stderr, "[-] index-rebuild: could not insert index item\n");
+                    return -1;
+                }
+
+                zdbindex->nextentry += 1;
+                zdbindex->nextid += 1;
+            }
+
         } else {
             if(!index_set(zdbindex, &setter, existing)) {
                 fprintf(stderr, "[-] index-rebuild: could not insert index item\n");
-- 
2.43.0


From f8f38d2f29d3697bb2f0e8cbf0b851aaa884b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 55/70] fix: namespace-dump: crash if the namespace does not
 exist

---
 tools/namespace-dump/namespace-dump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/namespace-dump/namespace-dump.c b/tools/namespace-dump/namespace-dump.c
index 5873159..f221e3a 100644
--- a/tools/namespace-dump/namespace-dump.c
+++ b/tools/namespace-dump/namespace-dump.c
@@ -37,6 +37,11 @@ int main(int argc, char *argv[]) {
     ns_root_t *nsroot = namespaces_allocate(zdb_settings);
     namespace_t *ns = namespace_load_light(nsroot, nsname, 0);
 
+    if(!ns) {
+        fprintf(stderr, "[-] namespace-dump: could not load namespace\n");
+        exit(EXIT_FAILURE);
+    }
+
     printf("[+] ----------------------------------------\n");
     printf("[+] name        : %s\n", ns->name);
     printf("[+] password    : %s\n", ns->password ? ns->password : "<no password set>");
-- 
2.43.0


From a7d0d434c8bcd9898e2ee78c467f5fa487804587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 56/70] fix: index-rebuild: template was ignored

---
 tools/index-rebuild/index-rebuild.c | 44 +++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index ca9b321..9a23262 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -5,6 +5,7 @@
 #include <inttypes.h>
 #include <getopt.h>
 #include <unistd.h>
+#include <fcntl.h>
 #include "libzdb.h"
 
 static struct option long_options[] = {
@@ -170,6 +171,44 @@ int index_rebuild(index_root_t *zdbindex, data_root_t *zdbdata, time_t timestamp
     return 0;
 }
 
+// replace namespace settings by the ones from the template
+static int index_template_apply(char *template, namespace_t *namespace) {
+    char buffer[sizeof(ns_header_t) + 512];
+    char pathname[ZDB_PATH_MAX];
+    ssize_t length;
+    int fd;
+
+    if((fd = open(template, O_RDONLY)) < 0) {
+        zdb_warnp(template);
+        return 1;
+    }
+
+    length = read(fd, buffer, sizeof(buffer));
+    close(fd);
+
+    if(length < (ssize_t) sizeof(ns_header_t)) {
+        fprintf(stderr, "[-] index-rebuild: invalid template\n");
+        return 1;
+    }
+
+    snprintf(pathname, sizeof(pathname), "%s/zdb-namespace", namespace->indexpath);
+
+    if((fd = open(pathname, O_CREAT | O_TRUNC | O_WRONLY, 0600)) < 0) {
+        zdb_warnp(pathname);
+        return 1;
+    }
+
+    if(write(fd, buffer, length) != length) {
+        zdb_warnp(pathname);
+        close(fd);
+        return 1;
+    }
+
+    close(fd);
+
+    return 0;
+}
+
 void usage() {
     printf("Index rebuild tool arguments:\n\n");
 
@@ -305,6 +344,11 @@ int main(int argc, char *argv[]) {
         exit(EXIT_FAILURE);
     }
 
+    if(template && index_template_apply(template, namespace)) {
+        fprintf(stderr, "[-] index-rebuild: could not apply template\n");
+        exit(EXIT_FAILURE);
+    }
+
     if(!(zdbdata = zdb_data_init_lazy(zdb_settings, namespace->datapath, 0))) {
         fprintf(stderr, "[-] index-rebuild: cannot load data files\n");
         exit(EXIT_FAILURE);
-- 
2.43.0


From 288e3e07f336469c9ef0f9735dd24f2fe00452f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 57/70] fix: namespace-editor: a password of 256 bytes was
 saved as no password

---
 tools/namespace-editor/namespace-editor.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/namespace-editor/namespace-editor.c b/tools/namespace-editor/namespace-editor.c
index e8dc840..2a69f4e 100644
--- a/tools/namespace-editor/namespace-editor.c
+++ b/tools/namespace-editor/namespace-editor.c
@@ -115,6 +115,12 @@ int main(int argc, char *argv[]) {
                 break;
 
             case 'p':
+                // length is stored on one byte
+                if(strlen(optarg) > UINT8_MAX) {
+                    fprintf(stderr, "[-] password too long\n");
+                    exit(EXIT_FAILURE);
+                }
+
                 namespace.password = optarg;
                 break;
 
-- 
2.43.0


From 11f5679658bf40088ab088cecc4cd93cdc115c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 58/70] fix: db-replicate: changes made just before waiting
 were never copied

The place to continue from was the last key of the source when waiting
started, which skips what was changed since the last request, and does not exist
when the source is empty.
---
 utilities/db-replicate/db-replicate.c | 44 +++++++++++++++++++++------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index c60ffd3..1c3158c 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -22,6 +22,9 @@ typedef struct sync_t {
     redisContext *sourcep;  // source payload
     redisContext *target;
 
+    char *cursor;           // last key copied
+    size_t cursorlen;
+
 } sync_t;
 
 
@@ -137,6 +140,29 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
     return 0;
 }
 
+// keep the place of the last key copied
+void cursor_save(sync_t *sync, redisReply *cursor) {
+    char *copy;
+
+    if(!(copy = realloc(sync->cursor, cursor->len + 1))) {
+        perror("realloc");
+        exit(EXIT_FAILURE);
+    }
+
+    memcpy(copy, cursor->str, cursor->len);
+    sync->cursor = copy;
+    sync->cursorlen = cursor->len;
+}
+
+// what comes after the last key copied
+redisReply *cursor_scan(sync_t *sync) {
+    // nothing copied yet
+    if(!sync->cursor)
+        return redisCommand(sync->sourceq, "SCAN");
+
+    return redisCommand(sync->sourceq, "SCAN %b", sync->cursor, sync->cursorlen);
+}
+
 int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
     redisReply *reply = from;
     keylist_t keylist = {
@@ -165,7 +191,9 @@ int replicate_from_reply(sync_t *sync, redisReply *from, status_t *status) {
         }
 
         // query next key
-        if(!(reply = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
+        cursor_save(sync, reply->element[0]);
+
+        if(!(reply = cursor_scan(sync)))
             return 1;
 
         // original reply will be free'd here
@@ -198,16 +226,12 @@ int replicate(sync_t *sync) {
 }
 
 int synchronize(sync_t *sync) {
-    redisReply *reply, *wait, *from;
+    redisReply *wait, *from;
     status_t status = {0};
 
     printf("[+] synchronizing databases\n");
 
     while(1) {
-        printf("[+] fetching last id\n");
-        if(!(reply = redisCommand(sync->sourceq, "RSCAN")))
-            return 1;
-
         printf("[+] waiting trigger on master\n");
         if(!(wait = redisCommand(sync->sourceq, "WAIT SET")))
             return 1;
@@ -215,14 +239,14 @@ int synchronize(sync_t *sync) {
         // wait is not needed
         freeReplyObject(wait);
 
-        // fetching from last ket we know
-        if(!(from = redisCommand(sync->sourceq, "SCAN %b", reply->element[0]->str, reply->element[0]->len)))
+        // fetching from last key we copied, asking for the last key of
+        // the source would skip changes made since our last request
+        if(!(from = cursor_scan(sync)))
             return 1;
 
         printf("[+] trigger fired, syncing...\n");
         replicate_from_reply(sync, from, &status);
 
-        freeReplyObject(reply);
         printf("\n");
     }
 
@@ -261,7 +285,7 @@ void usage(char *program) {
 }
 
 int main(int argc, char **argv) {
-    sync_t sync;
+    sync_t sync = {0};
     int option_index = 0;
     char *inhost = NULL, *outhost = NULL;
     int inport = 9900, outport = 9900;
-- 
2.43.0


From 2012b278edd15256a1dd467366ccc7f513f011da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:33 +0000
Subject: [PATCH 59/70] fix: db-replicate, db-sync: key deleted while copying
 was written empty

---
 utilities/db-replicate/db-replicate.c | 7 +++++++
 utilities/db-sync/db-sync.c           | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/utilities/db-replicate/db-replicate.c b/utilities/db-replicate/db-replicate.c
index 1c3158c..987dc2c 100644
--- a/utilities/db-replicate/db-replicate.c
+++ b/utilities/db-replicate/db-replicate.c
@@ -119,6 +119,13 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
             exit(EXIT_FAILURE);
         }
 
+        // key deleted since it was listed
+        if(input->type != REDIS_REPLY_STRING) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
diff --git a/utilities/db-sync/db-sync.c b/utilities/db-sync/db-sync.c
index ae12484..939b566 100644
--- a/utilities/db-sync/db-sync.c
+++ b/utilities/db-sync/db-sync.c
@@ -179,6 +179,13 @@ int fetchsync(sync_t *sync, keylist_t *keylist, status_t *status) {
             exit(EXIT_FAILURE);
         }
 
+        // key deleted since it was listed
+        if(input->type != REDIS_REPLY_STRING) {
+            freeReplyObject(input);
+            freeReplyObject(keylist->keys[i]);
+            continue;
+        }
+
         char *key = keylist->keys[i]->element[0]->str;
         size_t keylen = keylist->keys[i]->element[0]->len;
 
-- 
2.43.0


From 3ad9a77b065101c4aee104176952504d75cda58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 60/70] fix: HISTORY, KEYCUR: a key over 255 bytes matched the
 key it starts with

---
 zdbd/commands_history.c | 12 ++++++------
 zdbd/commands_scan.c    |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index 61006f9..eed8cbf 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -155,6 +155,12 @@ int command_history(redis_client_t *client) {
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
+    // keys are never longer than maximum allowed
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid arguments (invalid key)");
+        return 1;
+    }
+
     // requesting a previous data, without any exact offset
     // this basicly request the first older entry of a specific key
     if(client->request->argc == 2) {
@@ -187,12 +193,6 @@ int command_history(redis_client_t *client) {
         return history_send(client, item, &ekey);
     }
 
-    // keys are never longer than maximum allowed
-    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
-        redis_hardsend(client, "-Invalid arguments (invalid key)");
-        return 1;
-    }
-
     // user requested an older entry
     // let's fetch the requested entry on the index file
     // and check if this is a legitim request
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 588b48e..83f4fcd 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -339,6 +339,11 @@ int command_keycur(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(request->argv[1]->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
-- 
2.43.0


From 3352021f2eb2f3f01c65fab7a1a7932ade26ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 61/70] fix: SET: the previous entry stayed valid when it could
 not be flagged

If flagging the previous index entry as deleted failed (disk full, read
only filesystem), the error was ignored: both entries were valid on disk,
SCAN listed the key twice. The new entry is now discarded and the command
fails.
---
 libzdb/index_set.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 7976485..b9e561c 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -312,6 +312,8 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     set->entry->parentid = previous->indexid;
     set->entry->parentoff = previous->idxoffset;
 
+    size_t last = root->previous;
+
     // append the data on the disk first, if this fails (or is interrupted)
     // the previous entry is still valid
     if(index_append_entry_on_disk(root, set)) {
@@ -320,7 +322,16 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
     }
 
     zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
+    if(index_entry_delete_disk(root, previous)) {
+        zdb_debug("[-] index: update entry failed: could not flag previous key\n");
+
+        // both entries would be valid, keep the previous one
+        if(ftruncate(root->indexfd, set->entry->idxoffset) < 0)
+            zdb_warnp("index update: rollback");
+
+        root->previous = last;
+        return NULL;
+    }
 
     // update memory state
     return index_update_memory_handler_memkey(root, set, previous);
-- 
2.43.0


From 052497bdecc3a137e7ebba3f41c6d4fd10de1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 62/70] fix: SCAN, RSCAN: an index file which could not be read
 was skipped

---
 libzdb/index_scan.c  | 38 ++++++++++++++++++++++++++++++--------
 zdbd/commands_scan.c | 16 ++++++++++++++--
 2 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index 8c583ee..4e2d863 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -81,6 +81,18 @@ static int index_scan_empty(int fd) {
     return (lseek(fd, 0, SEEK_END) <= (off_t) sizeof(index_header_t));
 }
 
+// check if a missing entry is really the end of the file, and not
+// something which could not be read
+static int index_scan_eof(index_scan_t scan, ssize_t length) {
+    return (length >= 0 && lseek(scan.fd, 0, SEEK_END) <= (off_t) (scan.target + length));
+}
+
+// there is nothing before the first and after the last file, any
+// other file which can't be open contains entries we can't provide
+static index_scan_status_t index_scan_unavailable(index_root_t *root, fileid_t fileid) {
+    return (fileid > root->indexid) ? INDEX_SCAN_NO_MORE_DATA : INDEX_SCAN_UNEXPECTED;
+}
+
 // RSCAN implementation
 static index_scan_t index_previous_header_real(index_scan_t scan) {
     index_item_t source;
@@ -203,7 +215,7 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index rscan: previous-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_unavailable(root, scan.fileid));
         }
 
         // target comes from the next file and this file have no
@@ -244,6 +256,7 @@ index_scan_t index_previous_header(index_root_t *root, fileid_t fileid, size_t o
 // SCAN implementation
 static index_scan_t index_next_header_real(index_scan_t scan) {
     index_item_t source;
+    ssize_t length;
 
     // if scan.target is not set yet, we don't know the expected
     // offset of the next header, let's read the header
@@ -267,8 +280,12 @@ static index_scan_t index_next_header_real(index_scan_t scan) {
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
-        // zdb_warnp("index scan: next-header: could not read next offset indexfile");
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
+        if(!index_scan_eof(scan, length)) {
+            zdb_warnp("index scan: next-header: could not read next offset indexfile");
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+        }
+
         // this mean the entry expected is the first of the next indexfile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -327,7 +344,7 @@ index_scan_t index_next_header(index_root_t *root, fileid_t fileid, size_t offse
         // acquire file id fd
         if((scan.fd = index_grab_fileid(root, fileid)) < 0) {
             zdb_debug("[-] index scan: next-header: could not open requested file id (%u)\n", fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_unavailable(root, fileid));
         }
 
         // trying to get entry
@@ -359,13 +376,18 @@ index_scan_t index_next_header(index_root_t *root, fileid_t fileid, size_t offse
 
 static index_scan_t index_first_header_real(index_scan_t scan) {
     index_item_t source;
+    ssize_t length;
 
     // jumping to next object
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
-        zdb_warnp("data: first-header: could not read next offset datafile");
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
+        if(!index_scan_eof(scan, length)) {
+            zdb_warnp("index scan: first-header: could not read next offset indexfile");
+            return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
+        }
+
         // this mean the data expected is the first of the next datafile
         scan.target = sizeof(index_header_t);
         return index_scan_error(scan, INDEX_SCAN_EOF_REACHED);
@@ -420,7 +442,7 @@ index_scan_t index_first_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: first-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_unavailable(root, scan.fileid));
         }
 
         scan = index_first_header_real(scan);
@@ -533,7 +555,7 @@ index_scan_t index_last_header(index_root_t *root) {
         // acquire data id fd
         if((scan.fd = index_grab_fileid(root, scan.fileid)) < 0) {
             zdb_debug("[-] index scan: last-header: could not open requested file id (%u)\n", scan.fileid);
-            return index_scan_error(scan, INDEX_SCAN_NO_MORE_DATA);
+            return index_scan_error(scan, index_scan_unavailable(root, scan.fileid));
         }
 
         // trying to get entry
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 83f4fcd..0c1325e 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -219,7 +219,7 @@ static int scan_failure(index_scan_t *scan, redis_client_t *client) {
 // SCAN
 //
 int command_scan(redis_client_t *client) {
-    index_scan_t scan;
+    index_scan_t scan = {.status = INDEX_SCAN_SUCCESS};
     scan_list_t scanlist;
     scan_info_t info;
 
@@ -265,6 +265,12 @@ int command_scan(redis_client_t *client) {
 
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
+    // this is not the end, next entry could not be read
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
+    }
+
     if(command_scan_send_scanlist(&scanlist, client))
         redis_hardsend(client, "-Internal Error");
 
@@ -276,7 +282,7 @@ int command_scan(redis_client_t *client) {
 // RSCAN
 //
 int command_rscan(redis_client_t *client) {
-    index_scan_t scan;
+    index_scan_t scan = {.status = INDEX_SCAN_SUCCESS};
     scan_list_t scanlist;
     scan_info_t info;
 
@@ -322,6 +328,12 @@ int command_rscan(redis_client_t *client) {
 
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
+    // this is not the end, next entry could not be read
+    if(scanlist.length == 0 && scan.status == INDEX_SCAN_UNEXPECTED) {
+        scanlist_free(&scanlist);
+        return scan_failure(&scan, client);
+    }
+
     if(command_scan_send_scanlist(&scanlist, client))
         redis_hardsend(client, "-Internal Error");
 
-- 
2.43.0


From 929d8dbd623ea2ad739590491c637e01bb0d4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 63/70] fix: data: entries which could not be read at start
 were discarded

---
 libzdb/data.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 037a365..213c17b 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -306,7 +306,9 @@ static void data_open_final(data_root_t *root) {
     off_t fullsize = lseek(root->datafd, 0, SEEK_END);
     off_t current = lseek(root->datafd, sizeof(data_header_t), SEEK_SET);
 
-    while(read(root->datafd, &header, sizeof(data_entry_header_t)) == sizeof(data_entry_header_t)) {
+    ssize_t length;
+
+    while((length = read(root->datafd, &header, sizeof(data_entry_header_t))) == sizeof(data_entry_header_t)) {
         off_t next = current + sizeof(data_entry_header_t) + header.datalength + header.idlength;
 
         // last entry incomplete
@@ -322,6 +324,13 @@ static void data_open_final(data_root_t *root) {
     // keep where the valid entries ends
     root->validsize = current;
 
+    // reading stopped before the end of the file, next entries are
+    // maybe valid and needs to be kept
+    if(length < (ssize_t) sizeof(data_entry_header_t) && (length < 0 || current + length < fullsize)) {
+        zdb_warnp(root->datafile);
+        root->validsize = fullsize;
+    }
+
     zdb_debug("[+] data: entries read: %d, last offset: %lu\n", entries, root->previous);
     zdb_verbose("[+] data: active file: %s\n", root->datafile);
 }
-- 
2.43.0


From 13c5f32770137b89de546d1c1caa5153a3575b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 64/70] fix: index: file with a header which could not be read
 was overwritten

---
 libzdb/index_loader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 1345494..93f3bd4 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -194,7 +194,7 @@ static size_t index_load_file(index_root_t *root) {
         // FIXME: replace this with helper
         //
 
-        if(length < 0) {
+        if(length < 0 || lseek(root->indexfd, 0, SEEK_END) > length) {
             // read failed, probably caused by a system error
             // this is probably an unrecoverable issue, let's skip this
             // index file (this could break consistancy)
-- 
2.43.0


From 39016e999f7c94ecc287c21e1bc6cf1f84f8faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 65/70] fix: sequential mode: a key which could not be read was
 reported missing

---
 libzdb/index.h          |  1 +
 libzdb/index_get.c      |  8 +++++++-
 zdbd/commands.c         |  6 ++++++
 zdbd/commands.h         |  1 +
 zdbd/commands_dataset.c | 15 +++++++++++++++
 zdbd/commands_get.c     |  3 +++
 zdbd/commands_history.c |  3 +++
 zdbd/commands_scan.c    |  3 +++
 zdbd/commands_set.c     |  3 +++
 9 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.h b/libzdb/index.h
index 1c0bfe9..4b40f30 100644
--- a/libzdb/index.h
+++ b/libzdb/index.h
@@ -212,6 +212,7 @@
         size_t previous;    // keep latest offset inserted to the indexfile
         fileid_t lastdata;  // highest datafile id used by loaded entries
         size_t lastdatalen; // length of that datafile needed by loaded entries
+        int unreadable;     // last key lookup failed because index could not be read
 
     } index_root_t;
 
diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index e13754d..c208405 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -40,8 +40,11 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     // reading index on disk
     index_item_t *item;
 
-    if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t))))
+    if(!(item = index_item_get_disk(index, seqmap->fileid, offset, sizeof(seqid_t)))) {
+        // this key exists, but nothing can be told about it
+        index->unreadable = 1;
         return NULL;
+    }
 
     // this position is used by a previous version of another
     // key (see index_update_entry_sequential), it's not an id
@@ -82,6 +85,9 @@ static index_entry_t * (*index_get_handlers[])(index_root_t *root, void *id, uin
 index_entry_t *index_get(index_root_t *index, void *id, uint8_t idlength) {
     index_entry_t *entry;
 
+    // no entry and this flag not set means key not found
+    index->unreadable = 0;
+
     zdb_debug("[+] index: get: lookup key: ");
     zdb_debughex(id, idlength);
 
diff --git a/zdbd/commands.c b/zdbd/commands.c
index 1e8a46e..ec3549b 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -286,3 +286,9 @@ int command_error_frozen(redis_client_t *client) {
     redis_hardsend(client, "-Namespace is temporarily frozen (read-write disabled)");
     return 1;
 }
+
+int command_error_unreadable(redis_client_t *client) {
+    zdbd_debug("[-] command: request interrupted, index could not be read\n");
+    redis_hardsend(client, "-Internal Error");
+    return 1;
+}
diff --git a/zdbd/commands.h b/zdbd/commands.h
index e0417e0..f141fa9 100644
--- a/zdbd/commands.h
+++ b/zdbd/commands.h
@@ -21,6 +21,7 @@
 
     int command_error_locked(redis_client_t *client);
     int command_error_frozen(redis_client_t *client);
+    int command_error_unreadable(redis_client_t *client);
 
     // defined in commands_set.c
     // used by commands_set.c and commands_dataset.c
diff --git a/zdbd/commands_dataset.c b/zdbd/commands_dataset.c
index d9f2a45..0b9f0c9 100644
--- a/zdbd/commands_dataset.c
+++ b/zdbd/commands_dataset.c
@@ -33,6 +33,9 @@ int command_exists(redis_client_t *client) {
     index_root_t *index = client->ns->index;
     index_entry_t *entry = index_get(index, request->argv[1]->buffer, request->argv[1]->length);
 
+    if(!entry && index->unreadable)
+        return command_error_unreadable(client);
+
     zdbd_debug("[+] command: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
     // key found but deleted
@@ -74,6 +77,9 @@ int command_check(redis_client_t *client) {
 
     // key not found at all
     if(!entry) {
+        if(index->unreadable)
+            return command_error_unreadable(client);
+
         zdbd_debug("[-] command: check: key not found\n");
         redis_hardsend(client, "$-1");
         return 1;
@@ -141,6 +147,9 @@ int command_del(redis_client_t *client) {
 
     // grabbing original entry
     if(!(entry = index_get(index, request->argv[1]->buffer, request->argv[1]->length))) {
+        if(index->unreadable)
+            return command_error_unreadable(client);
+
         zdbd_debug("[-] command: del: key not found\n");
         redis_hardsend(client, "-Key not found");
         return 1;
@@ -204,6 +213,9 @@ int command_length(redis_client_t *client) {
 
     // key not found at all
     if(!entry) {
+        if(index->unreadable)
+            return command_error_unreadable(client);
+
         zdbd_debug("[-] command: length: key not found\n");
         redis_hardsend(client, "$-1");
         return 1;
@@ -249,6 +261,9 @@ int command_keytime(redis_client_t *client) {
 
     // key not found at all
     if(!entry) {
+        if(index->unreadable)
+            return command_error_unreadable(client);
+
         zdbd_debug("[-] command: keytime: key not found\n");
         redis_hardsend(client, "$-1");
         return 1;
diff --git a/zdbd/commands_get.c b/zdbd/commands_get.c
index 7f7f116..0e3f799 100644
--- a/zdbd/commands_get.c
+++ b/zdbd/commands_get.c
@@ -17,6 +17,9 @@ static int command_get_single(redis_client_t *client, char *buffer, int length)
 
     // fetching index entry for this key
     if(!(entry = index_get(client->ns->index, buffer, length))) {
+        if(client->ns->index->unreadable)
+            return command_error_unreadable(client);
+
         zdbd_debug("[-] command: get: key not found\n");
         redis_hardsend(client, "$-1");
         return 1;
diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index eed8cbf..f6cf985 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -166,6 +166,9 @@ int command_history(redis_client_t *client) {
     if(client->request->argc == 2) {
         // grabbing original entry
         if(!(entry = index_get(index, client->request->argv[1]->buffer, client->request->argv[1]->length))) {
+            if(index->unreadable)
+                return command_error_unreadable(client);
+
             zdbd_debug("[-] command: history: key not found\n");
             redis_hardsend(client, "-Key not found");
             return 1;
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 0c1325e..644e494 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -363,6 +363,9 @@ int command_keycur(redis_client_t *client) {
     resp_object_t *key = request->argv[1];
 
     if(!(entry = index_get(index, key->buffer, key->length))) {
+        if(index->unreadable)
+            return command_error_unreadable(client);
+
         redis_hardsend(client, "-Key not found");
         return 1;
     }
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index fd40823..3697201 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -340,6 +340,9 @@ int command_set(redis_client_t *client) {
         // userkey id is not null
         if((entry = index_get(index, request->argv[1]->buffer, request->argv[1]->length)))
             floating = entry->length;
+
+        else if(index->unreadable)
+            return command_error_unreadable(client);
     }
 
     // checking if worm mode enabled and key already exists
-- 
2.43.0


From 4c33f76c0483b304f29c0674085b28138f267d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:21 +0000
Subject: [PATCH 66/70] fix: incremental update stops on a replica which is
 already complete, or an empty source

The progress shown was computed after its first use, and divided by the
size of the source.
---
 tools/incremental-update/incremental.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/incremental-update/incremental.py b/tools/incremental-update/incremental.py
index 42582ca..c26d52e 100644
--- a/tools/incremental-update/incremental.py
+++ b/tools/incremental-update/incremental.py
@@ -86,15 +86,17 @@ class ZDBIncremental:
             if slave['dataid'] > master['dataid']:
                 raise RuntimeError("slave ahead from master")
 
+            # nothing is stored when everything was deleted
+            msize = master['size'] / 1024 / 1024
+            ssize = slave['size'] / 1024 / 1024
+            progress = (slave['size'] / master['size']) * 100 if master['size'] else 100.0
+
             if master['dataid'] == slave['dataid']:
                 if master['offset'] == slave['offset']:
                     sys.stdout.write("\r[+] syncing: %.2f / %.2f MB (%.1f %%), waiting changes \033[K" % (ssize, msize, progress))
                     time.sleep(10)
                     continue
 
-            msize = master['size'] / 1024 / 1024
-            ssize = slave['size'] / 1024 / 1024
-            progress = (slave['size'] / master['size']) * 100
             dataid = slave['dataid']
             offset = slave['offset']
 
-- 
2.43.0


From 3c00f48f9dfe681bc36381587747d58009df62ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:29 +0000
Subject: [PATCH 67/70] fix: library: a key which could not be read was
 reported missing

---
 libzdb/api.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 17b8eec..1eb0259 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -109,12 +109,23 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 // length of a key is stored on one byte, without this
 // check a larger key would match another one
 static index_entry_t *api_index_get(namespace_t *ns, void *key, size_t ksize) {
-    if(ksize > MAX_KEY_LENGTH)
+    if(ksize > MAX_KEY_LENGTH) {
+        ns->index->unreadable = 0;
         return NULL;
+    }
 
     return index_get(ns->index, key, ksize);
 }
 
+// reply when no entry was found: nothing can be said about
+// a key when the index could not be read
+static zdb_api_t *api_index_missing(namespace_t *ns, zdb_api_type_t type) {
+    if(ns->index->unreadable)
+        type = ZDB_API_INTERNAL_ERROR;
+
+    return zdb_api_reply(type, NULL);
+}
+
 
 // different data can share the same checksum, an update is
 // ignored only if the contents are really the same
@@ -314,6 +325,8 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
         // userkey id is not null
         if((entry = index_get(ns->index, key, ksize)))
             floating = entry->length;
+        else if(ns->index->unreadable)
+            return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
     }
 
     // check if namespace limitation is set
@@ -349,7 +362,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     // fetching index entry for this key
     if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
-        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+        return api_index_missing(ns, ZDB_API_NOT_FOUND);
     }
 
     // key found but deleted
@@ -386,7 +399,7 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
     if(!entry)
-        return zdb_api_reply(ZDB_API_FALSE, NULL);
+        return api_index_missing(ns, ZDB_API_FALSE);
 
     // key found but deleted
     if(entry && entry->flags & INDEX_ENTRY_DELETED) {
@@ -403,7 +416,7 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     // key not found at all
     if(!entry) {
         zdb_debug("[-] api: check: key not found\n");
-        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+        return api_index_missing(ns, ZDB_API_NOT_FOUND);
     }
 
     // key found but deleted
@@ -429,7 +442,7 @@ zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     // grabbing original entry
     if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
-        return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
+        return api_index_missing(ns, ZDB_API_NOT_FOUND);
     }
 
     // avoid double deletion
-- 
2.43.0


From 53fc3df40a578b3c529907d8efbd7fcf0fb19450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:26 +0000
Subject: [PATCH 68/70] fix: namespaces could not be loaded from a read-only
 filesystem

---
 libzdb/namespace.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 1b74f51..1ca72a2 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -8,6 +8,7 @@
 #include <sys/stat.h>
 #include <dirent.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <limits.h>
 #include <time.h>
 #include "libzdb.h"
@@ -115,7 +116,12 @@ static int namespace_descriptor_open(namespace_t *namespace) {
 
     snprintf(pathname, ZDB_PATH_MAX, "%s/zdb-namespace", namespace->indexpath);
 
-    if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0) {
+    // nothing can be written on a read-only filesystem, an existing
+    // descriptor can still be read
+    if((fd = open(pathname, O_CREAT | O_RDWR, 0600)) < 0 && errno == EROFS)
+        fd = open(pathname, O_RDONLY);
+
+    if(fd < 0) {
         zdb_warning("[-] cannot create or open in read-write the namespace file");
         return -1;
     }
-- 
2.43.0


From fd1d33b05c951847001329ea6d9f447be60d9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:38 +0000
Subject: [PATCH 69/70] fix: rotation, flush or deletion on a read-only
 filesystem lost the namespace

---
 libzdb/api.c              |  4 ++++
 libzdb/namespace.c        | 18 ++++++++++++++++++
 libzdb/namespace.h        |  1 +
 zdbd/commands_namespace.c | 12 ++++++++++++
 zdbd/commands_set.c       |  6 ++++++
 zdbd/redis.c              |  2 +-
 6 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 1eb0259..5609bf4 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -345,6 +345,10 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // if we do this after adding data, we could have an empty data file
     // which will fake the 'previous' offset when computing it on reload
     if(data_next_offset(ns->data) + psize > zdb_rootsettings.datasize) {
+        // next files could not be created, keep the current ones
+        if(!namespace_is_writable(ns))
+            return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+
         size_t newid = index_jump_next(ns->index);
         data_jump_next(ns->data, newid);
     }
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 1ca72a2..ceec5dc 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -651,6 +651,21 @@ int namespace_is_fresh(namespace_t *namespace) {
     return 1;
 }
 
+// return 1 or 0 if files of that namespace can be created or removed,
+// which is not the case on a read-only filesystem
+int namespace_is_writable(namespace_t *namespace) {
+    char *paths[] = {namespace->indexpath, namespace->datapath};
+
+    for(int i = 0; i < 2; i++) {
+        if(access(paths[i], W_OK) < 0) {
+            zdb_warnp(paths[i]);
+            return 0;
+        }
+    }
+
+    return 1;
+}
+
 // trigger hook when namespace is reloaded
 static void namespace_reload_hook(namespace_t *namespace) {
     if(!zdb_rootsettings.hook)
@@ -694,6 +709,9 @@ int namespace_reload(namespace_t *namespace) {
 int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: %s\n", namespace->name);
 
+    if(!namespace_is_writable(namespace))
+        return 1;
+
     zdb_debug("[+] namespace: flushing: cleaning index\n");
     index_clean_namespace(namespace->index, namespace);
 
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 8cf7213..89341cf 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -82,6 +82,7 @@
     int namespace_flush(namespace_t *namespace);
     int namespace_reload(namespace_t *namespace);
     int namespace_is_fresh(namespace_t *namespace);
+    int namespace_is_writable(namespace_t *namespace);
     int namespace_lock(namespace_t *namespace);
     int namespace_unlock(namespace_t *namespace);
     int namespace_is_locked(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 7a1a404..037c1ed 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -94,6 +94,12 @@ int command_nsdel(redis_client_t *client) {
         return 1;
     }
 
+    // files could not be removed
+    if(!namespace_is_writable(namespace)) {
+        redis_hardsend(client, "-Could not delete this namespace");
+        return 1;
+    }
+
     // detach all clients attached to this namespace
     redis_detach_clients(namespace);
 
@@ -598,6 +604,12 @@ int command_nsjump(redis_client_t *client) {
 
     zdbd_debug("[+] command: nsjump: forcing index and data jump\n");
 
+    // next files could not be created
+    if(!namespace_is_writable(client->ns)) {
+        redis_hardsend(client, "-Namespace files are not writable");
+        return 1;
+    }
+
     size_t newid = index_jump_next(client->ns->index);
     data_jump_next(client->ns->data, newid);
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 3697201..1f5b46f 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -372,6 +372,12 @@ int command_set(redis_client_t *client) {
     zdb_settings_t *zdb_settings = zdb_settings_get();
 
     if(data_next_offset(client->ns->data) + request->argv[2]->length > zdb_settings->datasize) {
+        // next files could not be created, keep the current ones
+        if(!namespace_is_writable(client->ns)) {
+            redis_hardsend(client, "-Cannot write data right now");
+            return 1;
+        }
+
         size_t newid = index_jump_next(client->ns->index);
         data_jump_next(client->ns->data, newid);
     }
diff --git a/zdbd/redis.c b/zdbd/redis.c
index d58b18a..468e949 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -1178,7 +1178,7 @@ void redis_files_rotate() {
 
         time_t diffsec = time(NULL) - ns->index->rotate;
 
-        if(diffsec > zdbd_rootsettings.rotatesec) {
+        if(diffsec > zdbd_rootsettings.rotatesec && namespace_is_writable(ns)) {
             zdbd_log("[+] system: rotation requested (%s, %ld seconds)\n", ns->name, diffsec);
             size_t newid = index_jump_next(ns->index);
             data_jump_next(ns->data, newid);
-- 
2.43.0


From 612a99fae34b9dfc41916f9b05ed5b57d728b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:05 +0000
Subject: [PATCH 70/70] fix: a namespace whose directory is missing could not
 be deleted anymore

---
 libzdb/namespace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index ceec5dc..db05933 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -652,12 +652,13 @@ int namespace_is_fresh(namespace_t *namespace) {
 }
 
 // return 1 or 0 if files of that namespace can be created or removed,
-// which is not the case on a read-only filesystem
+// which is not the case on a read-only filesystem (nothing is known
+// about a directory which doesn't exist)
 int namespace_is_writable(namespace_t *namespace) {
     char *paths[] = {namespace->indexpath, namespace->datapath};
 
     for(int i = 0; i < 2; i++) {
-        if(access(paths[i], W_OK) < 0) {
+        if(access(paths[i], W_OK) < 0 && errno != ENOENT) {
             zdb_warnp(paths[i]);
             return 0;
         }
-- 
2.43.0

