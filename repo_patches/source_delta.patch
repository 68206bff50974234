From e199900e229a37d2f2125dd777e8d06ef91889e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 01/47] fix: accept an acknowledgement with a valid start byte
 in mbus_frame_verify

The comparison result was returned directly, so a valid ACK was reported
as an error (1) and an invalid one as success (0).
---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..0d7cc4b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,7 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return frame->start1 == MBUS_FRAME_ACK_START;
+                return (frame->start1 == MBUS_FRAME_ACK_START) ? 0 : -1;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0


From e41157f8dfa7640af945a351f139c53d0e328a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 02/47] fix: look for an echo only when a frame has been
 received

mbus_recv_frame evaluated the direction of the frame structure even when
nothing (or garbage) had been received, i.e. of stale or zeroed contents.
With MBUS_FRAME_PURGE_S2M every failed receive was repeated and its result
discarded, so a collision was reported as a timeout.
---
 mbus/mbus-protocol-aux.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..2a89afb 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1690,16 +1690,20 @@ mbus_recv_frame(mbus_handle * handle, mbus_frame *frame)
 
     result = handle->recv(handle, frame);
 
-    switch (mbus_frame_direction(frame))
+    // only a frame that has been received can be an echo
+    if (result == MBUS_RECV_RESULT_OK)
     {
-        case MBUS_CONTROL_MASK_DIR_M2S:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
-        case MBUS_CONTROL_MASK_DIR_S2M:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
+        switch (mbus_frame_direction(frame))
+        {
+            case MBUS_CONTROL_MASK_DIR_M2S:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+            case MBUS_CONTROL_MASK_DIR_S2M:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+        }
     }
 
     if (frame != NULL)
-- 
2.43.0


From 1c1a73fa177a32f16e7dbba9365cfa8d6275c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 03/47] fix: report failure when sending without a handle

mbus_send_frame(NULL, ...) returned 0, i.e. success.
---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 2a89afb..3eaaca0 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1742,7 +1742,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
-- 
2.43.0


From f1bf5c6697f65e5140512ea4dbb24aa5b46c38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 04/47] fix: never keep or close a file descriptor the handle
 does not own

The descriptor of a new handle was uninitialised, and a failed TCP connect
left the already closed descriptor in the handle, so that mbus_disconnect
closed a descriptor belonging to someone else.
---
 mbus/mbus-protocol-aux.c | 2 ++
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 3eaaca0..c266b4b 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1524,6 +1524,7 @@ mbus_context_serial(const char *device)
 
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
+    handle->fd = -1;
     handle->is_serial = 1;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = serial_data;
@@ -1572,6 +1573,7 @@ mbus_context_tcp(const char *host, uint16_t port)
 
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
+    handle->fd = -1;
     handle->is_serial = 0;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = tcp_data;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..e7e8497 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -74,6 +74,7 @@ mbus_tcp_connect(mbus_handle *handle)
         if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
         {
             close(handle->fd);
+            handle->fd = -1;
             continue;
         }
 
-- 
2.43.0


From 8542f29d9d7ed3867e81a86e50552ed405dc019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 05/47] fix: report transport failures of a selection or probe
 as errors

A failed or closed connection was reported as MBUS_PROBE_NOTHING, so a scan
over a dead connection looked like an empty bus.
---
 mbus/mbus-protocol-aux.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index c266b4b..d005de8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2266,6 +2266,12 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        MBUS_ERROR("%s: Failed to receive reply to selection.\n", __PRETTY_FUNCTION__);
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
@@ -2329,6 +2335,13 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
+            if (ret != MBUS_RECV_RESULT_OK)
+            {
+                MBUS_ERROR("%s: Failed to receive reply to request [mask %s].\n",
+                           __PRETTY_FUNCTION__, mask);
+                return MBUS_PROBE_ERROR;
+            }
+
             /* check for more data (collision) */
             if (mbus_purge_frames(handle))
             {
-- 
2.43.0


From b367cf0c5b10232ce970f1961832d2e761f67751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 06/47] fix: propagate errors of nested secondary address scans

The result of the recursive calls was ignored, so a scan went on probing
after a transport failure and reported success. The copy of the mask was
leaked as well.
---
 mbus/mbus-protocol-aux.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index d005de8..45762f9 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2502,7 +2502,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            if (mbus_scan_2nd_address_range(handle, pos+1, mask) != 0)
+            {
+                free(mask);
+                return -1;
+            }
         }
         else
         {
@@ -2534,7 +2538,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (mbus_scan_2nd_address_range(handle, pos+1, mask) != 0)
+                {
+                    free(mask);
+                    return -1;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
@@ -2543,6 +2551,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
+                free(mask);
                 return -1;
             }
         }
-- 
2.43.0


From b99a3441a8536f8288795f1dbf9886d6bb49eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 07/47] fix: read out all frames when no frame limit is given

mbus_sendrecv_request stopped after the first frame if max_frames was 0,
which is documented (and offered by the programs) as "no limit".
---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 45762f9..aea1efd 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2144,7 +2144,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames <= 0) || (frame_count < max_frames))) // only readout max_frames
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From e1b58ec0cf8345798260560aaa6cfa43b78ad970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 08/47] fix: do not read beyond the payload of truncated
 variable data

---
 mbus/mbus-protocol.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 0d7cc4b..e420f8e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3884,6 +3884,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     return -1;
                 }
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 dife = frame->data[i+1];
                 record->drh.dib.dife[record->drh.dib.ndife] = dife;
 
@@ -3892,7 +3899,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3908,6 +3915,14 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
+
                 var_vif_len = frame->data[i++];
                 if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
@@ -3931,6 +3946,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3946,6 +3968,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                         return -1;
                     }
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     vife = frame->data[i+1];
                     record->drh.vib.vife[record->drh.vib.nvife] = vife;
 
@@ -3965,6 +3994,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-- 
2.43.0


From b8338365d94b12bea0bc85a2677dcc35ae6363a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 09/47] fix: make room for the longest record data and
 plain-text unit

---
 mbus/mbus-protocol.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..c5403b3 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -153,7 +153,7 @@ typedef struct _mbus_value_information_block {
         unsigned char vife[MBUS_VALUE_INFO_BLOCK_VIFE_SIZE];
         size_t  nvife;
 
-        unsigned char custom_vif[MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE];
+        unsigned char custom_vif[MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE + 1];
 
 } mbus_value_information_block;
 
@@ -168,7 +168,7 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    unsigned char data[MBUS_FRAME_DATA_LENGTH];
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From d0b5a0ed28a84bee3c5bf4fb520d77e58d5705a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 10/47] fix: release partially decoded records when variable
 data does not decode

---
 mbus/mbus-protocol.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index e420f8e..c54710c 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4105,7 +4105,19 @@ mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
             }
 
             data->type = MBUS_DATA_TYPE_VARIABLE;
-            return mbus_data_variable_parse(frame, &(data->data_var));
+            data->data_var.record = NULL;
+
+            if (mbus_data_variable_parse(frame, &(data->data_var)) < 0)
+            {
+                // do not leave a partial list of records behind
+                mbus_data_record_free(data->data_var.record);
+                data->data_var.record = NULL;
+                data->data_var.nrecords = 0;
+
+                return -1;
+            }
+
+            return 0;
         }
         else
         {
-- 
2.43.0


From dc9395b7390561267c1a28ebde85a76f7f4568ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 11/47] fix: do not free the records of an earlier reply again
 in mbus_sendrecv_request

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index aea1efd..39cc6f8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2177,6 +2177,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // free's up the whole list
             mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
         }
     }
 
-- 
2.43.0


From aa2e4463df83d77abc95d81ed9b4be8bf3fc432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 12/47] fix: render chains with fixed, error or undecodable
 members without use after free or leak

---
 mbus/mbus-protocol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index c54710c..d64ff1e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5069,6 +5069,7 @@ mbus_frame_xml(mbus_frame *frame)
             if (frame_data.data_var.record)
             {
                 mbus_data_record_free(frame_data.data_var.record);
+                frame_data.data_var.record = NULL;
             }
 
             frame_cnt++;
@@ -5078,6 +5079,7 @@ mbus_frame_xml(mbus_frame *frame)
                 if (mbus_frame_data_parse(iter, &frame_data) == -1)
                 {
                     mbus_error_str_set("M-bus variable data parse error.");
+                    free(buff);
                     return NULL;
                 }
 
@@ -5108,6 +5110,7 @@ mbus_frame_xml(mbus_frame *frame)
                 if (frame_data.data_var.record)
                 {
                     mbus_data_record_free(frame_data.data_var.record);
+                    frame_data.data_var.record = NULL;
                 }
             }
 
-- 
2.43.0


From 216dda797d25d439a4ecc54278792d186f49ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 13/47] fix: reserve enough room for the longest record when
 generating XML

---
 mbus/mbus-protocol-aux.c | 4 ++--
 mbus/mbus-protocol.c     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 39cc6f8..637d3d7 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1393,7 +1393,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
     mbus_data_record *record;
     mbus_record *norm_record;
     char *buff = NULL, *new_buff = NULL;
-    char str_encoded[768] = "";
+    char str_encoded[1600] = "";
     size_t len = 0, buff_size = 8192;
     size_t i;
 
@@ -1414,7 +1414,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
         {
             norm_record = mbus_parse_variable_record(record);
 
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d64ff1e..410f6c9 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4713,7 +4713,7 @@ char *
 mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header)
 {
     static char buff[8192];
-    char str_encoded[768];
+    char str_encoded[1600];
     size_t len = 0;
     struct tm * timeinfo;
     char timestamp[22];
@@ -4812,7 +4812,7 @@ mbus_data_variable_xml(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
@@ -5046,7 +5046,7 @@ mbus_frame_xml(mbus_frame *frame)
             // record count as record ID in the XML output
             for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
             {
-                if ((buff_size - len) < 1024)
+                if ((buff_size - len) < 4096)
                 {
                     buff_size *= 2;
                     new_buff = (char*) realloc(buff,buff_size);
@@ -5087,7 +5087,7 @@ mbus_frame_xml(mbus_frame *frame)
                 // record count as record ID in the XML output
                 for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
                 {
-                    if ((buff_size - len) < 1024)
+                    if ((buff_size - len) < 4096)
                     {
                         buff_size *= 2;
                         new_buff = (char*) realloc(buff,buff_size);
-- 
2.43.0


From 2a7d5552e66c4e183dd7328edc174b00f2de7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 14/47] fix: do not leak the value text of a record that cannot
 be normalized

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 637d3d7..a41ee31 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1361,6 +1361,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
             mbus_record_free(record);
             record = NULL;
             return NULL;
-- 
2.43.0


From a0fde242d07b25d9aa9d3ed38258429ce93ce1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 15/47] fix: print manufacturer specific data in the order of
 transmission

---
 mbus/mbus-protocol-aux.c |  2 +-
 mbus/mbus-protocol.c     | 32 +++++++++++++++++++++++++++++++-
 mbus/mbus-protocol.h     |  1 +
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index a41ee31..004e215 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1022,7 +1022,7 @@ int mbus_variable_value_decode(mbus_data_record *record, double *value_out_real,
                     return -1;
                 }
                 *value_out_str_size = 3 * record->data_len;
-                mbus_data_bin_decode((unsigned char*)(*value_out_str), record->data, record->data_len, (3 * record->data_len + 1));
+                mbus_data_raw_decode((unsigned char*)(*value_out_str), record->data, record->data_len, (3 * record->data_len + 1));
                 result = 0;
                 break;
 
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 410f6c9..461bc0a 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -789,6 +789,36 @@ mbus_data_bin_decode(unsigned char *dst, const unsigned char *src, size_t len, s
     }
 }
 
+//------------------------------------------------------------------------------
+///
+/// Decode special function data, in the order of transmission.
+///
+//------------------------------------------------------------------------------
+void
+mbus_data_raw_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len)
+{
+    size_t i, pos;
+
+    i = 0;
+    pos = 0;
+
+    if (src && dst)
+    {
+        while((i < len) && ((pos+3) < max_len)) {
+            pos += snprintf(&dst[pos], max_len - pos, "%.2X ", src[i]);
+            i++;
+        }
+
+        if (pos > 0)
+        {
+            // remove last space
+            pos--;
+        }
+
+        dst[pos] = '\0';
+    }
+}
+
 //------------------------------------------------------------------------------
 ///
 /// Decode time data
@@ -3386,7 +3416,7 @@ mbus_data_record_decode(mbus_data_record *record)
 
             case 0x0F: // special functions
 
-                mbus_data_bin_decode(buff, record->data, record->data_len, sizeof(buff));
+                mbus_data_raw_decode(buff, record->data, record->data_len, sizeof(buff));
                 break;
 
             case 0x0D: // variable length
diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index c5403b3..8348ef9 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -643,6 +643,7 @@ void mbus_data_tm_decode(struct tm *t, unsigned char *t_data, size_t t_data_size
 void mbus_data_str_decode(unsigned char *dst, const unsigned char *src, size_t len);
 
 void mbus_data_bin_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len);
+void mbus_data_raw_decode(unsigned char *dst, const unsigned char *src, size_t len, size_t max_len);
 
 const char *mbus_data_fixed_medium(mbus_data_fixed *data);
 const char *mbus_data_fixed_unit(int medium_unit_byte);
-- 
2.43.0


From 4f5342c0cff6718aa6394e4e52d1eaa86e0183c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 16/47] fix: variable length BCD numbers have two digits per
 byte

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 461bc0a..bef49fd 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4034,9 +4034,9 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-                    record->data_len = (frame->data[i] - 0xC0) * 2;
+                    record->data_len = frame->data[i] - 0xC0;
                 else if(frame->data[i] >= 0xD0 && frame->data[i] <= 0xD9)
-                    record->data_len = (frame->data[i] - 0xD0) * 2;
+                    record->data_len = frame->data[i] - 0xD0;
                 else if(frame->data[i] >= 0xE0 && frame->data[i] <= 0xEF)
                     record->data_len = frame->data[i] - 0xE0;
                 else if(frame->data[i] >= 0xF0 && frame->data[i] <= 0xF4)
-- 
2.43.0


From 6ac5d96fd769cab9271e04b10c5a2786d6e0a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 17/47] fix: compose storage numbers of more than seven
 extensions without overflow

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index bef49fd..512d528 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3495,7 +3495,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long)(record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From 158cbb00a9294488abf135aef89a0bccb6d137c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 18/47] fix: encode BCD numbers in the byte order in which they
 are decoded

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 512d528..0e46883 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -474,7 +474,7 @@ mbus_data_bcd_encode(unsigned char *bcd_data, size_t bcd_data_size, int value)
             x1 = v0 - v1 * 10;
             x2 = v1 - v2 * 10;
 
-            bcd_data[bcd_data_size-1-i] = (x2 << 4) | x1;
+            bcd_data[i] = (x2 << 4) | x1;
         }
 
         if (value < 0)
-- 
2.43.0


From 913a315b2aa896129003b43042ff9eab1a7dd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 19/47] fix: pack plain-text units, and no VIF for manufacturer
 specific data

---
 mbus/mbus-protocol.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 0e46883..1ba1426 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4349,10 +4349,27 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
                 // pack VIF
                 if (parse_debug)
                     printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
-                frame->data[frame->data_size++] = record->drh.vib.vif;
-                for (j = 0; j < record->drh.vib.nvife; j++)
+                if ((record->drh.dib.dif != MBUS_DIB_DIF_MANUFACTURER_SPECIFIC) &&
+                    (record->drh.dib.dif != MBUS_DIB_DIF_MORE_RECORDS_FOLLOW))
                 {
-                    frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    frame->data[frame->data_size++] = record->drh.vib.vif;
+
+                    if ((record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C)
+                    {
+                        // variable length VIF in ASCII format
+                        size_t len = strlen((const char *) record->drh.vib.custom_vif);
+
+                        frame->data[frame->data_size++] = len;
+                        while (len > 0)
+                        {
+                            frame->data[frame->data_size++] = record->drh.vib.custom_vif[--len];
+                        }
+                    }
+
+                    for (j = 0; j < record->drh.vib.nvife; j++)
+                    {
+                        frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    }
                 }
 
                 // pack data
-- 
2.43.0


From 07131d7b24a7c03c92c35c2a6c1128bf8344922b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 20/47] fix: translate hexadecimal digits of the identification
 in secondary addresses

---
 mbus/mbus-protocol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 1ba1426..f084e73 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5379,7 +5379,9 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
         }
         else
         {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
+            tmp[0] = address[i]; tmp[1] = 0;
+            val = strtol(tmp, NULL, 16);
+            frame->data[j] |= (0x0F & val) << (4 * k--);
         }
 
         if (k < 0)
-- 
2.43.0


From d7fb56178dcb56973682f1942500b9e7fa7f49c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 21/47] fix: convert only pairs of two hexadecimal digits in
 mbus_hex2bin

---
 mbus/mbus-protocol-aux.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 004e215..191d826 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2573,7 +2573,7 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
 {
     size_t i, result = 0;
     unsigned long val;
-    unsigned char *ptr, *end, buf[3];
+    unsigned char buf[3];
 
     if (!src || !dst)
     {
@@ -2592,14 +2592,12 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
         buf[0] = src[i];
         buf[1] = src[++i];
 
-        end = buf;
-        ptr = end;
-        val = strtoul(ptr, (char **)&end, 16);
-
         // abort at non hex value
-        if (ptr == end)
+        if (!isxdigit(buf[0]) || !isxdigit(buf[1]))
             break;
 
+        val = strtoul((const char *)buf, NULL, 16);
+
         // abort at end of buffer
         if (result >= dst_len)
             break;
-- 
2.43.0


From d6ac66056c55e9e07e65cd469c67a7b8b65f1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 22/47] fix: apply additive correction constants in the unit of
 the VIF

---
 mbus/mbus-protocol-aux.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 191d826..e0bcb7b 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1087,6 +1087,15 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
 
     MBUS_DEBUG("%s: vib_unit_normalize - VIF=0x%02X\n", __PRETTY_FUNCTION__, vib->vif);
 
+    if ((vib->vif & MBUS_DIB_VIF_EXTENSION_BIT) &&
+        (vib->vif != 0xFD) &&
+        (vib->vif != 0xFB) &&
+        ((vib->vife[0] & 0x7C) == 0x78))
+    {
+        /* Additive correction constant: 10^nn-3 unit of VIF (offset) */
+        value += pow(10.0, (vib->vife[0] & 0x03) - 3);
+    }
+
     if (vib->vif == 0xFD) /* first type of VIF extention: see table 8.4.4 a */
     {
         if (vib->nvife == 0)
@@ -1154,13 +1163,6 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
                 *value_out *= pow(10.0, (vib->vife[0] & 0x07) - 6);
                 break;
 
-            case 0x78:
-            case 0x79:
-            case 0x7A:
-            case 0x7B: /* Additive correction constant: 10^nn-3 unit of VIF (offset) */
-                *value_out += pow(10.0, (vib->vife[0] & 0x03) - 3);
-                break;
-
             case 0x7D: /* Multiplicative correction factor: 10^3 */
                 *value_out *= 1000.0;
                 break;
-- 
2.43.0


From ddd8338278028947da1f17eba1bdd983377b99fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 23/47] fix: correct units and factors in the table of value
 information codes

---
 mbus/mbus-protocol-aux.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index e0bcb7b..0c42265 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -353,7 +353,7 @@ mbus_variable_vif vif_table[] = {
     /* E011 0000 Start (date/time) of tariff  */
     /* The information about usage of data type F (date and time) or data type G (date) can */
     /* be derived from the datafield (0010b: type G / 0100: type F). */
-    { 0x130, 1.0e0,  "Reserved", "Reserved" }, /* ???? */
+    { 0x130, 1.0e0,  "", "Start (date/time) of tariff" },
 
     /* E011 00nn Duration of tariff (nn=01 ..11: min to days) */
     { 0x131,       60.0,  "s", "Duration of tariff" },   /* minute(s) */
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From 2de05a318de0d8fda8da6b044bf75f9f74cc38eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 24/47] fix: correct factors, quantities and a missing entry in
 the table of fixed data units

---
 mbus/mbus-protocol-aux.c | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 0c42265..c4f61da 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,24 +692,24 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
-
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
+
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
-- 
2.43.0


From cd5cd8a3543aa3f6337d012b3c3ec4bb8ef3fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 25/47] fix: normalize fixed data counters that hold a time or
 date

---
 mbus/mbus-protocol-aux.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index c4f61da..cf086a8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -798,12 +798,14 @@ int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, do
     {
         case 0x00:
             *unit_out = strdup("h,m,s"); /*  todo convert to unix time... */
+            *value_out = (double) (medium_value);
             *quantity_out = strdup("Time");
-            break;
+            return 0;
         case 0x01:
             *unit_out = strdup("D,M,Y"); /*  todo convert to unix time... */
+            *value_out = (double) (medium_value);
             *quantity_out = strdup("Time");
-            break;
+            return 0;
 
     default:
         for(int i=0; fixed_table[i].vif < 0xfff; ++i)
-- 
2.43.0


From c4bf661936725cc11454fd00f4899a26dcc75758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 26/47] fix: correct the names of the fixed data units 0x0D and
 0x0E

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index f084e73..244f502 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1585,10 +1585,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From 7c02b2f2607f698a11e646da69cb7172f0228072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 27/47] fix: report the plain-text unit of extended records too

---
 mbus/mbus-protocol.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 244f502..0d9f72d 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3132,17 +3132,17 @@ mbus_vib_unit_lookup(mbus_value_information_block *vib)
 
         return mbus_vib_unit_lookup_fd(vib);
     }
-    else if (vib->vif == 0x7C)
+    else if (vib->vif == 0xFC && (vib->vife[0] & 0x78) == 0x70)
     {
         // custom VIF
-        snprintf(buff, sizeof(buff), "%s", vib->custom_vif);
+        n = (vib->vife[0] & 0x07);
+        snprintf(buff, sizeof(buff), "%s %s", mbus_unit_prefix(n-6), vib->custom_vif);
         return buff;
     }
-    else if (vib->vif == 0xFC && (vib->vife[0] & 0x78) == 0x70)
+    else if (vib->vif == 0x7C || vib->vif == 0xFC)
     {
         // custom VIF
-        n = (vib->vife[0] & 0x07);
-        snprintf(buff, sizeof(buff), "%s %s", mbus_unit_prefix(n-6), vib->custom_vif);
+        snprintf(buff, sizeof(buff), "%s", vib->custom_vif);
         return buff;
     }
 
-- 
2.43.0


From ed180c880c4124aaeed9deb8e326bf6824c57467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 28/47] fix: make room for the longest plain-text unit in
 mbus_data_record_unit

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 0d9f72d..104059e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3449,7 +3449,7 @@ mbus_data_record_decode(mbus_data_record *record)
 const char *
 mbus_data_record_unit(mbus_data_record *record)
 {
-    static char buff[128];
+    static char buff[256];
 
     if (record)
     {
-- 
2.43.0


From 4abe7aeca5575c879650069411ed3141e9b0f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 29/47] fix: recognize every failure to encode a telegram

---
 mbus/mbus-protocol.c | 2 +-
 mbus/mbus-serial.c   | 2 +-
 mbus/mbus-tcp.c      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 104059e..40b6022 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4420,7 +4420,7 @@ mbus_frame_print(mbus_frame *frame)
 
     for (iter = frame; iter; iter = iter->next)
     {
-        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) == -1)
+        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) < 0)
         {
             return -2;
         }
diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..64b662e 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -242,7 +242,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index e7e8497..c6473c4 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -160,7 +160,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From a59feabbc9ce1cbfdfa57e0d6fa9eefae63fd076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 30/47] fix: fail to connect when the serial line cannot be
 configured

---
 mbus/mbus-serial.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 64b662e..4061dcf 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -90,7 +90,13 @@ mbus_serial_connect(mbus_handle *handle)
     printf("%s: t.c_lflag = %x\n", __PRETTY_FUNCTION__, term->c_lflag);
 #endif
 
-    tcsetattr(handle->fd, TCSANOW, term);
+    if (tcsetattr(handle->fd, TCSANOW, term) != 0)
+    {
+        fprintf(stderr, "%s: failed to configure tty.", __PRETTY_FUNCTION__);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From d317b3d114df887e0f485d58a1e7fbea8567abf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 31/47] fix: exit with failure when setting the primary address
 is not acknowledged

---
 bin/mbus-serial-set-address.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 2ec493c..6cb2404 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -213,10 +213,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
-    else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+    else if (ret != MBUS_RECV_RESULT_OK || mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr, "Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
-- 
2.43.0


From b993c2061974fb01c07f28de9c68259dee2545f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 32/47] fix: report success of a baud rate switch or
 application reset only when it is acknowledged

---
 bin/mbus-serial-switch-baudrate.c | 6 +++++-
 bin/mbus-tcp-application-reset.c  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-switch-baudrate.c b/bin/mbus-serial-switch-baudrate.c
index 52a841f..4e499e3 100755
--- a/bin/mbus-serial-switch-baudrate.c
+++ b/bin/mbus-serial-switch-baudrate.c
@@ -72,6 +72,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -79,10 +80,13 @@ main(int argc, char **argv)
         fprintf(stderr,"No reply from device\n");
         return 1;
     }
-    else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+    else if (ret != MBUS_RECV_RESULT_OK || mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
diff --git a/bin/mbus-tcp-application-reset.c b/bin/mbus-tcp-application-reset.c
index 54ca46c..d033bd5 100755
--- a/bin/mbus-tcp-application-reset.c
+++ b/bin/mbus-tcp-application-reset.c
@@ -135,6 +135,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -144,10 +145,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
-    else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+    else if (ret != MBUS_RECV_RESULT_OK || mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
-- 
2.43.0


From f39b4062afca63d1ae5dd4b2055dfcef9827af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 33/47] fix: request data only from a device that acknowledged
 its selection

---
 bin/mbus-serial-select-secondary.c | 4 +++-
 bin/mbus-tcp-select-secondary.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 4c1066b..200bde1 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -80,6 +80,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -94,7 +95,7 @@ main(int argc, char **argv)
         return 1;
     }
 
-    if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+    if (ret == MBUS_RECV_RESULT_OK && mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
         {
@@ -118,6 +119,7 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        return 1;
     }
 
     free(addr);
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 92605c6..c5021e6 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -71,6 +71,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset((void *)&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -85,7 +86,7 @@ main(int argc, char **argv)
         return 1;
     }
 
-    if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+    if (ret == MBUS_RECV_RESULT_OK && mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
         {
@@ -109,6 +110,7 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        return 1;
     }
 
     free(addr);
-- 
2.43.0


From 5170f0b6329250901a9fdd623789da50d7b65db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 34/47] fix: name the address searched for when a baud rate is
 given

---
 bin/mbus-serial-select-secondary.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 200bde1..80dd176 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -85,13 +85,13 @@ main(int argc, char **argv)
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
     {
-        fprintf(stderr,"No reply from device with secondary address %s: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"No reply from device with secondary address %s: %s\n", addr, mbus_error_str());
         return 1;
     }
 
     if (ret == MBUS_RECV_RESULT_INVALID)
     {
-        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", addr, mbus_error_str());
         return 1;
     }
 
@@ -112,7 +112,7 @@ main(int argc, char **argv)
         if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[2], mbus_frame_get_secondary_address(&reply));
+                   addr, mbus_frame_get_secondary_address(&reply));
         }
     }
     else
-- 
2.43.0


From e348d8126889502f637cfb560a2b5c6046d7c693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 35/47] fix: report a reply without secondary address as
 failure

---
 bin/mbus-serial-select-secondary.c | 7 ++++++-
 bin/mbus-tcp-select-secondary.c    | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 80dd176..5259f62 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -109,7 +109,12 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if (mbus_frame_get_secondary_address(&reply) == NULL)
+        {
+            fprintf(stderr,"Reply without secondary address: %s\n", mbus_error_str());
+            return 1;
+        }
+        else
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
                    addr, mbus_frame_get_secondary_address(&reply));
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index c5021e6..4b422e8 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -100,7 +100,12 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if (mbus_frame_get_secondary_address(&reply) == NULL)
+        {
+            fprintf(stderr,"Reply without secondary address: %s\n", mbus_error_str());
+            return 1;
+        }
+        else
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
                    argv[3], mbus_frame_get_secondary_address(&reply));
-- 
2.43.0


From 44ca7a289b3402276e96e2c336c850b9ab7003d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 36/47] fix: exit with failure when a secondary address scan is
 aborted

---
 bin/mbus-serial-scan-secondary.c | 9 ++++++++-
 bin/mbus-tcp-scan-secondary.c    | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index c1ad32d..0214f95 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -172,7 +172,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) != 0)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
diff --git a/bin/mbus-tcp-scan-secondary.c b/bin/mbus-tcp-scan-secondary.c
index dd6131a..3dd1135 100755
--- a/bin/mbus-tcp-scan-secondary.c
+++ b/bin/mbus-tcp-scan-secondary.c
@@ -101,7 +101,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) != 0)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
-- 
2.43.0


From dc310db2734bafce67c930be3724ff16c2cb50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 37/47] fix: do not take the data of an earlier damaged
 telegram for that of an acknowledgement

---
 mbus/mbus-protocol.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 40b6022..d19d1c8 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4094,6 +4094,13 @@ mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
         return -1;
     }
 
+    if (frame->type == MBUS_FRAME_TYPE_ACK)
+    {
+        // the other fields may stem from a telegram received before
+        snprintf(error_str, sizeof(error_str), "Got an acknowledgement without data.");
+        return -1;
+    }
+
     direction = (frame->control & MBUS_CONTROL_MASK_DIR);
 
     if (direction == MBUS_CONTROL_MASK_DIR_S2M)
-- 
2.43.0


From dbde97b88823898e7f6acc71f6013d983f7beb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 38/47] fix: encode the smallest integer as BCD without
 overflow

---
 mbus/mbus-protocol.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d19d1c8..a00165c 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -458,18 +458,18 @@ mbus_frame_verify(mbus_frame *frame)
 int
 mbus_data_bcd_encode(unsigned char *bcd_data, size_t bcd_data_size, int value)
 {
-    int v0, v1, v2, x1, x2;
+    unsigned int v0, v1, v2, x1, x2;
     size_t i;
 
     if (bcd_data && bcd_data_size)
     {
-        v2 = abs(value);
+        v2 = (value < 0) ? 0U - (unsigned int)value : (unsigned int)value;
 
         for (i = 0; i < bcd_data_size; i++)
         {
             v0 = v2;
-            v1 = (int)(v0 / 10);
-            v2 = (int)(v1 / 10);
+            v1 = v0 / 10;
+            v2 = v1 / 10;
 
             x1 = v0 - v1 * 10;
             x2 = v1 - v2 * 10;
-- 
2.43.0


From 7ff620559f81879e5f694906a06b1ef12d0c1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 39/47] fix: serial scan must not take what is left of one
 address' answer for the next address

---
 bin/mbus-serial-scan.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index a93d876..5aa7248 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -160,15 +160,20 @@ main(int argc, char **argv)
             continue;
         }
 
-        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        if (ret != MBUS_RECV_RESULT_OK)
         {
-            /* check for more data (collision) */
-            if (mbus_purge_frames(handle))
-            {
-                printf("Collision at address %d\n", address);
-                continue;
-            }
+            continue;
+        }
 
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
+        {
+            printf("Collision at address %d\n", address);
+            continue;
+        }
+
+        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        {
             printf("Found a M-Bus device at address %d\n", address);
         }
     }
-- 
2.43.0


From 22eb1219b2e2da69d1911a88ec108f988ad6a14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:08 +0000
Subject: [PATCH 40/47] fix: tcp scan must not take what is left of one
 address' answer for the next address

---
 bin/mbus-tcp-scan.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 3d96194..223f5a1 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -140,15 +140,20 @@ main(int argc, char **argv)
             continue;
         }
 
-        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        if (ret != MBUS_RECV_RESULT_OK)
         {
-            /* check for more data (collision) */
-            if (mbus_purge_frames(handle))
-            {
-                printf("Collision at address %d\n", address);
-                continue;
-            }
+            continue;
+        }
 
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
+        {
+            printf("Collision at address %d\n", address);
+            continue;
+        }
+
+        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        {
             printf("Found a M-Bus device at address %d\n", address);
         }
     }
-- 
2.43.0


From 451858e8663ef3acfc8797656d52565edd954617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 41/47] fix: a record whose unit or quantity cannot be copied
 is not normalized

---
 mbus/mbus-protocol-aux.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index cf086a8..214bd67 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -800,12 +800,12 @@ int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, do
             *unit_out = strdup("h,m,s"); /*  todo convert to unix time... */
             *value_out = (double) (medium_value);
             *quantity_out = strdup("Time");
-            return 0;
+            return (*unit_out == NULL || *quantity_out == NULL) ? -1 : 0;
         case 0x01:
             *unit_out = strdup("D,M,Y"); /*  todo convert to unix time... */
             *value_out = (double) (medium_value);
             *quantity_out = strdup("Time");
-            return 0;
+            return (*unit_out == NULL || *quantity_out == NULL) ? -1 : 0;
 
     default:
         for(int i=0; fixed_table[i].vif < 0xfff; ++i)
@@ -815,7 +815,7 @@ int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, do
                 *unit_out = strdup(fixed_table[i].unit);
                 *value_out = ((double) (medium_value)) * fixed_table[i].exponent;
                 *quantity_out = strdup(fixed_table[i].quantity);
-                return 0;
+                return (*unit_out == NULL || *quantity_out == NULL) ? -1 : 0;
             }
         }
 
@@ -1065,7 +1065,7 @@ mbus_vif_unit_normalize(int vif, double value, char **unit_out, double *value_ou
             *unit_out = strdup(vif_table[i].unit);
             *value_out = value * vif_table[i].exponent;
             *quantity_out = strdup(vif_table[i].quantity);
-            return 0;
+            return (*unit_out == NULL || *quantity_out == NULL) ? -1 : 0;
         }
     }
 
@@ -1136,6 +1136,12 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
             *unit_out = strdup("-");
             *quantity_out = strdup(vib->custom_vif);
             *value_out = value;
+
+            if (*unit_out == NULL || *quantity_out == NULL)
+            {
+                MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                return -1;
+            }
         }
         else
         {
-- 
2.43.0


From 136aa8aa8791b73d6ac9b0724dfcfa62cfb3cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:56 +0000
Subject: [PATCH 42/47] fix: a probe whose reply cannot be decoded for lack of
 memory fails, it did not find nothing

---
 mbus/mbus-protocol-aux.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 214bd67..82f6dab 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -18,6 +18,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
 #include <math.h>
 
 /*@ignore@*/
@@ -2363,7 +2364,16 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
 
             if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_LONG)
             {
-                char *addr = mbus_frame_get_secondary_address(&reply);
+                char *addr;
+
+                errno = 0;
+                addr = mbus_frame_get_secondary_address(&reply);
+
+                if (addr == NULL && errno == ENOMEM)
+                {
+                    MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                    return MBUS_PROBE_ERROR;
+                }
 
                 if (addr == NULL)
                 {
-- 
2.43.0


From e234729e564ddd39f6a4f73e1b993ef0d8da43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:49 +0000
Subject: [PATCH 43/47] fix: select-secondary prints the address it checked,
 not one decoded anew

---
 bin/mbus-serial-select-secondary.c | 6 +++---
 bin/mbus-tcp-select-secondary.c    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 5259f62..447cb48 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -22,7 +22,7 @@ main(int argc, char **argv)
 {
     mbus_handle *handle;
     mbus_frame reply;
-    char *device, *addr = NULL;
+    char *device, *addr = NULL, *found;
     int ret;
     long baudrate = 9600;
 
@@ -109,7 +109,7 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_get_secondary_address(&reply) == NULL)
+        if ((found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
             fprintf(stderr,"Reply without secondary address: %s\n", mbus_error_str());
             return 1;
@@ -117,7 +117,7 @@ main(int argc, char **argv)
         else
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   addr, mbus_frame_get_secondary_address(&reply));
+                   addr, found);
         }
     }
     else
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 4b422e8..2f5ff02 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -22,7 +22,7 @@ main(int argc, char **argv)
 {
     mbus_handle *handle;
     mbus_frame reply;
-    char *host, *addr = NULL;
+    char *host, *addr = NULL, *found;
     int ret;
     long port;
 
@@ -100,7 +100,7 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_get_secondary_address(&reply) == NULL)
+        if ((found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
             fprintf(stderr,"Reply without secondary address: %s\n", mbus_error_str());
             return 1;
@@ -108,7 +108,7 @@ main(int argc, char **argv)
         else
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[3], mbus_frame_get_secondary_address(&reply));
+                   argv[3], found);
         }
     }
     else
-- 
2.43.0


From 54ebac1528ba0d8b8b0d543a9207ba03c0bdcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 44/47] fix: mbus_frame_print refused telegrams with more than
 247 bytes of data

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a00165c..c9fdf47 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4419,7 +4419,7 @@ int
 mbus_frame_print(mbus_frame *frame)
 {
     mbus_frame *iter;
-    unsigned char data_buff[256];
+    unsigned char data_buff[MBUS_FRAME_DATA_LENGTH + MBUS_FRAME_BASE_SIZE_LONG];
     int len, i;
 
     if (frame == NULL)
-- 
2.43.0


From c2cbae6bce2eacc450bebccb0bcb699b767c6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 45/47] fix: mbus_frame_data_print showed maximum and minimum
 values as values during an error

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index c9fdf47..ef593f6 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4519,7 +4519,7 @@ mbus_data_variable_print(mbus_data_variable *data)
             printf("DIF               = %.2X\n", record->drh.dib.dif);
             printf("DIF.Extension     = %s\n",  (record->drh.dib.dif & MBUS_DIB_DIF_EXTENSION_BIT) ? "Yes":"No");
             printf("DIF.StorageNumber = %d\n",  (record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_STORAGE_NO) >> 6);
-            printf("DIF.Function      = %s\n",  (record->drh.dib.dif & 0x30) ? "Value during error state" : "Instantaneous value" );
+            printf("DIF.Function      = %s\n",  mbus_data_record_function(record));
             printf("DIF.Data          = %.2X\n", record->drh.dib.dif & 0x0F);
 
             // VENDOR SPECIFIC
-- 
2.43.0


From b100e1151df40fae4c80b860ad12429813fe2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 46/47] fix: mbus-serial-scan-secondary: with -d, a word other
 than -b was taken for the option of the baud rate

---
 bin/mbus-serial-scan-secondary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index 0214f95..6a4f70f 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -99,7 +99,7 @@ main(int argc, char **argv)
         device = argv[3];
         addr_mask = strdup(argv[4]);
     }
-    else if (argc == 6 && strcmp(argv[1], "-d") == 0)
+    else if (argc == 6 && strcmp(argv[1], "-d") == 0 && strcmp(argv[2], "-b") == 0)
     {
         baudrate = atol(argv[3]);
         device = argv[4];
-- 
2.43.0


From 7765451ecb7b6c540dbf389694ed80cab9d4fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:41 +0000
Subject: [PATCH 47/47] fix: verifying an acknowledgement with a wrong start
 byte reports the error

---
 mbus/mbus-protocol.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index ef593f6..af53fd9 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,14 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return (frame->start1 == MBUS_FRAME_ACK_START) ? 0 : -1;
+                if (frame->start1 != MBUS_FRAME_ACK_START)
+                {
+                    snprintf(error_str, sizeof(error_str), "No frame start");
+
+                    return -1;
+                }
+
+                return 0;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0

