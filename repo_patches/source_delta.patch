From 5dc747c57c9fa20a3fdfc3425f33917d2f9b0207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 01/43] fix: a frame limit of 0 means no limit in
 mbus_sendrecv_request

The header documents 0 = no limit, but only the first telegram was read.
---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..120343e 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2138,7 +2138,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames <= 0) || (frame_count < max_frames))) // only readout max_frames (0 = no limit)
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From 1e42c309b35c8a8b220b8e857c069609483a6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 02/43] fix: no double free or leak of parsed records in
 mbus_sendrecv_request

The record list of one telegram was freed again when the next telegram was
of fixed or error type, and leaked when parsing a telegram failed.
---
 mbus/mbus-protocol-aux.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 120343e..c504b18 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2118,6 +2118,8 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         if (mbus_frame_data_parse(next_frame, &reply_data) == -1)
         {
             MBUS_ERROR("%s: M-bus data parse error.\n", __PRETTY_FUNCTION__);
+            // free's up the records parsed before the error
+            mbus_data_record_free(reply_data.data_var.record);
             retval = 1;
             break;
         }
@@ -2171,6 +2173,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // free's up the whole list
             mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
         }
     }
 
-- 
2.43.0


From c5537fb2456f59588648bd027d73a2ed3877cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 03/43] fix: no use after free or leak in mbus_frame_xml for a
 chain of frames

A later frame of fixed or error type reused the freed record list of the
frame before it, and a parse error leaked the records and the buffer.
---
 mbus/mbus-protocol.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..cf81547 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4947,6 +4947,7 @@ mbus_frame_xml(mbus_frame *frame)
         if (mbus_frame_data_parse(frame, &frame_data) == -1)
         {
             mbus_error_str_set("M-bus data parse error.");
+            mbus_data_record_free(frame_data.data_var.record);
             return NULL;
         }
 
@@ -5021,6 +5022,7 @@ mbus_frame_xml(mbus_frame *frame)
             if (frame_data.data_var.record)
             {
                 mbus_data_record_free(frame_data.data_var.record);
+                frame_data.data_var.record = NULL;
             }
 
             frame_cnt++;
@@ -5030,6 +5032,8 @@ mbus_frame_xml(mbus_frame *frame)
                 if (mbus_frame_data_parse(iter, &frame_data) == -1)
                 {
                     mbus_error_str_set("M-bus variable data parse error.");
+                    mbus_data_record_free(frame_data.data_var.record);
+                    free(buff);
                     return NULL;
                 }
 
@@ -5060,6 +5064,7 @@ mbus_frame_xml(mbus_frame *frame)
                 if (frame_data.data_var.record)
                 {
                     mbus_data_record_free(frame_data.data_var.record);
+                    frame_data.data_var.record = NULL;
                 }
             }
 
-- 
2.43.0


From afc00c811d8b338b044e801fbd4cdb3c857f387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 04/43] fix: grow the XML buffer before a record can overrun it

One record can take more than 1024 bytes of XML (its texts are up to 767
bytes each), so 1024 bytes of room do not suffice; the overrun made the
remaining size wrap around and the next record was written out of bounds.
---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-protocol.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index c504b18..1de4ad8 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1414,7 +1414,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
         {
             norm_record = mbus_parse_variable_record(record);
 
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index cf81547..e66215b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4764,7 +4764,7 @@ mbus_data_variable_xml(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
@@ -4999,7 +4999,7 @@ mbus_frame_xml(mbus_frame *frame)
             // record count as record ID in the XML output
             for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
             {
-                if ((buff_size - len) < 1024)
+                if ((buff_size - len) < 4096)
                 {
                     buff_size *= 2;
                     new_buff = (char*) realloc(buff,buff_size);
@@ -5041,7 +5041,7 @@ mbus_frame_xml(mbus_frame *frame)
                 // record count as record ID in the XML output
                 for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
                 {
-                    if ((buff_size - len) < 1024)
+                    if ((buff_size - len) < 4096)
                     {
                         buff_size *= 2;
                         new_buff = (char*) realloc(buff,buff_size);
-- 
2.43.0


From ed8d1b7375ed1e42f9a3c3173677602435001064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 05/43] fix: never close a descriptor the handle does not own

The descriptor of a new handle was uninitialised, and a failed TCP connect
left the number of a closed socket behind, so that a later disconnect
closed an unrelated descriptor.
---
 mbus/mbus-protocol-aux.c | 2 ++
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 1de4ad8..29f8956 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1522,6 +1522,7 @@ mbus_context_serial(const char *device)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 1;
@@ -1570,6 +1571,7 @@ mbus_context_tcp(const char *host, uint16_t port)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 0;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..e7e8497 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -74,6 +74,7 @@ mbus_tcp_connect(mbus_handle *handle)
         if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
         {
             close(handle->fd);
+            handle->fd = -1;
             continue;
         }
 
-- 
2.43.0


From 3ce6b91095852db523e1c3a631161f82b9da0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 06/43] fix: report a failed record allocation as parse failure

The callers test for -1; -2 made a truncated readout look successful.
---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index e66215b..8045c41 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3833,8 +3833,8 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if ((record = mbus_data_record_new()) == NULL)
             {
-                // clean up...
-                return (-2);
+                snprintf(error_str, sizeof(error_str), "Failed to allocate data record.");
+                return -1;
             }
 
             // copy timestamp
-- 
2.43.0


From 3e1512cb7ea97b0359ca61e1d237a99484209050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 07/43] fix: do not parse data out of acknowledge and short
 frames

Receiving these leaves the data fields of an earlier, damaged response in
the frame, which then were accepted as the data of a good response.
---
 mbus/mbus-protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 8045c41..d3d4523 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4028,6 +4028,12 @@ mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
         return -1;
     }
 
+    if (frame->type == MBUS_FRAME_TYPE_ACK || frame->type == MBUS_FRAME_TYPE_SHORT)
+    {
+        snprintf(error_str, sizeof(error_str), "No data in acknowledge or short frame.");
+        return -1;
+    }
+
     direction = (frame->control & MBUS_CONTROL_MASK_DIR);
 
     if (direction == MBUS_CONTROL_MASK_DIR_S2M)
-- 
2.43.0


From ee5f17934c6a61a456fffc573d2faef080c45ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 08/43] fix: free the value text when the unit of a record is
 unknown

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 29f8956..31e8d50 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1361,6 +1361,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
             mbus_record_free(record);
             record = NULL;
             return NULL;
-- 
2.43.0


From 72703e73cc59bd4d5837eb90c2cfc6880d02f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 09/43] fix: report a failure in a nested secondary address
 scan and free its mask

A scan whose connection broke below the first level went on and reported
success with a partial list; the failure path leaked the mask.
---
 mbus/mbus-protocol-aux.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 31e8d50..2ce1d6d 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2489,7 +2489,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+            {
+                free(mask);
+                return -1;
+            }
         }
         else
         {
@@ -2521,7 +2525,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+                {
+                    free(mask);
+                    return -1;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
@@ -2530,6 +2538,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
+                free(mask);
                 return -1;
             }
         }
-- 
2.43.0


From 1b8c59baea1662e776965ff1b7eece207932b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 10/43] fix: a broken transport is not an absent meter when
 selecting or probing

A read error or a closed connection was answered as "nothing found".
---
 mbus/mbus-protocol-aux.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 2ce1d6d..ea55fc1 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2266,6 +2266,12 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        MBUS_ERROR("%s: Failed to receive reply to selection frame.\n", __PRETTY_FUNCTION__);
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
@@ -2329,6 +2335,13 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
+            if (ret != MBUS_RECV_RESULT_OK)
+            {
+                MBUS_ERROR("%s: Failed to receive reply from selected secondary device [mask %s].\n",
+                           __PRETTY_FUNCTION__, mask);
+                return MBUS_PROBE_ERROR;
+            }
+
             /* check for more data (collision) */
             if (mbus_purge_frames(handle))
             {
-- 
2.43.0


From 09df658a1abb2150f6f33e286a9c6a2c12ac04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 11/43] fix: a record without unit for lack of memory is not a
 good record

---
 mbus/mbus-protocol-aux.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ea55fc1..3778d29 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -812,6 +812,13 @@ int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, do
                 *unit_out = strdup(fixed_table[i].unit);
                 *value_out = ((double) (medium_value)) * fixed_table[i].exponent;
                 *quantity_out = strdup(fixed_table[i].quantity);
+
+                if (*unit_out == NULL || *quantity_out == NULL)
+                {
+                    MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                    return -1;
+                }
+
                 return 0;
             }
         }
@@ -1062,6 +1069,13 @@ mbus_vif_unit_normalize(int vif, double value, char **unit_out, double *value_ou
             *unit_out = strdup(vif_table[i].unit);
             *value_out = value * vif_table[i].exponent;
             *quantity_out = strdup(vif_table[i].quantity);
+
+            if (*unit_out == NULL || *quantity_out == NULL)
+            {
+                MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                return -1;
+            }
+
             return 0;
         }
     }
@@ -1124,6 +1138,12 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
             *unit_out = strdup("-");
             *quantity_out = strdup(vib->custom_vif);
             *value_out = value;
+
+            if (*unit_out == NULL || *quantity_out == NULL)
+            {
+                MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+                return -1;
+            }
         }
         else
         {
-- 
2.43.0


From 0acf4e01d107dec2ba297645d470f13a4912bcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 12/43] fix: leave room for the terminator of a custom VIF

A text of exactly the size of the buffer was terminated one byte behind it
and then read on into the record data.
---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d3d4523..f630708 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3909,7 +3909,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 // variable length VIF in ASCII format
                 int var_vif_len;
                 var_vif_len = frame->data[i++];
-                if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
+                if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
                     mbus_data_record_free(record);
                     snprintf(error_str, sizeof(error_str), "Too long variable length VIF.");
-- 
2.43.0


From 709948d1c65fbafffc70e608921c528c37a9cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 13/43] fix: pack hexadecimal digits of an identification
 number as given

The digits A to E were packed as 1 to 5, so that selecting one meter could
select another one.
---
 mbus/mbus-protocol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index f630708..271f35d 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5292,7 +5292,8 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
         }
         else
         {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
+            tmp[0] = address[i]; tmp[1] = 0;
+            frame->data[j] |= (0x0F & strtol(tmp, NULL, 16)) << (4 * k--);
         }
 
         if (k < 0)
-- 
2.43.0


From beb81c1a642c03bdb2114167eaa735a0cd23539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 14/43] fix: storage numbers beyond 31 bits

The extension nibbles were shifted as int, which lost or smeared the upper
bits of storage numbers given in eight or more extensions.
---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 271f35d..793a244 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3465,7 +3465,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long) (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From 89f2f9c97610b0bde833ba4b213dd93ba483be70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 15/43] fix: the primary scan tools fail when the transport
 fails

They went on with a broken connection and reported an empty bus as success.
---
 bin/mbus-serial-scan.c | 8 ++++++++
 bin/mbus-tcp-scan.c    | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index a93d876..dc3669f 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -152,6 +152,14 @@ main(int argc, char **argv)
             continue;
         }
 
+        if (ret == MBUS_RECV_RESULT_ERROR || ret == MBUS_RECV_RESULT_RESET)
+        {
+            fprintf(stderr, "Scan failed at address %d: %s\n", address, mbus_error_str());
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
         if (ret == MBUS_RECV_RESULT_INVALID)
         {
             /* check for more data (collision) */
diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 3d96194..89d0423 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -132,6 +132,14 @@ main(int argc, char **argv)
             continue;
         }
 
+        if (ret == MBUS_RECV_RESULT_ERROR || ret == MBUS_RECV_RESULT_RESET)
+        {
+            fprintf(stderr, "Scan failed at address %d: %s\n", address, mbus_error_str());
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
         if (ret == MBUS_RECV_RESULT_INVALID)
         {
             /* check for more data (collision) */
-- 
2.43.0


From e0e3d2dfd8d2773e1da37b8b4ac75ef4529bb810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 16/43] fix: multi-reply tools start at the first telegram of a
 primary address

The link was only reset for the network layer address, so that after an
interrupted readout the remaining telegrams were printed as if complete.
---
 bin/mbus-serial-request-data-multi-reply.c | 10 ++++++++++
 bin/mbus-tcp-request-data-multi-reply.c    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/bin/mbus-serial-request-data-multi-reply.c b/bin/mbus-serial-request-data-multi-reply.c
index 0cd0f8a..d88006b 100755
--- a/bin/mbus-serial-request-data-multi-reply.c
+++ b/bin/mbus-serial-request-data-multi-reply.c
@@ -174,6 +174,16 @@ main(int argc, char **argv)
     {
         // primary addressing
         address = atoi(addr_str);
+
+        // init the addressed slave as well to start at its first telegram
+        // (twice, maybe the first get lost)
+        if (mbus_send_ping_frame(handle, address, 1) == -1 ||
+            mbus_send_ping_frame(handle, address, 1) == -1)
+        {
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
     }
 
     // instead of the send and recv, use this sendrecv function that
diff --git a/bin/mbus-tcp-request-data-multi-reply.c b/bin/mbus-tcp-request-data-multi-reply.c
index 8cc1d2e..c0b9447 100755
--- a/bin/mbus-tcp-request-data-multi-reply.c
+++ b/bin/mbus-tcp-request-data-multi-reply.c
@@ -168,6 +168,16 @@ main(int argc, char **argv)
     {
         // primary addressing
         address = atoi(addr_str);
+
+        // init the addressed slave as well to start at its first telegram
+        // (twice, maybe the first get lost)
+        if (mbus_send_ping_frame(handle, address, 1) == -1 ||
+            mbus_send_ping_frame(handle, address, 1) == -1)
+        {
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
     }
 
     // instead of the send and recv, use this sendrecv function that
-- 
2.43.0


From fae986eb285a22a540470f4f0d85c1323a5de467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 17/43] fix: the secondary scan tools fail when the scan failed

---
 bin/mbus-serial-scan-secondary.c | 9 ++++++++-
 bin/mbus-tcp-scan-secondary.c    | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index c1ad32d..84422ac 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -172,7 +172,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) == -1)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
diff --git a/bin/mbus-tcp-scan-secondary.c b/bin/mbus-tcp-scan-secondary.c
index dd6131a..6e579e0 100755
--- a/bin/mbus-tcp-scan-secondary.c
+++ b/bin/mbus-tcp-scan-secondary.c
@@ -101,7 +101,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) == -1)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
-- 
2.43.0


From a7928dc258bccf20fa9bd47e5bf2fa992065eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 18/43] fix: the select, address, baud rate and reset tools
 fail on an unexpected reply

They exited with success, and judged an uninitialised frame after a failed
receive.
---
 bin/mbus-serial-select-secondary.c | 4 ++++
 bin/mbus-serial-set-address.c      | 4 ++++
 bin/mbus-serial-switch-baudrate.c  | 4 ++++
 bin/mbus-tcp-application-reset.c   | 4 ++++
 bin/mbus-tcp-select-secondary.c    | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 4c1066b..6eb4e6a 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -80,6 +80,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset(&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -118,6 +119,9 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
 
     free(addr);
diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 2ec493c..7adaafb 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -150,6 +150,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset(&reply, 0, sizeof(mbus_frame));
     if (mbus_recv_frame(handle, &reply) != MBUS_RECV_RESULT_TIMEOUT)
     {
         fprintf(stderr, "Verification failed. Got a response from new address\n");
@@ -217,6 +218,9 @@ main(int argc, char **argv)
     {
         fprintf(stderr, "Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
diff --git a/bin/mbus-serial-switch-baudrate.c b/bin/mbus-serial-switch-baudrate.c
index 52a841f..0ec31e8 100755
--- a/bin/mbus-serial-switch-baudrate.c
+++ b/bin/mbus-serial-switch-baudrate.c
@@ -72,6 +72,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset(&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -83,6 +84,9 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
diff --git a/bin/mbus-tcp-application-reset.c b/bin/mbus-tcp-application-reset.c
index 54ca46c..cfd82e2 100755
--- a/bin/mbus-tcp-application-reset.c
+++ b/bin/mbus-tcp-application-reset.c
@@ -135,6 +135,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset(&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -148,6 +149,9 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 92605c6..52eb089 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -71,6 +71,7 @@ main(int argc, char **argv)
         return 1;
     }
 
+    memset(&reply, 0, sizeof(mbus_frame));
     ret = mbus_recv_frame(handle, &reply);
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
@@ -109,6 +110,9 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
 
     free(addr);
-- 
2.43.0


From 132a47adf83dde3dd339b8b4ffb978e9ce6d1b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 19/43] fix: an incomplete TCP response is invalid, not absent

As on a serial line. A collision that left the start of a frame on the line
was taken for silence, so that a secondary scan skipped the colliding meters.
---
 mbus/mbus-tcp.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index e7e8497..082fccf 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -223,6 +223,16 @@ retry:
 
             if (errno == EAGAIN || errno == EWOULDBLOCK) {
                 mbus_error_str_set("M-Bus tcp transport layer response timeout has been reached.");
+
+                if (len > 0)
+                {
+                    // incomplete frame, e.g. the remains of a collision
+                    if (handle->recv_event)
+                        handle->recv_event(MBUS_HANDLE_TYPE_TCP, buff, len);
+
+                    return MBUS_RECV_RESULT_INVALID;
+                }
+
                 return MBUS_RECV_RESULT_TIMEOUT;
             }
 
-- 
2.43.0


From 28c32d2374db808111cd6ee85483c05808e70d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 20/43] fix: only skip an echo that was received

---
 mbus/mbus-protocol-aux.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 3778d29..5e0d119 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1713,16 +1713,20 @@ mbus_recv_frame(mbus_handle * handle, mbus_frame *frame)
 
     result = handle->recv(handle, frame);
 
-    switch (mbus_frame_direction(frame))
+    // without a received frame there is nothing to purge
+    if (result == MBUS_RECV_RESULT_OK)
     {
-        case MBUS_CONTROL_MASK_DIR_M2S:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
-        case MBUS_CONTROL_MASK_DIR_S2M:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
+        switch (mbus_frame_direction(frame))
+        {
+            case MBUS_CONTROL_MASK_DIR_M2S:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+            case MBUS_CONTROL_MASK_DIR_S2M:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+        }
     }
 
     if (frame != NULL)
-- 
2.43.0


From 83bed654b5959a93e3e567da38edaff7cd8c9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 21/43] fix: a broken TCP connection must not kill the process
 with SIGPIPE

---
 mbus/mbus-tcp.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index 082fccf..d3e5928 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -26,6 +26,10 @@
 #define PACKET_BUFF_SIZE 2048
 #define MAX_PORT_SIZE 6 // Size of port number + NULL char
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 static int tcp_timeout_sec = 4;
 static int tcp_timeout_usec = 0;
 
@@ -167,7 +171,8 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((ret = write(handle->fd, buff, len)) == len)
+    // a connection closed by the peer is an error, not a reason to kill the process with SIGPIPE
+    if ((ret = send(handle->fd, buff, len, MSG_NOSIGNAL)) == len)
     {
         //
         // call the send event function, if the callback function is registered
-- 
2.43.0


From 63363201834e3013517c45fc84b79112a1ba61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 22/43] fix: connecting a connected handle must not leak its
 descriptor

---
 mbus/mbus-protocol-aux.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 5e0d119..bf5dcdc 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1640,6 +1640,12 @@ mbus_connect(mbus_handle * handle)
         return -1;
     }
 
+    // connecting again replaces the open connection, its descriptor must not leak
+    if (handle->fd >= 0)
+    {
+        handle->close(handle);
+    }
+
     return handle->open(handle);
 }
 
-- 
2.43.0


From 1ad0618a71839dc797df5f77aa5759356c69e31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 23/43] fix: a serial line that cannot be set up is a failed
 connect

---
 mbus/mbus-serial.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..62e7bea 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -90,7 +90,14 @@ mbus_serial_connect(mbus_handle *handle)
     printf("%s: t.c_lflag = %x\n", __PRETTY_FUNCTION__, term->c_lflag);
 #endif
 
-    tcsetattr(handle->fd, TCSANOW, term);
+    // a line that is not set up would garble the traffic or block reads for ever
+    if (tcsetattr(handle->fd, TCSANOW, term) != 0)
+    {
+        fprintf(stderr, "%s: failed to set up tty.", __PRETTY_FUNCTION__);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 965d77e3974c95c999f4bd39c1794c7592749762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 24/43] fix: decode records only from the bytes of the frame

---
 mbus/mbus-protocol.c | 38 +++++++++++++++++++++++++++++++++++++-
 mbus/mbus-protocol.h |  3 ++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 793a244..ec6a19e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3877,6 +3877,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 unsigned char dife;
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 if (record->drh.dib.ndife >= MBUS_DATA_INFO_BLOCK_DIFE_SIZE)
                 {
                     mbus_data_record_free(record);
@@ -3892,7 +3899,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3908,6 +3915,14 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
+
                 var_vif_len = frame->data[i++];
                 if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
@@ -3931,6 +3946,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3939,6 +3961,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 {
                     unsigned char vife;
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     if (record->drh.vib.nvife >= MBUS_VALUE_INFO_BLOCK_VIFE_SIZE)
                     {
                         mbus_data_record_free(record);
@@ -3965,6 +3994,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..78c0359 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -168,7 +168,8 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    // a record can take up all 252 bytes but the header (12 bytes) and its DIF
+    unsigned char data[240];
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From 7fe19694d08a67817ccc7f412cde9aba24936e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 25/43] fix: a meter is not absent for lack of memory to decode
 its records

---
 mbus/mbus-protocol.c | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index ec6a19e..945cabc 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5231,41 +5231,37 @@ char *
 mbus_frame_get_secondary_address(mbus_frame *frame)
 {
     static char addr[32];
-    mbus_frame_data *data;
     unsigned long id;
 
-    if (frame == NULL || (data = mbus_frame_data_new()) == NULL)
+    if (frame == NULL)
     {
-        snprintf(error_str, sizeof(error_str),
-                 "%s: Failed to allocate data structure [%p, %p].",
-                  __PRETTY_FUNCTION__, (void*)frame, (void*)data);
+        snprintf(error_str, sizeof(error_str), "%s: Got null pointer to frame.", __PRETTY_FUNCTION__);
         return NULL;
     }
 
-    if (frame->control_information != MBUS_CONTROL_INFO_RESP_VARIABLE)
+    if (frame->type == MBUS_FRAME_TYPE_ACK || frame->type == MBUS_FRAME_TYPE_SHORT ||
+        (frame->control & MBUS_CONTROL_MASK_DIR) != MBUS_CONTROL_MASK_DIR_S2M ||
+        frame->control_information != MBUS_CONTROL_INFO_RESP_VARIABLE)
     {
         snprintf(error_str, sizeof(error_str), "Non-variable data response (can't get secondary address from response).");
-        mbus_frame_data_free(data);
         return NULL;
     }
 
-    if (mbus_frame_data_parse(frame, data) == -1)
+    if (frame->data_size < MBUS_DATA_VARIABLE_HEADER_LENGTH)
     {
-        mbus_frame_data_free(data);
+        snprintf(error_str, sizeof(error_str), "Variable header too short.");
         return NULL;
     }
 
-    id = (unsigned long) mbus_data_bcd_decode_hex(data->data_var.header.id_bcd, 4);
+    // the address is in the header, no need for (memory for) the records
+    id = (unsigned long) mbus_data_bcd_decode_hex(&(frame->data[0]), 4);
 
     snprintf(addr, sizeof(addr), "%08lX%02X%02X%02X%02X",
              id,
-             data->data_var.header.manufacturer[0],
-             data->data_var.header.manufacturer[1],
-             data->data_var.header.version,
-             data->data_var.header.medium);
-
-    // free data
-    mbus_frame_data_free(data);
+             frame->data[4],  // manufacturer
+             frame->data[5],
+             frame->data[6],  // version
+             frame->data[7]); // medium
 
     return addr;
 }
-- 
2.43.0


From e7a6baef9d8e53ebc6c8227ef79a0bb0dfa0a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 26/43] fix: sending without a handle is a failure, not a
 success

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index bf5dcdc..f1bba35 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1771,7 +1771,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
-- 
2.43.0


From 541703ba1c708708521b1f9d5c7eaf281d1bf2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 27/43] fix: a frame that cannot be packed is not sent

mbus_frame_pack reports failures as -1 to -5; any but -1 was taken for a length.
---
 mbus/mbus-serial.c | 2 +-
 mbus/mbus-tcp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 62e7bea..020c302 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -249,7 +249,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index d3e5928..d6064e0 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -164,7 +164,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From f97a2329d77bddf3df6e0c7ec296b27faa3f91ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 28/43] fix: mbus-serial-select-secondary names the baud rate
 as the address searched for

With -b the address is not the second argument.
---
 bin/mbus-serial-select-secondary.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 6eb4e6a..3f65b0e 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -85,13 +85,13 @@ main(int argc, char **argv)
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
     {
-        fprintf(stderr,"No reply from device with secondary address %s: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"No reply from device with secondary address %s: %s\n", addr, mbus_error_str());
         return 1;
     }
 
     if (ret == MBUS_RECV_RESULT_INVALID)
     {
-        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", addr, mbus_error_str());
         return 1;
     }
 
@@ -112,7 +112,7 @@ main(int argc, char **argv)
         if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[2], mbus_frame_get_secondary_address(&reply));
+                   addr, mbus_frame_get_secondary_address(&reply));
         }
     }
     else
-- 
2.43.0


From 30ea80907342e796aff0fbdb42f9019eebfdc689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 29/43] fix: select tools report an address only for the one
 device selected

A reply without a secondary address was reported as "(null)", and when several
devices answered one after the other the first one was reported as selected.
---
 bin/mbus-serial-select-secondary.c | 18 ++++++++++++++----
 bin/mbus-tcp-select-secondary.c    | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 3f65b0e..ee33953 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -22,7 +22,7 @@ main(int argc, char **argv)
 {
     mbus_handle *handle;
     mbus_frame reply;
-    char *device, *addr = NULL;
+    char *device, *addr = NULL, *found;
     int ret;
     long baudrate = 9600;
 
@@ -109,11 +109,21 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if ((found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
-            printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   addr, mbus_frame_get_secondary_address(&reply));
+            fprintf(stderr,"Invalid reply from selected secondary device: %s\n", mbus_error_str());
+            return 1;
+        }
+
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
+        {
+            fprintf(stderr,"The address %s matches more than one device.\n", addr);
+            return 1;
         }
+
+        printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
+               addr, found);
     }
     else
     {
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 52eb089..024ebaa 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -22,7 +22,7 @@ main(int argc, char **argv)
 {
     mbus_handle *handle;
     mbus_frame reply;
-    char *host, *addr = NULL;
+    char *host, *addr = NULL, *found;
     int ret;
     long port;
 
@@ -100,11 +100,21 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if ((found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
-            printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[3], mbus_frame_get_secondary_address(&reply));
+            fprintf(stderr,"Invalid reply from selected secondary device: %s\n", mbus_error_str());
+            return 1;
+        }
+
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
+        {
+            fprintf(stderr,"The address %s matches more than one device.\n", argv[3]);
+            return 1;
         }
+
+        printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
+               argv[3], found);
     }
     else
     {
-- 
2.43.0


From 99ef492f1b655e669bde567143d04c57ce9add70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 30/43] fix: units and factor of extended energy, power and
 maximum power VIFs

---
 mbus/mbus-protocol-aux.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index f1bba35..3faf1a9 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From 86b9945c46537aeffb371e0d1ce98c9a9ebf98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 31/43] fix: factors of the power and flow units of fixed data

---
 mbus/mbus-protocol-aux.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 3faf1a9..f3dea6f 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,14 +692,14 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
 
     { 0x1D, 1.0e3, "J/h", "Energy" },
     { 0x1E, 1.0e4, "J/h", "Energy" },
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
-- 
2.43.0


From 314340651fe60c791d52a77c05f9936cd38fc326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 32/43] fix: 100 kJ and MJ were exchanged in fixed data

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 945cabc..b102ef0 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1555,10 +1555,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From ca9410b6eb24407bb3479725312a57a35dee0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 33/43] fix: fixed data in J/h is power, not energy

---
 mbus/mbus-protocol-aux.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index f3dea6f..0237f8d 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -701,15 +701,15 @@ mbus_variable_vif fixed_table[] = {
     { 0x1B, 1.0e7, "W", "Power" },
     { 0x1C, 1.0e8, "W", "Power" },
 
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
-- 
2.43.0


From 65845347a59577c0ca80705bcddff733c8ef718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 34/43] fix: apply the correction factors of every VIFE of a
 record

---
 mbus/mbus-protocol-aux.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 0237f8d..27dcb8a 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1093,6 +1093,7 @@ int
 mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **unit_out, double *value_out, char **quantity_out)
 {
     int code;
+    size_t i;
 
     if (vib == NULL || unit_out == NULL || value_out == NULL || quantity_out == NULL)
     {
@@ -1157,11 +1158,22 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
         }
     }
 
-    if ((vib->vif & MBUS_DIB_VIF_EXTENSION_BIT) &&
-        (vib->vif != 0xFD) &&
-        (vib->vif != 0xFB))                       /* codes for VIF extention: see table 8.4.5 */
+    /* with FDh and FBh the first VIFE is the VIF proper, behind FFh all VIFEs are manufacturer specific */
+    i = ((vib->vif == 0xFD) || (vib->vif == 0xFB)) ? 1 : 0;
+
+    for (; (vib->vif & MBUS_DIB_VIF_EXTENSION_BIT) && (vib->vif != 0xFF) && (i < vib->nvife); i++) /* codes for VIF extention: see table 8.4.5 */
     {
-        code = (vib->vife[0]) & 0x7f;
+        code = (vib->vife[i]) & 0x7f;
+
+        if (code == 0x7F) /* the following VIFEs are manufacturer specific */
+            break;
+
+        if (code == 0x7C) /* the next VIFE is from another table */
+        {
+            i++;
+            continue;
+        }
+
         switch (code)
         {
             case 0x70:
@@ -1172,14 +1184,14 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
             case 0x75:
             case 0x76:
             case 0x77: /* Multiplicative correction factor: 10^nnn-6 */
-                *value_out *= pow(10.0, (vib->vife[0] & 0x07) - 6);
+                *value_out *= pow(10.0, (vib->vife[i] & 0x07) - 6);
                 break;
 
             case 0x78:
             case 0x79:
             case 0x7A:
             case 0x7B: /* Additive correction constant: 10^nn-3 unit of VIF (offset) */
-                *value_out += pow(10.0, (vib->vife[0] & 0x03) - 3);
+                *value_out += pow(10.0, (vib->vife[i] & 0x03) - 3);
                 break;
 
             case 0x7D: /* Multiplicative correction factor: 10^3 */
-- 
2.43.0


From 24969b2f1dcc0212f0faa96b64a5c232704d09c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 35/43] fix: an application error amid a multi-telegram readout
 is a failure

---
 mbus/mbus-protocol-aux.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 27dcb8a..5a0f4c1 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2180,6 +2180,12 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // only single frame replies for FIXED type frames
             more_frames = 0;
+
+            if (frame_count > 1)
+            {
+                MBUS_ERROR("%s: No further records in reply.\n", __PRETTY_FUNCTION__);
+                retval = 1;
+            }
         }
         else
         {
-- 
2.43.0


From 2683332dedda988406980d39b6fec240a7fc1cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 36/43] fix: mbus_read_slave: do not return an acknowledge or
 an echo as data

---
 mbus/mbus-protocol-aux.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 5a0f4c1..0c65afd 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2505,6 +2505,15 @@ int mbus_read_slave(mbus_handle * handle, mbus_address *address, mbus_frame * re
         return -1;
     }
 
+    // a stray acknowledge or the echo of a request is not the data asked for
+    if (mbus_frame_type(reply) != MBUS_FRAME_TYPE_LONG &&
+        mbus_frame_type(reply) != MBUS_FRAME_TYPE_CONTROL)
+    {
+        MBUS_ERROR("%s: Unexpected reply. Expected data.\n",
+                   __PRETTY_FUNCTION__);
+        return -1;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From bef8b01da9e7e1d7e34249039a0457fa28efc2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 37/43] fix: probe and read_slave: do not accept the reply of a
 device that does not match the secondary address

---
 mbus/mbus-protocol-aux.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 0c65afd..064f292 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2337,6 +2337,25 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
     return MBUS_PROBE_NOTHING;
 }
 
+//------------------------------------------------------------------------------
+// Check that a reply is from a device that matches the secondary address (mask):
+// on a disturbed line a device that was selected before may answer.
+//------------------------------------------------------------------------------
+static int
+mbus_secondary_address_matches(const char *mask, const char *addr)
+{
+    int i;
+
+    for (i = 0; i < 16; i++)
+    {
+        if (toupper((unsigned char) mask[i]) != 'F' &&
+            toupper((unsigned char) mask[i]) != toupper((unsigned char) addr[i]))
+            return 0;
+    }
+
+    return 1;
+}
+
 //------------------------------------------------------------------------------
 // Probe for the presence of a device(s) using the supplied secondary address
 // (mask).
@@ -2409,6 +2428,12 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                     return MBUS_PROBE_NOTHING;
                 }
 
+                if (!mbus_secondary_address_matches(mask, addr))
+                {
+                    MBUS_ERROR("%s: Reply of another device for address [mask %s].\n", __PRETTY_FUNCTION__, mask);
+                    return MBUS_PROBE_NOTHING;
+                }
+
                 snprintf(matching_addr, 17, "%s", addr);
 
                 if (handle->found_event)
@@ -2514,6 +2539,20 @@ int mbus_read_slave(mbus_handle * handle, mbus_address *address, mbus_frame * re
         return -1;
     }
 
+    if (!address->is_primary &&
+        reply->control_information == MBUS_CONTROL_INFO_RESP_VARIABLE)
+    {
+        const char *addr = mbus_frame_get_secondary_address(reply);
+
+        if (addr == NULL || !mbus_secondary_address_matches(address->secondary, addr))
+        {
+            MBUS_ERROR("%s: Reply of another device for address [%s].\n",
+                       __PRETTY_FUNCTION__,
+                       address->secondary);
+            return -1;
+        }
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 174f60318d98834edb4d63299b122d3f5e70df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:47 +0000
Subject: [PATCH 38/43] fix: mbus_frame_print: print frames of every length

A long frame with more than 247 data bytes does not fit into 256 bytes:
packing it failed with a code that was not taken for a failure, and the
dump showed "-4 bytes" instead of the frame.
---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index b102ef0..4017d51 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4359,7 +4359,7 @@ int
 mbus_frame_print(mbus_frame *frame)
 {
     mbus_frame *iter;
-    unsigned char data_buff[256];
+    unsigned char data_buff[MBUS_FRAME_LONG_BASE_SIZE + MBUS_FRAME_DATA_LENGTH];
     int len, i;
 
     if (frame == NULL)
@@ -4367,7 +4367,7 @@ mbus_frame_print(mbus_frame *frame)
 
     for (iter = frame; iter; iter = iter->next)
     {
-        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) == -1)
+        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) < 0)
         {
             return -2;
         }
-- 
2.43.0


From 3bb75f174d6be951b9383525e5977ed3c13ad8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 39/43] fix: mbus_data_variable_parse: length of BCD numbers of
 variable length

LVAR C0 to C9 and D0 to D9 announce (LVAR - C0) * 2 digits, which are
LVAR - C0 bytes, not twice as many.
---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 4017d51..90b925e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4004,9 +4004,9 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-                    record->data_len = (frame->data[i] - 0xC0) * 2;
+                    record->data_len = frame->data[i] - 0xC0; // two digits in every byte
                 else if(frame->data[i] >= 0xD0 && frame->data[i] <= 0xD9)
-                    record->data_len = (frame->data[i] - 0xD0) * 2;
+                    record->data_len = frame->data[i] - 0xD0;
                 else if(frame->data[i] >= 0xE0 && frame->data[i] <= 0xEF)
                     record->data_len = frame->data[i] - 0xE0;
                 else if(frame->data[i] >= 0xF0 && frame->data[i] <= 0xF4)
-- 
2.43.0


From 493774ec255c6aded2870ebe97d8cae8adf9c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 40/43] fix: a scan over a complete identification number with
 open manufacturer, version or medium finds its device

The scan replaced the first wildcard behind the identification number by decimal
digits, which no device matches there, so a mask such as 12345678FFFFFFFF never
found anything. Probe such a mask itself first.
---
 mbus/mbus-protocol-aux.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 064f292..f9f174e 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2591,7 +2591,8 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
     if (mask[pos] == 'f' || mask[pos] == 'F')
     {
         // mask[pos] is a wildcard -> enumerate all 0..9 at this position
-        i_start = 0;
+        // (behind a complete identification number the mask itself is probed first)
+        i_start = (pos < 8) ? 0 : -1;
         i_end   = 9;
     }
     else
@@ -2618,7 +2619,10 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
     {
         for (i = i_start; i <= i_end; i++)
         {
-            mask[pos] = '0'+i;
+            if (i >= 0)
+            {
+                mask[pos] = '0'+i;
+            }
 
             if (handle->scan_progress)
                 handle->scan_progress(handle,mask);
@@ -2635,7 +2639,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+                if (i >= 0 && mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
                 {
                     free(mask);
                     return -1;
@@ -2651,6 +2655,12 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
                 free(mask);
                 return -1;
             }
+
+            if (i < 0 && probe_ret != MBUS_PROBE_COLLISION)
+            {
+                // at most one device matches the mask
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 88d7b0b36d1909fdbb08b89574a8a884f25328b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 41/43] fix: a TCP connection whose timeout cannot be set is
 refused, it would wait for ever

---
 mbus/mbus-tcp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index d6064e0..207e80e 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -98,8 +98,16 @@ mbus_tcp_connect(mbus_handle *handle)
     // Set a timeout
     time_out.tv_sec  = tcp_timeout_sec;   // seconds
     time_out.tv_usec = tcp_timeout_usec;  // microseconds
-    setsockopt(handle->fd, SOL_SOCKET, SO_SNDTIMEO, &time_out, sizeof(time_out));
-    setsockopt(handle->fd, SOL_SOCKET, SO_RCVTIMEO, &time_out, sizeof(time_out));
+    if (setsockopt(handle->fd, SOL_SOCKET, SO_SNDTIMEO, &time_out, sizeof(time_out)) == -1 ||
+        setsockopt(handle->fd, SOL_SOCKET, SO_RCVTIMEO, &time_out, sizeof(time_out)) == -1)
+    {
+        // without them the connection would wait for ever
+        snprintf(error_str, sizeof(error_str), "%s: Failed to set the timeout of the connection to %s:%s", __PRETTY_FUNCTION__, host, port);
+        mbus_error_str_set(error_str);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From ef7bd6cc31401b38dc0b2bbec4104e4c17699cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:39 +0000
Subject: [PATCH 42/43] fix: printed records of maximum and minimum values are
 not called values during error state

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 90b925e..fd229c6 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4459,7 +4459,7 @@ mbus_data_variable_print(mbus_data_variable *data)
             printf("DIF               = %.2X\n", record->drh.dib.dif);
             printf("DIF.Extension     = %s\n",  (record->drh.dib.dif & MBUS_DIB_DIF_EXTENSION_BIT) ? "Yes":"No");
             printf("DIF.StorageNumber = %d\n",  (record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_STORAGE_NO) >> 6);
-            printf("DIF.Function      = %s\n",  (record->drh.dib.dif & 0x30) ? "Value during error state" : "Instantaneous value" );
+            printf("DIF.Function      = %s\n",  mbus_data_record_function(record));
             printf("DIF.Data          = %.2X\n", record->drh.dib.dif & 0x0F);
 
             // VENDOR SPECIFIC
-- 
2.43.0


From 80abbe36528882462e1d6f2f96521d771d6e06e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:42 +0000
Subject: [PATCH 43/43] fix: the printing tools fail when standard output does
 not take what they print

---
 bin/mbus-serial-request-data-multi-reply.c | 6 ++++++
 bin/mbus-serial-request-data.c             | 7 +++++++
 bin/mbus-serial-scan-secondary.c           | 6 ++++++
 bin/mbus-serial-scan.c                     | 7 +++++++
 bin/mbus-serial-select-secondary.c         | 7 +++++++
 bin/mbus-tcp-request-data-multi-reply.c    | 6 ++++++
 bin/mbus-tcp-request-data.c                | 7 +++++++
 bin/mbus-tcp-scan-secondary.c              | 6 ++++++
 bin/mbus-tcp-scan.c                        | 7 +++++++
 bin/mbus-tcp-select-secondary.c            | 7 +++++++
 10 files changed, 66 insertions(+)

diff --git a/bin/mbus-serial-request-data-multi-reply.c b/bin/mbus-serial-request-data-multi-reply.c
index d88006b..6bc142d 100755
--- a/bin/mbus-serial-request-data-multi-reply.c
+++ b/bin/mbus-serial-request-data-multi-reply.c
@@ -224,5 +224,11 @@ main(int argc, char **argv)
     mbus_context_free(handle);
     mbus_frame_free(reply.next);
 
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
diff --git a/bin/mbus-serial-request-data.c b/bin/mbus-serial-request-data.c
index 20e3fa6..f4cdff5 100755
--- a/bin/mbus-serial-request-data.c
+++ b/bin/mbus-serial-request-data.c
@@ -221,6 +221,13 @@ main(int argc, char **argv)
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
+
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index 84422ac..7b132fa 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -187,6 +187,12 @@ main(int argc, char **argv)
 
     free(addr_mask);
 
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index dc3669f..b11d224 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -183,6 +183,13 @@ main(int argc, char **argv)
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
+
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index ee33953..07664fe 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -137,6 +137,13 @@ main(int argc, char **argv)
     free(addr);
     mbus_disconnect(handle);
     mbus_context_free(handle);
+
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-tcp-request-data-multi-reply.c b/bin/mbus-tcp-request-data-multi-reply.c
index c0b9447..2865974 100755
--- a/bin/mbus-tcp-request-data-multi-reply.c
+++ b/bin/mbus-tcp-request-data-multi-reply.c
@@ -218,6 +218,12 @@ main(int argc, char **argv)
     mbus_context_free(handle);
     mbus_frame_free(reply.next);
 
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-tcp-request-data.c b/bin/mbus-tcp-request-data.c
index 91ff0c0..253231d 100755
--- a/bin/mbus-tcp-request-data.c
+++ b/bin/mbus-tcp-request-data.c
@@ -157,6 +157,13 @@ main(int argc, char **argv)
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
+
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-tcp-scan-secondary.c b/bin/mbus-tcp-scan-secondary.c
index 6e579e0..0d2d045 100755
--- a/bin/mbus-tcp-scan-secondary.c
+++ b/bin/mbus-tcp-scan-secondary.c
@@ -117,6 +117,12 @@ main(int argc, char **argv)
 
     free(addr_mask);
 
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 89d0423..dd35971 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -163,6 +163,13 @@ main(int argc, char **argv)
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
+
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 024ebaa..6c1a9e8 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -128,6 +128,13 @@ main(int argc, char **argv)
     free(addr);
     mbus_disconnect(handle);
     mbus_context_free(handle);
+
+    if (fflush(stdout) == EOF || ferror(stdout))
+    {
+        fprintf(stderr, "Failed to write to standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0

