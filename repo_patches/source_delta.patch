From f7d15f89b77bbfbba7dee82b870fccc258dc3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 01/30] fix: a custom VIF of 128 characters wrote its
 terminator past custom_vif

---
 mbus/mbus-protocol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..2e2a559 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3909,7 +3909,8 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 // variable length VIF in ASCII format
                 int var_vif_len;
                 var_vif_len = frame->data[i++];
-                if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
+                // leave room for the terminating null byte
+                if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
                     mbus_data_record_free(record);
                     snprintf(error_str, sizeof(error_str), "Too long variable length VIF.");
-- 
2.43.0


From 8154f2498fe4e7e19adf58cab6651760354bd8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 02/30] fix: truncated records read past the end of the
 telegram's user data

---
 mbus/mbus-protocol.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 2e2a559..aedf2d4 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3884,6 +3884,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                     return -1;
                 }
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 dife = frame->data[i+1];
                 record->drh.dib.dife[record->drh.dib.ndife] = dife;
 
@@ -3892,7 +3899,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3908,6 +3915,14 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
+
                 var_vif_len = frame->data[i++];
                 // leave room for the terminating null byte
                 if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
@@ -3932,6 +3947,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3947,6 +3969,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                         return -1;
                     }
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     vife = frame->data[i+1];
                     record->drh.vib.vife[record->drh.vib.nvife] = vife;
 
@@ -3966,6 +3995,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-- 
2.43.0


From 0dd4218f38d96975ae1dd12f07e2316d2bdc1ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:41 +0000
Subject: [PATCH 03/30] fix: long manufacturer specific data overflowed the
 record's data array

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..194efd8 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -168,7 +168,7 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    unsigned char data[240]; // a manufacturer specific record holds up to 239 bytes
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From 4f1d0c21d42e0712f59652642e2bb0d5b9bc65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 04/30] fix: XML of a long record was written past the end of
 the output buffer

A record's XML can be 2.6 kB long (escaped unit and value), but the
buffer was only enlarged when less than 1 kB was left.
---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-protocol.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..9e7d5a0 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1414,7 +1414,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
         {
             norm_record = mbus_parse_variable_record(record);
 
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index aedf2d4..78de3c4 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4801,7 +4801,7 @@ mbus_data_variable_xml(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
@@ -5035,7 +5035,7 @@ mbus_frame_xml(mbus_frame *frame)
             // record count as record ID in the XML output
             for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
             {
-                if ((buff_size - len) < 1024)
+                if ((buff_size - len) < 4096)
                 {
                     buff_size *= 2;
                     new_buff = (char*) realloc(buff,buff_size);
@@ -5074,7 +5074,7 @@ mbus_frame_xml(mbus_frame *frame)
                 // record count as record ID in the XML output
                 for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
                 {
-                    if ((buff_size - len) < 1024)
+                    if ((buff_size - len) < 4096)
                     {
                         buff_size *= 2;
                         new_buff = (char*) realloc(buff,buff_size);
-- 
2.43.0


From 176972b93dc0bfa7b6f6e864d4010a771c526e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 05/30] fix: mbus_frame_xml leaked on parse errors and reused
 freed records

When a telegram failed to parse half-way, its records and the output
buffer were leaked.  When a follow-up telegram carried no variable data,
the records of the previous telegram, already freed, were rendered and
freed again.
---
 mbus/mbus-protocol.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 78de3c4..693a577 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4981,8 +4981,9 @@ mbus_frame_xml(mbus_frame *frame)
     {
         memset((void *)&frame_data, 0, sizeof(mbus_frame_data));
 
-        if (mbus_frame_data_parse(frame, &frame_data) == -1)
+        if (mbus_frame_data_parse(frame, &frame_data) != 0)
         {
+            mbus_data_record_free(frame_data.data_var.record);
             mbus_error_str_set("M-bus data parse error.");
             return NULL;
         }
@@ -5058,14 +5059,17 @@ mbus_frame_xml(mbus_frame *frame)
             if (frame_data.data_var.record)
             {
                 mbus_data_record_free(frame_data.data_var.record);
+                frame_data.data_var.record = NULL;
             }
 
             frame_cnt++;
 
             for (iter = frame->next; iter; iter = iter->next, frame_cnt++)
             {
-                if (mbus_frame_data_parse(iter, &frame_data) == -1)
+                if (mbus_frame_data_parse(iter, &frame_data) != 0)
                 {
+                    free(buff);
+                    mbus_data_record_free(frame_data.data_var.record);
                     mbus_error_str_set("M-bus variable data parse error.");
                     return NULL;
                 }
@@ -5097,6 +5101,7 @@ mbus_frame_xml(mbus_frame *frame)
                 if (frame_data.data_var.record)
                 {
                     mbus_data_record_free(frame_data.data_var.record);
+                    frame_data.data_var.record = NULL;
                 }
             }
 
-- 
2.43.0


From bfd192f40d0c263ee464c7b346dd687597c3237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 06/30] fix: running out of memory while parsing records passed
 for success

mbus_data_variable_parse returned -2, but its callers only take -1 for a
failure, so a truncated record list was reported as complete.
---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 693a577..887d3d5 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3833,8 +3833,8 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if ((record = mbus_data_record_new()) == NULL)
             {
-                // clean up...
-                return (-2);
+                snprintf(error_str, sizeof(error_str), "Out of memory while parsing records.");
+                return -1;
             }
 
             // copy timestamp
-- 
2.43.0


From 95fff3072f9ca4436ebdf34a8099f9b519b431c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 07/30] fix: mbus_frame_verify rejected valid acknowledge
 frames

It returned 1 for a valid and 0 (success) for an invalid start byte.
---
 mbus/mbus-protocol.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 887d3d5..5be8507 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,15 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return frame->start1 == MBUS_FRAME_ACK_START;
+                if (frame->start1 != MBUS_FRAME_ACK_START)
+                {
+                    snprintf(error_str, sizeof(error_str), "No frame start");
+
+                    return -1;
+                }
+
+                // a single character: no stop byte and no checksum
+                return 0;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0


From b949559f08fbe8cc57bd97f8e27d443f1ffe0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 08/30] fix: failures of mbus_frame_pack other than -1 were not
 noticed

Sending a frame that cannot be packed passed a negative length to write
or send; printing a frame of maximum size printed nothing.
---
 mbus/mbus-protocol.c | 4 ++--
 mbus/mbus-serial.c   | 2 +-
 mbus/mbus-tcp.c      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 5be8507..bc763bd 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4362,7 +4362,7 @@ int
 mbus_frame_print(mbus_frame *frame)
 {
     mbus_frame *iter;
-    unsigned char data_buff[256];
+    unsigned char data_buff[MBUS_FRAME_DATA_LENGTH + MBUS_FRAME_LONG_BASE_SIZE];
     int len, i;
 
     if (frame == NULL)
@@ -4370,7 +4370,7 @@ mbus_frame_print(mbus_frame *frame)
 
     for (iter = frame; iter; iter = iter->next)
     {
-        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) == -1)
+        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) < 0)
         {
             return -2;
         }
diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..64b662e 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -242,7 +242,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..bfc84b8 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -159,7 +159,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From 8a129a152230c394fc9b53734a227035194413da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 09/30] fix: mbus_frame_internal_pack overran the frame and
 mispacked records

Records that do not fit into one frame were written past frame->data.
Manufacturer specific records got a VIF byte they do not have, and the
text of a plain text VIF was left out.
---
 mbus/mbus-protocol.c | 58 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index bc763bd..89a6b15 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4242,6 +4242,7 @@ int
 mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
 {
     mbus_data_record *record;
+    size_t needed;
     int j;
 
     if (frame == NULL || frame_data == NULL)
@@ -4304,22 +4305,59 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
             //
             for (record = frame_data->data_var.record; record; record = record->next)
             {
+                int custom_vif_len = 0;
+                int has_vib = (record->drh.dib.dif != MBUS_DIB_DIF_MANUFACTURER_SPECIFIC) &&
+                              (record->drh.dib.dif != MBUS_DIB_DIF_MORE_RECORDS_FOLLOW);
+
+                needed = 1 + record->data_len;
+                if (has_vib)
+                {
+                    needed += record->drh.dib.ndife + 1 + record->drh.vib.nvife;
+                    if ((record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C)
+                    {
+                        custom_vif_len = strlen((const char *) record->drh.vib.custom_vif);
+                        needed += 1 + custom_vif_len;
+                    }
+                }
+
+                if (needed > sizeof(frame->data) - frame->data_size)
+                {
+                    snprintf(error_str, sizeof(error_str), "Data records do not fit into one frame.");
+                    return -3;
+                }
+
                 // pack DIF
                 if (parse_debug)
                     printf("%s: packing DIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
                 frame->data[frame->data_size++] = record->drh.dib.dif;
-                for (j = 0; j < record->drh.dib.ndife; j++)
-                {
-                    frame->data[frame->data_size++] = record->drh.dib.dife[j];
-                }
 
-                // pack VIF
-                if (parse_debug)
-                    printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
-                frame->data[frame->data_size++] = record->drh.vib.vif;
-                for (j = 0; j < record->drh.vib.nvife; j++)
+                // manufacturer specific data follow their DIF directly
+                if (has_vib)
                 {
-                    frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    for (j = 0; j < record->drh.dib.ndife; j++)
+                    {
+                        frame->data[frame->data_size++] = record->drh.dib.dife[j];
+                    }
+
+                    // pack VIF
+                    if (parse_debug)
+                        printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
+                    frame->data[frame->data_size++] = record->drh.vib.vif;
+
+                    // plain text VIF: length, text (last character first)
+                    if ((record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C)
+                    {
+                        frame->data[frame->data_size++] = custom_vif_len;
+                        for (j = custom_vif_len - 1; j >= 0; j--)
+                        {
+                            frame->data[frame->data_size++] = record->drh.vib.custom_vif[j];
+                        }
+                    }
+
+                    for (j = 0; j < record->drh.vib.nvife; j++)
+                    {
+                        frame->data[frame->data_size++] = record->drh.vib.vife[j];
+                    }
                 }
 
                 // pack data
-- 
2.43.0


From 07a2539cc56d9f99a865a7d00dd01563b20777c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 10/30] fix: units and scales of fixed data counters were wrong

The normalization table had one exponent for all W units, took J/h for
an energy, was a factor of ten off for ml/h and lacked 10 ml/h; the unit
text had 100 kJ and MJ swapped.
---
 mbus/mbus-protocol-aux.c | 39 ++++++++++++++++++++-------------------
 mbus/mbus-protocol.c     |  4 ++--
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 9e7d5a0..31ffef1 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,24 +692,24 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
-
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
+
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 89a6b15..f3e26bf 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1563,10 +1563,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From e8f812235d6563fb6411d53fabd559b8f2be37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 11/30] fix: three entries of the normalization table disagreed
 with their unit

Energy in GJ had the unit "Reserved", power in GJ/h the unit J, and
cumul. count max power * 0.01 W was scaled by 0.001.
---
 mbus/mbus-protocol-aux.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 31ffef1..34bfe96 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From e42ef39fbad73e33cc3581ab25b1bf5b0b16d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:12 +0000
Subject: [PATCH 12/30] fix: text value was leaked when a record's VIF is not
 known

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 34bfe96..ce4f95f 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1362,6 +1362,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
             mbus_record_free(record);
             record = NULL;
             return NULL;
-- 
2.43.0


From 4a139b26b528dde40a083aa264ff5ca72a006767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 13/30] fix: mbus_sendrecv_request freed records twice or
 leaked them

The list was freed again when the next reply held fixed data, and not at
all when a reply could not be parsed.
---
 mbus/mbus-protocol-aux.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ce4f95f..2bee4eb 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2120,6 +2120,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         if (mbus_frame_data_parse(next_frame, &reply_data) == -1)
         {
             MBUS_ERROR("%s: M-bus data parse error.\n", __PRETTY_FUNCTION__);
+            mbus_data_record_free(reply_data.data_var.record);
             retval = 1;
             break;
         }
@@ -2173,6 +2174,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // free's up the whole list
             mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
         }
     }
 
-- 
2.43.0


From 913ad85a8e0c479f1159b3316452ee3d3d21c9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 14/30] fix: mbus_send_frame reported success without a handle

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 2bee4eb..455232e 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1740,7 +1740,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
-- 
2.43.0


From 6e261797d278a0038cbb922b502fb2316f2108c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 15/30] fix: handles without a connection had no invalid file
 descriptor

mbus_disconnect on a handle that was never connected, or whose tcp
connection could not be established, closed an arbitrary descriptor.
---
 mbus/mbus-protocol-aux.c | 2 ++
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 455232e..02b3ad5 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1524,6 +1524,7 @@ mbus_context_serial(const char *device)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 1;
@@ -1572,6 +1573,7 @@ mbus_context_tcp(const char *host, uint16_t port)
         return NULL;
     }
 
+    handle->fd = -1;
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 0;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index bfc84b8..c6473c4 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -74,6 +74,7 @@ mbus_tcp_connect(mbus_handle *handle)
         if (connect(handle->fd, p->ai_addr, p->ai_addrlen) == -1)
         {
             close(handle->fd);
+            handle->fd = -1;
             continue;
         }
 
-- 
2.43.0


From b8efe0f5faf49f2f35c88fb8376b9dfa1dc7f62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 16/30] fix: mbus_serial_connect ignored a failure to configure
 the tty

---
 mbus/mbus-serial.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 64b662e..4061dcf 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -90,7 +90,13 @@ mbus_serial_connect(mbus_handle *handle)
     printf("%s: t.c_lflag = %x\n", __PRETTY_FUNCTION__, term->c_lflag);
 #endif
 
-    tcsetattr(handle->fd, TCSANOW, term);
+    if (tcsetattr(handle->fd, TCSANOW, term) != 0)
+    {
+        fprintf(stderr, "%s: failed to configure tty.", __PRETTY_FUNCTION__);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 86a2e990a9c5ceca178e14948b3db627f76d3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 17/30] fix: mbus_scan_2nd_address_range leaked the mask when
 probing failed

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 02b3ad5..9217d65 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2530,6 +2530,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
+                free(mask);
                 return -1;
             }
         }
-- 
2.43.0


From 42cac882793add4a66c33c8509b401e29cb41141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 18/30] fix: a broken connection passed for a missing device
 while probing

---
 mbus/mbus-protocol-aux.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 9217d65..5f2d9a3 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2266,6 +2266,12 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        MBUS_ERROR("%s: Failed to receive reply: %s.\n", __PRETTY_FUNCTION__, mbus_error_str());
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
@@ -2329,6 +2335,12 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
+            if (ret != MBUS_RECV_RESULT_OK)
+            {
+                MBUS_ERROR("%s: Failed to receive reply: %s.\n", __PRETTY_FUNCTION__, mbus_error_str());
+                return MBUS_PROBE_ERROR;
+            }
+
             /* check for more data (collision) */
             if (mbus_purge_frames(handle))
             {
-- 
2.43.0


From 748c71e5d94a3d0a0f4437c9f5f5c1c15e7ffc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 19/30] fix: storage numbers of records with many DIFE were
 shifted out of an int

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index f3e26bf..697871f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3473,7 +3473,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long) (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From 15079766eba6aa69304c1595fa170b497b5ccf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 20/30] fix: long custom units were truncated

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697871f..44dc556 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3427,7 +3427,7 @@ mbus_data_record_decode(mbus_data_record *record)
 const char *
 mbus_data_record_unit(mbus_data_record *record)
 {
-    static char buff[128];
+    static char buff[256];
 
     if (record)
     {
-- 
2.43.0


From ade2cbcfcd5afa1bc1b7fbdee0498a1219746417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 21/30] fix: hex digits A to E of an identification number were
 mispacked

mbus_frame_get_secondary_address reports such numbers, but selecting
the device by that address selected another one.
---
 mbus/mbus-protocol.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 44dc556..1361d4c 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5369,7 +5369,9 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
         }
         else
         {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
+            tmp[0] = address[i]; tmp[1] = 0;
+            val = strtol(tmp, NULL, 16);
+            frame->data[j] |= (0x0F & val) << (4 * k--);
         }
 
         if (k < 0)
-- 
2.43.0


From b515e7fbc3db3bcf511ddf17fb43dd5f71c7d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 22/30] fix: decoding empty BCD data read before the data

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 1361d4c..60aeec6 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -507,7 +507,7 @@ mbus_data_bcd_decode(unsigned char *bcd_data, size_t bcd_data_size)
     long long val = 0;
     size_t i;
 
-    if (bcd_data)
+    if (bcd_data && bcd_data_size)
     {
         for (i = bcd_data_size; i > 0; i--)
         {
-- 
2.43.0


From 9cb9ebb755ac219d924261c03de888008ebea5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 23/30] fix: error text held an uninitialised pointer

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 60aeec6..b0c47ae 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5272,7 +5272,7 @@ char *
 mbus_frame_get_secondary_address(mbus_frame *frame)
 {
     static char addr[32];
-    mbus_frame_data *data;
+    mbus_frame_data *data = NULL;
     unsigned long id;
 
     if (frame == NULL || (data = mbus_frame_data_new()) == NULL)
-- 
2.43.0


From fed7d03b2d4930b410d3342e8667c7c0c1c16fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:19 +0000
Subject: [PATCH 24/30] fix: mbus_hex2bin did not stop at every invalid
 character

The second of two digits and signs before the first were not checked.
---
 mbus/mbus-protocol-aux.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 5f2d9a3..b9e4d95 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2581,6 +2581,10 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
         buf[0] = src[i];
         buf[1] = src[++i];
 
+        // abort at non hex value
+        if (!isxdigit(buf[0]) || !isxdigit(buf[1]))
+            break;
+
         end = buf;
         ptr = end;
         val = strtoul(ptr, (char **)&end, 16);
-- 
2.43.0


From 6b299abc815983178f3e1225dcd90588b8dd318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 25/30] fix: read all frames when no limit is given

mbus_sendrecv_request() documents max_frames == 0 as no limit, but
stopped after the first frame even when it announced more.
---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b9e4d95..ec3ecd7 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2143,7 +2143,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames == 0) || (frame_count < max_frames))) // only readout max_frames (0 = no limit)
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From c361a5f104ba6af26dbdfac24d2eb8fe2227274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:38 +0000
Subject: [PATCH 26/30] fix: do not take a failed reception for an echo

mbus_recv_frame() looked at the direction of the frame even when nothing
or garbage was received, and then replaced the result by that of another
reception: a collision could be reported as a timeout.
---
 mbus/mbus-protocol-aux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ec3ecd7..299d9b6 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1694,7 +1694,8 @@ mbus_recv_frame(mbus_handle * handle, mbus_frame *frame)
 
     result = handle->recv(handle, frame);
 
-    switch (mbus_frame_direction(frame))
+    // only a received frame has a direction
+    switch (result == MBUS_RECV_RESULT_OK ? mbus_frame_direction(frame) : -1)
     {
         case MBUS_CONTROL_MASK_DIR_M2S:
             if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
-- 
2.43.0


From 37eead130d4c7cbb1137a01b32f91778b85ad4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:44 +0000
Subject: [PATCH 27/30] fix: report errors that end a nested address scan

mbus_scan_2nd_address_range() ignored the result of the recursive scan,
so that a failure of the bus was reported as success with devices missing.
---
 mbus/mbus-protocol-aux.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 299d9b6..7f5dd97 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2502,7 +2502,9 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            i = mbus_scan_2nd_address_range(handle, pos+1, mask);
+            free(mask);
+            return i;
         }
         else
         {
@@ -2534,7 +2536,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+                {
+                    free(mask);
+                    return -1;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
-- 
2.43.0


From 968c40de44da20440b968b08e8f9cdfcd7cf21b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 28/30] fix: characters outside ASCII were passed to ctype
 functions as negative numbers

---
 mbus/mbus-protocol.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index b0c47ae..7380032 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -37,9 +37,9 @@ mbus_manufacturer_id(char *manufacturer)
     if (!manufacturer || strlen(manufacturer) < 3)
         return 0;
 
-    if (!isalpha(manufacturer[0]) ||
-        !isalpha(manufacturer[1]) ||
-        !isalpha(manufacturer[2]))
+    if (!isalpha((unsigned char) manufacturer[0]) ||
+        !isalpha((unsigned char) manufacturer[1]) ||
+        !isalpha((unsigned char) manufacturer[2]))
         return 0;
 
     id = (toupper(manufacturer[0]) - 64) * 32 * 32 +
@@ -5408,7 +5408,7 @@ mbus_is_secondary_address(const char * value)
 
     for (i = 0; i < 16; i++)
     {
-        if (!isxdigit(value[i]))
+        if (!isxdigit((unsigned char) value[i]))
             return 0;
     }
 
-- 
2.43.0


From 757808c5bdd6e3b8c681fe12e4938cf1639649ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:06 +0000
Subject: [PATCH 29/30] fix: tools end with an error when the reply cannot be
 received

Only silence (and, for the selection, an invalid reply) was told apart; after
any other reception error the tools looked at a reply that was never received.
---
 bin/mbus-serial-select-secondary.c | 6 ++++++
 bin/mbus-serial-set-address.c      | 7 +++++++
 bin/mbus-serial-switch-baudrate.c  | 5 +++++
 bin/mbus-tcp-application-reset.c   | 7 +++++++
 bin/mbus-tcp-select-secondary.c    | 6 ++++++
 5 files changed, 31 insertions(+)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 4c1066b..cb1c585 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -94,6 +94,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply: %s\n", mbus_error_str());
+        return 1;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 2ec493c..23f354c 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -213,6 +213,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr, "Failed to receive reply: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr, "Unknown reply:\n");
diff --git a/bin/mbus-serial-switch-baudrate.c b/bin/mbus-serial-switch-baudrate.c
index 52a841f..779c738 100755
--- a/bin/mbus-serial-switch-baudrate.c
+++ b/bin/mbus-serial-switch-baudrate.c
@@ -79,6 +79,11 @@ main(int argc, char **argv)
         fprintf(stderr,"No reply from device\n");
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply: %s\n", mbus_error_str());
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
diff --git a/bin/mbus-tcp-application-reset.c b/bin/mbus-tcp-application-reset.c
index 54ca46c..930fbf0 100755
--- a/bin/mbus-tcp-application-reset.c
+++ b/bin/mbus-tcp-application-reset.c
@@ -144,6 +144,13 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr, "Failed to receive reply: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 92605c6..c4f4d6c 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -85,6 +85,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply: %s\n", mbus_error_str());
+        return 1;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
-- 
2.43.0


From 8c3a9f00016fe10e123d8a3ca23d94c9beddf939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:12 +0000
Subject: [PATCH 30/30] fix: mbus-serial-select-secondary names the address,
 not the baud rate

With -b the address is not the second argument.
---
 bin/mbus-serial-select-secondary.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index cb1c585..c661d22 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -84,13 +84,13 @@ main(int argc, char **argv)
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
     {
-        fprintf(stderr,"No reply from device with secondary address %s: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"No reply from device with secondary address %s: %s\n", addr, mbus_error_str());
         return 1;
     }
 
     if (ret == MBUS_RECV_RESULT_INVALID)
     {
-        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", addr, mbus_error_str());
         return 1;
     }
 
@@ -117,7 +117,7 @@ main(int argc, char **argv)
         if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
         {
             printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[2], mbus_frame_get_secondary_address(&reply));
+                   addr, mbus_frame_get_secondary_address(&reply));
         }
     }
     else
-- 
2.43.0

