From e9ac8d5700782b29e1ed351c52e4df8f2d2f1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 01/18] fix: sign extension of full-width bit fields overflowed
 a signed integer

---
 c/librtcm/src/bits.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/c/librtcm/src/bits.c b/c/librtcm/src/bits.c
index 5acc223..f55a1f4 100644
--- a/c/librtcm/src/bits.c
+++ b/c/librtcm/src/bits.c
@@ -65,13 +65,13 @@ uint64_t rtcm_getbitul(const uint8_t *buff, uint32_t pos, uint8_t len) {
  * \return Bit field as a signed value.
  */
 int32_t rtcm_getbits(const uint8_t *buff, uint32_t pos, uint8_t len) {
-  int32_t bits = (int32_t)rtcm_getbitu(buff, pos, len);
+  uint32_t bits = rtcm_getbitu(buff, pos, len);
 
   /* Sign extend, taken from:
    * http://graphics.stanford.edu/~seander/bithacks.html#VariableSignExtend
    */
-  int32_t m = 1u << (len - 1);
-  return (bits ^ m) - m;
+  uint32_t m = 1u << (len - 1);
+  return (int32_t)((bits ^ m) - m);
 }
 
 /** Get bit field from buffer as a signed integer.
@@ -86,13 +86,13 @@ int32_t rtcm_getbits(const uint8_t *buff, uint32_t pos, uint8_t len) {
  * \return Bit field as a signed value.
  */
 int64_t rtcm_getbitsl(const uint8_t *buff, uint32_t pos, uint8_t len) {
-  int64_t bits = (int64_t)rtcm_getbitul(buff, pos, len);
+  uint64_t bits = rtcm_getbitul(buff, pos, len);
 
   /* Sign extend, taken from:
    * http://graphics.stanford.edu/~seander/bithacks.html#VariableSignExtend
    */
-  int64_t m = ((uint64_t)1) << (len - 1);
-  return (bits ^ m) - m;
+  uint64_t m = ((uint64_t)1) << (len - 1);
+  return (int64_t)((bits ^ m) - m);
 }
 
 /** Set bit field in buffer from an unsigned integer.
-- 
2.43.0


From 5994152302cb14e0aba58fc4559e738327f7b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 02/18] fix: Novatel parser dropped a byte from an empty buffer
 when a read returned nothing

---
 c/nov2sbp/parser/parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index 77dbd1e..a3338a0 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -66,6 +66,10 @@ void Parser::process() {
     }
 
     num_bytes_in_buffer_ += num_bytes_read;
+    if (num_bytes_in_buffer_ == 0) {
+      // nothing buffered and nothing left to read
+      return;
+    }
     uint32_t num_bytes_consumed = 1;
 
     if (num_bytes_in_buffer_ >= sizeof(MSG_REGULAR_PREAMBLE)) {
-- 
2.43.0


From 861f58302b68c9f452ec6804e9f879cff14ed3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 03/18] fix: Novatel parser decoded bodies whose length does
 not match their message

---
 c/nov2sbp/parser/parser.cc | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/c/nov2sbp/parser/parser.cc b/c/nov2sbp/parser/parser.cc
index a3338a0..688339d 100644
--- a/c/nov2sbp/parser/parser.cc
+++ b/c/nov2sbp/parser/parser.cc
@@ -158,11 +158,48 @@ uint32_t Parser::parse_short_message() const {
   return 1;
 }
 
+/**
+ * Check that the body has exactly the length which the decoder of this message
+ * ID is going to consume.
+ */
+static bool is_body_length_valid(const BinaryHeader &header,
+                                 const uint8_t *data) {
+  switch (header.message_id) {
+    case Message::Id::GPSEPHEM:
+      return header.message_len == 224;
+    case Message::Id::BESTPOS:
+      return header.message_len == 72;
+    case Message::Id::BESTVEL:
+      return header.message_len == 44;
+    case Message::Id::RANGECMP:
+      return header.message_len >= sizeof(uint32_t) &&
+             header.message_len ==
+                 sizeof(uint32_t) +
+                     uint64_t{Util::read_le_uint32(data)} *
+                         Message::RANGECMP_record_t::kRecordBinarySize;
+    case Message::Id::INSATT:
+      return header.message_len == 40;
+    case Message::Id::GLOEPHEMERIS:
+      return header.message_len == 144;
+    case Message::Id::RAWIMUSX:
+      return header.message_len == 40;
+    default:
+      return true;
+  }
+}
+
 /**
  * This function dispatches to the appropriate body parser depending on the
  * message ID.
  */
 void Parser::parse_body(const BinaryHeader &header, const uint8_t *data) const {
+  if (!is_body_length_valid(header, data)) {
+    warn("Unexpected length %i of message %i",
+         header.message_len,
+         header.message_id);
+    return;
+  }
+
   switch (header.message_id) {
     case Message::Id::GPSEPHEM: {
       Message::GPSEPHEM_t msg;
-- 
2.43.0


From 24c8afd453376ce8c0efcef286580ce9e02d6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 04/18] fix: Novatel RAWIMUSX Y axis overflowed when negating
 the most negative value

---
 c/nov2sbp/parser/message_rawimusx.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c/nov2sbp/parser/message_rawimusx.cc b/c/nov2sbp/parser/message_rawimusx.cc
index 3168fbe..9e64b13 100644
--- a/c/nov2sbp/parser/message_rawimusx.cc
+++ b/c/nov2sbp/parser/message_rawimusx.cc
@@ -14,9 +14,16 @@
 #include "read_little_endian.h"
 
 #include <cassert>
+#include <cstdint>
 
 namespace Novatel {
 
+// The receiver reports the negated Y axis. The most negative value has no
+// counterpart and saturates.
+static int32_t negate(int32_t value) {
+  return value == INT32_MIN ? INT32_MAX : -value;
+}
+
 void Message::RAWIMUSX_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
   (void)n_bytes;
   size_t i = 0;
@@ -30,13 +37,13 @@ void Message::RAWIMUSX_t::FromBytes(const uint8_t *bytes, size_t n_bytes) {
   i += sizeof(uint32_t);
   z_accel = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
-  y_accel = -Util::read_le_int32(bytes + i);
+  y_accel = negate(Util::read_le_int32(bytes + i));
   i += sizeof(int32_t);
   x_accel = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
   z_gyro = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
-  y_gyro = -Util::read_le_int32(bytes + i);
+  y_gyro = negate(Util::read_le_int32(bytes + i));
   i += sizeof(int32_t);
   x_gyro = Util::read_le_int32(bytes + i);
   i += sizeof(int32_t);
-- 
2.43.0


From 675087280e6de8c5e98926981333723c324db8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 05/18] fix: invalid L1 pseudorange was never recognised

The L1 pseudorange fields DF011 (24 bit) and DF041 (25 bit) are unsigned,
so the invalid pattern 80000h decodes to 0x80000 and never equalled the
sign extended constant; on encoding the extra bits spilled into the field.
---
 c/librtcm/include/rtcm3/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/include/rtcm3/constants.h b/c/librtcm/include/rtcm3/constants.h
index 8f9b33f..d1ba5f6 100644
--- a/c/librtcm/include/rtcm3/constants.h
+++ b/c/librtcm/include/rtcm3/constants.h
@@ -17,7 +17,7 @@
 #define PRUNIT_GLO 599584.916 /**< RTCM v3 Unit of GLO Pseudorange (m) */
 #define RTCM_MAX_SATS 32
 #define CP_INVALID 0xFFF80000      /* Unsigned bit pattern 0x80000 */
-#define PR_L1_INVALID 0xFFF80000   /* Unsigned bit pattern 0x80000 */
+#define PR_L1_INVALID 0x80000      /* Unsigned bit pattern 0x80000 */
 #define PR_L2_INVALID 0xFFFFE000   /* Unsigned bit pattern 0x20000 */
 #define MSM_MAX_CELLS 64           /* Maximum number of cells in MSM message */
 #define MSM_SATELLITE_MASK_SIZE 64 /* Maximum size of MSM satellite mask */
-- 
2.43.0


From de69e179ecef153033d21191587a1fd0fcf57499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 06/18] fix: RTCM 1006 with a truncated position was accepted

The result of decoding the common 1005 part was ignored.
---
 c/librtcm/src/decode.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 25e6ce3..15fcc90 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -611,7 +611,11 @@ rtcm3_rc rtcm3_decode_1006_bitstream(swiftnav_bitstream_t *buff,
     return RC_MESSAGE_TYPE_MISMATCH;
   }
 
-  rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  rtcm3_rc ret = rtcm3_decode_1005_base(buff, &msg_1006->msg_1005);
+  if (RC_OK != ret) {
+    return ret;
+  }
+
   uint32_t tmp;
   BITSTREAM_DECODE_U32(buff, tmp, 16);
   msg_1006->ant_height = (double)(tmp) / 10000.0;
-- 
2.43.0


From 65153671093a98852b7895d8ad5f13be000a1d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 07/18] fix: RTCM 1230 bias indicator was always encoded as 0

The one-bit field was written eight bits wide and then overwritten.
---
 c/librtcm/src/encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 1acf326..9bd7203 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -819,7 +819,7 @@ uint16_t rtcm3_encode_1230(const rtcm_msg_1230 *msg_1230, uint8_t buff[]) {
   bit += 12;
   rtcm_setbitu(buff, bit, 12, msg_1230->stn_id);
   bit += 12;
-  rtcm_setbitu(buff, bit, 8, msg_1230->bias_indicator);
+  rtcm_setbitu(buff, bit, 1, msg_1230->bias_indicator);
   bit += 1;
   /* 3 reserved bits */
   rtcm_setbitu(buff, bit, 3, 0);
-- 
2.43.0


From 9207899f9f305ec6f60379f6908ae5c05b299ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:37 +0000
Subject: [PATCH 08/18] fix: RTCM 1019 was encoded with toe and toc exchanged

---
 c/librtcm/src/eph_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/eph_encode.c b/c/librtcm/src/eph_encode.c
index 2e159a1..891a603 100644
--- a/c/librtcm/src/eph_encode.c
+++ b/c/librtcm/src/eph_encode.c
@@ -32,7 +32,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 14;
   rtcm_setbitu(buff, bit, 8, msg_1019->data.kepler.iode);
   bit += 8;
-  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
+  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
   bit += 16;
   rtcm_setbits(buff, bit, 8, msg_1019->data.kepler.af2);
   bit += 8;
@@ -56,7 +56,7 @@ uint16_t rtcm3_encode_gps_eph(const rtcm_msg_eph *msg_1019, uint8_t buff[]) {
   bit += 16;
   rtcm_setbitu(buff, bit, 32, msg_1019->data.kepler.sqrta);
   bit += 32;
-  rtcm_setbitu(buff, bit, 16, msg_1019->data.kepler.toc);
+  rtcm_setbitu(buff, bit, 16, msg_1019->toe);
   bit += 16;
   rtcm_setbits(buff, bit, 16, msg_1019->data.kepler.cic);
   bit += 16;
-- 
2.43.0


From e96f93e62a4f2f3a9bc78aa3cda0ec93b1051d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:30 +0000
Subject: [PATCH 09/18] fix: RTCM MSM masks beyond the message struct's arrays
 overran them

---
 c/librtcm/src/decode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/librtcm/src/decode.c b/c/librtcm/src/decode.c
index 15fcc90..0b6c2d3 100644
--- a/c/librtcm/src/decode.c
+++ b/c/librtcm/src/decode.c
@@ -247,6 +247,10 @@ static rtcm3_rc rtcm3_read_msm_header(swiftnav_bitstream_t *buff,
       count_mask_values(MSM_SATELLITE_MASK_SIZE, header->satellite_mask);
   uint8_t num_sigs =
       count_mask_values(MSM_SIGNAL_MASK_SIZE, header->signal_mask);
+  if (num_sats > RTCM_MAX_SATS || num_sats * num_sigs > MSM_MAX_CELLS) {
+    /* More satellites or cells than the message struct has room for */
+    return RC_INVALID_MESSAGE;
+  }
   uint8_t cell_mask_size = num_sats * num_sigs;
 
   for (uint8_t i = 0; i < cell_mask_size; i++) {
-- 
2.43.0


From bc0e077dfb6260e7604d7ec35b46a9cc1102ab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:12 +0000
Subject: [PATCH 10/18] fix: MSM rough range rounding up to a full millisecond
 lost it

---
 c/librtcm/src/encode.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/c/librtcm/src/encode.c b/c/librtcm/src/encode.c
index 9bd7203..e568c92 100644
--- a/c/librtcm/src/encode.c
+++ b/c/librtcm/src/encode.c
@@ -919,8 +919,18 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
                                 uint16_t *bit) {
   /* number of integer milliseconds, DF397 */
   uint8_t integer_ms[num_sats];
+  uint16_t range_modulo_encoded[num_sats];
   for (uint8_t i = 0; i < num_sats; i++) {
-    integer_ms[i] = (uint8_t)floor(msg->sats[i].rough_range_ms);
+    double pr = msg->sats[i].rough_range_ms;
+    integer_ms[i] = (uint8_t)floor(pr);
+    /* remove integer ms part */
+    double range_modulo_ms = pr - integer_ms[i];
+    range_modulo_encoded[i] = (uint16_t)round(1024 * range_modulo_ms);
+    if (range_modulo_encoded[i] >= 1024) {
+      /* the fractional part rounds up to a full millisecond */
+      integer_ms[i]++;
+      range_modulo_encoded[i] = 0;
+    }
     rtcm_setbitu(buff, *bit, 8, integer_ms[i]);
     *bit += 8;
   }
@@ -933,13 +943,9 @@ static void encode_msm_sat_data(const rtcm_msm_message *msg,
 
   /* rough range modulo 1 ms, DF398 */
   for (uint8_t i = 0; i < num_sats; i++) {
-    double pr = msg->sats[i].rough_range_ms;
-    /* remove integer ms part */
-    double range_modulo_ms = pr - integer_ms[i];
-    uint16_t range_modulo_encoded = (uint16_t)round(1024 * range_modulo_ms);
-    rtcm_setbitu(buff, *bit, 10, range_modulo_encoded);
+    rtcm_setbitu(buff, *bit, 10, range_modulo_encoded[i]);
     *bit += 10;
-    rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded / 1024;
+    rough_range_ms[i] = integer_ms[i] + (double)range_modulo_encoded[i] / 1024;
   }
 
   /* range rate, m/s, DF399*/
-- 
2.43.0


From 99c4bd5dd8e9dd145199fbbf2ad97c59fe320e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 11/18] fix: truncated SSR clock corrections were accepted

---
 c/librtcm/src/ssr_decode.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/librtcm/src/ssr_decode.c b/c/librtcm/src/ssr_decode.c
index e0e2566..802a9a7 100644
--- a/c/librtcm/src/ssr_decode.c
+++ b/c/librtcm/src/ssr_decode.c
@@ -281,7 +281,9 @@ rtcm3_rc rtcm3_decode_clock_bitstream(swiftnav_bitstream_t *buff,
     }
 
     clock->sat_id = sat_id;
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
@@ -323,7 +325,9 @@ rtcm3_rc rtcm3_decode_orbit_clock_bitstream(
                        buff, msg_orbit_clock->header.constellation, orbit))) {
       return RC_INVALID_MESSAGE;
     }
-    decode_ssr_clock(buff, clock);
+    if (!(RC_OK == decode_ssr_clock(buff, clock))) {
+      return RC_INVALID_MESSAGE;
+    }
   }
   return RC_OK;
 }
-- 
2.43.0


From 376e96045ea41a12b04261bbeff12d0e6d92727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 12/18] fix: STA firmware version wrote its terminating zero
 past the buffer

---
 c/librtcm/src/sta_decode.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/librtcm/src/sta_decode.c b/c/librtcm/src/sta_decode.c
index fe15f9e..14d942d 100644
--- a/c/librtcm/src/sta_decode.c
+++ b/c/librtcm/src/sta_decode.c
@@ -66,10 +66,10 @@ rtcm3_rc sta_decode_fwver(const uint8_t buff[], char *fw_ver, uint8_t len) {
   assert(msg_num == 999 && subtype_id == 25);
   fw_ver_strlen = rtcm_getbitu(buff, bit, 8);
   bit += 8;
-  /* if fw_ver_strlen is bigger then our len, use the smaller
-   * of the two*/
-  if (fw_ver_strlen > len) {
-    fw_ver_strlen = len;
+  /* if fw_ver_strlen does not fit in our len together with the terminating
+   * zero, truncate it */
+  if (fw_ver_strlen >= len) {
+    fw_ver_strlen = len - 1;
   }
   GET_STR(buff, bit, fw_ver_strlen, fw_ver);
   fw_ver[fw_ver_strlen] = '\0';
-- 
2.43.0


From 68a09820db861ab8f25c8663219c93f80fb9cd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:06 +0000
Subject: [PATCH 13/18] fix: ixcom_sbp: skip frames whose announced length is
 impossible

A length shorter than what was already read made the remaining length wrap
around, so the reader was asked to write far beyond the buffer; a length of
exactly the header size stalled the converter, and one of 4096 or more aborted
it.
---
 c/gnss_converters/src/ixcom_sbp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c/gnss_converters/src/ixcom_sbp.c b/c/gnss_converters/src/ixcom_sbp.c
index d55b09a..644a269 100644
--- a/c/gnss_converters/src/ixcom_sbp.c
+++ b/c/gnss_converters/src/ixcom_sbp.c
@@ -78,6 +78,13 @@ static int read_ixcom_frame(struct ixcom_sbp_state *state) {
       size_t message_length =
           state->read_buffer[4] + (state->read_buffer[5] << 8);
 
+      if (message_length < header_size + sizeof(XCOMFooter) ||
+          message_length >= IXCOM_BUFFER_SIZE) {
+        /* not a valid frame, look for the next sync byte */
+        state->index = 0;
+        continue;
+      }
+
       ret = read_ixcom_bytes(state, message_length - state->index);
       if (ret <= 0) {
         break;
-- 
2.43.0


From 7c14f7b49cb3971925e3354860e6297f26f01e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:06 +0000
Subject: [PATCH 14/18] fix: libixcom: refuse IMURAW and WHEELDATA with an
 inconsistent length

The checksum was computed over the announced length, which is not bounded by
the message actually decoded (a length below 2 wraps around).
---
 c/libixcom/src/decode.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c/libixcom/src/decode.c b/c/libixcom/src/decode.c
index e5f780e..2fd0c50 100644
--- a/c/libixcom/src/decode.c
+++ b/c/libixcom/src/decode.c
@@ -143,6 +143,10 @@ ixcom_rc ixcom_decode_imuraw(const uint8_t buff[], XCOMmsg_IMURAW *msg_imuraw) {
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_imuraw->header.msg_len != sizeof(*msg_imuraw)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   for (int i = 0; i < 3; i++) {
     // clang-format off
     byte_offset += ixcom_set_bytes(
@@ -185,6 +189,10 @@ ixcom_rc ixcom_decode_wheeldata(const uint8_t buff[],
     return IXCOM_RC_INVALID_MESSAGE;
   }
 
+  if (msg_wheeldata->header.msg_len != sizeof(*msg_wheeldata)) {
+    return IXCOM_RC_INVALID_MESSAGE;
+  }
+
   // clang-format off
   byte_offset += ixcom_set_bytes(
       buff + byte_offset, (uint8_t *)(&msg_wheeldata->speed), 4);
-- 
2.43.0


From b6522254199f0ea7e931d611d75553dccaa96bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:51 +0000
Subject: [PATCH 15/18] fix: refuse codes without an MSM signal id in
 msm_add_to_header and msm_add_to_cell_mask

---
 c/gnss_converters/src/rtcm3_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/rtcm3_utils.c b/c/gnss_converters/src/rtcm3_utils.c
index ec2a750..ac1db26 100644
--- a/c/gnss_converters/src/rtcm3_utils.c
+++ b/c/gnss_converters/src/rtcm3_utils.c
@@ -634,6 +634,10 @@ bool msm_add_to_header(rtcm_msm_header *header, code_t code, u8 prn) {
 
   u8 sat_id = prn_to_msm_sat_id(prn, cons);
   u8 signal_id = code_to_msm_signal_id(code, cons);
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE) {
+    msm_add_to_header_err(code, prn, "no such signal in MSM");
+    return false;
+  }
 
   u8 num_sats = msm_get_num_satellites(header);
   u8 num_signals = msm_get_num_signals(header);
@@ -687,7 +691,7 @@ bool msm_add_to_cell_mask(rtcm_msm_header *header, code_t code, u8 prn) {
   }
 
   u8 signal_id = code_to_msm_signal_id(code, cons);
-  if (!header->signal_mask[signal_id]) {
+  if (signal_id >= MSM_SIGNAL_MASK_SIZE || !header->signal_mask[signal_id]) {
     msm_add_to_header_err(code, prn, "not in signal mask");
     return false;
   }
-- 
2.43.0


From 6b1c925e03f038f6fec4500b68649bfa081ec5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 16/18] fix: NAV-VELECEF speed accuracy is in cm/s, the SBP one
 in mm/s and 16 bit wide

---
 c/gnss_converters/src/ubx_sbp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 64785fa..57e1fe2 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -503,7 +503,11 @@ static int fill_msg_vel_ecef(swiftnav_bytestream_t *buf,
   msg->x = nav_velecef.ecefVX * UBX_NAV_VELECEF_SCALING;
   msg->y = nav_velecef.ecefVY * UBX_NAV_VELECEF_SCALING;
   msg->z = nav_velecef.ecefVZ * UBX_NAV_VELECEF_SCALING;
-  msg->accuracy = nav_velecef.speed_acc;
+  /* bounding u32 -> u16 conversion */
+  msg->accuracy =
+      (u16)(nav_velecef.speed_acc > UINT16_MAX / UBX_NAV_VELECEF_SCALING
+                ? UINT16_MAX
+                : nav_velecef.speed_acc * UBX_NAV_VELECEF_SCALING);
   msg->n_sats = pvt_state.num_sats;
   msg->flags = 0;
   /* Assume either invalid or dead reckoning. Temp. hack */
-- 
2.43.0


From 4292e4152522e3d07cae24bec57bba565d89ac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 17/18] fix: SBAS message time wraps to the previous week
 instead of below zero

---
 c/gnss_converters/src/ubx_sbp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 57e1fe2..2053be4 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -1270,10 +1270,10 @@ static void handle_rxm_sfrbx(struct ubx_sbp_state *state,
     /* Fill in the approximate time of transmission of the start of the SBAS
      * message. The best guess for it we have is the current solution time
      * minus 1 s (length of the message) minus 120 ms (~= 36000km / 3e8m/s). */
-    tow_ms -= 1120;
-    if (tow_ms < 0.0) {
+    if (tow_ms < 1120) {
       tow_ms += WEEK_MS;
     }
+    tow_ms -= 1120;
 
     sbas_decode_subframe(&state->eph_data,
                          tow_ms,
-- 
2.43.0


From f439fe9ae53bd57af0fb8b8bc38d03ce301cfa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 18/18] fix: do not send uninitialised carrier phases and
 Dopplers which do not fit their field

---
 c/gnss_converters/src/ubx_sbp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/gnss_converters/src/ubx_sbp.c b/c/gnss_converters/src/ubx_sbp.c
index 2053be4..8af9ab7 100644
--- a/c/gnss_converters/src/ubx_sbp.c
+++ b/c/gnss_converters/src/ubx_sbp.c
@@ -376,6 +376,7 @@ static int fill_msg_obs(const ubx_rxm_rawx *rxm_rawx,
   *n_obs = rxm_rawx->num_meas;
 
   for (int i = 0; i < *n_obs; i++) {
+    memset(&obs[i], 0, sizeof(obs[i]));
     /* convert units: meter -> 2 cm */
     obs[i].P = (u32)(UBX_SBP_PSEUDORANGE_SCALING * rxm_rawx->pseudorange_m[i]);
     pack_carrier_phase(rxm_rawx->carrier_phase_cycles[i], &obs[i].L);
-- 
2.43.0

