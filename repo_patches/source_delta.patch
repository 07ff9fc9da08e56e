From ff133e527579a9ca707c6dba87380aec4447b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:57 +0000
Subject: [PATCH 01/13] fix: read UTF-8 text of stream messages back without
 clearing bit 7

Endpoint and function block names are written as 8 bit UTF-8 bytes but were
read back masked to 7 bits, so every non-ASCII name came back corrupted (and
truncated at a 0x80 byte).
---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..39eddf0 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From 43cc1e9327886842ff91589660c24e6f885bff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:02 +0000
Subject: [PATCH 02/13] fix: avoid signed overflow in pitch_increment(double)
 just above -64

A value that rounds to -64 semitones yields the magnitude 0x80000000, which
was converted to int32_t and then negated (undefined behaviour).
---
 inc/midi/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index b5f9457..6ba8824 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -645,7 +645,7 @@ constexpr pitch_increment::pitch_increment(double d)
     }
     else
     {
-        value = -static_cast<int32_t>(pitch_7_25(-d).value);
+        value = static_cast<int32_t>(-static_cast<int64_t>(pitch_7_25(-d).value));
     }
 }
 
-- 
2.43.0


From dad8a302244b71be8fa0011c1cc13c90dc3f54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 03/13] fix: check the size of discovery messages before
 reading their version byte

---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From 573f248dafb0d6491719eb0c6abc41869ed863a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 04/13] fix: treat empty option values as strings in make_rjson

---
 src/capability_inquiry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..a035064 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,10 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        if (s.empty())
+            return false;
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From 29fe57be2b109f488fcae8e53f4723daca600a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 05/13] fix: do not truncate the size of profile specific data
 to 16 bits

---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From 82671a9b0a7e7c9383a014ec2bdf60468bd257f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 06/13] fix: drop the collected part of a sysex message that
 exceeds the data size limit

---
 src/sysex_collector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..ec8cb23 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -82,7 +82,7 @@ void sysex7_collector::feed(const universal_packet& p)
         if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
         {
             // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
+            reset();
             return;
         }
     }
@@ -201,7 +201,7 @@ void sysex8_collector::feed(const universal_packet& p)
         if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
         {
             // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
+            reset();
             return;
         }
     }
-- 
2.43.0


From e2f65c35327aa10d5142dae2890d91c363bb44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 07/13] fix: apply the sysex collectors' limit to the data
 bytes, not to the vector's capacity

---
 src/sysex_collector.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index ec8cb23..cc0482c 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -78,13 +78,6 @@ void sysex7_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            reset();
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -112,6 +105,13 @@ void sysex7_collector::feed(const universal_packet& p)
             m_manufacturerIDBytesRead = 3;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex7.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
+
             // collect data
             m_sysex7.data.push_back(byte);
             break;
@@ -197,13 +197,6 @@ void sysex8_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            reset();
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -236,6 +229,13 @@ void sysex8_collector::feed(const universal_packet& p)
             m_manufacturer_id_state = done;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex8.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
+
             // collect data
             m_sysex8.data.push_back(byte);
             break;
-- 
2.43.0


From 9dd1bba12cbf0e371a053afd6cee42681c0c1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:30 +0000
Subject: [PATCH 08/13] fix: choose the sysex8 packet format by the number of
 payload bytes actually sent

---
 inc/midi/sysex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..635d36a 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -364,8 +364,8 @@ void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&&
 {
     constexpr size_t max_payload_size = 13;
 
-    // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
+    // initialize first packet, the manufacturerID always takes two bytes
+    auto p = (sysex.data.size() + 2 <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
                                                            : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
-- 
2.43.0


From cdc741f2a25e4c326d46cdf839418f5c9d347c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:14 +0000
Subject: [PATCH 09/13] fix: keep the order of scheduled messages when a late
 clock follows an early one

---
 src/jitter_reduction_timestamps.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..f18ac10 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -86,15 +86,14 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
     {
         // use received as new reference time
         m_clock_time = received;
-
-        if (received > m_message_time) // ensure that message order is preserved
-        {
-            m_message_time = received;
-        }
     }
     else
     {
-        m_clock_time   = expected_receive_time;
+        m_clock_time = expected_receive_time;
+    }
+
+    if (received > m_message_time) // ensure that message order is preserved
+    {
         m_message_time = received;
     }
 
-- 
2.43.0


From 3b814a4d778160f1066428e215184f3e01f3fb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:54 +0000
Subject: [PATCH 10/13] fix: let a function block span all 16 groups

The number of groups spanned was masked with 0xF, so a block covering all
16 groups was announced as spanning none.
---
 inc/midi/stream_message.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 39eddf0..133d759 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -395,11 +395,11 @@ constexpr stream_message make_function_block_discovery_message(uint8_t function_
 constexpr stream_message make_function_block_info_message(uint7_t function_block,
                                                           uint2_t direction,
                                                           group_t first_group,
-                                                          uint4_t num_groups_spanned = 1);
+                                                          uint8_t num_groups_spanned = 1);
 constexpr stream_message make_function_block_info_message(uint7_t function_block,
                                                           const function_block_options&,
                                                           group_t first_group,
-                                                          uint4_t num_groups_spanned = 1);
+                                                          uint8_t num_groups_spanned = 1);
 constexpr stream_message make_function_block_name_message(packet_format,
                                                           uint7_t                 function_block,
                                                           const std::string_view& n);
@@ -611,7 +611,7 @@ constexpr stream_message make_function_block_discovery_message(uint8_t function_
 constexpr stream_message make_function_block_info_message(uint7_t function_block,
                                                           uint4_t direction,
                                                           group_t first_group,
-                                                          uint4_t num_groups_spanned)
+                                                          uint8_t num_groups_spanned)
 {
     assert(function_block < 32);
     assert((direction > 0 && direction < 4));
@@ -619,14 +619,14 @@ constexpr stream_message make_function_block_info_message(uint7_t function_block
     m.set_byte(2, 0x80u | (function_block & 0x1F));
     m.set_byte(3, ((direction & 0x03u) << 4) | (direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     return m;
 }
 
 constexpr stream_message make_function_block_info_message(uint7_t                       function_block,
                                                           const function_block_options& options,
                                                           group_t                       first_group,
-                                                          uint4_t                       num_groups_spanned)
+                                                          uint8_t                       num_groups_spanned)
 {
     assert(function_block < 32);
     assert((options.direction > 0 && options.direction < 4));
@@ -640,7 +640,7 @@ constexpr stream_message make_function_block_info_message(uint7_t
                (((options.ui_hint ? options.ui_hint : options.direction) & 0x03u) << 4) |
                  ((options.midi1 & 0x03u) << 2) | (options.direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     m.set_byte(6, options.ci_message_version);
     m.set_byte(7, options.max_num_sysex8_streams);
     return m;
-- 
2.43.0


From 1c3e8dbebab6d61ff4953d38cb43c17866e8cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:39 +0000
Subject: [PATCH 11/13] fix: packet text output depends on the stream's
 adjustment and leaks the fill character

---
 src/universal_packet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..7668597 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -56,13 +56,16 @@ namespace {
 std::ostream& operator<<(std::ostream& out, const universal_packet& p)
 {
     iobase_restore_flags flag_restorer(out);
+    const auto           fill = out.fill('0');
 
+    out << std::hex << std::right << std::noshowbase;
     for (auto w = 0u; w < p.size(); ++w)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];
+        out << std::setw(8) << p.data[w];
     }
+    out.fill(fill);
     return out;
 }
 
-- 
2.43.0


From 555154f33db9ee26013304c7d3d3e87fec2c5aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:47 +0000
Subject: [PATCH 12/13] fix: packet text that ends before its last word is
 reported as read

---
 src/universal_packet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 7668597..df8ed2b 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -75,13 +75,13 @@ std::istream& operator>>(std::istream& in, universal_packet& p)
 {
     iobase_restore_flags flag_restorer(in);
     in >> std::hex >> p.data[0];
-    if (in.good())
+    if (!in.fail())
     {
         const auto num_words = p.size();
         for (auto w = 1u; w < num_words; ++w)
         {
             in >> std::hex >> p.data[w];
-            if (!in.good())
+            if (in.fail())
                 break;
         }
     }
-- 
2.43.0


From 5390534cfd9aeb3d8d857e8b947066a585e40974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:20 +0000
Subject: [PATCH 13/13] fix: a sysex packet built for a group above 15 changes
 its message type

---
 inc/midi/data_message.h          | 2 +-
 inc/midi/extended_data_message.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/midi/data_message.h b/inc/midi/data_message.h
index 6190561..9f58931 100644
--- a/inc/midi/data_message.h
+++ b/inc/midi/data_message.h
@@ -114,7 +114,7 @@ constexpr data_message::data_message(status_t status)
 constexpr sysex7_packet::sysex7_packet(status_t status, group_t group)
   : data_message(status)
 {
-    set_group(group);
+    set_group(group & 0x0F);
 }
 
 constexpr void sysex7_packet::set_payload_byte(size_t b, uint8_t data)
diff --git a/inc/midi/extended_data_message.h b/inc/midi/extended_data_message.h
index 7196377..0bbd422 100644
--- a/inc/midi/extended_data_message.h
+++ b/inc/midi/extended_data_message.h
@@ -124,7 +124,7 @@ constexpr sysex8_packet::sysex8_packet()
 }
 constexpr sysex8_packet::sysex8_packet(status_t status, uint8_t stream_id, group_t group)
 {
-    data[0] = 0x50010000u | (group << 24) | (status << 16) | (stream_id << 8);
+    data[0] = 0x50010000u | ((group & 0x0Fu) << 24) | (status << 16) | (stream_id << 8);
 }
 
 constexpr void sysex8_packet::set_stream_id(uint8_t i)
-- 
2.43.0

