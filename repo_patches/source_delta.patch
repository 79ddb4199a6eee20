From e022a73133543fc8aee6ffba27fb1f8956d15f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:44 +0000
Subject: [PATCH 01/14] fix: avoid signed overflow in pitch_increment(double)
 for values that round to -64

---
 inc/midi/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index b5f9457..6ba8824 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -645,7 +645,7 @@ constexpr pitch_increment::pitch_increment(double d)
     }
     else
     {
-        value = -static_cast<int32_t>(pitch_7_25(-d).value);
+        value = static_cast<int32_t>(-static_cast<int64_t>(pitch_7_25(-d).value));
     }
 }
 
-- 
2.43.0


From 78320871dd84c6f334b4c25dc4d22e5646e8092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:25 +0000
Subject: [PATCH 02/14] fix: mask MIDI 1 data bytes in
 get_channel_pitch_bend_value

The other MIDI 1 getters mask the data bytes to 7 bit; without it a packet
with a set top bit yields a value outside of 14 bit, which overflows the
upscaling into an unrelated bend.
---
 inc/midi/channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/channel_voice_message.h b/inc/midi/channel_voice_message.h
index 545f659..4464d0c 100644
--- a/inc/midi/channel_voice_message.h
+++ b/inc/midi/channel_voice_message.h
@@ -241,7 +241,7 @@ constexpr pitch_bend get_channel_pitch_bend_value(const universal_packet& p)
     // assert(is_channel_pitch_bend_message(p));
     if (p.type() == packet_type::midi1_channel_voice)
     {
-        return pitch_bend{ uint14_t(p.byte3() | (p.byte4() << 7)) };
+        return pitch_bend{ uint14_t((p.byte3() & 0x7F) | ((p.byte4() & 0x7F) << 7)) };
     }
     return pitch_bend{ p.data[1] };
 }
-- 
2.43.0


From 2301af17270a49142ba1a580a858f2340048961d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:34 +0000
Subject: [PATCH 03/14] fix: read endpoint and function block names as 8-bit
 UTF-8

make_endpoint_name_message/make_function_block_name_message write all 8 bits
of each character, but the views masked them to 7 bit, so any non-ASCII UTF-8
name came back corrupted.
---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..39eddf0 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From 4b0764664f704e162759c0ab487605eba7a9c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:16 +0000
Subject: [PATCH 04/14] fix: sysex collectors: apply the data size limit to
 data bytes and drop over-limit messages completely

The limit was compared with the capacity of the data vector, so it was not
enforced when the vector already had a larger capacity, and the manufacturer
ID bytes of the first packet counted towards it. When the limit was exceeded
the partial data and manufacturer ID were kept and corrupted the next message.
---
 src/sysex_collector.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..cc887f0 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -68,23 +68,17 @@ void sysex7_collector::feed(const universal_packet& p)
         }
     }
 
+    const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
+
     const auto numBytes = m.payload_size();
     if (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
         if (limited_sysex_data_size)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -112,6 +106,12 @@ void sysex7_collector::feed(const universal_packet& p)
             m_manufacturerIDBytesRead = 3;
             break;
         default:
+            if (limited_sysex_data_size && (m_sysex7.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex7.data.push_back(byte);
             break;
@@ -187,23 +187,17 @@ void sysex8_collector::feed(const universal_packet& p)
         }
     }
 
+    const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
+
     const auto numBytes = m.payload_size();
     if (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
         if (limited_sysex_data_size)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -236,6 +230,12 @@ void sysex8_collector::feed(const universal_packet& p)
             m_manufacturer_id_state = done;
             break;
         default:
+            if (limited_sysex_data_size && (m_sysex8.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex8.data.push_back(byte);
             break;
-- 
2.43.0


From 73a9c4b8de5012eb5c3b23e9e43fe31e7a503081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:21 +0000
Subject: [PATCH 05/14] fix: send_sysex8: count two manufacturer ID bytes when
 choosing complete or start packet

A 1-byte ID with 12 data bytes was sent as a complete packet followed by a
stray end packet, a 3-byte ID with 11 data bytes as a start packet only.
---
 inc/midi/sysex.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..ef7e362 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -362,11 +362,13 @@ inline std::vector<data_message> as_sysex7_packets(const sysex7& sysex, group_t
 template<typename Sender>
 void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&& sender)
 {
-    constexpr size_t max_payload_size = 13;
+    constexpr size_t max_payload_size      = 13;
+    constexpr size_t manufacturer_id_bytes = 2; // in sysex8 packets every manufacturerID takes two bytes
 
     // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
-                                                           : make_sysex8_start_packet(stream_id, group);
+    auto p = (sysex.data.size() + manufacturer_id_bytes <= max_payload_size)
+               ? make_sysex8_complete_packet(stream_id, group)
+               : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
     if (sysex.manufacturerID & 0x00FFFF)
-- 
2.43.0


From 5c10e12917c2e952f8ead0114ca875e200b9cde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:28 +0000
Subject: [PATCH 06/14] fix: check the message size before reading the version
 in discovery message validation

---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From 35569f4a78053b35f63f51efd2b4fde598543926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:58 +0000
Subject: [PATCH 07/14] fix: do not truncate the size of profile specific data
 to 16 bits

---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From e493033b65645a93a5481994d4df32e003c147f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:10 +0000
Subject: [PATCH 08/14] fix: quote property exchange option values that are not
 JSON numbers

An empty value was read out of bounds and, like a lone minus sign or digits
with leading zeros, written unquoted, which gave malformed JSON.
---
 src/capability_inquiry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..af20721 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,10 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        if (s.empty() || ((s[0] == '0') && (s.size() > 1)))
+            return false; // JSON numbers need at least one digit and have no leading zeros
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From ad81af6b9fee39f009af428b22dcdf549b965e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:07 +0000
Subject: [PATCH 09/14] fix: jr_clock_follower: never move the time of the last
 message backwards when a clock arrives

---
 src/jitter_reduction_timestamps.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..f18ac10 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -86,15 +86,14 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
     {
         // use received as new reference time
         m_clock_time = received;
-
-        if (received > m_message_time) // ensure that message order is preserved
-        {
-            m_message_time = received;
-        }
     }
     else
     {
-        m_clock_time   = expected_receive_time;
+        m_clock_time = expected_receive_time;
+    }
+
+    if (received > m_message_time) // ensure that message order is preserved
+    {
         m_message_time = received;
     }
 
-- 
2.43.0


From 50bf3254e13275a322a5f058f00b103ff8ae64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:04 +0000
Subject: [PATCH 10/14] fix: restore the fill character of the stream after
 writing a packet

---
 src/universal_packet.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..dda4078 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -49,6 +49,19 @@ namespace {
         std::ios_base::fmtflags flags = strm.flags();
     };
 
+    struct ostream_restore_fill
+    {
+        explicit ostream_restore_fill(std::ostream& strm)
+          : strm(strm)
+        {
+        }
+
+        ~ostream_restore_fill() { strm.fill(fill); }
+
+        std::ostream& strm;
+        char          fill = strm.fill();
+    };
+
 } // namespace
 
 //--------------------------------------------------------------------------
@@ -56,6 +69,7 @@ namespace {
 std::ostream& operator<<(std::ostream& out, const universal_packet& p)
 {
     iobase_restore_flags flag_restorer(out);
+    ostream_restore_fill fill_restorer(out);
 
     for (auto w = 0u; w < p.size(); ++w)
     {
-- 
2.43.0


From 92ddd62788f5c6ba34cf5f9de65793d9d9ffb40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:30 +0000
Subject: [PATCH 11/14] fix: report a failure when a packet is truncated in a
 text stream

---
 src/universal_packet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index dda4078..4492813 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -86,13 +86,13 @@ std::istream& operator>>(std::istream& in, universal_packet& p)
 {
     iobase_restore_flags flag_restorer(in);
     in >> std::hex >> p.data[0];
-    if (in.good())
+    if (!in.fail())
     {
         const auto num_words = p.size();
         for (auto w = 1u; w < num_words; ++w)
         {
             in >> std::hex >> p.data[w];
-            if (!in.good())
+            if (in.fail())
                 break;
         }
     }
-- 
2.43.0


From b38fb0d507aa88bb9b780b59f57f906363d78213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:09 +0000
Subject: [PATCH 12/14] fix: Akai's manufacturer id is 0x47

---
 inc/midi/manufacturer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/manufacturer.h b/inc/midi/manufacturer.h
index c7360cb..0222596 100644
--- a/inc/midi/manufacturer.h
+++ b/inc/midi/manufacturer.h
@@ -57,7 +57,7 @@ namespace manufacturer {
     constexpr manufacturer_t korg                = 0x420000;
     constexpr manufacturer_t yamaha              = 0x430000;
     constexpr manufacturer_t casio               = 0x440000;
-    constexpr manufacturer_t akai                = 0x450000;
+    constexpr manufacturer_t akai                = 0x470000;
     constexpr manufacturer_t fujitsu             = 0x4B0000;
     constexpr manufacturer_t sony                = 0x4C0000;
     constexpr manufacturer_t teac                = 0x4E0000;
-- 
2.43.0


From 0229eda429301c1bec80012cddd7fea2997a6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:09 +0000
Subject: [PATCH 13/14] fix: poly mode off is the mono mode on message,
 controller 126

---
 inc/midi/universal_packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/universal_packet.h b/inc/midi/universal_packet.h
index e9fc308..1d7d191 100644
--- a/inc/midi/universal_packet.h
+++ b/inc/midi/universal_packet.h
@@ -258,7 +258,7 @@ namespace control_change {
     constexpr controller_t omni_mode_off         = 124;
     constexpr controller_t omni_mode_on          = 125;
     constexpr controller_t mono_mode_on          = 126;
-    constexpr controller_t poly_mode_off         = 127;
+    constexpr controller_t poly_mode_off         = 126;
     constexpr controller_t mono_mode_off         = 127;
     constexpr controller_t poly_mode_on          = 127;
 } // namespace control_change
-- 
2.43.0


From 714456099ce57213df76a5f5a4c7ec1ca1df1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:16 +0000
Subject: [PATCH 14/14] fix: MIDI 2 channel voice view keeps all 8 bits of byte
 4

Per-note controller indices and note attribute types are 8 bit wide. The
view dropped the top bit, and as_midi1_channel_voice_message() therefore
translated notes with an attribute type of 0x80 as if they had none.
---
 inc/midi/midi2_channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/midi2_channel_voice_message.h b/inc/midi/midi2_channel_voice_message.h
index ffd4d74..95904d3 100644
--- a/inc/midi/midi2_channel_voice_message.h
+++ b/inc/midi/midi2_channel_voice_message.h
@@ -92,7 +92,7 @@ struct midi2_channel_voice_message_view
     constexpr status_t  status() const { return p.status() & 0xF0; }
     constexpr channel_t channel() const { return p.status() & 0x0F; }
     constexpr uint7_t   byte3() const { return p.byte3() & 0x7F; }
-    constexpr uint7_t   byte4() const { return p.byte4() & 0x7F; }
+    constexpr uint8_t   byte4() const { return p.byte4(); } // 8 bit, e.g. per-note controller index
     constexpr uint32_t  data() const { return p.data[1]; }
 
   private:
-- 
2.43.0

