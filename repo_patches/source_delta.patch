From edd56632ea52d06da07b219216c293873d8a56a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:49 +0000
Subject: [PATCH 01/18] fix: send_sysex8 chooses complete or start packet by
 the bytes actually sent

The manufacturer ID takes two bytes in SysEx8 packets, but the packet format
was chosen by total_data_size() which counts one or three. Messages with a one
byte ID and 12 data bytes were sent as complete + end, messages with a three
byte ID and 11 data bytes as a single start packet.
---
 inc/midi/sysex.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..65e9ea2 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -365,8 +365,10 @@ void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&&
     constexpr size_t max_payload_size = 13;
 
     // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
-                                                           : make_sysex8_start_packet(stream_id, group);
+    constexpr size_t manufacturer_id_size = 2; // always two bytes in sysex8
+    auto             p                    = (manufacturer_id_size + sysex.data.size() <= max_payload_size)
+                                              ? make_sysex8_complete_packet(stream_id, group)
+                                              : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
     if (sysex.manufacturerID & 0x00FFFF)
-- 
2.43.0


From ebb9e056024945262c31c63ee542042aa916ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:49 +0000
Subject: [PATCH 02/18] fix: send_sysex7 chooses complete or start packet by
 the bytes actually sent

A SysEx with manufacturer ID zero and six data bytes writes seven payload
bytes but was counted as six, and was sent as a complete packet followed by an
end packet.
---
 inc/midi/sysex.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 65e9ea2..4b1ce31 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -312,8 +312,9 @@ void send_sysex7(const sysex7& sysex, group_t group, Sender&& sender)
     constexpr size_t max_payload_size = 6;
 
     // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex7_complete_packet(group)
-                                                           : make_sysex7_start_packet(group);
+    const size_t manufacturer_id_size = (sysex.manufacturerID & 0x00FFFF) ? 3 : 1;
+    auto p = (manufacturer_id_size + sysex.data.size() <= max_payload_size) ? make_sysex7_complete_packet(group)
+                                                                            : make_sysex7_start_packet(group);
 
     // write manufacturerID bytes
     p.add_payload_byte((sysex.manufacturerID >> 16) & 0x7F);
-- 
2.43.0


From 5208a5f5fb19753acae73005aa2fe9748aec1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:16 +0000
Subject: [PATCH 03/18] fix: sysex collectors enforce the data size limit
 exactly and recover from it

The limit was tested against the capacity of the buffer, which may exceed the
limit, and counted manufacturer ID bytes of the packet as data. After an
oversized message the collected data was kept, so when the limit was hit by
the last packet the next message was appended to it.
---
 src/sysex_collector.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..b80472d 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -78,13 +78,6 @@ void sysex7_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -112,6 +105,12 @@ void sysex7_collector::feed(const universal_packet& p)
             m_manufacturerIDBytesRead = 3;
             break;
         default:
+            if (m_max_sysex_data_size && (m_sysex7.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex7.data.push_back(byte);
             break;
@@ -197,13 +196,6 @@ void sysex8_collector::feed(const universal_packet& p)
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -236,6 +228,12 @@ void sysex8_collector::feed(const universal_packet& p)
             m_manufacturer_id_state = done;
             break;
         default:
+            if (m_max_sysex_data_size && (m_sysex8.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
             // collect data
             m_sysex8.data.push_back(byte);
             break;
-- 
2.43.0


From 45670c4f5fecc7df5ff68d670984aea13201a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:10 +0000
Subject: [PATCH 04/18] fix: MIDI 2 channel voice view returns the full 8 bit
 attribute / index field

---
 inc/midi/midi2_channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/midi2_channel_voice_message.h b/inc/midi/midi2_channel_voice_message.h
index ffd4d74..d98ff4c 100644
--- a/inc/midi/midi2_channel_voice_message.h
+++ b/inc/midi/midi2_channel_voice_message.h
@@ -92,7 +92,7 @@ struct midi2_channel_voice_message_view
     constexpr status_t  status() const { return p.status() & 0xF0; }
     constexpr channel_t channel() const { return p.status() & 0x0F; }
     constexpr uint7_t   byte3() const { return p.byte3() & 0x7F; }
-    constexpr uint7_t   byte4() const { return p.byte4() & 0x7F; }
+    constexpr uint8_t   byte4() const { return p.byte4(); }
     constexpr uint32_t  data() const { return p.data[1]; }
 
   private:
-- 
2.43.0


From d4232bb10eaf4a2fdc046689375cd91018a6faa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:37 +0000
Subject: [PATCH 05/18] fix: protocol agnostic accessors read MIDI 1 data bytes
 as 7 bit values

---
 inc/midi/channel_voice_message.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/midi/channel_voice_message.h b/inc/midi/channel_voice_message.h
index 545f659..3b8945c 100644
--- a/inc/midi/channel_voice_message.h
+++ b/inc/midi/channel_voice_message.h
@@ -83,7 +83,7 @@ constexpr bool is_note_on_message(const universal_packet& p)
     if (is_channel_voice_message_with_status(p, 0x90))
     {
         // MIDI 1 Note On with velocity 0 is Note Off
-        return (p.type() == packet_type::midi2_channel_voice) || (p.byte4() != 0);
+        return (p.type() == packet_type::midi2_channel_voice) || ((p.byte4() & 0x7F) != 0);
     }
 
     return false;
@@ -97,7 +97,8 @@ constexpr bool is_note_off_message(const universal_packet& p)
         return true;
 
     // MIDI 1 Note On with velocity 0 is Note Off
-    return (p.type() == packet_type::midi1_channel_voice) && ((p.status() & 0xF0) == 0x90) && (p.byte4() == 0);
+    return (p.type() == packet_type::midi1_channel_voice) && ((p.status() & 0xF0) == 0x90) &&
+           ((p.byte4() & 0x7F) == 0);
 }
 
 //--------------------------------------------------------------------------
@@ -134,7 +135,8 @@ constexpr velocity get_note_velocity(const universal_packet& p)
         return velocity{ uint16_t(p.data[1] >> 16) };
 
     // MIDI 1 Note On with velocity 0 is Note Off with velocity 64
-    if ((p.type() == packet_type::midi1_channel_voice) && ((p.status() & 0xF0) == 0x90) && (p.byte4() == 0))
+    if ((p.type() == packet_type::midi1_channel_voice) && ((p.status() & 0xF0) == 0x90) &&
+        ((p.byte4() & 0x7F) == 0))
         return velocity{ uint7_t{ 64 } };
 
     return velocity{ uint7_t(p.byte4() & 0x7F) };
@@ -241,7 +243,7 @@ constexpr pitch_bend get_channel_pitch_bend_value(const universal_packet& p)
     // assert(is_channel_pitch_bend_message(p));
     if (p.type() == packet_type::midi1_channel_voice)
     {
-        return pitch_bend{ uint14_t(p.byte3() | (p.byte4() << 7)) };
+        return pitch_bend{ uint14_t((p.byte3() & 0x7F) | ((p.byte4() & 0x7F) << 7)) };
     }
     return pitch_bend{ p.data[1] };
 }
-- 
2.43.0


From 20d4f317af41a255f016dc34306d1caa8b5b8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:50 +0000
Subject: [PATCH 06/18] fix: reading a packet from a text stream fails when
 words are missing at the end of the input

---
 src/universal_packet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..3e9d997 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -72,13 +72,13 @@ std::istream& operator>>(std::istream& in, universal_packet& p)
 {
     iobase_restore_flags flag_restorer(in);
     in >> std::hex >> p.data[0];
-    if (in.good())
+    if (!in.fail())
     {
         const auto num_words = p.size();
         for (auto w = 1u; w < num_words; ++w)
         {
             in >> std::hex >> p.data[w];
-            if (!in.good())
+            if (in.fail())
                 break;
         }
     }
-- 
2.43.0


From e724fd784d93d9bb3635e50bb8f78b339e6aaa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:42 +0000
Subject: [PATCH 07/18] fix: stream message names are UTF-8, do not strip the
 high bit when reading them

---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..39eddf0 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From bc280ea019339bbf2586efc8138d273a792bd38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:29 +0000
Subject: [PATCH 08/18] fix: function block info messages can span all 16
 groups

---
 inc/midi/stream_message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 39eddf0..a181c86 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -619,7 +619,7 @@ constexpr stream_message make_function_block_info_message(uint7_t function_block
     m.set_byte(2, 0x80u | (function_block & 0x1F));
     m.set_byte(3, ((direction & 0x03u) << 4) | (direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     return m;
 }
 
@@ -640,7 +640,7 @@ constexpr stream_message make_function_block_info_message(uint7_t
                (((options.ui_hint ? options.ui_hint : options.direction) & 0x03u) << 4) |
                  ((options.midi1 & 0x03u) << 2) | (options.direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     m.set_byte(6, options.ci_message_version);
     m.set_byte(7, options.max_num_sysex8_streams);
     return m;
-- 
2.43.0


From 924bdcb1d1d3fc42f8af65b4c522ec2353309078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:03 +0000
Subject: [PATCH 09/18] fix: discovery views do not read the version of
 messages too short to have one

---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From da594b519388aa9a926d88603da8eccb95d6c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:15 +0000
Subject: [PATCH 10/18] fix: profile specific data of 64 KiB and more is not
 truncated

---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From 4739411f6e091e80f36297d9d15ba47770cd69d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:23 +0000
Subject: [PATCH 11/18] fix: header options without a valid JSON integer are
 emitted as strings

---
 src/capability_inquiry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..d332b5b 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,10 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        if (s.empty() || ((s.size() > 1) && (s[0] == '0')))
+            return false; // not a valid JSON number
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From 04207f6b277c67eed803d3afa0b9a48922b873ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:12 +0000
Subject: [PATCH 12/18] fix: poly mode off is controller 126 (mono mode on)

---
 inc/midi/universal_packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/universal_packet.h b/inc/midi/universal_packet.h
index e9fc308..1d7d191 100644
--- a/inc/midi/universal_packet.h
+++ b/inc/midi/universal_packet.h
@@ -258,7 +258,7 @@ namespace control_change {
     constexpr controller_t omni_mode_off         = 124;
     constexpr controller_t omni_mode_on          = 125;
     constexpr controller_t mono_mode_on          = 126;
-    constexpr controller_t poly_mode_off         = 127;
+    constexpr controller_t poly_mode_off         = 126;
     constexpr controller_t mono_mode_off         = 127;
     constexpr controller_t poly_mode_on          = 127;
 } // namespace control_change
-- 
2.43.0


From 7bc6f9d404866013a68d4630a63e306b6dca2e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:12 +0000
Subject: [PATCH 13/18] fix: the manufacturer id of Akai is 47H

---
 inc/midi/manufacturer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/manufacturer.h b/inc/midi/manufacturer.h
index c7360cb..0222596 100644
--- a/inc/midi/manufacturer.h
+++ b/inc/midi/manufacturer.h
@@ -57,7 +57,7 @@ namespace manufacturer {
     constexpr manufacturer_t korg                = 0x420000;
     constexpr manufacturer_t yamaha              = 0x430000;
     constexpr manufacturer_t casio               = 0x440000;
-    constexpr manufacturer_t akai                = 0x450000;
+    constexpr manufacturer_t akai                = 0x470000;
     constexpr manufacturer_t fujitsu             = 0x4B0000;
     constexpr manufacturer_t sony                = 0x4C0000;
     constexpr manufacturer_t teac                = 0x4E0000;
-- 
2.43.0


From 12fb02647f9864fdc561a8ad1ce3fd5529a0d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:40 +0000
Subject: [PATCH 14/18] fix: packets are written as text independent of the
 stream's alignment and base settings

---
 src/universal_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 3e9d997..e56209a 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -61,7 +61,7 @@ std::ostream& operator<<(std::ostream& out, const universal_packet& p)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];
+        out << std::hex << std::noshowbase << std::right << std::setfill('0') << std::setw(8) << p.data[w];
     }
     return out;
 }
-- 
2.43.0


From 36eaffa63cfb3d8ac4292ce3e439374306d6ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 06:30:06 +0000
Subject: [PATCH 15/18] fix: a JR clock received at the instant the follower
 was created counts as a clock

---
 inc/midi/jitter_reduction_timestamps.h | 1 +
 src/jitter_reduction_timestamps.cpp    | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/inc/midi/jitter_reduction_timestamps.h b/inc/midi/jitter_reduction_timestamps.h
index 7c3d04f..fe899ad 100644
--- a/inc/midi/jitter_reduction_timestamps.h
+++ b/inc/midi/jitter_reduction_timestamps.h
@@ -166,6 +166,7 @@ class jr_clock_follower
   private:
     const system_clock::time_point zero = system_clock::now();
 
+    bool           m_clock_valid{ false }; //!< has a jr clock been received?
     jr_timestamp_t m_clock_ts{ 0 };        //!< last jr clock timestamp
     time_point     m_clock_time{ zero };   //!< jitter-reduced send time of last jr clock
     time_point     m_message_time{ zero }; //!< schedule time of last message
diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..86a8c8d 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -46,6 +46,7 @@ jr_timestamp_t jr_clock::now()
 
 void jr_clock_follower::reset()
 {
+    m_clock_valid     = false;
     m_clock_ts        = {};
     m_clock_time      = zero;
     m_message_time    = zero;
@@ -65,8 +66,9 @@ void jr_clock_follower::set_security_offset(duration offset)
 //! update clock statistics with received jr clock timestamp
 void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_timestamp)
 {
-    if (m_clock_time == zero)
+    if (!m_clock_valid)
     {
+        m_clock_valid  = true;
         m_clock_time   = received;
         m_clock_ts     = jr_timestamp;
         m_message_time = received;
@@ -105,7 +107,7 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
 //! calculate the scheduled process time for a jr timestamp
 jr_clock_follower::time_point jr_clock_follower::schedule_message(time_point received, jr_timestamp_t jr_timestamp)
 {
-    if (m_clock_time != zero)
+    if (m_clock_valid)
     {
         const auto diff_ts               = jr_timestamp - m_clock_ts;
         const auto system_clock_duration = std::chrono::duration_cast<system_clock::duration>(diff_ts);
-- 
2.43.0


From c3b0f215888681beed999eeff2ffc392563315d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:47 +0000
Subject: [PATCH 16/18] fix: parser keeps its state when a SysEx packet
 callback throws or resets it

---
 src/midi1_byte_stream.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/midi1_byte_stream.cpp b/src/midi1_byte_stream.cpp
index 5c4bf9d..ef9e64c 100644
--- a/src/midi1_byte_stream.cpp
+++ b/src/midi1_byte_stream.cpp
@@ -314,14 +314,17 @@ void midi1_byte_stream_parser::sysex_continue_packet(uint8_t byte)
     m_packet.set_byte(m_packet_byte, byte);
     if (++m_packet_byte == 8)
     {
-        if (m_invoke_callbacks)
-        {
-            m_packet.set_byte(1, (m_packet.status() & 0xF0) + 6);
-            m_packet_callback(m_packet);
-        }
+        auto packet = m_packet;
+        packet.set_byte(1, (packet.status() & 0xF0) + 6);
 
+        // proceed before posting the packet, the callback might reset the parser or throw
         m_packet      = make_sysex7_continue_packet(m_group);
         m_packet_byte = 2;
+
+        if (m_invoke_callbacks)
+        {
+            m_packet_callback(packet);
+        }
     }
 }
 
@@ -348,13 +351,15 @@ void midi1_byte_stream_parser::sysex_end_packet()
         m_packet.set_byte(1, data_status::sysex7_end + cur_packet_size);
     }
 
+    // proceed before posting the packet, the callback might reset the parser or throw
+    const auto packet = m_packet;
+    m_packet          = universal_packet{};
+    m_packet_byte     = 2;
+
     if (m_invoke_callbacks)
     {
-        m_packet_callback(m_packet);
+        m_packet_callback(packet);
     }
-
-    m_packet      = universal_packet{};
-    m_packet_byte = 2;
 }
 
 //--------------------------------------------------------------------------
-- 
2.43.0


From 16b289f0af3e8c7b94fed8e14f903d14a5c1c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:47 +0000
Subject: [PATCH 17/18] fix: collectors drop a message when its callback or an
 allocation throws

---
 src/sysex_collector.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index b80472d..67de6f9 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -32,6 +32,31 @@ namespace midi {
 
 //--------------------------------------------------------------------------
 
+namespace {
+    //! resets the collector on exit, also if the callback or an allocation throws
+    template<typename Collector>
+    struct reset_guard
+    {
+        explicit reset_guard(Collector& c)
+          : collector(&c)
+        {
+        }
+        reset_guard(const reset_guard&)            = delete;
+        reset_guard& operator=(const reset_guard&) = delete;
+        ~reset_guard()
+        {
+            if (collector)
+                collector->reset();
+        }
+
+        void dismiss() { collector = nullptr; }
+
+        Collector* collector;
+    };
+} // namespace
+
+//--------------------------------------------------------------------------
+
 void sysex7_collector::set_max_sysex_data_size(size_t s)
 {
     if ((m_max_sysex_data_size = s))
@@ -68,6 +93,8 @@ void sysex7_collector::feed(const universal_packet& p)
         }
     }
 
+    reset_guard guard{ *this };
+
     const auto numBytes = m.payload_size();
     if (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity())
     {
@@ -108,7 +135,6 @@ void sysex7_collector::feed(const universal_packet& p)
             if (m_max_sysex_data_size && (m_sysex7.data.size() >= m_max_sysex_data_size))
             {
                 // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-                reset();
                 return;
             }
             // collect data
@@ -125,9 +151,9 @@ void sysex7_collector::feed(const universal_packet& p)
         {
             m_cb(m_sysex7);
         }
-        reset();
         break;
     default:
+        guard.dismiss();
         m_state = data_status::sysex7_continue;
         break;
     }
@@ -186,6 +212,8 @@ void sysex8_collector::feed(const universal_packet& p)
         }
     }
 
+    reset_guard guard{ *this };
+
     const auto numBytes = m.payload_size();
     if (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity())
     {
@@ -231,7 +259,6 @@ void sysex8_collector::feed(const universal_packet& p)
             if (m_max_sysex_data_size && (m_sysex8.data.size() >= m_max_sysex_data_size))
             {
                 // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-                reset();
                 return;
             }
             // collect data
@@ -248,9 +275,9 @@ void sysex8_collector::feed(const universal_packet& p)
         {
             m_cb(m_sysex8, m_stream_id);
         }
-        reset();
         break;
     default:
+        guard.dismiss();
         m_state = packet_format::cont;
         break;
     }
-- 
2.43.0


From 24b6942fb65254c640a460ae19a83d6b9e873c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:47 +0000
Subject: [PATCH 18/18] fix: parser drops a SysEx message with missing data
 when running out of memory

---
 src/midi1_byte_stream.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/midi1_byte_stream.cpp b/src/midi1_byte_stream.cpp
index ef9e64c..27f917e 100644
--- a/src/midi1_byte_stream.cpp
+++ b/src/midi1_byte_stream.cpp
@@ -276,6 +276,10 @@ void midi1_byte_stream_parser::sysex_continue_callback(uint8_t byte)
         break;
     }
 
+    // skip the rest of the message if running out of memory
+    const auto packet_byte = m_packet_byte;
+    m_packet_byte          = 0;
+
     // resize necessary?
     if (m_sysex.data.size() == m_sysex.data.capacity())
     {
@@ -284,6 +288,8 @@ void midi1_byte_stream_parser::sysex_continue_callback(uint8_t byte)
 
     // collect the data
     m_sysex.data.push_back(byte);
+
+    m_packet_byte = packet_byte;
 }
 
 //--------------------------------------------------------------------------
@@ -292,9 +298,9 @@ void midi1_byte_stream_parser::sysex_end_callback()
 {
     m_packet = universal_packet{};
 
-    if (((m_sysex.manufacturerID & 0xFF0000) == 0) && (m_packet_byte < 5))
+    if (m_packet_byte < (((m_sysex.manufacturerID & 0xFF0000) == 0) ? 5 : 3))
     {
-        // incomplete three byte manufacturer, invalid
+        // skipped or incomplete manufacturer, invalid
         return;
     }
 
-- 
2.43.0

