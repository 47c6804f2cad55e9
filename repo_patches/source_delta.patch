From c2fdccd98c1833b8604049717190a56a4afb6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 01/37] fix: exp-golomb code with 32 leading zeros shifted by
 the width of int

---
 src/bit_reader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bit_reader.cpp b/src/bit_reader.cpp
index 872ecf1..e6d0f30 100644
--- a/src/bit_reader.cpp
+++ b/src/bit_reader.cpp
@@ -1,5 +1,7 @@
 #include "srtc/bit_reader.h"
 
+#include <limits>
+
 namespace srtc
 {
 
@@ -35,9 +37,14 @@ uint32_t BitReader::readUnsignedExpGolomb()
         return 0;
     }
 
+    if (leadingZeros >= 32) {
+        // Not a valid code, and the value does not fit in 32 bits
+        return std::numeric_limits<uint32_t>::max();
+    }
+
     // Read remaining bits
     uint32_t remainingBits = readBits(leadingZeros);
-    return (1 << leadingZeros) - 1 + remainingBits;
+    return (1u << leadingZeros) - 1 + remainingBits;
 }
 
 } // namespace srtc
-- 
2.43.0


From ef5d05b82ddbceabd1260f1b1c00d63180fe86f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 02/37] fix: cumulative rounding drift of RTP timestamps

---
 include/srtc/rtp_time_source.h | 4 ++++
 src/rtp_time_source.cpp        | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/srtc/rtp_time_source.h b/include/srtc/rtp_time_source.h
index 4d74a8e..229ac94 100644
--- a/include/srtc/rtp_time_source.h
+++ b/include/srtc/rtp_time_source.h
@@ -25,6 +25,10 @@ private:
     std::optional<int64_t> mCurrPts;
     std::chrono::steady_clock::time_point mCurrTime;
     uint32_t mCurrRtp;
+
+    // The first frame
+    int64_t mBasePts = 0;
+    uint32_t mBaseRtp;
 };
 
 } // namespace srtc
diff --git a/src/rtp_time_source.cpp b/src/rtp_time_source.cpp
index 5158bfe..7438898 100644
--- a/src/rtp_time_source.cpp
+++ b/src/rtp_time_source.cpp
@@ -9,6 +9,7 @@ RtpTimeSource::RtpTimeSource(uint32_t clockRate)
     , mClockRate(clockRate)
     , mCurrTime(std::chrono::steady_clock::now())
     , mCurrRtp(mRandom.next())
+    , mBaseRtp(mCurrRtp)
 {
 }
 
@@ -17,16 +18,18 @@ RtpTimeSource::~RtpTimeSource() = default;
 uint32_t RtpTimeSource::getFrameTimestamp(int64_t pts)
 {
     if (!mCurrPts.has_value()) {
+        mBasePts = pts;
         mCurrPts = pts;
     }
 
-    const auto elapsed_usec = pts - mCurrPts.value();
-    if (elapsed_usec < 0) {
+    if (pts < mCurrPts.value()) {
         // A client app bug, do something sensible
         return mCurrRtp;
     }
 
-    mCurrRtp += static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
+    // Calculate from the first frame, so that rounding down to RTP units does not accumulate from frame to frame
+    const auto elapsed_usec = pts - mBasePts;
+    mCurrRtp = mBaseRtp + static_cast<uint32_t>(elapsed_usec * mClockRate / 1000000);
     mCurrPts = pts;
     mCurrTime = std::chrono::steady_clock::now();
 
-- 
2.43.0


From be7af08347e5afec4984733ba66eec14e5a7485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 03/37] fix: RTP packets with contributing sources were parsed
 with the CSRC list as payload

---
 src/rtp_packet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rtp_packet.cpp b/src/rtp_packet.cpp
index 36a15ec..261cb97 100644
--- a/src/rtp_packet.cpp
+++ b/src/rtp_packet.cpp
@@ -293,6 +293,13 @@ std::shared_ptr<RtpPacket> RtpPacket::fromUdpPacket(const std::shared_ptr<Track>
     assert((ssrc == track->getSSRC() && payloadId == track->getPayloadId()) ||
            (ssrc == track->getRtxSSRC() && payloadId == track->getRtxPayloadId()));
 
+    // Skip contributing sources
+    const auto csrcSize = ((header >> 8) & 0x0Fu) * 4u;
+    if (reader.remaining() < csrcSize) {
+        return {};
+    }
+    reader.skip(csrcSize);
+
     RtpExtension extension;
 
     if ((header & (1 << 12)) != 0) {
-- 
2.43.0


From 675a8de6f02ca1b37de2e86b41696319544b1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 04/37] fix: padding between RTP header extension elements hid
 the elements after it

---
 src/rtp_extension.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/rtp_extension.cpp b/src/rtp_extension.cpp
index 8f99aab..b136788 100644
--- a/src/rtp_extension.cpp
+++ b/src/rtp_extension.cpp
@@ -152,18 +152,17 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     if (mId == kOneByte) {
-        if (reader.remaining() < 1) {
-            return false;
-        }
-
-        const auto value = reader.readU8();
-        if (value == 0) {
-            // Padding
-            return false;
+        uint8_t value = 0;
+        while (value == 0) {
+            // Skip padding
+            if (reader.remaining() < 1) {
+                return false;
+            }
+            value = reader.readU8();
         }
 
         const auto id = static_cast<uint8_t>(value >> 4);
-        if (id == 0x0Fu) {
+        if (id == 0 || id == 0x0Fu) {
             // Reserved
             return false;
         }
@@ -181,13 +180,16 @@ bool RtpExtension::nextElement(ByteReader& reader, Element& out) const
     }
 
     // Two-byte format
-    if (reader.remaining() < 2) {
-        return false;
+    uint8_t id = 0;
+    while (id == 0) {
+        // Skip padding
+        if (reader.remaining() < 2) {
+            return false;
+        }
+        id = reader.readU8();
     }
 
-    const auto id = reader.readU8();
-    if (id == 0) {
-        // Padding
+    if (reader.remaining() < 1) {
         return false;
     }
 
-- 
2.43.0


From f465c64d8104abf187ac171220b5829f05d82003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 05/37] fix: RTP header extension values over 255 bytes were
 written with a length that did not match

---
 src/rtp_extension_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtp_extension_builder.cpp b/src/rtp_extension_builder.cpp
index 51f63f2..d7afa4c 100644
--- a/src/rtp_extension_builder.cpp
+++ b/src/rtp_extension_builder.cpp
@@ -28,7 +28,7 @@ void RtpExtensionBuilder::addBinaryValue(uint8_t id, const ByteBuffer& buf)
     const auto len = std::min(static_cast<size_t>(255), buf.size());
     mWriter.writeU8(id);
     mWriter.writeU8(static_cast<uint8_t>(len));
-    mWriter.write(buf);
+    mWriter.write(buf.data(), len);
 }
 
 void RtpExtensionBuilder::addU16Value(uint8_t id, uint16_t value)
-- 
2.43.0


From 4162b3ed227d7a3bdc837b9a55935f9557a5a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 06/37] fix: RTCP packet with a zero length field made the
 payload size wrap around

---
 src/rtcp_packet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtcp_packet.cpp b/src/rtcp_packet.cpp
index c2d8ba8..f7f6fef 100644
--- a/src/rtcp_packet.cpp
+++ b/src/rtcp_packet.cpp
@@ -79,7 +79,7 @@ std::list<std::shared_ptr<RtcpPacket>> RtcpPacket::fromUdpPacket(const srtc::Byt
 		const auto ssrc = static_cast<uint32_t>(ptr[4]) << 24 | static_cast<uint32_t>(ptr[5]) << 16 |
 						  static_cast<uint32_t>(ptr[6]) << 8 | static_cast<uint32_t>(ptr[7]);
 
-		if (ptr + len > end) {
+		if (len < 8 || ptr + len > end) {
 			LOG(SRTC_LOG_E, "RTCP packet too small");
 			break;
 		}
-- 
2.43.0


From a34e92f86a35e16ec53b6eddd3bfe092ee07d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 07/37] fix: NAL unit search read past the end of frames
 shorter than a start code

---
 src/codec_h264.cpp | 4 ++--
 src/codec_h265.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/codec_h264.cpp b/src/codec_h264.cpp
index ecf365a..7e5ca8f 100644
--- a/src/codec_h264.cpp
+++ b/src/codec_h264.cpp
@@ -6,7 +6,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -15,7 +15,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
diff --git a/src/codec_h265.cpp b/src/codec_h265.cpp
index 06eb67f..b7519d1 100644
--- a/src/codec_h265.cpp
+++ b/src/codec_h265.cpp
@@ -5,7 +5,7 @@ namespace
 
 bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 4 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
+    if (pos + 4 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 0 && buf[pos + 3] == 1) {
         return true;
     }
 
@@ -14,7 +14,7 @@ bool is_nalu_4(const uint8_t* buf, size_t pos, size_t end)
 
 bool is_nalu_3(const uint8_t* buf, size_t pos, size_t end)
 {
-    if (pos < end - 3 && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
+    if (pos + 3 < end && buf[pos + 0] == 0 && buf[pos + 1] == 0 && buf[pos + 2] == 1) {
         return true;
     }
 
-- 
2.43.0


From 4dc471f2497a6c92918cf4dfef29911c6b0b6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 08/37] fix: AV1 OBU size was checked before its own length
 field was consumed

---
 src/codec_av1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec_av1.cpp b/src/codec_av1.cpp
index 78cb2cf..73420c9 100644
--- a/src/codec_av1.cpp
+++ b/src/codec_av1.cpp
@@ -132,7 +132,7 @@ void ObuParser::parseImpl(const uint8_t* data, size_t size)
     size_t payload_size = size;
     if (has_size) {
         const auto leb128_size = read_leb128(&data, &size);
-        if (leb128_size > payload_size) {
+        if (leb128_size > size) {
             return;
         }
         payload_size = leb128_size;
-- 
2.43.0


From b65a9ef349228b932c7830d1f3ac0b72122a1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 09/37] fix: H264 and H265 fragments without a start
 dereferenced a null pointer

---
 src/depacketizer_h264.cpp | 4 +++-
 src/depacketizer_h265.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 211449b..97a5495 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -101,12 +101,14 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU8(static_cast<uint8_t>(nri | fuNaluType));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 0e677c3..ed51cd6 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -101,12 +101,14 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                         fu_wrt->writeU16(static_cast<uint16_t>((fuType << 9) | (layerId << 3) | temporalId));
                     }
 
-                    if (reader.remaining() > 0) {
+                    if (fu_wrt && reader.remaining() > 0) {
                         fu_wrt->write(packet->payload.data() + reader.position(), reader.remaining());
                     }
 
                     if (fuIsEnd && fu_buf) {
                         extractImpl(out, packet, std::move(*fu_buf));
+                        fu_wrt.reset();
+                        fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
-- 
2.43.0


From 259032de6d7be2b7c6b49db735e1a43a12be8fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 10/37] fix: H265 frame start search read unit contents as the
 next unit of an aggregation packet

---
 src/depacketizer_h265.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index ed51cd6..5fe8f4b 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -138,6 +138,8 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
                     if (size > 2 && isFrameStartImpl(static_cast<uint8_t>(apNaluType), apData + 2, size - 2)) {
                         return true;
                     }
+
+                    reader.skip(size);
                 } else {
                     break;
                 }
-- 
2.43.0


From 4dcf619413c5ae6509654cfe20162b481b0a2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 11/37] fix: AV1 depacketizer joined units after a continued
 one and read past one-byte units

---
 src/depacketizer_av1.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 58274a0..1dc3e3d 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -65,10 +65,11 @@ void BufferedObu::flushTo(srtc::ByteWriter& out)
         out.writeLEB128(static_cast<uint32_t>(mBuf.size()));
         out.write(mBuf);
 
-        mBuf.clear();
         mHeader = 0;
         mExtension = 0;
     }
+
+    mBuf.clear();
 }
 
 } // namespace
@@ -125,7 +126,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                 }
 
                 if (reader.remaining() >= obuSize && obuSize > 0) {
-                    if (!valueZ) {
+                    if (!valueZ || obuIndex > 0) {
                         // Start of a new OBU
                         bufferedObu.flushTo(w);
 
@@ -135,7 +136,7 @@ void DepacketizerAV1::extract(std::vector<ByteBuffer>& out, const std::vector<co
                         const auto obuHasExtension = (obuHeader >> 2) & 0x01;
 
                         bufferedObu.setHeader(obuHeader);
-                        if (obuHasExtension && reader.remaining() >= 1) {
+                        if (obuHasExtension && obuSize >= 1) {
                             const auto obuExtension = reader.readU8();
                             obuSize -= 1;
 
-- 
2.43.0


From 16e6ca17016093a84ca369a1d8915ef3b2c51d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 12/37] fix: AV1 frame start search skipped past the end of the
 packet

---
 src/depacketizer_av1.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/depacketizer_av1.cpp b/src/depacketizer_av1.cpp
index 1dc3e3d..e42c369 100644
--- a/src/depacketizer_av1.cpp
+++ b/src/depacketizer_av1.cpp
@@ -214,6 +214,9 @@ bool DepacketizerAV1::isFrameStart(const ByteBuffer& payload) const
             }
 
             // Advance
+            if (obuSize > reader.remaining()) {
+                break;
+            }
             reader.skip(obuSize);
             obuIndex += 1;
         }
-- 
2.43.0


From 416eae72515a0bafd5d50cbc624d504557a346bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 13/37] fix: units aggregated in one packet with the marker
 were returned as separate frames

---
 include/srtc/depacketizer_h264.h |  2 +-
 include/srtc/depacketizer_h265.h |  2 +-
 src/depacketizer_h264.cpp        | 24 ++++++++++++++----------
 src/depacketizer_h265.cpp        | 24 ++++++++++++++----------
 4 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/include/srtc/depacketizer_h264.h b/include/srtc/depacketizer_h264.h
index c20ce6a..b78a1e0 100644
--- a/include/srtc/depacketizer_h264.h
+++ b/include/srtc/depacketizer_h264.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    [[nodiscard]] bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/include/srtc/depacketizer_h265.h b/include/srtc/depacketizer_h265.h
index 941f89c..2cac0f1 100644
--- a/include/srtc/depacketizer_h265.h
+++ b/include/srtc/depacketizer_h265.h
@@ -24,7 +24,7 @@ private:
     ByteBuffer mFrameBuffer;
     uint64_t mLastRtpTimestamp;
 
-    void extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu);
+    [[nodiscard]] bool extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu);
 };
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h264.cpp b/src/depacketizer_h264.cpp
index 97a5495..bd7b09b 100644
--- a/src/depacketizer_h264.cpp
+++ b/src/depacketizer_h264.cpp
@@ -66,6 +66,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
 
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
+        auto isAppended = false;
 
         if (reader.remaining() > 1) {
             const auto indicator = reader.readU8();
@@ -81,7 +82,7 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size > 0) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        isAppended |= extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -106,16 +107,22 @@ void DepacketizerH264::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        isAppended |= extractImpl(packet, std::move(*fu_buf));
                         fu_wrt.reset();
                         fu_buf.reset();
                     }
                 }
             } else if (type < 23) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                extractImpl(out, packet, packet->payload.copy());
+                isAppended |= extractImpl(packet, packet->payload.copy());
             }
         }
+
+        if (isAppended && packet->marker) {
+            // All of the packet's units belong to the same frame
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -177,10 +184,10 @@ bool DepacketizerH264::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH264::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -198,7 +205,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h264::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -212,10 +219,7 @@ void DepacketizerH264::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
diff --git a/src/depacketizer_h265.cpp b/src/depacketizer_h265.cpp
index 5fe8f4b..7ae14d7 100644
--- a/src/depacketizer_h265.cpp
+++ b/src/depacketizer_h265.cpp
@@ -67,6 +67,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
 
     for (const auto packet : packetList) {
         ByteReader reader(packet->payload);
+        auto isAppended = false;
         if (reader.remaining() >= 2) {
             const auto nalUnitHeader = reader.readU16();
             const auto type = (nalUnitHeader >> 9) & 0x3Fu;
@@ -80,7 +81,7 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     if (reader.remaining() >= size && size >= 2) {
                         ByteBuffer buf(packet->payload.data() + reader.position(), size);
 
-                        extractImpl(out, packet, std::move(buf));
+                        isAppended |= extractImpl(packet, std::move(buf));
                         reader.skip(size);
                     } else {
                         break;
@@ -106,16 +107,22 @@ void DepacketizerH265::extract(std::vector<ByteBuffer>& out, const std::vector<c
                     }
 
                     if (fuIsEnd && fu_buf) {
-                        extractImpl(out, packet, std::move(*fu_buf));
+                        isAppended |= extractImpl(packet, std::move(*fu_buf));
                         fu_wrt.reset();
                         fu_buf.reset();
                     }
                 }
             } else if (type <= 40) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                extractImpl(out, packet, packet->payload.copy());
+                isAppended |= extractImpl(packet, packet->payload.copy());
             }
         }
+
+        if (isAppended && packet->marker) {
+            // All of the packet's units belong to the same frame
+            out.push_back(std::move(mFrameBuffer));
+            mFrameBuffer.clear();
+        }
     }
 }
 
@@ -174,10 +181,10 @@ bool DepacketizerH265::isFrameStart(const ByteBuffer& payload) const
     return false;
 }
 
-void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBufferItem* packet, ByteBuffer&& nalu)
+bool DepacketizerH265::extractImpl(const JitterBufferItem* packet, ByteBuffer&& nalu)
 {
     if (nalu.empty()) {
-        return;
+        return false;
     }
 
     if ((mHaveBits & kHaveAll) != kHaveAll) {
@@ -198,7 +205,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
                 mHaveBits |= kHaveKey;
             } else if (h265::isSliceNalu(nalu_type)) {
                 LOG(SRTC_LOG_V, "Not emitting a non-key frame until there is a keyframe");
-                return;
+                return false;
             }
             break;
         }
@@ -212,10 +219,7 @@ void DepacketizerH265::extractImpl(std::vector<ByteBuffer>& out, const JitterBuf
     mFrameBuffer.append(kAnnexB, sizeof(kAnnexB));
     mFrameBuffer.append(nalu);
 
-    if (packet->marker) {
-        out.push_back(std::move(mFrameBuffer));
-        mFrameBuffer.clear();
-    }
+    return true;
 }
 
 } // namespace srtc
\ No newline at end of file
-- 
2.43.0


From 3fe46cd975e64b60ce242e054e20e4866f62b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 14/37] fix: STUN attribute padding was written past the end of
 a full buffer

---
 src/stun/stunmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stunmessage.cpp b/src/stun/stunmessage.cpp
index 82c0943..018d329 100644
--- a/src/stun/stunmessage.cpp
+++ b/src/stun/stunmessage.cpp
@@ -349,7 +349,7 @@ stun_message_append (StunMessage *msg, StunAttribute type, size_t length)
   }
  */
 
-  if ((size_t)mlen + STUN_ATTRIBUTE_HEADER_LENGTH + length > msg->buffer_len)
+  if ((size_t)mlen + STUN_ATTRIBUTE_HEADER_LENGTH + stun_align (length) > msg->buffer_len)
     return NULL;
 
 
-- 
2.43.0


From 35c5be79a07131ef6626c4387f1027caedec4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:52 +0000
Subject: [PATCH 15/37] fix: STUN messages were searched past the end of the
 datagram they came in

---
 src/peer_candidate.cpp   | 5 +++++
 src/stun/stunmessage.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/peer_candidate.cpp b/src/peer_candidate.cpp
index 322bac8..fd7debe 100644
--- a/src/peer_candidate.cpp
+++ b/src/peer_candidate.cpp
@@ -858,6 +858,11 @@ void PeerCandidate::flushSendRaw()
 
 void PeerCandidate::onReceivedStunMessage(const Socket::ReceivedData& data)
 {
+    if (stun::stun_message_validate_buffer_length(data.buf.data(), data.buf.size(), true) <= 0) {
+        LOG(SRTC_LOG_E, "Received an invalid STUN message, ignoring");
+        return;
+    }
+
     stun::StunMessage incomingMessage = {};
     incomingMessage.buffer = const_cast<uint8_t*>(data.buf.data());
     incomingMessage.buffer_len = data.buf.size();
diff --git a/src/stun/stunmessage.cpp b/src/stun/stunmessage.cpp
index 018d329..5a49806 100644
--- a/src/stun/stunmessage.cpp
+++ b/src/stun/stunmessage.cpp
@@ -104,7 +104,7 @@ stun_message_find (const StunMessage *msg, StunAttribute type,
 
   offset = STUN_MESSAGE_ATTRIBUTES_POS;
 
-  while (offset < length)
+  while (offset + STUN_ATTRIBUTE_VALUE_POS <= length)
   {
     uint16_t atype = stun_getw (msg->buffer + offset);
     size_t alen = stun_getw (msg->buffer + offset + STUN_ATTRIBUTE_TYPE_LEN);
@@ -112,6 +112,10 @@ stun_message_find (const StunMessage *msg, StunAttribute type,
 
     offset += STUN_ATTRIBUTE_VALUE_POS;
 
+    /* The value must be inside the message */
+    if (alen > length - offset)
+      return NULL;
+
     if (atype == type)
     {
       *palen = alen;
-- 
2.43.0


From 6da0a6ba3337edc1e0b309cc4b20a6a892b1f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 16/37] fix: SRTP took contributing sources for payload and
 could read past a short header

---
 src/srtp_crypto.cpp | 49 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/srtp_crypto.cpp b/src/srtp_crypto.cpp
index 7eef9ea..6b0588c 100644
--- a/src/srtp_crypto.cpp
+++ b/src/srtp_crypto.cpp
@@ -32,6 +32,11 @@ constexpr size_t kAESGCM_TagSize = 16;
 
 constexpr uint16_t kRTP_ExtensionBit = 0x1000;
 
+size_t getContributingSourceCount(uint16_t header)
+{
+    return (header >> 8) & 0x0F;
+}
+
 constexpr uint32_t kRTCP_EncryptedBit = 0x80000000u;
 constexpr size_t kRTCP_HeaderSize = 8u;
 constexpr size_t kRTCP_TrailerSize = 4u;
@@ -188,9 +193,17 @@ bool SrtpCrypto::protectSendMediaGCM(const ByteBuffer& packet, uint32_t rollover
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    size_t headerSize = 4u + 4 + 4 + 4 * getContributingSourceCount(header);
+    if (headerSize > packetSize) {
+        // The contributing sources extend past the end
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
+        if (headerSize + 4 > packetSize) {
+            return false;
+        }
+
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
@@ -294,9 +307,17 @@ bool SrtpCrypto::protectSendMediaCM(const ByteBuffer& packet, uint32_t rolloverC
     const auto encryptedData = encrypted.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    size_t headerSize = 4u + 4 + 4 + 4 * getContributingSourceCount(header);
+    if (headerSize > packetSize) {
+        // The contributing sources extend past the end
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + 14));
+        if (headerSize + 4 > packetSize) {
+            return false;
+        }
+
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(packetData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
@@ -415,13 +436,17 @@ bool SrtpCrypto::unprotectReceiveMediaGCM(const ByteBuffer& packet, uint32_t rol
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    size_t headerSize = 4u + 4 + 4 + 4 * getContributingSourceCount(header);
+    if (headerSize + digestSize >= encryptedSize) {
+        // The contributing sources reach the end of payload (empty payload) or extend past its end
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (encryptedSize < headerSize + 4 + digestSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
@@ -537,13 +562,17 @@ bool SrtpCrypto::unprotectReceiveMediaCM(const ByteBuffer& packet, uint32_t roll
     const auto plainData = plain.data();
 
     // The header is not encrypted
-    auto headerSize = 4u + 4 + 4;
+    size_t headerSize = 4u + 4 + 4 + 4 * getContributingSourceCount(header);
+    if (headerSize + digestSize >= encryptedSize) {
+        // The contributing sources reach the end of payload (empty payload) or extend past its end
+        return false;
+    }
     if ((header & kRTP_ExtensionBit) != 0) {
-        if (encryptedSize < 4 + 4 + 4 + 4 + digestSize) {
+        if (encryptedSize < headerSize + 4 + digestSize) {
             return false;
         }
 
-        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + 14));
+        const auto extensionSize = ntohs(*reinterpret_cast<const uint16_t*>(encryptedData + headerSize + 2));
         headerSize += 4;
         headerSize += extensionSize * 4;
 
-- 
2.43.0


From 13ba16b90e61a9854b3287db866646ed63730f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 17/37] fix: SRTP rollover counter was updated by packets that
 failed authentication

---
 src/srtp_connection.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 4996866..556ab78 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -224,18 +224,16 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
 
     // Because of jitter, we may cross the rollover back and forth, only count once
     auto rolloverCount = channelValue.rolloverCount;
+    auto isNewest = true;
     if (!channelValue.lastSequence16) {
-        channelValue.lastSequence16 = sequenceNumber;
+        // First packet
     } else if (channelValue.lastSequence16 <= 0x1000u && sequenceNumber >= 0xF000u) {
         if (rolloverCount > 0) {
             rolloverCount -= 1;
         }
-    } else {
-        if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
-            channelValue.rolloverCount += 1;
-            rolloverCount += 1;
-        }
-        channelValue.lastSequence16 = sequenceNumber;
+        isNewest = false;
+    } else if (channelValue.lastSequence16 >= 0xF000u && sequenceNumber <= 0x1000u) {
+        rolloverCount += 1;
     }
 
     if (!mCrypto->unprotectReceiveMedia(packetData, rolloverCount, output)) {
@@ -252,6 +250,11 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
         return false;
     }
 
+    // The packet is authentic, only now it's safe to update the channel
+    if (isNewest) {
+        channelValue.rolloverCount = rolloverCount;
+        channelValue.lastSequence16 = sequenceNumber;
+    }
     channelValue.replayProtection->set(sequenceNumber);
     return true;
 }
-- 
2.43.0


From bd918b03e2282c3b91889c07cb26fb411108d830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:37 +0000
Subject: [PATCH 18/37] fix: SRTP rollover counter and replay window were kept
 per payload type instead of per stream

---
 include/srtc/srtp_connection.h | 8 +++++---
 src/srtp_connection.cpp        | 5 ++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/srtc/srtp_connection.h b/include/srtc/srtp_connection.h
index 49b9736..74c52c4 100644
--- a/include/srtc/srtp_connection.h
+++ b/include/srtc/srtp_connection.h
@@ -48,22 +48,24 @@ private:
 	const std::shared_ptr<SrtpCrypto> mCrypto;
 	const unsigned long mProfileId;
 
+	enum class ChannelKind : uint8_t { Control, Media };
+
 	struct ChannelKey {
 		uint32_t ssrc;
-		uint8_t payloadId;
+		ChannelKind kind;
 	};
 
 	struct hash_channel_key {
 		std::size_t operator()(const ChannelKey& key) const
 		{
-			return key.ssrc ^ key.payloadId;
+			return key.ssrc ^ static_cast<uint8_t>(key.kind);
 		}
 	};
 
 	struct equal_to_channel_key {
 		bool operator()(const ChannelKey& lhs, const ChannelKey& rhs) const
 		{
-			return lhs.ssrc == rhs.ssrc && lhs.payloadId == rhs.payloadId;
+			return lhs.ssrc == rhs.ssrc && lhs.kind == rhs.kind;
 		}
 	};
 
diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index 556ab78..e27786d 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -161,7 +161,7 @@ bool SrtpConnection::unprotectReceiveControl(const ByteBuffer& packetData, ByteB
     }
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 4));
-    const ChannelKey key = { ssrc, 0 };
+    const ChannelKey key = { ssrc, ChannelKind::Control };
     auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint32_t>::max());
 
     uint32_t sequenceNumber;
@@ -203,9 +203,8 @@ bool SrtpConnection::unprotectReceiveMedia(const ByteBuffer& packetData, ByteBuf
     }
 
     const auto ssrc = ntohl(*reinterpret_cast<const uint32_t*>(packetData.data() + 8));
-    const auto pt = ntohs(*reinterpret_cast<const uint16_t*>(packetData.data())) & 0x7Fu;
 
-    const ChannelKey key = { ssrc, static_cast<uint8_t>(pt) };
+    const ChannelKey key = { ssrc, ChannelKind::Media };
     auto& channelValue = ensureSrtpChannel(mSrtpInMap, key, std::numeric_limits<uint16_t>::max());
 
     uint16_t sequenceNumber;
-- 
2.43.0


From 8776107bf456178541236239bef0604743a6195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:09 +0000
Subject: [PATCH 19/37] fix: SRTP keys were derived from uninitialised memory
 when exporting keying material failed

---
 src/srtp_connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/srtp_connection.cpp b/src/srtp_connection.cpp
index e27786d..58442b3 100644
--- a/src/srtp_connection.cpp
+++ b/src/srtp_connection.cpp
@@ -74,8 +74,10 @@ std::pair<std::shared_ptr<SrtpConnection>, Error> SrtpConnection::create(SSL* dt
     auto material = ByteBuffer{ srtpKeyPlusSaltSize * 2 };
 
     std::string label = "EXTRACTOR-dtls_srtp";
-    SSL_export_keying_material(
-        dtls_ssl, material.data(), srtpKeyPlusSaltSize * 2, label.data(), label.size(), nullptr, 0, 0);
+    if (SSL_export_keying_material(
+            dtls_ssl, material.data(), srtpKeyPlusSaltSize * 2, label.data(), label.size(), nullptr, 0, 0) != 1) {
+        return { nullptr, { Error::Code::InvalidData, "Cannot export SRTP keying material from OpenSSL" } };
+    }
 
     const auto srtpClientKey = material.data();
     const auto srtpServerKey = srtpClientKey + srtpKeySize;
-- 
2.43.0


From c8dc96330250966d294c38deb4adca2bfbf826bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 20/37] fix: one wrong entry of the CRC-32C table made some
 SCTP packets fail their checksum

---
 src/sctp/sctp_crc32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_crc32.cpp b/src/sctp/sctp_crc32.cpp
index ad2bb9c..83da459 100644
--- a/src/sctp/sctp_crc32.cpp
+++ b/src/sctp/sctp_crc32.cpp
@@ -165,7 +165,7 @@ const uint32_t crc_tableil8_o48[256] = {
     0xC3D4340C, 0x6695A672, 0x8CBB6601, 0x29FAF47F, 0x5D0A9016, 0xF84B0268, 0x1265C21B, 0xB7245065,
     0x6A638C57, 0xCF221E29, 0x250CDE5A, 0x804D4C24, 0xF4BD284D, 0x51FCBA33, 0xBBD27A40, 0x1E93E83E,
     0x5232B292, 0xF77320EC, 0x1D5DE09F, 0xB81C72E1, 0xCCEC1688, 0x69AD84F6, 0x83834485, 0x26C2D6FB,
-    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x195EC7B9, 0xCB7007CA, 0x6E3195B4,
+    0x1AC1F1DD, 0xBF8063A3, 0x55AEA3D0, 0xF0EF31AE, 0x841F55C7, 0x215EC7B9, 0xCB7007CA, 0x6E3195B4,
     0x2290CF18, 0x87D15D66, 0x6DFF9D15, 0xC8BE0F6B, 0xBC4E6B02, 0x190FF97C, 0xF321390F, 0x5660AB71,
     0x4C42F79A, 0xE90365E4, 0x032DA597, 0xA66C37E9, 0xD29C5380, 0x77DDC1FE, 0x9DF3018D, 0x38B293F3,
     0x7413C95F, 0xD1525B21, 0x3B7C9B52, 0x9E3D092C, 0xEACD6D45, 0x4F8CFF3B, 0xA5A23F48, 0x00E3AD36,
-- 
2.43.0


From 035b683d4aca67a4c063706c4f8b583d5af970e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:19 +0000
Subject: [PATCH 21/37] fix: SACK gap blocks were read past the end of the
 chunk

---
 src/sctp/sctp_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 93387ab..aaa2ff8 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -673,6 +673,11 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     const auto numGapBlocks = r.readU16();
     r.skip(2); // numDupTsns
 
+    if (static_cast<size_t>(numGapBlocks) * 4 > r.remaining()) {
+        LOG(SRTC_LOG_W, "SACK with %u gap blocks is too short (%zu bytes)", numGapBlocks, chunk.size);
+        return;
+    }
+
     std::vector<std::pair<uint16_t, uint16_t>> gapBlocks;
     gapBlocks.reserve(numGapBlocks);
     for (uint16_t i = 0; i < numGapBlocks; ++i) {
-- 
2.43.0


From acf5690184a37d4f161faaba087c6c519dd662ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:19 +0000
Subject: [PATCH 22/37] fix: SACK gap blocks acknowledged chunks 65536 and more
 numbers away

---
 src/sctp/sctp_session.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index aaa2ff8..7df951b 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -706,7 +706,7 @@ void SctpSession::onReceiveSack(const SctpPacket::Chunk& chunk)
     for (const auto& [gapStart, gapEnd] : gapBlocks) {
         auto git = mSentChunks.begin();
         while (git != mSentChunks.end()) {
-            const auto offset = static_cast<uint16_t>(git->tsn - cumTsn);
+            const auto offset = static_cast<uint32_t>(git->tsn - cumTsn);
             if (offset >= gapStart && offset <= gapEnd) {
                 mFlightSize =
                     static_cast<uint32_t>(mFlightSize >= git->payloadSize ? mFlightSize - git->payloadSize : 0);
-- 
2.43.0


From c3faf3121739ce69cfce0674841748d54101fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:19 +0000
Subject: [PATCH 23/37] fix: chunks bundled with an INIT were processed without
 a verification tag

---
 src/sctp/sctp_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 7df951b..77939f2 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -388,6 +388,11 @@ void SctpSession::onReceiveData(const ByteBuffer& buf)
 
     // RFC 4960 §8.5: verify verification tag — 0 for INIT, our tag for everything else
     const bool isInit = !packet->chunks().empty() && packet->chunks()[0].type == kChunkInit;
+    if (isInit && packet->chunks().size() > 1) {
+        LOG(SRTC_LOG_W, "recv: INIT bundled with other chunks, discarding");
+        return;
+    }
+
     const uint32_t expectedTag = isInit ? 0 : mInitiateTag;
     if (packet->verificationTag() != expectedTag) {
         LOG(SRTC_LOG_W,
-- 
2.43.0


From 75da4ba13fd0f6acc6e4c894909b1e52dc66a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:19 +0000
Subject: [PATCH 24/37] fix: an INIT repeated after the association was up
 reset its receive state

---
 src/sctp/sctp_session.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 77939f2..4cab7c6 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -270,10 +270,14 @@ void SctpSession::onReceiveInit(const SctpPacket::Chunk& chunk)
     const auto peerOutStreams = r.readU16();
     const auto peerInStreams = r.readU16();
     const auto peerInitialTsn = r.readU32();
-    mPeerRwnd = peerRwnd;
-    mPeerOutStreams = peerOutStreams;
-    mPeerInStreams = peerInStreams;
-    mPeerCumulativeTsn = peerInitialTsn - 1;
+
+    // RFC 4960 §5.2.2: a late or repeated INIT gets its answer but does not change the association
+    if (mState == State::New || mState == State::CookieWait) {
+        mPeerRwnd = peerRwnd;
+        mPeerOutStreams = peerOutStreams;
+        mPeerInStreams = peerInStreams;
+        mPeerCumulativeTsn = peerInitialTsn - 1;
+    }
 
     // Build State Cookie: kCookieDataSize bytes of fields, then HMAC-SHA1
     // Layout (all big-endian):
-- 
2.43.0


From ade3685f9aacf872571e1d5a4227c225590c2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 25/37] fix: fragments of a data channel message were joined in
 order of arrival

---
 src/sctp/sctp_session.cpp | 61 +++++++++++++++++++++++++++------------
 src/sctp/sctp_session.h   | 13 +++++++--
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 4cab7c6..b18dd99 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -515,42 +515,61 @@ void SctpSession::onReceiveDataChunk(const SctpPacket::Chunk& chunk)
     const auto peerTSN = r.readU32();
     const auto streamId = r.readU16();
     const auto ssn = r.readU16();
-    (void)ssn; // needed for ordered delivery
     const auto ppid = r.readU32();
 
     // Duplicate detection: TSN already covered by cumulative or seen out-of-order
     const bool isDuplicate =
-        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderTsns.count(peerTSN) > 0;
+        static_cast<int32_t>(peerTSN - mPeerCumulativeTsn) <= 0 || mPeerOutOfOrderChunks.count(peerTSN) > 0;
     if (isDuplicate) {
         sendSack();
         return;
     }
 
-    if (peerTSN == mPeerCumulativeTsn + 1) {
-        mPeerCumulativeTsn = peerTSN;
-        // Drain any now-consecutive TSNs from the out-of-order set
-        while (true) {
-            auto it = mPeerOutOfOrderTsns.find(mPeerCumulativeTsn + 1);
-            if (it == mPeerOutOfOrderTsns.end())
-                break;
-            mPeerCumulativeTsn++;
-            mPeerOutOfOrderTsns.erase(it);
-        }
-    } else {
-        mPeerOutOfOrderTsns.insert(peerTSN);
-        if (mPeerOutOfOrderTsns.size() > 1024) {
-            mPeerOutOfOrderTsns.erase(mPeerOutOfOrderTsns.begin());
+    // Chunks are processed in the order of their TSNs: the fragments of a message are consecutive
+    if (peerTSN != mPeerCumulativeTsn + 1) {
+        // When there is no more room (a gap block reaches 65535 numbers), the chunk is not acknowledged and the peer
+        // sends it again
+        if (mPeerOutOfOrderChunks.size() < 1024 && peerTSN - mPeerCumulativeTsn <= 0xFFFFu) {
+            mPeerOutOfOrderChunks.emplace(
+                peerTSN,
+                ReceivedChunk{ chunk.flags, streamId, ssn, ppid, ByteBuffer(r.current(), r.remaining()) });
         }
+        sendSack();
+        return;
+    }
+
+    // Drain any now-consecutive TSNs from the out-of-order map
+    std::list<ReceivedChunk> readyList;
+    mPeerCumulativeTsn = peerTSN;
+    while (true) {
+        auto it = mPeerOutOfOrderChunks.find(mPeerCumulativeTsn + 1);
+        if (it == mPeerOutOfOrderChunks.end())
+            break;
+        mPeerCumulativeTsn++;
+        readyList.push_back(std::move(it->second));
+        mPeerOutOfOrderChunks.erase(it);
     }
     sendSack();
 
+    processDataChunk(chunk.flags, streamId, ssn, ppid, r.current(), r.remaining());
+    for (const auto& ready : readyList) {
+        processDataChunk(
+            ready.flags, ready.streamId, ready.ssn, ready.ppid, ready.payload.data(), ready.payload.size());
+    }
+}
+
+void SctpSession::processDataChunk(
+    uint8_t flags, uint16_t streamId, uint16_t ssn, uint32_t ppid, const uint8_t* payload, size_t payloadSize)
+{
+    ByteReader r(payload, payloadSize);
+
     if (ppid == kPpidString || ppid == kPpidStringEmpty || ppid == kPpidBinary || ppid == kPpidBinaryEmpty) {
         for (auto& channel : mDataChannels) {
             if (channel.streamId != streamId) {
                 continue;
             }
             const auto messages =
-                channel.receiveBuffer.receive(ssn, chunk.flags, channel.unordered, ppid, r.current(), r.remaining());
+                channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
                 if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
@@ -773,8 +792,12 @@ void SctpSession::sendSack()
     };
     std::vector<GapBlock> gapBlocks;
 
-    if (!mPeerOutOfOrderTsns.empty()) {
-        std::vector<uint32_t> tsns(mPeerOutOfOrderTsns.begin(), mPeerOutOfOrderTsns.end());
+    if (!mPeerOutOfOrderChunks.empty()) {
+        std::vector<uint32_t> tsns;
+        tsns.reserve(mPeerOutOfOrderChunks.size());
+        for (const auto& item : mPeerOutOfOrderChunks) {
+            tsns.push_back(item.first);
+        }
         std::sort(tsns.begin(), tsns.end(), [this](uint32_t a, uint32_t b) {
             return (uint32_t)(a - mPeerCumulativeTsn) < (uint32_t)(b - mPeerCumulativeTsn);
         });
diff --git a/src/sctp/sctp_session.h b/src/sctp/sctp_session.h
index e082d32..c629b39 100644
--- a/src/sctp/sctp_session.h
+++ b/src/sctp/sctp_session.h
@@ -10,7 +10,7 @@
 #include <array>
 #include <cstdint>
 #include <list>
-#include <set>
+#include <map>
 #include <string>
 #include <vector>
 
@@ -97,7 +97,14 @@ private:
     uint32_t mPeerRwnd;                     // peer's receive window
     uint32_t mCurrentTsn;                   // next TSN to use when sending DATA chunks
     uint32_t mPeerCumulativeTsn;            // highest consecutive TSN received from peer
-    std::set<uint32_t> mPeerOutOfOrderTsns; // received but not yet consecutive
+    struct ReceivedChunk {
+        uint8_t flags;
+        uint16_t streamId;
+        uint16_t ssn;
+        uint32_t ppid;
+        ByteBuffer payload;
+    };
+    std::map<uint32_t, ReceivedChunk> mPeerOutOfOrderChunks; // received but not yet consecutive, by TSN
     std::array<uint8_t, 16> mHmacKey;
     ByteBuffer mCookieEchoPacket;
     std::weak_ptr<Task> mTaskT1Init;
@@ -110,6 +117,8 @@ private:
     void onAssociationEstablished();
     void sendDataChannelOpen(DataChannel& channel);
     void onReceiveDataChunk(const SctpPacket::Chunk& chunk);
+    void processDataChunk(
+        uint8_t flags, uint16_t streamId, uint16_t ssn, uint32_t ppid, const uint8_t* payload, size_t payloadSize);
     void onReceiveReconfig(const SctpPacket::Chunk& chunk);
     void onReceiveSack(const SctpPacket::Chunk& chunk);
     void sendSack();
-- 
2.43.0


From e7882a478d23fec040038cb59b61291e0c869807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:16 +0000
Subject: [PATCH 26/37] fix: first message on a data channel had the stream
 sequence number of its open message

---
 src/sctp/sctp_session.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index b18dd99..71e2b23 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -487,7 +487,7 @@ void SctpSession::sendDataChannelOpen(DataChannel& channel)
     ByteWriter cw(chunkBody);
     cw.writeU32(tsn);
     cw.writeU16(channel.streamId);
-    cw.writeU16(0); // SSN = 0 for DCEP (RFC 8832)
+    cw.writeU16(channel.sendSsn++); // DCEP messages are part of the stream's sequence (RFC 8832)
     cw.writeU32(kPpidDcep);
     cw.write(payload);
 
@@ -624,7 +624,7 @@ void SctpSession::processDataChunk(
         ByteWriter cw(chunkBody);
         cw.writeU32(tsn);
         cw.writeU16(streamId);
-        cw.writeU16(0);
+        cw.writeU16(channel.sendSsn++);
         cw.writeU32(kPpidDcep);
         cw.writeU8(kDcepMsgAck);
 
-- 
2.43.0


From 63023a63ec2dfe8ab02cdb9bd56fedf4abf276aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:21 +0000
Subject: [PATCH 27/37] fix: empty data channel messages were sent without and
 received with a byte of payload

---
 src/sctp/sctp_session.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 71e2b23..86247bc 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -143,6 +143,13 @@ void SctpSession::sendMessageNow(DataChannel& channel, DataChannelMessage&& mess
         ppid = payloadSize == 0 ? kPpidBinaryEmpty : kPpidBinary;
     }
 
+    // RFC 8831: an empty message is sent as one zero byte, which the receiver ignores
+    static const uint8_t kEmptyPayload[1] = {};
+    if (payloadSize == 0) {
+        payload = kEmptyPayload;
+        payloadSize = sizeof(kEmptyPayload);
+    }
+
     const uint16_t ssn = channel.sendSsn++;
     const uint8_t unorderedFlag = channel.unordered ? kDataFlagUnordered : 0;
     const bool wasEmpty = mSentChunks.empty();
@@ -571,7 +578,11 @@ void SctpSession::processDataChunk(
             const auto messages =
                 channel.receiveBuffer.receive(ssn, flags, channel.unordered, ppid, r.current(), r.remaining());
             for (const auto& msg : messages) {
-                if (msg.ppid == kPpidString || msg.ppid == kPpidStringEmpty) {
+                if (msg.ppid == kPpidStringEmpty) {
+                    mListener->onSctpDataChannelText(channel.label, {});
+                } else if (msg.ppid == kPpidBinaryEmpty) {
+                    mListener->onSctpDataChannelBinary(channel.label, {});
+                } else if (msg.ppid == kPpidString) {
                     const auto text = std::string(reinterpret_cast<const char*>(msg.data.data()), msg.data.size());
                     mListener->onSctpDataChannelText(channel.label, text);
                 } else {
-- 
2.43.0


From b23e3b52977a7e153223453269f271620e83069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:38 +0000
Subject: [PATCH 28/37] fix: small data channel messages overtook larger ones
 waiting for the peer's window

---
 src/sctp/sctp_session.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sctp/sctp_session.cpp b/src/sctp/sctp_session.cpp
index 86247bc..fda8224 100644
--- a/src/sctp/sctp_session.cpp
+++ b/src/sctp/sctp_session.cpp
@@ -117,7 +117,8 @@ void SctpSession::send(DataChannelMessage&& message)
         return;
     }
 
-    if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd) {
+    // Messages are sent in the order they were given to us, also when a smaller one would fit
+    if (!mPendingSend.empty() || (mFlightSize > 0 && mFlightSize + payloadSize > mPeerRwnd)) {
         mPendingSend.emplace_back(std::move(message));
         return;
     }
@@ -212,7 +213,7 @@ void SctpSession::transmitPending()
         }
 
         const size_t payloadSize = msg.kind == DataChannelMessage::Kind::kText ? msg.text.size() : msg.binary.size();
-        if (payloadSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
+        if (mFlightSize > 0 && mFlightSize + payloadSize > mPeerRwnd)
             break;
 
         sendMessageNow(*it, std::move(msg));
-- 
2.43.0


From 67db142569a44e5ee33362d9e8d2e529b746feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 29/37] fix: jitter buffer could hold one packet more than its
 capacity, overwriting the oldest one

---
 src/jitter_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index ad50a7a..5d3832c 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -221,7 +221,7 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         mMinSeq = seq_ext;
     } else if (seq_ext >= mMaxSeq) {
         // Above max
-        if (seq_ext > mMinSeq + mCapacity) {
+        if (seq_ext >= mMinSeq + mCapacity) {
             LOG(SRTC_LOG_E,
                 "Jitter buffer for SSRC = %" PRIu32 ", media = %s: The new packet SEQ = %" PRIu16
                 " would exceed the capacity, min = %" PRIu16 ", max = %" PRIu16,
-- 
2.43.0


From bcbb5b020262a1eb5f45f7bfb6c6da52a740c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 30/37] fix: jitter buffer blocked by a packet with a timestamp
 before that of the first packet received

---
 src/jitter_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 5d3832c..debd965 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -169,8 +169,10 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
-    const auto rtp_timestamp_delta = rtp_timestamp_ext - mBaseRtpTimestamp;
-    const auto time_delta = std::chrono::milliseconds(1000 * rtp_timestamp_delta / mTrack->getClockRate());
+    // Can be negative when packets arrive out of order
+    const auto rtp_timestamp_delta = static_cast<int64_t>(rtp_timestamp_ext - mBaseRtpTimestamp);
+    const auto time_delta =
+        std::chrono::milliseconds(1000 * rtp_timestamp_delta / static_cast<int64_t>(mTrack->getClockRate()));
     const auto packet_time = mBaseTime + time_delta;
     const auto when_dequeue = packet_time + mLength;
     const auto when_nack_request = now + mNackDelay;
-- 
2.43.0


From 3d1fe995bfde66657afff636b6bb09ce400e9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 31/37] fix: jitter buffer delivered the last frame again when
 its packets came again

---
 include/srtc/jitter_buffer.h |  1 +
 src/jitter_buffer.cpp        | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/srtc/jitter_buffer.h b/include/srtc/jitter_buffer.h
index 8e00cdb..aea2d63 100644
--- a/include/srtc/jitter_buffer.h
+++ b/include/srtc/jitter_buffer.h
@@ -91,6 +91,7 @@ private:
     std::vector<ByteBuffer> mTempFrameList;
 
     std::optional<uint64_t> mLastFrameTimeStamp;
+    std::optional<uint64_t> mLastFrameSeq; // last packet of the last frame
 };
 
 } // namespace srtc
diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index debd965..919ff4c 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -115,6 +115,16 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         return;
     }
 
+    // Was it delivered already?
+    if (mLastFrameSeq.has_value() && mLastFrameSeq.value() >= seq_ext) {
+        LOG(SRTC_LOG_V,
+            "Jitter buffer for SSRC = %" PRIu32 ", media = %s: packet SEQ = %" PRIu16 " was already de-queued",
+            mTrack->getSSRC(),
+            to_string(media->getType()).c_str(),
+            seq);
+        return;
+    }
+
     // Decide what to do
     const auto now = std::chrono::steady_clock::now();
 
@@ -662,6 +672,7 @@ void JitterBuffer::appendToResult(std::vector<std::shared_ptr<EncodedFrame>>& re
         }
 
         mLastFrameTimeStamp = item->rtp_timestamp_ext;
+        mLastFrameSeq = last->seq_ext;
 
         uint64_t absCaptureTimeNTP = 0u;
         uint64_t absCaptureTimeOffset = 0u;
-- 
2.43.0


From cc524eb7699c60290bd5743ae4233aef415ebcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 32/37] fix: jitter buffer replaced a packet when it came again

---
 src/jitter_buffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 919ff4c..055a369 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -277,6 +277,11 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         const auto index = seq_ext & mCapacityMask;
         item = mItemList[index];
         assert(item);
+
+        if (item->received) {
+            // A duplicate
+            return;
+        }
     }
 
     item->when_received = now;
-- 
2.43.0


From 594735fb1df1bb2cec87768cde670d107c6c7985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:55 +0000
Subject: [PATCH 33/37] fix: jitter buffer rejected all packets for ever after
 losing a quarter of its capacity at once

---
 src/jitter_buffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jitter_buffer.cpp b/src/jitter_buffer.cpp
index 055a369..d5f0ad7 100644
--- a/src/jitter_buffer.cpp
+++ b/src/jitter_buffer.cpp
@@ -140,7 +140,6 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
             mDepacketizer->reset();
         }
     }
-    mLastPacketTime = now;
 
     if (mItemList == nullptr) {
         // First packet
@@ -284,6 +283,8 @@ void JitterBuffer::consume(const std::shared_ptr<RtpPacket>& packet)
         }
     }
 
+    mLastPacketTime = now;
+
     item->when_received = now;
     item->when_dequeue = when_dequeue;
     item->when_nack_request = when_nack_request;
-- 
2.43.0


From 9a3a36775c6a7f144eec124f6cae92393eb5fc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 34/37] fix: AV1 fragments after the first counted an OBU
 extension header they do not carry

---
 src/packetizer_av1.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 28cc0de..125a293 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -164,8 +164,10 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
             // When splitting an OBU across multiple packets, only the first packet has the OBU headers
             const auto isFirstPacketFromOBU = obuCurrData == parser.currData();
 
-            // Calculate and write size = obu_header() + obu_extension_header() + payload size
-            const auto writeSize = (isFirstPacketFromOBU ? 1 : 0) + (isNeedHeaderExtension ? 1 : 0) + writeNow;
+            // Calculate and write size = obu_header() + obu_extension_header() + payload size, the headers are only in the
+            // first packet
+            const auto headerSize = isFirstPacketFromOBU ? (isNeedHeaderExtension ? 2 : 1) : 0;
+            const auto writeSize = headerSize + writeNow;
             writer.writeLEB128(static_cast<uint32_t>(writeSize));
 
             if (isFirstPacketFromOBU) {
-- 
2.43.0


From 8c84e03949f1456fdd7cb0ce2a25e488cf8c7781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 35/37] fix: AV1 packets with an OBU extension header were one
 byte over the size limit

---
 src/packetizer_av1.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 125a293..6fc9e59 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -97,8 +97,8 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
     ByteBuffer payload;
     ByteWriter writer(payload);
 
-    // The "-4" is for the OBU headers and the LEB128 size
-    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 4;
+    // The "-5" is for the aggregation header, the OBU headers, and the LEB128 size
+    const auto basicPacketSize = getBasicPacketSize(mediaProtectionOverhead) - 5;
 
     RtpExtension extension;
     size_t usablePayloadSize = 0;
-- 
2.43.0


From 06abb84537f4ddbd22ab77e4e8b7653a1ad53a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 36/37] fix: AV1 packets started after a full one had no header
 extension and the previous one's size limit

---
 src/packetizer_av1.cpp | 43 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/packetizer_av1.cpp b/src/packetizer_av1.cpp
index 6fc9e59..3162547 100644
--- a/src/packetizer_av1.cpp
+++ b/src/packetizer_av1.cpp
@@ -125,35 +125,30 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerAV1::generate(
         const auto isNeedHeaderExtension = temporalId != 0 || spatialId != 0;
 
         while (obuCurrSize > 0) {
+            if (!payload.empty() && payload.size() + 100u >= usablePayloadSize) {
+                // Almost full, send it
+                const auto [rollover, sequence] = packetSource->getNextSequence();
+                result.push_back(std::make_shared<RtpPacket>(track,
+                                                             false,
+                                                             rollover,
+                                                             sequence,
+                                                             frameTimestamp,
+                                                             padding,
+                                                             std::move(extension),
+                                                             std::move(payload)));
+
+                payload.clear();
+                packetNumber += 1;
+            }
+
+            auto writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize - payload.size());
+
             if (payload.empty()) {
                 extension = buildExtension(track, extensionSourceList, isNewCodedVideoSequence, packetNumber);
                 padding = getPadding(track, extensionSourceList, basicPacketSize);
                 usablePayloadSize = adjustPacketSize(basicPacketSize, padding, extension);
-            }
-
-            auto writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize);
-
-            if (!payload.empty()) {
-                const auto payloadSizeSoFar = payload.size();
-                if (payloadSizeSoFar + 100u < usablePayloadSize) {
-                    writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize - payloadSizeSoFar);
-                } else {
-                    const auto [rollover, sequence] = packetSource->getNextSequence();
-                    result.push_back(std::make_shared<RtpPacket>(track,
-                                                                 false,
-                                                                 rollover,
-                                                                 sequence,
-                                                                 frameTimestamp,
-                                                                 padding,
-                                                                 std::move(extension),
-                                                                 std::move(payload)));
-
-                    payload.clear();
-                    packetNumber += 1;
-                }
-            }
+                writeNow = std::min<size_t>(obuCurrSize, usablePayloadSize);
 
-            if (payload.empty()) {
                 // Start a new packet
                 // https://aomediacodec.github.io/av1-rtp-spec/#aggregation-header
                 // |Z|Y|0 0|N|-|-|-|
-- 
2.43.0


From 0c397032c97578ed837f17df0321b341cf42f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:33 +0000
Subject: [PATCH 37/37] fix: H264 and H265 frames which end in a parameter set
 had no packet with the marker

---
 src/packetizer_h264.cpp | 16 ++++++++++++++--
 src/packetizer_h265.cpp | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/packetizer_h264.cpp b/src/packetizer_h264.cpp
index 2629d3a..9c054b6 100644
--- a/src/packetizer_h264.cpp
+++ b/src/packetizer_h264.cpp
@@ -19,6 +19,18 @@ namespace srtc
 
 using namespace h264;
 
+// True if none of the following NAL units are sent as part of the frame (parameters are only sent before a key frame)
+static bool isLastInFrame(NaluParser parser)
+{
+    for (parser.next(); parser; parser.next()) {
+        if (!isParameterNalu(parser.currType())) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 PacketizerH264::PacketizerH264(const std::shared_ptr<Track>& track)
     : PacketizerVideo(track)
 {
@@ -136,7 +148,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
 
             if (packetSize >= naluSize) {
                 // https://datatracker.ietf.org/doc/html/rfc6184#section-5.6
-                const auto marker = parser.isAtEnd();
+                const auto marker = isLastInFrame(parser);
                 const auto [rollover, sequence] = packetSource->getNextSequence();
                 auto payload = ByteBuffer{ naluData, naluSize };
                 result.push_back(std::make_shared<RtpPacket>(track,
@@ -185,7 +197,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH264::generate(
                         (isStart ? (1 << 7) : 0) | (isEnd ? (1 << 6) : 0) | static_cast<uint8_t>(naluType);
                     writer.writeU8(fuHeader);
 
-                    const auto marker = isEnd && parser.isAtEnd();
+                    const auto marker = isEnd && isLastInFrame(parser);
 
                     const auto writeNow = std::min(currSize, packetSize);
                     writer.write(currData, writeNow);
diff --git a/src/packetizer_h265.cpp b/src/packetizer_h265.cpp
index 154daab..da9cb2d 100644
--- a/src/packetizer_h265.cpp
+++ b/src/packetizer_h265.cpp
@@ -18,6 +18,18 @@ namespace srtc
 {
 using namespace h265;
 
+// True if none of the following NAL units are sent as part of the frame (parameters are only sent before a key frame)
+static bool isLastInFrame(NaluParser parser)
+{
+    for (parser.next(); parser; parser.next()) {
+        if (!isParameterNalu(parser.currType())) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 PacketizerH265::PacketizerH265(const std::shared_ptr<Track>& track)
     : PacketizerVideo(track)
 {
@@ -144,7 +156,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
 
             if (packetSize >= naluSize) {
                 // https://datatracker.ietf.org/doc/html/rfc7798#section-4.4.1
-                const auto marker = parser.isAtEnd();
+                const auto marker = isLastInFrame(parser);
                 const auto [rollover, sequence] = packetSource->getNextSequence();
                 auto payload = ByteBuffer{ naluData, naluSize };
                 result.push_back(std::make_shared<RtpPacket>(track,
@@ -192,7 +204,7 @@ std::vector<std::shared_ptr<RtpPacket>> PacketizerH265::generate(
                         (isStart ? (1 << 7) : 0) | (isEnd ? (1 << 6) : 0) | static_cast<uint8_t>(naluType & 0x3F);
                     writer.writeU8(fuHeader);
 
-                    const auto marker = isEnd && parser.isAtEnd();
+                    const auto marker = isEnd && isLastInFrame(parser);
 
                     const auto writeNow = std::min(currSize, packetSize);
                     writer.write(currData, writeNow);
-- 
2.43.0

