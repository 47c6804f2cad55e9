p("C01", "Replay protection accepts each packet once and only inside its window",
  "A sequence value that was accepted is never accepted again, whatever arrives in between. A value is accepted exactly when it was not accepted before and is not behind the newest accepted value by a window or more (nor implausibly far from it). Accepting a value changes the answer for no other value that is still inside the window.",
  ["inputs", "histories"], "every sequence of packet index values, every window size in use (2048 and smaller), values wrapping around the 16-, 31- and 32-bit maxima",
  "tests walk a few ascending and wrapping sequences; the state is a bitmap with modular arithmetic whose error cases are particular distance/offset combinations among 2^32 values",
  ["src/replay_protection.cpp", "include/srtc/replay_protection.h"],
  ["ReplayProtection::canProceed, set, setForward @ src/replay_protection.cpp"], ["canProceed() / set()"],
  [("mHistory/mHistoryMask", "bitmap of accepted values indexed by value mod size", "include/srtc/replay_protection.h")])
p("C02", "Only authentic, fresh SRTP/SRTCP packets are unprotected, with the right keys",
  "An incoming SRTP or SRTCP packet yields plaintext only if it is long enough, its authentication tag was checked over exactly the packet bytes (and rollover counter) with the receive key and matched, and it is not a replay. The decryption IV depends on exactly the SSRC and packet index, the RTP header (with CSRCs and extension) is passed through unchanged and only the payload is decrypted. No packet, however malformed, makes the library read or write outside its buffers.",
  ["inputs", "configurations"], "every packet content and length, every rollover counter, every negotiated profile (AES-128-CM SHA1-80/32, AES-256-CM, AEAD AES-128/256-GCM)",
  "tests unprotect packets the library protected itself; malformed packets, wrong tags and index/IV mix-ups need adversarial inputs",
  ["src/srtp_crypto.cpp", "src/srtp_connection.cpp", "src/srtp_hmac_sha1.cpp", "src/srtp_util.cpp"],
  ["SrtpCrypto::unprotectReceiveMedia*, unprotectReceiveControl* @ src/srtp_crypto.cpp", "SrtpConnection::unprotectReceiveMedia/Control @ src/srtp_connection.cpp"])
p("C03", "Outgoing SRTP/SRTCP packets are protected as RFC 3711 / RFC 7714 prescribe",
  "A protected packet is the RTP header unchanged, the payload encrypted under the send key with the IV formed from salt, SSRC and packet index, and the authentication tag over header, ciphertext and rollover counter (SRTCP: E-flag and a strictly increasing index). The IV never repeats for one key and SSRC. Input of any length is handled without touching memory outside the buffers.",
  ["inputs", "configurations"], "every plaintext packet and length, every rollover counter and sequence number, every profile, any number of control packets",
  "tests round-trip a few packets through the same code, so symmetric mistakes cancel; lengths and index values are sampled",
  ["src/srtp_crypto.cpp", "src/srtp_connection.cpp", "src/srtp_util.cpp"],
  ["SrtpCrypto::protectSendMedia*, protectSendControl* @ src/srtp_crypto.cpp", "SrtpConnection::protectSendMedia/Control @ src/srtp_connection.cpp"])
p("C04", "Unauthenticated packets leave no trace in the SRTP receive state",
  "A packet that fails authentication or replay checks changes no per-stream receive state (rollover counter, replay window), so it can never make later genuine packets fail. For genuine packets the reconstructed rollover counter follows the sender through reordering and wrap-around. Streams with different SSRC do not influence each other.",
  ["histories", "inputs"], "every interleaving of forged and genuine packets, including sequence number wrap",
  "needs a forged packet at the right position of a history (just before a wrap)",
  ["src/srtp_connection.cpp", "include/srtc/srtp_connection.h"],
  ["SrtpConnection::unprotectReceiveMedia, ensureSrtpChannel @ src/srtp_connection.cpp"])
p("C05", "Extending wrapped counters to 64 bits recovers the true value",
  "Feeding 16- or 32-bit truncations of a counter to the extender returns the 64-bit counter (offset by a constant fixed with the first value), as long as each value is within a quarter of the range of the value the extender last remembered, ahead or behind; a value from before a wrap-around is placed before the wrap if it arrives within a second of it, and does not undo the wrap for the values after it.",
  ["inputs", "histories"], "every state of the extender, every step of up to a quarter of the range forwards or backwards, across any number of wrap-arounds",
  "tests cover a few wraps; the claim is about every pair of values and every history",
  ["src/extended_value.cpp", "include/srtc/extended_value.h"],
  ["ExtendedValue<T>::extend @ src/extended_value.cpp"], ["extend()"])
p("C06", "RTP packets survive serialisation and parsing; malformed input is rejected",
  "Parsing any byte string either rejects it or yields a packet whose fields are exactly the RFC 3550 fields of the bytes (CSRC list, extension and padding removed from the payload); it never reads outside the input. Serialising a packet writes marker, payload type, sequence, timestamp, SSRC, extension and payload so that parsing the result gives an equal packet.",
  ["inputs"], "every byte string as input, every combination of header fields, extension and payload sizes and padding",
  "tests parse a handful of captured packets; lengths, CSRC counts, extension and padding lengths interact",
  ["src/rtp_packet.cpp", "include/srtc/rtp_packet.h"],
  ["RtpPacket::fromUdpPacket, generate @ src/rtp_packet.cpp"])
p("C07", "RTX retransmissions carry and restore the original packet",
  "A retransmission packet carries the original sequence number followed by the original payload on the RTX payload type and SSRC, with its own sequence number, and keeps marker, timestamp and extension. Converting a received RTX packet restores the original sequence number, payload type, SSRC and payload; RTX packets too short to hold the number never become media.",
  ["inputs"], "every packet, every sequence number, every payload length including 0 and 1, padding present or not",
  "tests use one or two packets",
  ["src/rtp_packet.cpp", "src/peer_candidate.cpp"],
  ["RtpPacket::generateRtx @ src/rtp_packet.cpp", "RTX unwrapping in PeerCandidate::onReceivedRtpMediaPacket @ src/peer_candidate.cpp"])
p("C08", "RTP header extensions are built and read back exactly",
  "Every value added to a header extension is found again under its id with the same bytes, in one-byte and two-byte form, and other ids are unaffected; the extension is padded to a multiple of four bytes. Reading an arbitrary received extension never reads outside it, terminates, and finds exactly the elements RFC 8285 defines.",
  ["inputs"], "every id, every value length, every sequence of additions, every received byte string",
  "tests add a few known extensions; malformed lengths and padding are untested",
  ["src/rtp_extension.cpp", "src/rtp_extension_builder.cpp", "src/extension_map.cpp"],
  ["RtpExtension::find*, RtpExtensionBuilder::add*/build @ src/rtp_extension.cpp, src/rtp_extension_builder.cpp"])
p("C09", "Compound RTCP is split exactly; malformed RTCP is rejected safely",
  "Splitting a received compound control packet yields exactly the sub-packets delimited by their length fields, in order, and never reads outside the datagram. A generated control packet has version 2, the right subtype, type, SSRC and word length, and parsing it gives the packet back.",
  ["inputs"], "every byte string, every payload and payload length that is a multiple of four or not",
  "tests parse well-formed packets only",
  ["src/rtcp_packet.cpp", "include/srtc/rtcp_packet.h"],
  ["RtcpPacket::fromUdpPacket, generate @ src/rtcp_packet.cpp"])
p("C10", "TWCC feedback is decoded and encoded exactly and safely",
  "Feedback that a receiver builds reports each packet of the reported range as received or not exactly as it was, with receive times accurate to the 250 us resolution without accumulating error. Reading feedback from the network, however malformed, never reads outside the message or loops without bound.",
  ["inputs", "histories"], "every arrival pattern and every feedback byte string, across sequence wrap",
  "tests replay recorded feedback; run-length/status-vector boundaries and malformed counts are unexplored",
  ["src/twcc_subscribe.cpp", "src/twcc_publish.cpp", "src/rtp_responder_twcc.cpp", "src/rtp_extension_source_twcc.cpp"],
  ["TWCC parsing @ src/rtp_extension_source_twcc.cpp", "TWCC generation @ src/twcc_subscribe.cpp, src/rtp_responder_twcc.cpp"],
  na="within reach of the technique but contracts for the TWCC builder and parser were not built in the time available: nothing is claimed")
p("C11", "STUN parsing and building stay inside the buffer and are verified before use",
  "For a datagram of any content, validating, searching and reading STUN messages never touches memory outside the datagram, and only messages whose declared length fits the datagram are accepted. Building a message never writes beyond the buffer it was given. Integrity and fingerprint are accepted only when they match the message bytes.",
  ["inputs"], "every byte string of every length, every order and length of attributes",
  "tests exchange a few well-formed messages",
  ["src/stun/stunmessage.cpp", "src/stun/stunhmac.cpp", "src/stun/stuncrc32.cpp", "src/ice_agent.cpp", "src/peer_candidate.cpp"],
  ["stun_message_validate_buffer_length, stun_message_find, append @ src/stun/stunmessage.cpp", "PeerCandidate::onReceivedStunMessage @ src/peer_candidate.cpp"])
p("C12", "SCTP checksums: every packet sent verifies, corrupted packets are rejected",
  "The checksum is CRC-32C over the packet with the checksum field taken as zero; the optimised implementation equals the bitwise definition for every input and the result does not depend on how the data is aligned. A received packet is accepted only if its checksum matches, and every packet built carries a checksum the receiver accepts.",
  ["inputs"], "every byte string, alignment and length",
  "tests check a few vectors; one wrong table entry or one mishandled tail length is invisible to them",
  ["src/sctp/sctp_crc32.cpp", "src/sctp/sctp_packet.cpp", "src/sctp/sctp_packet_builder.cpp"],
  ["sctp_crc32 @ src/sctp/sctp_crc32.cpp", "SctpPacket::parse, SctpPacketBuilder @ src/sctp"])
p("C13", "SCTP input is handled safely and protocol state only follows valid chunks",
  "A datagram of any content given to the SCTP session neither reads outside it nor aborts or loops without bound, and packets with a wrong verification tag or checksum change nothing. Chunks are delimited by their lengths padded to four bytes. Acknowledged data is removed from the outstanding queue exactly when the cumulative TSN or a gap block covers it.",
  ["inputs", "histories"], "every datagram, every session state",
  "tests run two well-behaved peers",
  ["src/sctp/sctp_session.cpp", "src/sctp/sctp_packet.cpp", "src/sctp/sctp_packet_builder.cpp"],
  ["SctpSession::onReceived* @ src/sctp/sctp_session.cpp", "SctpPacket::parse @ src/sctp/sctp_packet.cpp"])
p("C14", "Data channel messages are delivered whole, once and in order",
  "A data channel message is handed to the application only when all its fragments have arrived, with exactly the bytes sent, each message once. On an ordered stream messages are delivered in stream sequence order regardless of arrival order.",
  ["histories", "inputs"], "every fragmentation and arrival order",
  "tests deliver fragments in order",
  ["src/sctp/data_channel_receive_buffer.cpp", "src/sctp/sctp_session.cpp"],
  ["DataChannelReceiveBuffer @ src/sctp/data_channel_receive_buffer.cpp"])
p("C15", "Byte buffers and byte readers/writers never touch memory outside and keep data",
  "Appending, resizing, padding, copying and moving a byte buffer keep its earlier content and never write outside its storage, for every size. Whatever a byte writer writes (integers big-endian, strings, blocks, LEB128 values) a byte reader reads back equal, and reads past the end are refused, not performed.",
  ["inputs", "histories"], "every content, every size and capacity, every sequence of operations",
  "tests use small fixed buffers; growth boundaries and arithmetic wrap are unexplored",
  ["src/byte_buffer.cpp", "include/srtc/byte_buffer.h"],
  ["ByteBuffer, ByteWriter, ByteReader @ src/byte_buffer.cpp"])
p("C16", "Bit-level reads return the right bits and never overrun",
  "Reading n bits returns exactly the next n bits, most significant first, and advances by n; exp-Golomb reads return the value RFC/ITU defines for the code read. A read beyond the end yields zero bits or failure without touching memory outside the data, and terminates.",
  ["inputs"], "every data block, every start position, every width up to 32 and every exp-Golomb code up to 32 leading zeros",
  "tests decode a few codes; offset and width combinations and long codes are not covered",
  ["src/bit_reader.cpp", "include/srtc/bit_reader.h"],
  ["BitReader::readBits, readUnsignedExpGolomb @ src/bit_reader.cpp"])
p("C17", "Codec bitstream parsers find every unit exactly and never read outside the frame",
  "Splitting a frame into NAL units (Annex B) or OBUs yields exactly the units present, in order, with none of their bytes lost, for every frame content and size including tiny and empty ones. Parsing never reads outside the frame and always terminates. Key-frame and parameter-set detection agrees with the unit types present.",
  ["inputs"], "every byte string of every length",
  "tests parse a few synthetic frames; start code overlaps at the ends and malformed lengths are unexplored",
  ["src/codec_h264.cpp", "src/codec_h265.cpp", "src/codec_av1.cpp", "src/codec_vp9.cpp"],
  ["NaluParser @ src/codec_h264.cpp, src/codec_h265.cpp", "ObuParser @ src/codec_av1.cpp"])
p("C18", "Packetisers send every byte of a frame once, in order, within the size limit",
  "The packets generated for a frame carry all of its units completely and in order (fragmentation headers start/end flags set exactly on first/last fragment), no packet exceeds the size limit, sequence numbers are consecutive, all have the frame's timestamp and exactly the last one carries the marker. (An Opus frame cannot be split: this holds for those that fit a packet. Parameter sets are never split either. AV1 temporal delimiters and empty units are dropped.)",
  ["inputs", "configurations"], "every frame size and content, every packet size limit, with and without header extensions",
  "tests packetise a few sizes; boundaries (exact multiples, limit minus header) are where off-by-ones live",
  ["src/packetizer_h264.cpp", "src/packetizer_h265.cpp", "src/packetizer_vp8.cpp", "src/packetizer_vp9.cpp", "src/packetizer_av1.cpp", "src/packetizer_opus.cpp", "src/packetizer_video.cpp"],
  ["Packetizer*::generate @ src/packetizer_*.cpp"])
p("C19", "Depacketisers rebuild the frame that was sent and survive malformed payloads",
  "From the packets of one frame in order the depacketiser returns exactly the frame's units (start codes / OBU sizes restored) and nothing else. Payloads of any content, truncated or inconsistent, never make it read outside the packet, dereference nothing, or abort.",
  ["inputs"], "every payload byte string, every split of units into packets",
  "tests round-trip well-formed frames only",
  ["src/depacketizer_h264.cpp", "src/depacketizer_h265.cpp", "src/depacketizer_vp8.cpp", "src/depacketizer_vp9.cpp", "src/depacketizer_av1.cpp", "src/depacketizer_opus.cpp"],
  ["Depacketizer*::extract, reset, getPacketKind @ src/depacketizer_*.cpp"])
p("C20", "The jitter buffer delivers frames once, whole and in order",
  "Frames come out in sequence order, each at most once and only when all of its packets are there; packets that come twice or too late are ignored; packets missing past their deadline are skipped so that delivery never blocks for ever. The number of packets held is bounded by the capacity, for every arrival order.",
  ["histories", "inputs"], "every arrival order, loss and duplication pattern, sequence and timestamp wrap",
  "tests feed a few reorderings",
  ["src/jitter_buffer.cpp", "include/srtc/jitter_buffer.h"],
  ["JitterBuffer::consume, dequeue, processDeque @ src/jitter_buffer.cpp"])
p("C21", "NACK feedback names exactly the missing packets",
  "Compressing a list of missing sequence numbers into NACK items and expanding the items again gives exactly the list, across wrap-around. Expanding received NACK feedback of any content stays inside the message and yields only the numbers it encodes.",
  ["inputs"], "every set of sequence numbers, every NACK message",
  "tests compress a few lists",
  ["src/util.cpp", "include/srtc/util.h", "src/peer_candidate.cpp"],
  ["compressNackList @ src/util.cpp"])
p("C22", "The send history returns exactly the packet that was sent",
  "A retransmission request finds the packet with that SSRC and sequence number if it was sent recently enough, and never a different packet. The history stays bounded.",
  ["histories"], "every sequence of sent packets and lookups across sequence wrap",
  "tests save and find a few packets",
  ["src/send_rtp_history.cpp", "include/srtc/send_rtp_history.h"],
  ["SendRtpHistory::save, find @ src/send_rtp_history.cpp"])
p("C23", "The pool allocator never hands out memory twice",
  "Memory handed out by the pool is at least the requested size, aligned, disjoint from everything handed out and not yet returned, and becomes available again only when it is returned; all pages are freed at the end.",
  ["histories", "configurations"], "every sequence of allocations and releases, every item size",
  "tests allocate one pattern",
  ["src/pool_allocator.cpp", "include/srtc/pool_allocator.h"],
  ["PoolAllocatorImpl::allocate, release, addPage @ src/pool_allocator.cpp"])
p("C24", "RTP media timestamps follow presentation time without drift",
  "The RTP timestamp of a frame differs from that of the first frame by exactly the presentation time difference in clock units (modulo 2^32), however many frames lie in between. Presentation time going backwards leaves the timestamp where it was. The current-time timestamp extrapolates the newest frame by the elapsed wall time.",
  ["inputs", "histories"], "every sequence of presentation times, clock rates 8000, 48000 and 90000, any number of frames",
  "rounding errors accumulate only over thousands of frames, which tests do not send",
  ["src/rtp_time_source.cpp", "include/srtc/rtp_time_source.h"],
  ["RtpTimeSource::getFrameTimestamp, getCurrentTimestamp @ src/rtp_time_source.cpp"])
p("C25", "Outgoing sequence numbers are consecutive and the packet index never repeats",
  "Each packet of a stream gets the next sequence number modulo 2^16, and the rollover counter is incremented exactly when the number wraps, so that the pair forms a strictly increasing packet index.",
  ["histories"], "every starting number and any number of packets below 2^32",
  "tests generate a few numbers; the wrap needs 2^16 packets from a random start",
  ["src/rtp_packet_source.cpp", "include/srtc/rtp_packet_source.h"],
  ["RtpPacketSource::getNextSequence @ src/rtp_packet_source.cpp"])
p("C26", "NTP conversions are exact; an echoed report time matches the report it came from",
  "Converting the wall clock to NTP time and NTP time to Unix microseconds rounds down to the unit and is otherwise exact (there and back: within one microsecond). A report block that echoes the time stamp of a report sent for the same stream is matched to exactly that report, once; one that echoes any other time stamp is matched to none. The peer's processing delay is taken off the time that passed.",
  ["inputs", "histories"], "every time of the NTP era, every history of reports",
  "tests convert a few times",
  ["src/util.cpp", "src/sender_reports_history.cpp", "src/receiver_reference_time_reports_history.cpp"],
  ["NtpTime conversions @ src/util.cpp", "SenderReportsHistory, ReceiverReferenceTimeReportsHistory @ src"])
p("C27", "Incoming datagrams are dispatched to exactly one protocol by their first bytes",
  "A received datagram is treated as STUN, DTLS, RTP or RTCP exactly as RFC 7983 / RFC 5761 classify its first bytes, short or unclassifiable datagrams are dropped, and none is processed twice.",
  ["inputs"], "every byte string and length",
  "tests send valid traffic only",
  ["src/peer_candidate.cpp", "src/stun/utils.cpp"],
  ["is_stun/dtls/rtp/rtcp_message @ src/peer_candidate.cpp"])
p("C28", "ICE responses count only for requests that were sent and not yet answered",
  "A STUN response is matched to an outstanding request with the same transaction id at most once; responses with unknown ids are ignored and forgotten requests expire. The role and priority attributes of requests are those of the agent.",
  ["histories", "inputs"], "every interleaving of requests, responses and expiry",
  "tests run one exchange",
  ["src/ice_agent.cpp", "include/srtc/ice_agent.h"],
  ["IceAgent::initRequest, forgetTransaction, forgetExpiredTransactions @ src/ice_agent.cpp"])
p("C29", "A DTLS peer is accepted only with the certificate fingerprint from the SDP",
  "The comparison of the certificate fingerprint with the fingerprint announced in the SDP accepts only equal fingerprints of the right length, for every pair of values.",
  ["inputs"], "every certificate digest and every announced fingerprint string, including wrong lengths and characters",
  "tests use one matching pair",
  ["src/peer_candidate.cpp", "src/util.cpp", "src/sdp_answer.cpp"],
  ["fingerprint check after the DTLS handshake @ src/peer_candidate.cpp", "hex parsing of the fingerprint @ src/sdp_answer.cpp"])
p("C30", "Scheduled tasks run once, in time order, and never after cancellation",
  "A task scheduled on the loop or thread scheduler runs at most once, not before its delay, and never after its cancellation has returned.",
  ["schedules", "histories"], "every interleaving of scheduling, cancelling and running threads",
  "needs particular thread interleavings",
  ["src/scheduler.cpp", "include/srtc/scheduler.h"], ["ThreadScheduler, LoopScheduler @ src/scheduler.cpp"],
  na="thread interleavings: the verifier reasons about single-threaded execution of a function; no deductive verifier for concurrent C++ is installed")
p("C31", "SDP offers and answers agree on tracks, codecs and parameters",
  "Parsing an SDP answer yields exactly the media lines, payload types, extension ids, ICE credentials, fingerprint and candidates it contains, and every malformed answer gives an error rather than a crash.",
  ["inputs"], "every answer text",
  "tests parse a few answers",
  ["src/sdp_answer.cpp", "src/sdp_offer.cpp"], ["SdpAnswer::parse @ src/sdp_answer.cpp"],
  na="parsing is built on iostreams, std::regex-like string handling and locale machinery of libstdc++ that is out of line (no bodies to verify) and whose contracts would all have to be assumed; nothing of the property would be left to prove")
p("C32", "The send pacer sends every enqueued packet once, in order, within its budget",
  "Every packet given to the pacer is sent exactly once in order unless flushed, spread over the requested time.",
  ["schedules", "histories"], "every sequence of enqueue, flush and timer events",
  "timing dependent",
  ["src/send_pacer.cpp"], ["SendPacer @ src/send_pacer.cpp"],
  na="the pacer's result is timing against the event loop and socket; its arithmetic is floating point, which the verifier does not interpret")
