// PROPERTY: C02 C03 C04
// TUS: src/srtp_connection.cpp src/replay_protection.cpp src/byte_buffer.cpp src/error.cpp src/rtcp_packet_source.cpp src/srtp_util.cpp
// NATIVE: no
// OPT: conn_media property=C04,C02
// OPT: conn_media_first property=C04
// OPT: conn_streams property=C04
// OPT: conn_control property=C02,C04
// OPT: conn_protect property=C03
// OPT: conn_index property=C03
// OPT: conn_keys property=C02,C03
// ASSUME: ReplayProtection::canProceed and set per their contract (proved in C01); SrtpCrypto per its contract (proved in C02, C03)
// One SRTP connection: replay window and rollover counter per stream, keys from the DTLS exporter.
#include "bytebuf_model.h"
#include "stub_net.h"
#include <openssl/ssl.h>
#include <openssl/srtp.h>
#include "srtc/srtp_connection.h"
#include "srtc/srtp_crypto.h"
#include "srtc/rtcp_packet_source.h"
#include <cstring>
using namespace srtc;
namespace {
const ReplayProtection* g_rp; uint32_t g_value; bool g_can; int g_asked, g_set, g_setOther; uint32_t g_setValue;
bool can(const ReplayProtection* self, uint32_t v) { vf_assert(self == g_rp, "replay window of this stream"); vf_assert(v == g_value, "index of this packet"); g_asked++; return g_can; }
bool set(ReplayProtection* self, uint32_t v) { if (self == g_rp) g_set++; else g_setOther++; g_setValue = v; return true; }
int g_crypt; bool g_auth; uint32_t g_roc; const ByteBuffer* g_in; uint64_t g_outlen; int g_askedBefore;
bool mediaIn(SrtpCrypto*, const ByteBuffer& in, uint32_t roc, ByteBuffer& out)
{
    g_crypt++; g_roc = roc; g_in = &in; g_askedBefore = g_asked;
    out.resize(0);
    if (!g_auth) return false;
    out.resize(g_outlen);
    return true;
}
bool controlIn(SrtpCrypto* c, const ByteBuffer& in, ByteBuffer& out) { return mediaIn(c, in, 0, out); }
uint64_t g_raw[64];
std::pair<bool, size_t> oneBucket(const void*, size_t, size_t, size_t) { return { false, 0 }; } // any growth policy gives the same map
void reset() { g_asked = g_set = g_setOther = g_crypt = 0; g_in = nullptr; }
SrtpConnection* make()
{
    static const int ids[4] = { SRTP_AEAD_AES_256_GCM, SRTP_AEAD_AES_128_GCM, SRTP_AES128_CM_SHA1_80, SRTP_AES128_CM_SHA1_32 };
    reset();
    g_can = vf_bool("fresh"); g_auth = vf_bool("authentic");
    g_outlen = vf_range(0, 65535, "plain");
    return new SrtpConnection(std::shared_ptr<SrtpCrypto>(std::shared_ptr<void>(), (SrtpCrypto*)g_raw), ids[vf_case(vf_range(0, 3, "profile"), 0, 3)]);
}
auto& chan(SrtpConnection* c, uint32_t ssrc, bool media)
{
    return media ? c->ensureSrtpChannel(c->mSrtpInMap, { ssrc, SrtpConnection::ChannelKind::Media }, 0xffff) : c->ensureSrtpChannel(c->mSrtpInMap, { ssrc, SrtpConnection::ChannelKind::Control }, 0xffffffffu);
}
ByteBuffer* packet(uint64_t n, const uint8_t*& d)
{
    d = (const uint8_t*)vf_bytes(n, "packet");
    return new ByteBuffer(d, n);
}
uint32_t be16(const uint8_t* p) { return p[0] << 8 | p[1]; }
uint32_t be32(const uint8_t* p) { return be16(p) << 16 | be16(p + 2); }
}
#define STUBS vfc_bytebuf(); \
    vf_stub("srtc::ReplayProtection::canProceed(unsigned int)", (void*)&can); vf_stub("srtc::ReplayProtection::set(unsigned int)", (void*)&set); \
    vf_stub("srtc::SrtpCrypto::unprotectReceiveMedia(srtc::ByteBuffer const&, unsigned int, srtc::ByteBuffer&)", (void*)&mediaIn); \
    vf_stub("srtc::SrtpCrypto::unprotectReceiveControl(srtc::ByteBuffer const&, srtc::ByteBuffer&)", (void*)&controlIn)
VF_HARNESS(conn_media)
{
    STUBS;
    auto c = make();
    const uint64_t n = vf_range(12, 65535, "n");
    const uint8_t* d;
    auto& in = *packet(n, d);
    auto& ch = chan(c, be32(d + 8), true);
    // the stream so far: H is the newest authentic packet index, L one of the window before it (same rollover period)
    const uint64_t hroc = vf_range(0, 0xfffffffe, "roc"), hseq = vf_u16("seq"), back = vf_range(0, 2047, "back");
    vf_assume(back <= hseq);
    const uint64_t H = hroc << 16 | hseq;
    ch.rolloverCount = (uint32_t)hroc;
    ch.lastSequence16 = (uint16_t)(hseq - back);
    g_rp = ch.replayProtection.get();
    g_value = be16(d + 2);
    // a packet of the sender within the replay window around H; the receiver sees only the low 16 bits of its index
    const uint64_t i = (hroc << 16) - 65536 + vf_range(0, 3 * 65536 - 1, "index");
    vf_assume((uint16_t)i == g_value);
    const bool window = (i + 2048 > H) & (i <= H + 512) & ((int64_t)i >= 0);
    ByteBuffer out;
    const bool ok = c->unprotectReceiveMedia(in, out);
    vf_assert(!g_setOther && g_asked == 1, "replay protection of this stream");
    if (g_can && window) vf_assert(g_crypt == 1 && g_roc == (uint32_t)(i >> 16), "rollover counter of the sender");
    vf_assert(g_crypt <= 1 && (g_crypt == 0 || (g_can && g_askedBefore == 1)), "replays are not even decrypted");
    if (g_crypt) vf_assert(g_in == &in, "this packet");
    vf_assert(ok == (g_can && g_auth && g_outlen >= 12), "accepted exactly when fresh and authentic");
    if (!ok) {
        vf_assert(ch.rolloverCount == (uint32_t)hroc && ch.lastSequence16 == (uint16_t)(hseq - back), "rollover state untouched");
        vf_assert(g_set == 0, "replay window untouched");
        vf_cover("refused");
    } else {
        vf_assert(g_set == 1 && g_setValue == g_value, "marked as seen");
        vf_assert(out.size() == g_outlen, "plain text handed out");
        if (window) {
            const uint64_t N = i > H ? i : H;
            vf_assert(ch.lastSequence16.has_value(), "newest known");
            const uint64_t L = (uint64_t)ch.rolloverCount << 16 | *ch.lastSequence16;
            vf_assert(L >> 16 == N >> 16 && L <= N && L + 2048 > N, "rollover state follows the sender");
            vf_cover("window");
        }
    }
}
VF_HARNESS(conn_media_first)
{
    STUBS;
    auto c = make();
    const uint64_t n = vf_range(0, 65535, "n");
    const uint8_t* d;
    auto& in = *packet(n, d);
    ByteBuffer out;
    if (n < 12) { vf_assert(!c->unprotectReceiveMedia(in, out) && !g_crypt, "too short"); vf_cover("short"); return; }
    auto& ch = chan(c, be32(d + 8), true);
    vf_assert(ch.rolloverCount == 0 && !ch.lastSequence16.has_value(), "new stream");
    g_rp = ch.replayProtection.get(); g_value = be16(d + 2);
    vf_assert(g_rp->mMaxPossibleValue == 65535 && g_rp->mStorage == nullptr && g_rp->mSize == 2048, "window over 16 bit sequence numbers");
    const bool ok = c->unprotectReceiveMedia(in, out);
    if (g_can) vf_assert(g_crypt == 1 && g_roc == 0, "starts with rollover counter 0");
    vf_assert(ok == (g_can && g_auth && g_outlen >= 12) && g_set == (ok ? 1 : 0), "accepted exactly when authentic");
    vf_assert(ch.rolloverCount == 0 && ch.lastSequence16.has_value() == ok, "only an authentic packet starts the stream");
    if (ok) { vf_assert(*ch.lastSequence16 == g_value, "at its number"); vf_cover("started"); }
    else vf_cover("refused");
}
VF_HARNESS(conn_streams)
{
    STUBS;
    vf_unroll("*", 4);
    vf_stub("std::__detail::_Prime_rehash_policy::_M_need_rehash(unsigned long, unsigned long, unsigned long) const", (void*)&oneBucket);
    auto c = make();
    const uint8_t* d;
    auto& in = *packet(vf_range(12, 65535, "n"), d);
    const uint32_t ssrc = vf_u32("other");
    const bool media = vf_fork(vf_bool("media"));
    const bool control = vf_fork(vf_bool("control"));
    if (!control) vf_assume(!media || ssrc != be32(d + 8));
    else vf_assume(media || ssrc != be32(d + 4));
    auto& other = chan(c, ssrc, media);
    auto& mine = control ? chan(c, be32(d + 4), false) : chan(c, be32(d + 8), true);
    vf_assert(&other != &mine && other.replayProtection.get() != mine.replayProtection.get(), "streams have their own state");
    const uint32_t roc = vf_u32("roc"); const uint16_t last = vf_u16("last");
    other.rolloverCount = roc; other.lastSequence16 = last;
    mine.rolloverCount = vf_u32("myroc"); mine.lastSequence16 = vf_u16("mylast");
    g_rp = mine.replayProtection.get();
    g_value = be16(d + 2);
    ByteBuffer out;
    if (control) {
        const uint64_t n = in.size(), e = c->mProfileId >= SRTP_AEAD_AES_128_GCM ? 4 : 14;
        if (n >= e) g_value = be32(d + n - e) & 0x7fffffff;
        (void)c->unprotectReceiveControl(in, out);
        vf_cover("control");
    } else { (void)c->unprotectReceiveMedia(in, out); vf_cover("media"); }
    vf_assert(other.rolloverCount == roc && other.lastSequence16 == last && !g_setOther, "other streams untouched");
    vf_assert(other.replayProtection->mStorage == nullptr, "nor their window");
}
VF_HARNESS(conn_control)
{
    STUBS;
    auto c = make();
    const uint64_t n = vf_range(0, 65535, "n");
    const uint8_t* d;
    auto& in = *packet(n, d);
    const uint64_t tail = c->mProfileId >= SRTP_AEAD_AES_128_GCM ? 4 : 14; // index at the end, or before the 10 byte tag
    ByteBuffer out;
    if (n < 12 || n < 8 + tail) { vf_assert(!c->unprotectReceiveControl(in, out) && !g_crypt && !g_set, "too short"); vf_cover("short"); return; }
    auto& ch = chan(c, be32(d + 4), false);
    g_rp = ch.replayProtection.get(); g_value = be32(d + n - tail) & 0x7fffffff;
    vf_assert(g_rp->mMaxPossibleValue == 0xffffffffu && g_rp->mSize == 2048, "window over the SRTCP index");
    const bool ok = c->unprotectReceiveControl(in, out);
    vf_assert(g_crypt == (g_can ? 1 : 0) && g_askedBefore <= 1 && (!g_crypt || g_in == &in), "replays are not even decrypted");
    vf_assert(ok == (g_can && g_auth && g_outlen >= 8), "accepted exactly when fresh and authentic");
    vf_assert(g_set == (ok ? 1 : 0) && !g_setOther && (!ok || g_setValue == g_value), "marked as seen exactly when accepted");
    if (ok) vf_cover("accepted"); else vf_cover("refused");
}
namespace {
uint32_t g_num;
bool out1(SrtpCrypto*, const ByteBuffer& in, uint32_t v, ByteBuffer& out) { g_crypt++; g_in = &in; g_num = v; return g_auth; }
}
VF_HARNESS(conn_protect)
{
    vf_stub("srtc::SrtpCrypto::protectSendMedia(srtc::ByteBuffer const&, unsigned int, srtc::ByteBuffer&)", (void*)&out1);
    vf_stub("srtc::SrtpCrypto::protectSendControl(srtc::ByteBuffer const&, unsigned int, srtc::ByteBuffer&)", (void*)&out1);
    auto c = make();
    const uint64_t n = vf_range(0, 65535, "n");
    const uint8_t* d;
    auto& in = *packet(n, d);
    ByteBuffer out;
    const uint32_t v = vf_u32("v");
    const bool media = vf_fork(vf_bool("media"));
    const bool ok = media ? c->protectSendMedia(in, v, out) : c->protectSendControl(in, v, out);
    const bool fits = n >= (media ? 12 : 8);
    vf_assert(ok == (fits && g_auth), "result of the encryption; too short is refused");
    vf_assert(g_crypt == (fits ? 1 : 0) && (!fits || (g_in == &in && g_num == v)), "the packet with its rollover counter or index");
    vf_cover("end");
}
VF_HARNESS(conn_index)
{
    RtcpPacketSource s(vf_u32("ssrc"));
    vf_assert(s.getNextSequence() == 1, "starts fresh");
    const uint32_t k = vf_u32("k");
    vf_assume(k < 0x7fffffff);
    s.mNextSequence = k;
    vf_assert(s.getNextSequence() == k + 1 && s.getNextSequence() == k + 2, "SRTCP index strictly increases");
    vf_cover("end");
}
namespace {
SRTP_PROTECTION_PROFILE g_profile; const uint8_t* g_material; size_t g_mlen; int g_export; bool g_exportOk;
int g_created; CryptoBytes g_key[4]; uint64_t g_id;
struct Made { std::pair<std::shared_ptr<SrtpCrypto>, Error> r; };
std::pair<std::shared_ptr<SrtpCrypto>, Error> createStub(uint64_t id, const CryptoBytes& sk, const CryptoBytes& ss, const CryptoBytes& rk, const CryptoBytes& rs)
{
    g_created++; g_id = id;
    g_key[0] = sk; g_key[1] = ss; g_key[2] = rk; g_key[3] = rs;
    return { std::shared_ptr<SrtpCrypto>(std::shared_ptr<void>(), (SrtpCrypto*)g_raw), Error::OK };
}
bool same(const CryptoBytes& a, const uint8_t* b, size_t n) { if (a.size() != n) return false; uint8_t d = 0; for (size_t i = 0; i < n; i++) d |= a.v8[i] ^ b[i]; return d == 0; }
uint8_t g_copy[128];
}
extern "C" {
__attribute__((used)) SRTP_PROTECTION_PROFILE* SSL_get_selected_srtp_profile(SSL*) { return g_profile.id == 0 ? nullptr : &g_profile; }
__attribute__((used)) int SSL_export_keying_material(SSL*, unsigned char* out, size_t n, const char* label, size_t l, const unsigned char*, size_t, int useContext)
{
    g_export++; g_mlen = n;
    static const char want[] = "EXTRACTOR-dtls_srtp";
    vf_assert(l == 19 && !useContext, "exporter label");
    bool eq = true;
    for (size_t i = 0; i < 19; i++) eq &= label[i] == want[i];
    vf_assert(eq, "exporter label of RFC 5764");
    if (!g_exportOk) return 0;
    vf_any_havoc(out, n);
    vf_assert(n <= sizeof g_copy, "size");
    for (size_t i = 0; i < n; i++) g_copy[i] = out[i];
    return 1;
}
}
VF_HARNESS(conn_keys)
{
    vf_stub("srtc::SrtpCrypto::create(unsigned long, srtc::CryptoBytes const&, srtc::CryptoBytes const&, srtc::CryptoBytes const&, srtc::CryptoBytes const&)", (void*)&createStub);
    static const int ids[6] = { SRTP_AEAD_AES_256_GCM, SRTP_AEAD_AES_128_GCM, SRTP_AES128_CM_SHA1_80, SRTP_AES128_CM_SHA1_32, 0, 5 };
    const int sel = (int)vf_case(vf_range(0, 5, "profile"), 0, 5);
    g_profile.id = ids[sel]; g_profile.name = "x";
    g_exportOk = vf_bool("exported"); g_export = g_created = 0;
    const bool active = vf_fork(vf_bool("active"));
    const auto r = SrtpConnection::create((SSL*)g_raw, active);
    if (sel >= 4 || !g_exportOk) { vf_assert(r.second.isError() && !r.first && !g_created, "no connection without keys"); vf_cover("refused"); return; }
    const size_t k = sel == 0 ? 32 : 16, s = sel < 2 ? 12 : 14;
    vf_assert(!r.second.isError() && r.first && r.first->mProfileId == (unsigned long)ids[sel], "connection");
    vf_assert(g_created == 1 && g_id == (uint64_t)ids[sel] && g_export == 1 && g_mlen == 2 * (k + s), "keys of the negotiated profile");
    // RFC 5764 4.2: client key, server key, client salt, server salt.  The remote end being active makes this end the server
    const uint8_t *ck = g_copy, *sk = ck + k, *cs = sk + k, *ss = cs + s;
    vf_assert(same(g_key[0], active ? sk : ck, k) && same(g_key[1], active ? ss : cs, s), "send keys are this end's");
    vf_assert(same(g_key[2], active ? ck : sk, k) && same(g_key[3], active ? cs : ss, s), "receive keys are the other end's");
    vf_cover("end");
}
