// PROPERTY: C02 C03
// TUS: src/srtp_crypto.cpp src/srtp_util.cpp src/srtp_hmac_sha1.cpp src/byte_buffer.cpp src/error.cpp
// ASSUME: OpenSSL's AES in ECB mode encrypts one block under the given key
// Session keys (RFC 3711 4.3): AES of salt xor label and block counter under the master key; one label for each of the six keys.
#include "srtp_ghost.h"
#include "srtc/srtp_util.h"
#include "srtc/srtp_crypto.h"
#include "srtc/srtp_hmac_sha1.h"
using namespace srtc;
namespace srtc { void initOpenSSL() {} }
VF_HARNESS(kdf_generate)
{
    ghostReset(true);
    uint8_t k[32], s[32];
    vf_havoc(k, 32, "key"); vf_havoc(s, 32, "salt");
    const size_t kl = vf_fork(vf_bool("aes256")) ? 32 : 16, sl = vf_fork(vf_bool("salt14")) ? 14 : 12;
    const size_t want = vf_case(vf_range(1, 32, "want"), 1, 32);
    const uint8_t label = vf_u8("label");
    CryptoBytes key, salt, out;
    key.assign(k, kl); salt.assign(s, sl);
    const bool ok = KeyDerivation::generate(key, salt, label, out, want);
    vf_assert(ok == !g_failed, "fails only with the cipher");
    if (!ok) { vf_cover("failed"); return; }
    vf_assert(g_ecb == (int)(want + 15) / 16 && g_ecbCipher == (kl == 16 ? 4 : 5) && g_ecbSameKey, "AES with the master key size");
    bool kok = true, iok = true, ook = true;
    for (size_t i = 0; i < kl; i++) kok &= g_ecbKey[i] == k[i];
    for (int b = 0; b < g_ecb; b++) for (int i = 0; i < 16; i++) {
        uint8_t e = i < (int)sl ? s[i] : 0;
        if (i == 7) e ^= label;
        if (i == 15) e = b;
        iok &= g_ecbIn[b][i] == e;
    }
    for (size_t i = 0; i < 32; i++) ook &= out.v8[i] == (i < want ? g_ecbOut[i / 16][i % 16] : 0);
    vf_assert(kok, "under the master key");
    vf_assert(iok, "of the salt with the label and the block counter");
    vf_assert(ook && out.size() == want, "output is the key stream");
    vf_cover("end");
}
namespace {
const CryptoBytes *g_mk, *g_ms, *g_rk, *g_rs;
uint64_t g_called; bool g_fail; size_t g_keylen, g_saltlen;
// stands for the derived key: master (send or receive), label and length
bool gen(const CryptoBytes& k, const CryptoBytes& s, uint8_t label, CryptoBytes& out, size_t n)
{
    const bool snd = &k == g_mk;
    vf_assert(snd ? &s == g_ms : &k == g_rk && &s == g_rs, "key and salt of one direction");
    if (vf_any_bool()) { g_fail = true; return false; }
    uint8_t b[32] = {};
    b[0] = snd; b[1] = label; b[2] = (uint8_t)n;
    out.assign(b, n);
    return true;
}
bool is(const CryptoBytes& c, bool snd, uint8_t label, size_t n) { return c.size() == n && c.v8[0] == snd && c.v8[1] == label && c.v8[2] == n; }
bool is(const SrtpCrypto::CryptoVectors& v, bool snd, uint8_t base) { return is(v.key, snd, base, g_keylen) && is(v.auth, snd, base + 1, 20) && is(v.salt, snd, base + 2, g_saltlen); }
}
VF_HARNESS(kdf_create)
{
    if (vf_mode() != 1) return; // replaces a function: verifier only
    vf_stub("srtc::KeyDerivation::generate(srtc::CryptoBytes const&, srtc::CryptoBytes const&, unsigned char, srtc::CryptoBytes&, unsigned long)", (void*)&gen);
    ghostReset(false);
    g_fail = false;
    static const int ids[5] = { SRTP_AEAD_AES_256_GCM, SRTP_AEAD_AES_128_GCM, SRTP_AES128_CM_SHA1_80, SRTP_AES128_CM_SHA1_32, 99 };
    const int sel = (int)vf_case(vf_range(0, 4, "profile"), 0, 4);
    uint8_t b[32] = {};
    CryptoBytes mk, ms, rk, rs;
    g_keylen = sel == 0 ? 32 : 16; g_saltlen = sel < 2 ? 12 : 14;
    const bool empty = vf_fork(vf_bool("empty"));
    if (!empty) { mk.assign(b, g_keylen); ms.assign(b, g_saltlen); }
    rk.assign(b, g_keylen); rs.assign(b, g_saltlen);
    g_mk = &mk; g_ms = &ms; g_rk = &rk; g_rs = &rs;
    auto r = SrtpCrypto::create(ids[sel], mk, ms, rk, rs);
    if (empty || sel == 4 || g_fail) { vf_assert(r.second.isError() && !r.first, "refused"); vf_cover("refused"); return; }
    vf_assert(!r.second.isError() && r.first, "created");
    const auto& c = *r.first;
    vf_assert(is(c.mSendRtp, true, 0), "send RTP keys: labels 0 to 2");
    vf_assert(is(c.mReceiveRtp, false, 0), "receive RTP keys: labels 0 to 2");
    vf_assert(is(c.mSendRtcp, true, 3), "send RTCP keys: labels 3 to 5");
    vf_assert(is(c.mReceiveRtcp, false, 3), "receive RTCP keys: labels 3 to 5");
    vf_assert(c.mProfileId == (uint64_t)ids[sel], "profile");
    const int cipher = sel == 0 ? 1 : sel == 1 ? 2 : 3;
    vf_assert(c.mSendCipherCtx && c.mReceiveCipherCtx && c.mSendCipherCtx != c.mReceiveCipherCtx, "cipher contexts");
    vf_assert(((GhostCtx*)c.mSendCipherCtx)->cipher == cipher && ((GhostCtx*)c.mReceiveCipherCtx)->cipher == cipher, "cipher of the profile");
    vf_assert(c.getMediaProtectionOverhead() == (sel < 2 ? 16u : sel == 2 ? 10u : 4u), "overhead is the tag");
    vf_cover("end");
}
