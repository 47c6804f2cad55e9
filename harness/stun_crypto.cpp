// PROPERTY: C11
// TUS: src/stun/stuncrc32.cpp src/stun/stun5389.cpp src/stun/utils.cpp
// NATIVE: no
// ASSUME: OpenSSL's EVP_MAC computes HMAC-SHA1 of the bytes it is given
// Which bytes the STUN message integrity (RFC 5389 15.4) and fingerprint (15.5) cover.
#include "vf.h"
#include "stub_net.h"
#define HAVE_OPENSSL 1
#include "src/stun/stunhmac.cpp"
#include "stun5389.h"
#include "stuncrc32.h"
using namespace stun;
namespace {
const uint8_t* g_msg; uint64_t g_len; // the message up to and including the integrity attribute
uint64_t g_fed; int g_init, g_final; bool g_order = true;
const void* g_key; size_t g_keylen; uint8_t g_b2, g_b3; int g_own;
}
extern "C" {
__attribute__((used)) char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) {} return r; }
EVP_MAC* EVP_MAC_fetch(OSSL_LIB_CTX*, const char* a, const char*) { vf_assert(a[0] == 'H' && a[1] == 'M' && a[2] == 'A' && a[3] == 'C' && a[4] == 0, "HMAC"); return (EVP_MAC*)&g_fed; }
EVP_MAC_CTX* EVP_MAC_CTX_new(EVP_MAC*) { return (EVP_MAC_CTX*)&g_fed; }
OSSL_PARAM OSSL_PARAM_construct_utf8_string(const char* k, char* b, size_t) { vf_assert(b[0] == 'S' && b[1] == 'H' && b[2] == 'A' && b[3] == '1' && b[4] == 0, "SHA1"); return OSSL_PARAM{}; }
OSSL_PARAM OSSL_PARAM_construct_end(void) { return OSSL_PARAM{}; }
int EVP_MAC_init(EVP_MAC_CTX*, const unsigned char* k, size_t n, const OSSL_PARAM*) { g_init++; g_key = k; g_keylen = n; return 1; }
int EVP_MAC_update(EVP_MAC_CTX*, const unsigned char* p, size_t n)
{
    if (g_fed == 0 || g_fed >= 4) {
        if (!(p == g_msg + g_fed)) g_order = false;
        if (n > g_len - g_fed) g_order = false;
    } else {
        if (!(g_fed == 2 && n == 2)) g_order = false;
        g_b2 = p[0]; g_b3 = p[1]; g_own++;
    }
    g_fed += n;
    return 1;
}
int EVP_MAC_final(EVP_MAC_CTX*, unsigned char* o, size_t* l, size_t) { g_final++; *l = 20; return 1; }
void EVP_MAC_CTX_free(EVP_MAC_CTX*) {}
void EVP_MAC_free(EVP_MAC*) {}
}
VF_HARNESS(stun_integrity)
{
    g_fed = 0; g_init = g_final = g_own = 0; g_order = true;
    const uint64_t len = vf_range(44, 65535, "len");
    g_msg = (const uint8_t*)vf_bytes(len, "message");
    g_len = len;
    const uint64_t mlen = vf_range(0, 65535, "declared");
    uint8_t sha[20];
    uint8_t key[4];
    stun_sha1(g_msg, len, mlen, sha, key, 4, 0);
    vf_assert(g_init == 1 && g_final == 1 && g_key == key && g_keylen == 4, "keyed with the password");
    vf_assert(g_order && g_own == 1 && g_fed == len - 24, "over the message up to the integrity attribute, in order");
    vf_assert(g_b2 == (uint8_t)(mlen >> 8) && g_b3 == (uint8_t)mlen, "with the given length in the header");
    vf_cover("end");
}
namespace {
const crc_data* g_parts; int g_crcs; uint32_t g_v; uint64_t g_l; const uint8_t* g_m;
uint32_t crc(const crc_data* d, size_t n, bool typo)
{
    g_crcs++;
    vf_assert(n == 3 && !typo, "three parts");
    vf_assert(d[0].buf == g_m && d[0].len == 2, "message type");
    vf_assert(d[1].len == 2 && d[1].buf[0] == (uint8_t)((g_l - 20) >> 8) && d[1].buf[1] == (uint8_t)(g_l - 20), "length up to the end of the fingerprint");
    vf_assert(d[2].buf == g_m + 4 && d[2].len == g_l - 12, "everything up to the fingerprint");
    g_v = vf_any_u32();
    return g_v;
}
}
VF_HARNESS(stun_fingerprint_of)
{
    vf_stub("stun::stun_crc32(stun::crc_data const*, unsigned long, bool)", (void*)&crc);
    g_crcs = 0;
    g_l = vf_range(28, 65535, "len");
    g_m = (const uint8_t*)vf_bytes(g_l, "message");
    const uint32_t f = stun_fingerprint(g_m, g_l, false);
    vf_assert(g_crcs == 1 && f == __builtin_bswap32(g_v ^ 0x5354554e), "CRC-32 xored with STUN in network order");
    vf_cover("end");
}
VF_HARNESS(stun_crc_table)
{
    // every entry of the table: the CRC of every single byte, against the bitwise definition (polynomial EDB88320)
    const uint64_t b = vf_case(vf_range(0, 255, "b"), 0, 255);
    uint8_t v = (uint8_t)b;
    crc_data d; d.buf = &v; d.len = 1;
    uint32_t c = 0xffffffff ^ v;
    for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0);
    vf_assert(stun_crc32(&d, 1, false) == (c ^ 0xffffffff), "CRC-32 of one byte");
    vf_cover("end");
}
namespace { uint32_t one(uint8_t v) { crc_data d; d.buf = &v; d.len = 1; return stun_crc32(&d, 1, false); } }
VF_HARNESS(stun_crc_chain)
{
    // messages of up to three bytes in up to three parts: each byte continues the CRC of the ones before
    const uint64_t n = vf_case(vf_range(1, 3, "n"), 1, 3);
    const uint64_t a = vf_case(vf_range(0, n, "a"), 0, 3), b = vf_case(vf_range(a, n, "b"), 0, 3);
    auto m = (uint8_t*)vf_bytes(n, "message");
    crc_data d[3] = { { m, a }, { m + a, b - a }, { m + b, n - b } };
    uint32_t s = 0xffffffff;
    for (uint64_t i = 0; i < n; i++) s = (one((uint8_t)((uint8_t)s ^ m[i] ^ 0xff)) ^ 0xffffffff ^ 0x00ffffff) ^ s >> 8; // table entry of the low byte
    vf_assert(stun_crc32(d, 3, false) == (s ^ 0xffffffff), "the CRC of the concatenation");
    vf_cover("end");
    vf_bounded("messages of up to three bytes");
}
VF_HARNESS(stun_crc_safe)
{
    vf_unroll("stun_crc32", 3);
    vf_unroll("stun_crc32#2", -1);
    crc_data d[3];
    for (int i = 0; i < 3; i++) { d[i].len = vf_range(0, 65535, "len"); d[i].buf = (uint8_t*)vf_bytes(d[i].len, "part"); }
    (void)stun_crc32(d, 3, vf_bool("typo"));
    vf_cover("end");
}
