// OpenSSL's EVP interface under its contract, as a recorder: which key, IV, associated data, text and MAC input a call
// sequence feeds, looked at through one arbitrary byte position g_t of each stream; every call may fail.
#pragma once
#include "vf.h"
#include "stub_net.h"
#include <openssl/evp.h>
#include <openssl/srtp.h>
#include <openssl/crypto.h>
#include <cstring>
struct GhostCtx {
    int cipher, dir; // 1 aes-256-gcm, 2 aes-128-gcm, 3 aes-128-ctr, 4 aes-128-ecb, 5 aes-256-ecb; dir 1 encrypt, 2 decrypt
    bool keyed, done, tagset;
    uint8_t key[32], iv[16], tag[16];
    uint64_t aad, body;
    uint8_t aadByte, bodyByte, outByte;
};
static GhostCtx g_ctx[3];
static int g_nctx;
static uint64_t g_t;
static bool g_auth, g_failed, g_mayfail;
static char g_ciphers[6];
static uint64_t g_mac;
static uint8_t g_macByte, g_mackey[20], g_digest[20];
static bool g_mackeyed, g_macdone;
static uint64_t g_mackeylen;
static uint8_t g_ecbIn[4][16], g_ecbOut[4][16], g_ecbKey[32];
static int g_ecb, g_ecbCipher;
static bool g_ecbSameKey;
static inline int ghostOk()
{
    if (g_mayfail && vf_any_bool()) { g_failed = true; return 0; }
    return 1;
}
static inline int ghostKeyLen(int c) { return c == 1 || c == 5 ? 32 : 16; }
static int ghostInit(EVP_CIPHER_CTX* p, const EVP_CIPHER* c, const uint8_t* key, const uint8_t* iv, int dir)
{
    auto x = (GhostCtx*)p;
    if (c) { x->cipher = (int)((const char*)c - g_ciphers); x->dir = dir; }
    vf_assert(x->cipher != 0 && x->dir == dir, "cipher context in the direction it was set up for");
    if (!key && !iv) return 1;
    if (!ghostOk()) return 0;
    vf_assert(key && iv, "key and IV together");
    for (int i = 0; i < ghostKeyLen(x->cipher); i++) x->key[i] = key[i];
    for (int i = 0; i < (x->cipher <= 2 ? 12 : 16); i++) x->iv[i] = iv[i];
    x->keyed = true; x->done = x->tagset = false; x->aad = x->body = 0;
    return 1;
}
static int ghostUpdate(EVP_CIPHER_CTX* p, uint8_t* out, int* len, const uint8_t* in, int n, int dir)
{
    auto x = (GhostCtx*)p;
    vf_assert(x->keyed && !x->done && x->dir == dir, "keyed before use");
    vf_assert(n >= 0, "length");
    if (!ghostOk()) return 0;
    if (n > 0) { volatile uint8_t touch = in[n - 1]; (void)touch; }
    *len = n;
    if (x->cipher >= 4) { // key derivation: single blocks
        vf_assert(n == 16 && g_ecb < 4, "one block at a time");
        g_ecbCipher = x->cipher;
        for (int i = 0; i < 16; i++) g_ecbIn[g_ecb][i] = in[i];
        vf_any_havoc(out, 16);
        for (int i = 0; i < 16; i++) g_ecbOut[g_ecb][i] = out[i];
        for (int i = 0; i < ghostKeyLen(x->cipher); i++) { if (g_ecb && g_ecbKey[i] != x->key[i]) g_ecbSameKey = false; g_ecbKey[i] = x->key[i]; }
        g_ecb++;
        return 1;
    }
    if (!out) {
        vf_assert(x->cipher <= 2, "associated data only with GCM");
        vf_assert(x->body == 0, "associated data first");
        if (g_t >= x->aad && g_t < x->aad + n) x->aadByte = in[g_t - x->aad];
        x->aad += n;
        return 1;
    }
    if (g_t >= x->body && g_t < x->body + n) x->bodyByte = in[g_t - x->body];
    if (n > 0) vf_any_havoc(out, n);
    if (g_t >= x->body && g_t < x->body + n) x->outByte = out[g_t - x->body];
    x->body += n;
    return 1;
}
extern "C" {
__attribute__((used)) const EVP_CIPHER* EVP_aes_256_gcm(void) { return (const EVP_CIPHER*)(g_ciphers + 1); }
__attribute__((used)) const EVP_CIPHER* EVP_aes_128_gcm(void) { return (const EVP_CIPHER*)(g_ciphers + 2); }
__attribute__((used)) const EVP_CIPHER* EVP_aes_128_ctr(void) { return (const EVP_CIPHER*)(g_ciphers + 3); }
__attribute__((used)) const EVP_CIPHER* EVP_aes_128_ecb(void) { return (const EVP_CIPHER*)(g_ciphers + 4); }
__attribute__((used)) const EVP_CIPHER* EVP_aes_256_ecb(void) { return (const EVP_CIPHER*)(g_ciphers + 5); }
EVP_CIPHER_CTX* EVP_CIPHER_CTX_new(void) { return (EVP_CIPHER_CTX*)&g_ctx[g_nctx++]; }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX*) {}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* x, const EVP_CIPHER* c, ENGINE*, const unsigned char* k, const unsigned char* iv) { return ghostInit(x, c, k, iv, 1); }
int EVP_DecryptInit_ex(EVP_CIPHER_CTX* x, const EVP_CIPHER* c, ENGINE*, const unsigned char* k, const unsigned char* iv) { return ghostInit(x, c, k, iv, 2); }
int EVP_EncryptUpdate(EVP_CIPHER_CTX* x, unsigned char* o, int* l, const unsigned char* i, int n) { return ghostUpdate(x, o, l, i, n, 1); }
int EVP_DecryptUpdate(EVP_CIPHER_CTX* x, unsigned char* o, int* l, const unsigned char* i, int n) { return ghostUpdate(x, o, l, i, n, 2); }
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX* p, unsigned char*, int* l)
{
    auto x = (GhostCtx*)p;
    if (!ghostOk()) return 0;
    x->done = true; *l = 0;
    return 1;
}
int EVP_DecryptFinal_ex(EVP_CIPHER_CTX* p, unsigned char*, int* l)
{
    auto x = (GhostCtx*)p;
    if (x->cipher > 2) { if (!ghostOk()) return 0; x->done = true; *l = 0; return 1; }
    vf_assert(x->tagset, "tag given before the end");
    g_auth = vf_any_bool();
    if (!g_auth) return 0;
    x->done = true; *l = 0;
    return 1;
}
int EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* p, int type, int n, void* ptr)
{
    auto x = (GhostCtx*)p;
    vf_assert(x->cipher <= 2 && n == 16, "16 byte GCM tag");
    if (!ghostOk()) return 0;
    if (type == EVP_CTRL_GCM_SET_TAG) { for (int i = 0; i < 16; i++) x->tag[i] = ((uint8_t*)ptr)[i]; x->tagset = true; }
    else if (type == EVP_CTRL_GCM_GET_TAG) { if (!x->done) return 0; vf_any_havoc(x->tag, 16); for (int i = 0; i < 16; i++) ((uint8_t*)ptr)[i] = x->tag[i]; x->tagset = true; }
    else vf_assert(false, "known control");
    return 1;
}
EVP_MAC* EVP_MAC_fetch(OSSL_LIB_CTX*, const char* a, const char*) { vf_assert(a[0] == 'H' && a[1] == 'M' && a[2] == 'A' && a[3] == 'C' && a[4] == 0, "HMAC"); return (EVP_MAC*)&g_mac; }
EVP_MAC_CTX* EVP_MAC_CTX_new(EVP_MAC*) { return (EVP_MAC_CTX*)&g_mac; }
OSSL_PARAM OSSL_PARAM_construct_utf8_string(const char*, char* b, size_t) { vf_assert(b[0] == 'S' && b[1] == 'H' && b[2] == 'A' && b[3] == '1' && b[4] == 0, "SHA1"); return OSSL_PARAM{}; }
OSSL_PARAM OSSL_PARAM_construct_end(void) { return OSSL_PARAM{}; }
int EVP_MAC_init(EVP_MAC_CTX*, const unsigned char* k, size_t n, const OSSL_PARAM*)
{
    g_mackeylen = n;
    vf_assert(n == 20, "160 bit authentication key");
    for (int i = 0; i < 20; i++) g_mackey[i] = k[i];
    g_mackeyed = true; g_macdone = false; g_mac = 0;
    return 1;
}
int EVP_MAC_update(EVP_MAC_CTX*, const unsigned char* p, size_t n)
{
    vf_assert(g_mackeyed && !g_macdone, "keyed before use");
    if (n > 0) { volatile uint8_t touch = p[n - 1]; (void)touch; }
    if (g_t >= g_mac && g_t < g_mac + n) g_macByte = p[g_t - g_mac];
    g_mac += n;
    return 1;
}
int EVP_MAC_final(EVP_MAC_CTX*, unsigned char* o, size_t* l, size_t)
{
    vf_assert(g_mackeyed && !g_macdone, "one digest");
    vf_any_havoc(g_digest, 20);
    for (int i = 0; i < 20; i++) o[i] = g_digest[i];
    *l = 20;
    g_macdone = true;
    return 1;
}
void EVP_MAC_CTX_free(EVP_MAC_CTX*) {}
void EVP_MAC_free(EVP_MAC*) {}
int CRYPTO_memcmp(const void* a, const void* b, size_t n)
{
    int r = 0;
    for (size_t i = 0; i < n; i++) r |= ((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i];
    return r;
}
}
static void ghostReset(bool mayfail)
{
    memset(g_ctx, 0, sizeof g_ctx);
    g_nctx = 0; g_ecb = 0; g_ecbSameKey = true; g_auth = g_failed = false; g_mayfail = mayfail; g_mac = 0; g_mackeyed = g_macdone = false;
}
