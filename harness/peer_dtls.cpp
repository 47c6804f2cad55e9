// PROPERTY: C29
// TUS: src/byte_buffer.cpp src/x509_hash.cpp src/error.cpp src/util.cpp
// NATIVE: no
// ASSUME: X509_digest with SHA-256 writes the 32-byte digest of the certificate; OpenSSL reports a finished handshake truthfully
// Whom a DTLS handshake connects to: PeerCandidate::onReceivedDtlsMessage.
#include "peer_util.h"
namespace {
int g_r, g_e; bool g_cert, g_read; uint8_t g_digest[32];
int g_failed, g_create, g_freed, g_remote, g_ssl_read;
}
extern "C" {
int SSL_do_handshake(SSL*) { return g_r; }
int SSL_get_error(const SSL*, int) { return g_e; }
X509* SSL_get1_peer_certificate(const SSL*) { return g_cert ? (X509*)&g_raw : nullptr; }
const EVP_MD* EVP_get_digestbyname(const char*) { return (const EVP_MD*)&g_raw; }
int X509_digest(const X509*, const EVP_MD*, unsigned char* md, unsigned* len) { for (int i = 0; i < 32; i++) md[i] = g_digest[i]; *len = 32; return 1; }
void X509_free(X509*) {}
int SSL_read(SSL*, void*, int) { g_ssl_read++; return -1; }
int SSL_get_shutdown(const SSL*) { return 0; }
const SSL_CIPHER* SSL_get_current_cipher(const SSL*) { return nullptr; }
const char* SSL_CIPHER_get_name(const SSL_CIPHER*) { return ""; }
SRTP_PROTECTION_PROFILE g_profile = { "p", 1 };
SRTP_PROTECTION_PROFILE* SSL_get_selected_srtp_profile(SSL*) { return &g_profile; }
}
namespace srtc {
std::string to_string(const anyaddr&) { return "a"; }
void Task::cancelHelper(std::weak_ptr<Task>&) {}
}
namespace {
const X509Hash* g_hash;
const X509Hash& hash(const SdpAnswer*) { return *g_hash; }
bool active(const SdpAnswer*) { return false; }
bool g_srtp_ok;
std::pair<std::shared_ptr<SrtpConnection>, Error> create(ssl_st*, bool)
{
    g_create++;
    return { nullptr, g_srtp_ok ? Error::OK : Error{ Error::Code::InvalidData, "x" } };
}
void failed(PeerCandidate*, const Error&) { g_failed++; }
void freed(PeerCandidate*) { g_freed++; }
void remote(PeerCandidate*) { g_remote++; }
std::string err() { return "e"; }
SendPacer* g_pacer;
std::shared_ptr<SendPacer> no_pacer() { return nullptr; }
}
namespace srtc {
SendPacer::SendPacer(const SdpOffer::Config&, const std::shared_ptr<SrtpConnection>&, const std::shared_ptr<Socket>&, const std::shared_ptr<SendRtpHistory>&, const std::shared_ptr<RtpExtensionSourceTWCC>&, const std::function<void()>&) {}
SendPacer::~SendPacer() {}
const SdpOffer::Config& SdpOffer::getConfig() const { return *(const Config*)&g_raw; }
}
VF_HARNESS(fingerprint)
{
    vf_stub("srtc::SdpAnswer::getCertificateHash() const", (void*)&hash);
    vf_stub("srtc::SdpAnswer::isSetupActive() const", (void*)&active);
    vf_stub("srtc::SrtpConnection::create(ssl_st*, bool)", (void*)&create);
    vf_stub("srtc::PeerCandidate::emitOnFailedToConnect(srtc::Error const&)", (void*)&failed);
    vf_stub("srtc::PeerCandidate::freeDTLS()", (void*)&freed);
    vf_stub("srtc::PeerCandidate::onReceivedFromRemote()", (void*)&remote);
    vf_stub("(anonymous namespace)::get_openssl_error[abi:cxx11]()", (void*)&err);
    g_failed = g_create = g_freed = g_remote = g_ssl_read = 0;
    auto pc = rawPeer();
    const uint64_t n = vf_range(0, 40, "n"); // fingerprint of the answer: any length
    auto f = (uint8_t*)vf_bytes(n, "announced");
    ByteBuffer fb; fb.mBuf = f; fb.mLen = fb.mCap = n;
    alignas(X509Hash) static char mem[sizeof(X509Hash)];
    memset(mem, 0, sizeof mem);
    auto h = (X509Hash*)mem;
    new ((void*)&h->mAlg) std::string("sha-256");
    new ((void*)&h->mHex) std::string("x");
    *(uint8_t**)&h->mBin.mBuf = f; *(size_t*)&h->mBin.mLen = n; *(size_t*)&h->mBin.mCap = n;
    g_hash = h;
    vf_havoc(g_digest, 32, "digest of the certificate");
    g_r = (int)vf_u8("handshake") - 1; g_e = (int)vf_u8("error");
    g_cert = vf_fork(vf_bool("certificate"));
    g_srtp_ok = vf_fork(vf_bool("srtp"));
    pc->mDtlsState = PeerCandidate::DtlsState::Activating;
    pc->mDtlsSsl = (ssl_st*)&g_raw;
    ByteBuffer b;
    pc->onReceivedDtlsMessage(std::move(b));
    const unsigned k = (unsigned)vf_range(0, 31, "k");
    vf_assert(!g_ssl_read, "no application data before the peer is accepted");
    if (g_create || pc->mDtlsState == PeerCandidate::DtlsState::Completed || pc->mSrtpConnection || g_remote) {
        vf_assert(g_r == 1 && g_e == 0, "only after the handshake is finished");
        vf_assert(g_cert, "only with a certificate");
        vf_assert(n == 32 && f[k] == g_digest[k], "only with the certificate whose fingerprint was announced");
        if (pc->mDtlsState == PeerCandidate::DtlsState::Completed) { vf_assert(g_srtp_ok && g_create == 1 && !g_failed, "accepted"); vf_cover("accepted"); }
    } else {
        vf_assert(pc->mDtlsState == PeerCandidate::DtlsState::Failed || pc->mDtlsState == PeerCandidate::DtlsState::Activating, "not connected");
    }
    if (g_r == 1 && g_e == 0 && pc->mDtlsState != PeerCandidate::DtlsState::Completed) { vf_assert(pc->mDtlsState == PeerCandidate::DtlsState::Failed && g_failed == 1 && g_freed == 1, "a wrong peer fails the connection"); vf_cover("refused"); }
    if (pc->mDtlsState == PeerCandidate::DtlsState::Activating) vf_cover("in progress");
}
