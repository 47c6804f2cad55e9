// PROPERTY: C11 C28
// TUS: src/byte_buffer.cpp src/ice_agent.cpp src/stun/stunmessage.cpp src/stun/utils.cpp src/util.cpp
// NATIVE: no
// What a received STUN message may do: PeerCandidate::onReceivedStunMessage.
#include "peer_util.h"
#include "srtc/srtp_crypto.h"
namespace stun {
void stun_debug(const char*, ...) {}
bool stun_message_has_cookie(const StunMessage*) { return true; }
StunMessageReturn stun_message_append_software(StunMessage* msg, const char* s) { return stun_message_append_string(msg, STUN_ATTRIBUTE_SOFTWARE, s); }
void stun_make_transid(StunTransactionId id) { vf_any_havoc(id, 16); }
void stun_sha1(const uint8_t*, size_t, size_t, uint8_t* sha, const void*, size_t, int) { vf_any_havoc(sha, 20); }
uint32_t stun_fingerprint(const uint8_t*, size_t, bool) { return vf_any_u32(); }
}
namespace srtc { bool SrtpCrypto::secureEquals(const void*, const void*, size_t) { return vf_any_bool(); } }
namespace {
const uint8_t* g_d; uint64_t g_n;
int g_vreq, g_vresp, g_forget, g_sent, g_err, g_connected, g_use, g_remote;
bool g_ok; bool g_known; bool g_failed;
uint8_t g_id[16];
void fits(const stun::StunMessage* m)
{
    vf_assert(m->buffer == g_d && m->buffer_len == g_n, "the message is the datagram");
    vf_assert(g_n >= 20 && ((uint64_t)g_d[2] << 8 | g_d[3]) + 20 <= g_n, "only messages whose declared length fits the datagram are looked into");
}
bool v_req(IceAgent*, stun::StunMessage* m, const std::string&, const std::string&) { fits(m); g_vreq++; g_ok = vf_any_bool(); return g_ok; }
bool v_resp(IceAgent*, stun::StunMessage* m, const std::string&) { fits(m); g_vresp++; g_ok = vf_any_bool(); return g_ok; }
bool forget(IceAgent*, uint8_t* id, float& rtt) { g_forget++; memcpy(g_id, id, 16); g_known = vf_any_bool(); if (g_known) rtt = 1.0f; return g_known; }
stun::StunMessageReturn find_error(const stun::StunMessage* m, int* code)
{
    fits(m); g_err++;
    g_failed = vf_any_bool();
    if (!g_failed) return stun::STUN_MESSAGE_RETURN_NOT_FOUND;
    *code = 400;
    return stun::STUN_MESSAGE_RETURN_SUCCESS;
}
std::string answer_str(const SdpAnswer*) { return "ab"; }
std::string offer_str(const SdpOffer*) { return "cd"; }
ByteBuffer* g_out; uint64_t g_outn; uint8_t g_out0, g_out1; uint8_t g_outid[16];
void send_raw(PeerCandidate*, ByteBuffer&& b) { g_sent++; g_outn = b.size(); if (g_outn >= 20) { g_out0 = b.data()[0]; g_out1 = b.data()[1]; memcpy(g_outid, b.data() + 4, 16); } }
void connected(PeerCandidate*) { g_connected++; }
void use(PeerCandidate*, unsigned) { g_use++; }
void remote(PeerCandidate*) { g_remote++; }
bool same(const uint8_t* a, const uint8_t* b) { uint64_t x[2], y[2]; memcpy(x, a, 16); memcpy(y, b, 16); return x[0] == y[0] && x[1] == y[1]; }
}
VF_HARNESS(stun_received)
{
    vf_stub("srtc::IceAgent::verifyRequestMessage(stun::_StunMessage*, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)", (void*)&v_req);
    vf_stub("srtc::IceAgent::verifyResponseMessage(stun::_StunMessage*, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)", (void*)&v_resp);
    vf_stub("srtc::IceAgent::forgetTransaction(unsigned char*, float&)", (void*)&forget);
    vf_stub("stun::stun_message_find_error(stun::_StunMessage const*, int*)", (void*)&find_error);
    vf_stub("srtc::SdpAnswer::getIceUFrag[abi:cxx11]() const", (void*)&answer_str);
    vf_stub("srtc::SdpAnswer::getIcePassword[abi:cxx11]() const", (void*)&answer_str);
    vf_stub("srtc::SdpOffer::getIceUFrag[abi:cxx11]() const", (void*)&offer_str);
    vf_stub("srtc::SdpOffer::getIcePassword[abi:cxx11]() const", (void*)&offer_str);
    vf_stub("srtc::PeerCandidate::addSendRaw(srtc::ByteBuffer&&)", (void*)&send_raw);
    vf_stub("srtc::PeerCandidate::emitOnIceConnected()", (void*)&connected);
    vf_stub("srtc::PeerCandidate::sendStunBindingResponse(unsigned int)", (void*)&use);
    vf_stub("srtc::PeerCandidate::onReceivedFromRemote()", (void*)&remote);
    g_vreq = g_vresp = g_forget = g_sent = g_err = g_connected = g_use = g_remote = 0;
    g_ok = g_known = g_failed = false;
    auto pc = rawPeer();
    // a datagram that is dispatched to STUN has more than 20 bytes (proved by dispatch)
    const uint64_t n = vf_range(20, 65535, "n");
    auto d = (uint8_t*)vf_bytes(n, "datagram");
    g_d = d; g_n = n;
    vf_assume(d[0] < 2); // proved by dispatch
    uint8_t id[16];
    memcpy(id, d + 4, 16);
    const uint32_t type = (uint32_t)d[0] << 8 | d[1];
    IceAgent agent;
    *(IceAgent**)&pc->mIceAgent = &agent;
    *(uint8_t**)&pc->mIceMessageBuffer = new uint8_t[kIceMessageBufferSize];
    pc->mSentUseCandidate = vf_fork(vf_bool("sent use candidate"));
    const bool sent = pc->mSentUseCandidate;
    const auto state0 = vf_fork(vf_bool("completed")) ? PeerCandidate::DtlsState::Completed : PeerCandidate::DtlsState::Inactive;
    pc->mDtlsState = state0;
    anyaddr from{};
    const bool v6 = vf_fork(vf_bool("v6"));
    from.ss.ss_family = v6 ? AF_INET6 : AF_INET;
    ByteBuffer b; b.mBuf = d; b.mLen = b.mCap = n;
    Socket::ReceivedData data(std::move(b), from, (socklen_t)(v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)));
    pc->onReceivedStunMessage(data);
    vf_assert(g_forget <= 1 && g_vreq <= 1 && g_vresp <= 1, "processed once");
    if (g_sent) {
        vf_assert(g_vreq == 1 && g_ok && type == 0x0001, "only verified binding requests are answered");
        vf_assert(g_sent == 1 && g_outn >= 20 && g_outn <= kIceMessageBufferSize, "with one response");
        vf_assert(g_out0 == 0x01 && g_out1 == 0x01 && same(g_outid, id), "which is a binding success response with the id of the request");
        vf_cover("answered");
    } else if (g_vreq && g_ok) vf_assert(false, "a verified request is answered");
    const bool progress = g_connected || g_use || g_remote || pc->mSentUseCandidate != sent || pc->mDtlsState != state0;
    if (progress) {
        vf_assert(type == 0x0101, "only binding success responses count");
        vf_assert(g_forget == 1 && g_known && same(g_id, id), "a response counts only for its outstanding request");
        vf_assert(g_vresp == 1 && g_ok && !g_failed, "a response counts only when it verifies");
        vf_assert(sent || (g_connected == 1 && pc->mDtlsState == PeerCandidate::DtlsState::Activating && pc->mSentUseCandidate), "the first one starts DTLS");
        if (sent) { vf_assert(pc->mDtlsState == state0 && !g_connected, "later ones are keep-alives"); vf_cover("keep-alive"); } else vf_cover("connected");
    } else if (type == 0x0101 && g_forget && g_known && g_vresp && g_ok) vf_assert(sent && state0 == PeerCandidate::DtlsState::Inactive, "a verified response counts");
    if (!g_sent && !progress) vf_cover("ignored");
}
