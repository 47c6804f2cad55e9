// A PeerCandidate with only the members that the function under proof uses (all others are zero and unused).
#pragma once
#include "vf.h"
#include "stub_net.h"
#include "stub_random.h"
#include "src/peer_candidate.cpp"
#include <new>
namespace {
using namespace srtc;
struct RawPeer {
    alignas(16) char mem[sizeof(PeerCandidate)];
    PeerCandidate* pc() { return reinterpret_cast<PeerCandidate*>(mem); }
};
RawPeer g_raw;
PeerCandidate* rawPeer()
{
    memset(g_raw.mem, 0, sizeof g_raw.mem);
    auto pc = g_raw.pc();
    new (&pc->mRawReceiveQueue) std::list<Socket::ReceivedData>();
    new (&pc->mRawSendQueue) std::list<ByteBuffer>();
    new (&pc->mDtlsReceiveQueue) std::list<ByteBuffer>();
    new (&pc->mFrameSendQueue) std::list<PeerCandidate::FrameToSend>();
    new (&pc->mDataSendQueue) std::list<DataChannelMessage>();
    return pc;
}
}
