// PROPERTY: C29
// TUS: src/util.cpp src/byte_buffer.cpp
// The announced fingerprint string, read as bytes.
#include "vf.h"
#include "stub_net.h"
#include "bytebuf_model.h"
#include "srtc/util.h"
#include <string>
using namespace srtc;
VF_HARNESS(hex)
{
    vfc_bytebuf();
    const uint64_t n = vf_case(vf_range(0, 4, "n"), 0, 4);
    auto d = (const char*)vf_bytes(n, "text");
    uint8_t want[4]; unsigned digits = 0; uint8_t acc = 0;
    for (uint64_t i = 0; i < n; i++) {
        const char c = d[i];
        const bool dec = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'f', up = c >= 'A' && c <= 'F';
        if (!vf_fork(dec || lo || up)) continue;
        acc = (uint8_t)(acc << 4 | (dec ? c - '0' : lo ? c - 'a' + 10 : c - 'A' + 10));
        digits++;
        if (digits % 2 == 0) want[digits / 2 - 1] = acc;
    }
    const ByteBuffer b = hex_to_bin(std::string(d, n));
    vf_assert(b.size() == digits / 2, "two digits make a byte, separators do not count");
    for (unsigned i = 0; i < digits / 2; i++) vf_assert(b.data()[i] == want[i], "upper and lower case digits, high nibble first");
    if (digits == 4) vf_cover("two bytes");
    vf_bounded("strings of up to four characters");
}
