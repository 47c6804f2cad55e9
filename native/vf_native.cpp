// native implementation of the contract language: replay of counterexamples and bounded random search
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <ctime>
#include <string>
#include <vector>
#include <unistd.h>
#include <malloc.h>

namespace {
enum Mode { REPLAY, RANDOM, FUZZ } mode = RANDOM;
const uint8_t* fz;
size_t fzn;
uint64_t take(unsigned bytes)
{
    uint64_t v = 0;
    for (unsigned i = 0; i < bytes; i++) { v <<= 8; if (fzn) { v |= *fz++; fzn--; } }
    return v;
}

struct Item { int kind; uint64_t v; std::vector<uint8_t> b; };
std::vector<Item> items;
size_t pos;
uint64_t rng = 1;
jmp_buf jb;
std::vector<void*> blocks;
std::string trace; // values drawn in this run, in replay format
int curItem;
uint64_t rnd()
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1Dull;
}
uint64_t pick(unsigned bits)
{
    uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    switch (rnd() % 8) {
    case 0: return 0;
    case 1: return m;
    case 2: return (rnd() % 16) & m;
    case 3: return (m - rnd() % 16) & m;
    case 4: return ((1ull << (rnd() % bits)) + (rnd() % 5) - 2) & m;
    case 5: return (rnd() % 256) & m;
    default: return rnd() & m;
    }
}
void rec(uint64_t v, const char* n)
{
    char b[64];
    snprintf(b, sizeof b, "u %llu ", (unsigned long long)v);
    trace += b; trace += n; trace += "\n";
}
uint64_t scalar(unsigned bits, const char* n)
{
    uint64_t v;
    if (mode == REPLAY) {
        v = pos < items.size() ? items[pos].v : 0;
        pos++;
    } else if (mode == FUZZ) v = take((bits + 7) / 8);
    else v = pick(bits);
    if (bits < 64) v &= (1ull << bits) - 1;
    rec(v, n);
    return v;
}
void fillRnd(uint8_t* p, uint64_t n)
{
    switch (rnd() % 4) {
    case 0: memset(p, (int)(rnd() % 3 == 0 ? 0xff : rnd() % 4), n); for (unsigned k = 0; k < 4 && n; k++) p[rnd() % n] = (uint8_t)rnd(); break;
    case 1: for (uint64_t i = 0; i < n; i++) p[i] = (uint8_t)(rnd() % 8); break;
    default: for (uint64_t i = 0; i < n; i++) p[i] = (uint8_t)(rnd() % 3 ? rnd() : rnd() % 4); break;
    }
}
void recBytes(const uint8_t* p, uint64_t n, const char* nm)
{
    char b[32];
    snprintf(b, sizeof b, "b %llu ", (unsigned long long)n);
    trace += b;
    if (!n) trace += "-";
    static const char* H = "0123456789abcdef";
    for (uint64_t i = 0; i < n; i++) { trace += H[p[i] >> 4]; trace += H[p[i] & 15]; }
    trace += " "; trace += nm; trace += "\n";
}
void bytesInto(uint8_t* p, uint64_t n, const char* nm)
{
    if (mode == REPLAY) {
        if (pos < items.size()) {
            auto& b = items[pos].b;
            for (uint64_t i = 0; i < n; i++) p[i] = i < b.size() ? b[i] : 0;
        } else memset(p, 0, n);
        pos++;
    } else if (mode == FUZZ) { for (uint64_t i = 0; i < n; i++) p[i] = (uint8_t)take(1); }
    else fillRnd(p, n);
    recBytes(p, n, nm);
}
const char* traceOut = nullptr;
void dumpTrace()
{
    if (!traceOut) return;
    FILE* f = fopen(traceOut, "w");
    if (!f) return;
    fwrite(trace.data(), 1, trace.size(), f);
    fclose(f);
}
}
extern "C" {
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
uint8_t vf_u8(const char* n) { return (uint8_t)scalar(8, n); }
uint16_t vf_u16(const char* n) { return (uint16_t)scalar(16, n); }
uint32_t vf_u32(const char* n) { return (uint32_t)scalar(32, n); }
uint64_t vf_u64(const char* n) { return scalar(64, n); }
bool vf_bool(const char* n) { return scalar(1, n) & 1; }
uint64_t vf_range(uint64_t lo, uint64_t hi, const char* n)
{
    uint64_t v;
    if (mode == REPLAY) { v = pos < items.size() ? items[pos].v : lo; pos++; if (v < lo || v > hi) v = lo; }
    else if (mode == FUZZ) {
        uint64_t span = hi - lo;
        uint64_t r = take(span < 256 ? 1 : span < 65536 ? 2 : span <= 0xffffffffu ? 4 : 8);
        v = span == ~0ull ? r : lo + r % (span + 1);
    } else {
        uint64_t span = hi - lo;
        switch (rnd() % 6) {
        case 0: v = lo; break;
        case 1: v = hi; break;
        case 2: v = lo + rnd() % (span < 40 ? span + 1 : 40); break;
        case 3: v = lo + rnd() % (span < 300 ? span + 1 : 300); break;
        default: v = span == ~0ull ? rnd() : lo + rnd() % (span + 1); break;
        }
    }
    rec(v, n);
    return v;
}
void* vf_bytes(uint64_t n, const char* nm)
{
    if (mode != REPLAY && n > (1u << 20)) longjmp(jb, 1);
    if (mode == FUZZ && n > 4096) longjmp(jb, 1);
    if (mode == REPLAY && n > (1ull << 33)) longjmp(jb, 1);
    uint8_t* p = (uint8_t*)malloc(n ? n : 1);
    blocks.push_back(p);
    bytesInto(p, n, nm);
    if (n == 0) { p = (uint8_t*)realloc(p, 1); blocks.back() = p; }
    return p;
}
void vf_havoc(void* p, uint64_t n, const char* nm) { bytesInto((uint8_t*)p, n, nm); }
uint8_t vf_any_u8() { return (uint8_t)rnd(); }
uint16_t vf_any_u16() { return (uint16_t)rnd(); }
uint32_t vf_any_u32() { return (uint32_t)rnd(); }
uint64_t vf_any_u64() { return rnd(); }
bool vf_any_bool() { return rnd() & 1; }
void* vf_any_bytes(uint64_t n) { uint8_t* p = (uint8_t*)malloc(n ? n : 1); blocks.push_back(p); fillRnd(p, n); return p; }
void vf_any_havoc(void* p, uint64_t n) { fillRnd((uint8_t*)p, n); }
void vf_assume(bool c) { if (!c) longjmp(jb, 1); }
void vf_assert(bool c, const char* l)
{
    if (c) return;
    fprintf(stderr, "VF-ASSERT-FAILED: %s\n", l);
    dumpTrace();
    _exit(77);
}
void vf_cover(const char*) {}
uint64_t vf_objsize(const void* p) { return p ? malloc_usable_size((void*)p) : 0; }
uint64_t vf_offset(const void*) { return 0; }
bool vf_live(const void*) { return true; }
bool vf_sameobj(const void*, const void*) { return true; }
uint64_t vf_case(uint64_t v, uint64_t, uint64_t) { return v; }
bool vf_fork(bool c) { return c; }
bool vf_pred(bool (*f)()) { return f(); }
void vf_unroll(const char*, int) {}
void vf_inv0(bool (*)()) {}
void vf_measure(uint64_t (*)()) {}
void vf_inv1(bool (*)(uint64_t)) {}
void vf_inv2(bool (*)(uint64_t, uint64_t)) {}
void vf_class_inv(const char*, bool (*)(const void*)) {}
void vf_stub(const char*, void*) {}
void vf_bounded(const char*) {}
void vf_noterm() {}
void vf_gf2() {}
int vf_mode() { return 0; }
}
#ifndef VF_HARNESS_FN
#error VF_HARNESS_FN
#endif
extern "C" void VF_HARNESS_FN();
static void onAbort(int sig) { fprintf(stderr, "VF-SIGNAL %d%s\n", sig, sig == SIGALRM ? " (does not terminate)" : ""); dumpTrace(); _exit(sig == SIGALRM ? 78 : 76); }
static bool loadItems(const char* f)
{
    FILE* in = fopen(f, "r");
    if (!in) return false;
    static char line[2000000];
    while (fgets(line, sizeof line, in)) {
        Item it{};
        if (line[0] == 'u') { it.kind = 0; it.v = strtoull(line + 2, nullptr, 10); }
        else if (line[0] == 'b') {
            it.kind = 1;
            char* e;
            it.v = strtoull(line + 2, &e, 10);
            while (*e == ' ') e++;
            for (uint64_t i = 0; i < it.v; i++) { unsigned x = 0; if (sscanf(e + 2 * i, "%2x", &x) != 1) break; it.b.push_back((uint8_t)x); }
        } else continue;
        items.push_back(it);
    }
    fclose(in);
    return true;
}
#ifdef VF_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    traceOut = getenv("VF_TRACE");
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dumpTrace);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n)
{
    mode = FUZZ;
    fz = d; fzn = n;
    trace.clear();
    volatile int bad = 0;
    if (setjmp(jb) == 0) VF_HARNESS_FN(); else bad = 1;
    for (void* p : blocks) free(p);
    blocks.clear();
    return bad ? -1 : 0;
}
#else
// usage: prog replay FILE | prog random SEED SECONDS TRACEFILE
int main(int argc, char** argv)
{
    signal(SIGABRT, onAbort);
    signal(SIGALRM, onAbort);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dumpTrace);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        mode = REPLAY;
        if (!loadItems(argv[2])) return 3;
        alarm(20);
        if (setjmp(jb)) { fprintf(stderr, "VF-DISCARDED (a precondition does not hold)\n"); fflush(nullptr); _exit(0); }
        VF_HARNESS_FN();
        fprintf(stderr, "VF-RUN-COMPLETED\n");
        fflush(nullptr);
        _exit(0);
    }
    if (argc >= 5 && !strcmp(argv[1], "random")) {
        rng = strtoull(argv[2], nullptr, 10) * 0x9E3779B97F4A7C15ull + 12345;
        double secs = atof(argv[3]);
        traceOut = argv[4];
        volatile uint64_t runs = 0, ok = 0;
        time_t t0 = time(nullptr);
        while (difftime(time(nullptr), t0) < secs) {
            for (volatile int k = 0; k < 64; k++) {
                trace.clear();
                alarm(20);
                runs = runs + 1;
                if (setjmp(jb) == 0) { VF_HARNESS_FN(); ok = ok + 1; }
                for (void* p : blocks) free(p);
                blocks.clear();
            }
        }
        printf("runs %llu completed %llu\n", (unsigned long long)runs, (unsigned long long)ok);
        fflush(nullptr);
        _exit(0);
    }
    return 3;
}
#endif
// clocks under harness control
#include <chrono>
extern "C" int64_t vf_now_ns, vf_sysnow_ns;
int64_t vf_now_ns = 1000000000000ll;
int64_t vf_sysnow_ns = 1700000000000000000ll;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vf_now_ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vf_sysnow_ns)); }
} } }
