// Contract language used by the harnesses.  Under the verifier (vcx) every vf_* call is interpreted symbolically;
// natively (counterexample replay, bounded search) they are implemented by native/vf_native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// --- inputs (universally quantified; written to the replay file of a counterexample)
uint8_t vf_u8(const char* name);
uint16_t vf_u16(const char* name);
uint32_t vf_u32(const char* name);
uint64_t vf_u64(const char* name);
bool vf_bool(const char* name);
uint64_t vf_range(uint64_t lo, uint64_t hi, const char* name);
void* vf_bytes(uint64_t n, const char* name); // fresh block of exactly n arbitrary bytes
void vf_havoc(void* p, uint64_t n, const char* name);
// --- unspecified results of assumed contracts (never part of a replay file)
uint8_t vf_any_u8();
uint16_t vf_any_u16();
uint32_t vf_any_u32();
uint64_t vf_any_u64();
bool vf_any_bool();
void* vf_any_bytes(uint64_t n);
void vf_any_havoc(void* p, uint64_t n);
// --- contracts
void vf_assume(bool c);                    // precondition
void vf_assert(bool c, const char* label); // postcondition / callee precondition
void vf_cover(const char* label);          // reachability (vacuity guard)
// --- ghost observers
uint64_t vf_objsize(const void* p);
uint64_t vf_offset(const void* p);
bool vf_live(const void* p);
bool vf_sameobj(const void* p, const void* q);
// --- proof hints (cannot make a false obligation pass)
uint64_t vf_case(uint64_t v, uint64_t lo, uint64_t hi);
bool vf_fork(bool c);
bool vf_pred(bool (*f)()); // f(), as one formula instead of a case split (a stray read in f makes it false)
void vf_unroll(const char* fn, int n); // "*": default; n < 0: always cut
void vf_inv0(bool (*f)());
void vf_measure(uint64_t (*f)()); // a termination measure for some loop
void vf_inv1(bool (*f)(uint64_t));
void vf_inv2(bool (*f)(uint64_t, uint64_t));
void vf_class_inv(const char* cls, bool (*f)(const void*));
void vf_stub(const char* fn, void* stub); // check callers against the stub's contract instead of the body
void vf_bounded(const char* what);        // the harness is bounded: what the bound is
void vf_noterm();
void vf_gf2(); // decide equations of xor terms by linear algebra over GF(2) (checksums)
int vf_mode();                            // 1: verifier, 0: native
}
#define VF_HARNESS(n) extern "C" __attribute__((used, noinline)) void vfh_##n()
extern "C" int64_t vf_now_ns;    // steady clock under harness control
extern "C" int64_t vf_sysnow_ns; // system clock
