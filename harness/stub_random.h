// Assumed contract of the random generator: next() returns some value of the configured interval.
#pragma once
#include "vf.h"
#include "srtc/random_generator.h"
namespace srtc {
template <> RandomGenerator<uint32_t>::RandomGenerator(uint32_t lo, uint32_t hi) : mRandomDist(lo, hi) {}
template <> uint32_t RandomGenerator<uint32_t>::next() { return (uint32_t)vf_range(mRandomDist.min(), mRandomDist.max(), "random"); }
template <> RandomGenerator<uint16_t>::RandomGenerator(uint16_t lo, uint16_t hi) : mRandomDist(lo, hi) {}
template <> uint16_t RandomGenerator<uint16_t>::next() { return (uint16_t)vf_range(mRandomDist.min(), mRandomDist.max(), "random"); }
}
