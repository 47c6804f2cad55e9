// Byte order functions of libc (their definition).
#pragma once
#include <cstdint>
#include <arpa/inet.h>
#undef htonl
#undef ntohl
#undef htons
#undef ntohs
extern "C" {
__attribute__((used)) uint32_t htonl(uint32_t v) noexcept { return __builtin_bswap32(v); }
__attribute__((used)) uint32_t ntohl(uint32_t v) noexcept { return __builtin_bswap32(v); }
__attribute__((used)) uint16_t htons(uint16_t v) noexcept { return __builtin_bswap16(v); }
__attribute__((used)) uint16_t ntohs(uint16_t v) noexcept { return __builtin_bswap16(v); }
}
