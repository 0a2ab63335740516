/* Stub of ethash's keccak interface; declarations only, used for static analysis. */
#pragma once
#include <cstddef>
#include <cstdint>
namespace ethash {
union hash256 { uint64_t word64s[4]; uint32_t word32s[8]; uint8_t bytes[32]; char str[32]; };
union hash512 { uint64_t word64s[8]; uint8_t bytes[64]; };
hash256 keccak256(const uint8_t* data, size_t size) noexcept;
}
