/* Stub of intx: 256-bit integers whose arithmetic is opaque; used for static analysis only. */
#pragma once
#include <concepts>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
namespace intx {
template <unsigned N> struct uint;
using uint256 = uint<256>;
}
#define VP2(n) extern "C" void vp_##n(intx::uint256*, const intx::uint256*, const intx::uint256*) noexcept;
VP2(add) VP2(sub) VP2(mul) VP2(div) VP2(mod) VP2(sdiv) VP2(smod) VP2(and) VP2(or) VP2(xor) VP2(shl) VP2(shr) VP2(sar) VP2(exp)
extern "C" void vp_not(intx::uint256*, const intx::uint256*) noexcept;
extern "C" void vp_neg(intx::uint256*, const intx::uint256*) noexcept;
extern "C" void vp_bswap(intx::uint256*, const intx::uint256*) noexcept;
extern "C" void vp_addmod(intx::uint256*, const intx::uint256*, const intx::uint256*, const intx::uint256*) noexcept;
extern "C" void vp_mulmod(intx::uint256*, const intx::uint256*, const intx::uint256*, const intx::uint256*) noexcept;
extern "C" bool vp_lt(const intx::uint256*, const intx::uint256*) noexcept;
extern "C" bool vp_slt(const intx::uint256*, const intx::uint256*) noexcept;
extern "C" bool vp_eq(const intx::uint256*, const intx::uint256*) noexcept;
extern "C" bool vp_carry(const intx::uint256*, const intx::uint256*) noexcept;
extern "C" unsigned vp_sigbytes(const intx::uint256*) noexcept;
extern "C" unsigned vp_clz(const intx::uint256*) noexcept;
extern "C" void vp_be_load(intx::uint256*, const void*, size_t) noexcept;
extern "C" void vp_be_store(void*, size_t, const intx::uint256*) noexcept;
namespace intx {
template <> struct uint<256> {
  using word_type = uint64_t;
  static constexpr unsigned num_bits = 256, num_words = 4, word_num_bits = 64;
  uint64_t words_[4];
  constexpr uint() noexcept : words_{0, 0, 0, 0} {}
  template <std::integral A> constexpr uint(A a) noexcept : words_{static_cast<uint64_t>(a), 0, 0, 0} {}
  template <std::integral A, std::integral... R> constexpr uint(A a, R... r) noexcept : words_{static_cast<uint64_t>(a), static_cast<uint64_t>(r)...} {}
  constexpr uint64_t& operator[](size_t i) noexcept { return words_[i]; }
  constexpr const uint64_t& operator[](size_t i) const noexcept { return words_[i]; }
  constexpr explicit operator bool() const noexcept {
    if (std::is_constant_evaluated()) return words_[0] | words_[1] | words_[2] | words_[3];
    uint z; return !vp_eq(this, &z);
  }
  template <std::integral A> constexpr explicit operator A() const noexcept requires(!std::is_same_v<A, bool>) { return static_cast<A>(words_[0]); }
#define VPOP(o, n) \
  friend inline uint operator o(const uint& a, const uint& b) noexcept { uint r; vp_##n(&r, &a, &b); return r; } \
  inline uint& operator o##=(const uint& b) noexcept { uint r; vp_##n(&r, this, &b); *this = r; return *this; }
  VPOP(+, add) VPOP(-, sub) VPOP(*, mul) VPOP(/, div) VPOP(%, mod) VPOP(&, and) VPOP(|, or) VPOP(^, xor) VPOP(<<, shl) VPOP(>>, shr)
  friend constexpr uint operator~(const uint& a) noexcept {
    if (std::is_constant_evaluated()) return uint(~a.words_[0], ~a.words_[1], ~a.words_[2], ~a.words_[3]);
    uint r; vp_not(&r, &a); return r;
  }
  uint operator-() const noexcept { uint r; vp_neg(&r, this); return r; }
  uint& operator++() noexcept { return *this += uint(1); }
  uint& operator--() noexcept { return *this -= uint(1); }
  friend bool operator==(const uint& a, const uint& b) noexcept { return vp_eq(&a, &b); }
  friend bool operator!=(const uint& a, const uint& b) noexcept { return !vp_eq(&a, &b); }
  friend bool operator<(const uint& a, const uint& b) noexcept { return vp_lt(&a, &b); }
  friend bool operator>(const uint& a, const uint& b) noexcept { return vp_lt(&b, &a); }
  friend bool operator<=(const uint& a, const uint& b) noexcept { return !vp_lt(&b, &a); }
  friend bool operator>=(const uint& a, const uint& b) noexcept { return !vp_lt(&a, &b); }
};
template <typename Q, typename R = Q> struct div_result { Q quot; R rem; };
template <typename T> struct result_with_carry { T value; bool carry; operator std::pair<T, bool>() const; };
inline div_result<uint256> sdivrem(const uint256& a, const uint256& b) noexcept { div_result<uint256> r; vp_sdiv(&r.quot, &a, &b); vp_smod(&r.rem, &a, &b); return r; }
inline div_result<uint256> udivrem(const uint256& a, const uint256& b) noexcept { div_result<uint256> r; vp_div(&r.quot, &a, &b); vp_mod(&r.rem, &a, &b); return r; }
inline result_with_carry<uint256> addc(const uint256& a, const uint256& b) noexcept { result_with_carry<uint256> r{}; vp_add(&r.value, &a, &b); r.carry = vp_carry(&a, &b); return r; }
inline result_with_carry<uint256> subc(const uint256& a, const uint256& b) noexcept { result_with_carry<uint256> r{}; vp_sub(&r.value, &a, &b); r.carry = vp_lt(&a, &b); return r; }
inline uint256 exp(uint256 a, uint256 b) noexcept { uint256 r; vp_exp(&r, &a, &b); return r; }
inline uint256 addmod(const uint256& a, const uint256& b, const uint256& m) noexcept { uint256 r; vp_addmod(&r, &a, &b, &m); return r; }
inline uint256 mulmod(const uint256& a, const uint256& b, const uint256& m) noexcept { uint256 r; vp_mulmod(&r, &a, &b, &m); return r; }
inline bool slt(const uint256& a, const uint256& b) noexcept { return vp_slt(&a, &b); }
inline unsigned count_significant_bytes(const uint256& a) noexcept { return vp_sigbytes(&a); }
inline unsigned clz(const uint256& a) noexcept { return vp_clz(&a); }
inline uint256 bswap(const uint256& a) noexcept { uint256 r; vp_bswap(&r, &a); return r; }
inline uint64_t bswap(uint64_t a) noexcept { return __builtin_bswap64(a); }
inline uint32_t bswap(uint32_t a) noexcept { return __builtin_bswap32(a); }
inline uint8_t* as_bytes(uint256& x) noexcept { return reinterpret_cast<uint8_t*>(&x); }
inline const uint8_t* as_bytes(const uint256& x) noexcept { return reinterpret_cast<const uint8_t*>(&x); }
std::string to_string(const uint256& x, int base = 10);
std::string hex(const uint256& x);
namespace be {
template <typename I, typename T> inline I load(const T& t) noexcept { I r; vp_be_load(&r, &t, sizeof(t.bytes)); return r; }
template <typename T> inline T store(const uint256& x) noexcept { T r{}; vp_be_store(&r, sizeof(r.bytes), &x); return r; }
template <typename T> inline T trunc(const uint256& x) noexcept { T r{}; vp_be_store(&r, sizeof(r.bytes), &x); return r; }
template <typename I, unsigned N> inline I load(const uint8_t (&b)[N]) noexcept { I r; vp_be_load(&r, b, N); return r; }
inline void store(uint8_t (&dst)[32], const uint256& x) noexcept { vp_be_store(dst, 32, &x); }
namespace unsafe {
template <typename I> inline I load(const uint8_t* b) noexcept { I r; vp_be_load(&r, b, 32); return r; }
inline void store(uint8_t* b, const uint256& x) noexcept { vp_be_store(b, 32, &x); }
}
}
namespace literals {}
}
