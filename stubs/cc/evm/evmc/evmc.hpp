/* Stub of evmc/evmc.hpp; declarations only, used for static analysis. The host interface's methods are opaque. */
#pragma once
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <utility>
#include <evmc/evmc.h>
extern "C" bool vp_mem_eq(const void*, const void*, size_t) noexcept;
extern "C" bool vp_mem_lt(const void*, const void*, size_t) noexcept;
extern "C" bool vp_mem_nz(const void*, size_t) noexcept;
namespace evmc {
using bytes = std::basic_string<uint8_t>;
struct address : evmc_address {
  constexpr address() noexcept : evmc_address{} {}
  constexpr address(const evmc_address& i) noexcept : evmc_address{i} {}
  explicit constexpr address(uint64_t v) noexcept : evmc_address{} { for (int i = 0; i < 8; ++i) bytes[19 - i] = uint8_t(v >> (8 * i)); }
  explicit operator bool() const noexcept { return vp_mem_nz(bytes, 20); }
};
struct bytes32 : evmc_bytes32 {
  constexpr bytes32() noexcept : evmc_bytes32{} {}
  constexpr bytes32(const evmc_bytes32& i) noexcept : evmc_bytes32{i} {}
  explicit constexpr bytes32(uint64_t v) noexcept : evmc_bytes32{} { for (int i = 0; i < 8; ++i) bytes[31 - i] = uint8_t(v >> (8 * i)); }
  explicit operator bool() const noexcept { return vp_mem_nz(bytes, 32); }
};
using uint256be = bytes32;
inline bool operator==(const address& a, const address& b) noexcept { return vp_mem_eq(a.bytes, b.bytes, 20); }
inline bool operator!=(const address& a, const address& b) noexcept { return !(a == b); }
inline bool operator==(const bytes32& a, const bytes32& b) noexcept { return vp_mem_eq(a.bytes, b.bytes, 32); }
inline bool operator!=(const bytes32& a, const bytes32& b) noexcept { return !(a == b); }
inline bool operator<(const bytes32& a, const bytes32& b) noexcept { return vp_mem_lt(a.bytes, b.bytes, 32); }
inline bool is_zero(const address& a) noexcept { return !a; }
inline bool is_zero(const bytes32& a) noexcept { return !a; }
class Result : public evmc_result {
 public:
  explicit Result(const evmc_result& r) noexcept : evmc_result{r} {}
  Result(const Result&) = delete;
  Result(Result&& o) noexcept;
  ~Result() noexcept;
};
class HostInterface {
 public:
  bool account_exists(const address& addr) const noexcept;
  bytes32 get_storage(const address& addr, const bytes32& key) const noexcept;
  evmc_storage_status set_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept;
  uint256be get_balance(const address& addr) const noexcept;
  size_t get_code_size(const address& addr) const noexcept;
  bytes32 get_code_hash(const address& addr) const noexcept;
  size_t copy_code(const address& addr, size_t code_offset, uint8_t* buffer_data, size_t buffer_size) const noexcept;
  bool selfdestruct(const address& addr, const address& beneficiary) noexcept;
  Result call(const evmc_message& msg) noexcept;
  evmc_tx_context get_tx_context() const noexcept;
  bytes32 get_block_hash(int64_t block_number) const noexcept;
  void emit_log(const address& addr, const uint8_t* data, size_t data_size, const bytes32 topics[], size_t num_topics) noexcept;
  evmc_access_status access_account(const address& addr) noexcept;
  evmc_access_status access_storage(const address& addr, const bytes32& key) noexcept;
  bytes32 get_transient_storage(const address& addr, const bytes32& key) const noexcept;
  void set_transient_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept;
};
class HostContext : public HostInterface {
  const evmc_host_interface* host;
  evmc_host_context* context;
 public:
  HostContext(const evmc_host_interface& i, evmc_host_context* c) noexcept : host{&i}, context{c} {}
};
}
template <> struct std::hash<evmc::bytes32> { size_t operator()(const evmc::bytes32& s) const noexcept; };
template <> struct std::hash<evmc::address> { size_t operator()(const evmc::address& s) const noexcept; };
