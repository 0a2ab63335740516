// Stand-in for absl::flat_hash_map used only for analysis: every operation is an opaque primitive whose
// documented contract the analysis models (lookup, insertion, removal, size, iteration).
#pragma once
#include <cstddef>
#include <functional>
#include <stdexcept>
#include <tuple>
#include <type_traits>
#include <utility>
extern "C" {
void vs_map_init(void* m, long hash_id, long eq_id);
void* vs_map_find(const void* m, const void* k);
void* vs_map_emplace(void* m, const void* k, bool* inserted);
size_t vs_map_erase_key(void* m, const void* k);
void vs_map_erase_slot(void* m, void* slot);
size_t vs_map_size(const void* m);
void vs_map_clear(void* m);
void vs_map_reserve(void* m, size_t n);
void* vs_map_iter(const void* m, void* slot);
}
namespace absl {
template <class H, class = void> struct vs_id { static constexpr long v = 0; };
template <class H> struct vs_id<H, std::void_t<decltype(H::vs_id)>> { static constexpr long v = H::vs_id; };
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = void>
class flat_hash_map {
 public:
  using value_type = std::pair<const K, V>;
  using key_type = K;
  using mapped_type = V;
  using size_type = size_t;
  struct iterator {
    const void* m = nullptr;
    value_type* p = nullptr;
    value_type& operator*() const { return *p; }
    value_type* operator->() const { return p; }
    iterator& operator++() { p = (value_type*)vs_map_iter(m, p); return *this; }
    bool operator==(const iterator& o) const { return p == o.p; }
    bool operator!=(const iterator& o) const { return p != o.p; }
  };
  using const_iterator = iterator;
  flat_hash_map() { vs_map_init(this, vs_id<H>::v, vs_id<E>::v); }
  explicit flat_hash_map(size_t n) : flat_hash_map() { vs_map_reserve(this, n); }
  iterator find(const K& k) const { return {this, (value_type*)vs_map_find(this, &k)}; }
  iterator find(const K& k, size_t) const { return find(k); }
  bool contains(const K& k) const { return vs_map_find(this, &k) != nullptr; }
  size_t count(const K& k) const { return contains(k) ? 1 : 0; }
  V& at(const K& k) const {
    auto* p = (value_type*)vs_map_find(this, &k);
    if (!p) throw std::out_of_range("at");
    return p->second;
  }
  V& operator[](const K& k) {
    bool ins;
    auto* p = (value_type*)vs_map_emplace(this, &k, &ins);
    if (ins) p->second = V{};
    return p->second;
  }
  template <class K2, class... Args> std::pair<iterator, bool> try_emplace(const K2& k, Args&&... a) {
    bool ins;
    const K kk(k);
    auto* p = (value_type*)vs_map_emplace(this, &kk, &ins);
    if (ins) p->second = V{std::forward<Args>(a)...};
    return {iterator{this, p}, ins};
  }
  template <class K2, class V2> std::pair<iterator, bool> emplace(K2&& k, V2&& v) { return try_emplace(k, std::forward<V2>(v)); }
  std::pair<iterator, bool> insert(const value_type& v) { return try_emplace(v.first, v.second); }
  std::pair<iterator, bool> insert(const std::pair<K, V>& v) { return try_emplace(v.first, v.second); }
  template <class K2, class V2> std::pair<iterator, bool> insert_or_assign(const K2& k, V2&& v) {
    bool ins;
    const K kk(k);
    auto* p = (value_type*)vs_map_emplace(this, &kk, &ins);
    p->second = std::forward<V2>(v);
    return {iterator{this, p}, ins};
  }
  size_t erase(const K& k) { return vs_map_erase_key(this, &k); }
  iterator erase(iterator it) { vs_map_erase_slot(this, it.p); return end(); }
  size_t size() const { return vs_map_size(this); }
  bool empty() const { return vs_map_size(this) == 0; }
  void clear() { vs_map_clear(this); }
  void reserve(size_t n) { vs_map_reserve(this, n); }
  void rehash(size_t n) { vs_map_reserve(this, n); }
  iterator begin() const { return {this, (value_type*)vs_map_iter(this, nullptr)}; }
  iterator end() const { return {this, nullptr}; }

 private:
  char opaque_[16];
};
}  // namespace absl
