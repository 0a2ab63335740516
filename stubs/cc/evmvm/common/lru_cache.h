/* Stand-in of common/lru_cache.h (decided by P02, P03 and P06): a cache that reports the key it is asked for and has never seen it. */
#pragma once
#include <cstddef>
#include <functional>
#include <optional>
extern "C" void vp_cache(const void* cache, const void* key) noexcept;
namespace tosca {
template <typename Key, typename Value, size_t Capacity, typename Hash = std::hash<Key>, typename KeyEqual = std::equal_to<Key>>
class LruCache {
 public:
  std::optional<Value> Get(const Key& key) { vp_cache(this, &key); return std::nullopt; }
  Value InsertOrAssign(const Key& key, Value value) { vp_cache(this, &key); return value; }
  template <typename F> Value GetOrInsert(const Key& key, F make_value) { vp_cache(this, &key); return make_value(); }
  constexpr size_t GetMaxSize() const { return Capacity; }
  void Clear() {}
 private:
  void* impl_ = nullptr;
};
}
