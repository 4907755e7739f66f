// Stand-in for the (absent) unique-factory submodule: a cache of weak
// references such that equal keys give the same object while it is alive.
#ifndef VERIF_SHIM_UNIQUE_FACTORY
#define VERIF_SHIM_UNIQUE_FACTORY
#include <cstddef>
#include <functional>
#include <memory>
#include <mutex>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
namespace unique_factory {
struct KeepNothingAlive {
  template <typename P> void operator()(const P&) {}
};
template <typename V>
struct KeepLastAlive {
  std::shared_ptr<const V> last;
  void operator()(const std::shared_ptr<V>& v) { last = v; }
};
template <typename V, size_t N>
struct KeepSetAlive {
  std::unordered_set<std::shared_ptr<const V>> set;
  void operator()(const std::shared_ptr<V>& v) {
    if (set.count(v)) return;
    std::unordered_set<std::shared_ptr<const V>> dead;
    if (set.size() >= N) dead.swap(set);
    set.insert(v);
  }
};
template <typename Key, typename Value, typename KeepAlive = KeepNothingAlive, typename Hash = std::hash<Key>, typename Equal = std::equal_to<Key>>
class UniqueFactory {
  std::unordered_map<Key, std::weak_ptr<Value>, Hash, Equal> cache;
  KeepAlive keep;
  std::recursive_mutex lock;
  size_t limit = 64;

  void sweep() {
    if (cache.size() < limit) return;
    for (auto it = cache.begin(); it != cache.end();)
      it = it->second.expired() ? cache.erase(it) : std::next(it);
    limit = 2 * cache.size() + 64;
  }

 public:
  template <typename Create>
  std::shared_ptr<Value> get(const Key& key, Create&& create) {
    std::lock_guard<std::recursive_mutex> guard(lock);
    auto it = cache.find(key);
    if (it != cache.end()) {
      if (auto v = it->second.lock()) {
        keep(v);
        return v;
      }
      cache.erase(it);
    }
    sweep();
    std::shared_ptr<Value> v;
    if constexpr (std::is_invocable_v<Create, const Key&>)
      v = std::shared_ptr<Value>(create(key));
    else
      v = std::shared_ptr<Value>(create());
    cache.insert_or_assign(key, v);
    keep(v);
    return v;
  }
};
}  // namespace unique_factory
#endif
