// Stand-in for the (absent) hash-combine submodule.
#ifndef VERIF_SHIM_HASH_COMBINE
#define VERIF_SHIM_HASH_COMBINE
#include <cstddef>
#include <functional>
#include <type_traits>
namespace flatsurf {
template <typename T>
size_t hash(const T& x) { return std::hash<std::decay_t<T>>()(x); }
template <typename... Ts>
size_t hash_combine(size_t seed, Ts... rest) {
  ((seed ^= static_cast<size_t>(rest) + 0x9e3779b97f4a7c15ull + (seed << 6) + (seed >> 2)), ...);
  return seed;
}
}  // namespace flatsurf
#endif
