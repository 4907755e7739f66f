// Objects that are destroyed are replaced by the next ones of the same size at
// the same address, always. Mistakes with the addresses of objects that do not
// exist anymore then show in the shortest history that allows for them.
#pragma once
#ifndef MC_SANITIZED
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>

namespace reuse {
constexpr size_t LIMIT = 2048, STEP = 16;
struct Free {
  Free* next;
};
inline thread_local Free* lists[LIMIT / STEP + 1];
inline void* get(size_t n) {
  const size_t k = (n + STEP - 1) / STEP;
  char* p;
  if (k <= LIMIT / STEP && lists[k]) {
    p = reinterpret_cast<char*>(lists[k]);
    lists[k] = lists[k]->next;
  } else {
    p = static_cast<char*>(std::malloc((k ? k : 1) * STEP + STEP));
    if (!p) throw std::bad_alloc();
    p += STEP;
  }
  *reinterpret_cast<size_t*>(p - STEP) = k;
  return p;
}
inline void put(void* q) {
  if (!q) return;
  char* p = static_cast<char*>(q);
  const size_t k = *reinterpret_cast<size_t*>(p - STEP);
  if (k == 0 || k > LIMIT / STEP) return std::free(p - STEP);
  auto* f = reinterpret_cast<Free*>(p);
  f->next = lists[k];
  lists[k] = f;
}
}  // namespace reuse

void* operator new(size_t n) { return reuse::get(n); }
void* operator new[](size_t n) { return reuse::get(n); }
void operator delete(void* p) noexcept { reuse::put(p); }
void operator delete[](void* p) noexcept { reuse::put(p); }
void operator delete(void* p, size_t) noexcept { reuse::put(p); }
void operator delete[](void* p, size_t) noexcept { reuse::put(p); }
#endif
