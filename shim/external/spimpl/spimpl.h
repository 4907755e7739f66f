// Stand-in for the (absent) spimpl submodule: smart pointers to implementation.
#ifndef VERIF_SHIM_SPIMPL
#define VERIF_SHIM_SPIMPL
#include <memory>
#include <type_traits>
#include <utility>
namespace spimpl {
namespace details {
template <class T> T* default_copy(T* src) { return new T(*src); }
template <class T> void default_delete(T* p) { delete p; }
}
template <class T>
class unique_impl_ptr {
  using D = void (*)(T*);
  std::unique_ptr<T, D> p;

 public:
  using pointer = T*;
  using element_type = T;
  unique_impl_ptr() noexcept : p(nullptr, nullptr) {}
  unique_impl_ptr(std::nullptr_t) noexcept : unique_impl_ptr() {}
  unique_impl_ptr(T* q, D d) noexcept : p(q, d) {}
  unique_impl_ptr(unique_impl_ptr&&) noexcept = default;
  unique_impl_ptr& operator=(unique_impl_ptr&&) noexcept = default;
  T& operator*() { return *p; }
  const T& operator*() const { return *p; }
  T* operator->() noexcept { return p.get(); }
  const T* operator->() const noexcept { return p.get(); }
  T* get() noexcept { return p.get(); }
  const T* get() const noexcept { return p.get(); }
  explicit operator bool() const noexcept { return static_cast<bool>(p); }
  void swap(unique_impl_ptr& o) noexcept { p.swap(o.p); }
};
template <class T>
class impl_ptr {
  using D = void (*)(T*);
  using C = T* (*)(T*);
  std::unique_ptr<T, D> p;
  C c;

 public:
  using pointer = T*;
  using element_type = T;
  impl_ptr() noexcept : p(nullptr, nullptr), c(nullptr) {}
  impl_ptr(std::nullptr_t) noexcept : impl_ptr() {}
  impl_ptr(T* q, D d, C c) noexcept : p(q, d), c(c) {}
  impl_ptr(impl_ptr&& o) noexcept : p(std::move(o.p)), c(o.c) {}
  impl_ptr(const impl_ptr& o) : p(o.p ? o.c(o.p.get()) : nullptr, o.p.get_deleter()), c(o.c) {}
  impl_ptr& operator=(impl_ptr&& o) noexcept {
    p = std::move(o.p);
    c = o.c;
    return *this;
  }
  impl_ptr& operator=(const impl_ptr& o) {
    if (this == &o) return *this;
    return *this = impl_ptr(o);
  }
  T& operator*() { return *p; }
  const T& operator*() const { return *p; }
  T* operator->() noexcept { return p.get(); }
  const T* operator->() const noexcept { return p.get(); }
  T* get() noexcept { return p.get(); }
  const T* get() const noexcept { return p.get(); }
  explicit operator bool() const noexcept { return static_cast<bool>(p); }
  void swap(impl_ptr& o) noexcept { p.swap(o.p); std::swap(c, o.c); }
};
template <class T> bool operator==(const impl_ptr<T>& a, const impl_ptr<T>& b) { return a.get() == b.get(); }
template <class T> bool operator!=(const impl_ptr<T>& a, const impl_ptr<T>& b) { return a.get() != b.get(); }
template <class T> void swap(impl_ptr<T>& a, impl_ptr<T>& b) noexcept { a.swap(b); }
template <class T> void swap(unique_impl_ptr<T>& a, unique_impl_ptr<T>& b) noexcept { a.swap(b); }
template <class T, class... Args>
impl_ptr<T> make_impl(Args&&... args) {
  return impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>, &details::default_copy<T>);
}
template <class T, class... Args>
unique_impl_ptr<T> make_unique_impl(Args&&... args) {
  return unique_impl_ptr<T>(new T(std::forward<Args>(args)...), &details::default_delete<T>);
}
}  // namespace spimpl
#endif
