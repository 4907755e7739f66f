// Stand-in for the (absent) gmpxxll submodule: an mpz_class that also has
// constructors for long long and unsigned long long.
#ifndef VERIF_SHIM_GMPXXLL
#define VERIF_SHIM_GMPXXLL
#include <gmpxx.h>
#include <type_traits>
namespace gmpxxll {
class mpz_class : public ::mpz_class {
  static ::mpz_class ull(unsigned long long v) {
    ::mpz_class r;
    mpz_import(r.get_mpz_t(), 1, -1, sizeof(v), 0, 0, &v);
    return r;
  }

 public:
  mpz_class() {}
  mpz_class(unsigned long long v) : ::mpz_class(ull(v)) {}
  mpz_class(long long v) : ::mpz_class(v < 0 ? ::mpz_class(-ull(0ull - static_cast<unsigned long long>(v))) : ull(static_cast<unsigned long long>(v))) {}
  template <typename T, std::enable_if_t<!std::is_same_v<std::decay_t<T>, long long> && !std::is_same_v<std::decay_t<T>, unsigned long long> && !std::is_same_v<std::decay_t<T>, mpz_class> && std::is_constructible_v<::mpz_class, T>, int> = 0>
  mpz_class(T&& v) : ::mpz_class(std::forward<T>(v)) {}
  mpz_class(const mpz_class&) = default;
  mpz_class(mpz_class&&) = default;
  mpz_class& operator=(const mpz_class&) = default;
  mpz_class& operator=(mpz_class&&) = default;
};
}  // namespace gmpxxll
#endif
