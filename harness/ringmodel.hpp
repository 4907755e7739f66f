// Coefficients: exact arithmetic in Q and in Q(θ) for a few real θ.
#pragma once
#include "algebraic.hpp"
#include "ref.hpp"

#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
#include <exact-real/integer_ring.hpp>
#include <exact-real/number_field.hpp>
#include <exact-real/rational_field.hpp>

#include <limits>
#include <optional>
#include <type_traits>

namespace model {
using exactreal::IntegerRing;
using exactreal::NumberField;
using exactreal::RationalField;
using ref::I;
using ref::Q;
using ref::Z;

struct Field {
  std::string name;
  Algebraic root;
  boost::intrusive_ptr<const eantic::renf_class> k;
  size_t degree() const { return root.p.size() - 1; }
};
inline const std::vector<Field>& fields() {
  using eantic::renf_class;
  static const std::vector<Field> f = {
      {"Q(√2)", Algebraic({-2, 0, 1}, 1, 2), renf_class::make("x^2 - 2", "x", "1.4 +/- 0.5")},
      {"Q(∛2)", Algebraic({-2, 0, 0, 1}, 1, 2), renf_class::make("y^3 - 2", "y", "1.26 +/- 0.1")},
      {"Q(φ)", Algebraic({-1, -1, 1}, 1, 2), renf_class::make("x^2 - x - 1", "x", "1.6 +/- 0.2")},
      {"Q(-√2)", Algebraic({-2, 0, 1}, -2, -1), renf_class::make("x^2 - 2", "x", "-1.4 +/- 0.5")},
  };
  return f;
}

// An element of Q (field is null) or of a number field
struct K {
  const Field* f = nullptr;
  std::vector<Q> c;  // reduced, no trailing zeros
  K() {}
  K(const Q& q) {
    if (q != 0) c.push_back(q);
  }
  K(int i) : K(Q(i)) {}
  K(const Field* f, std::vector<Q> v) : f(f) {
    c = f ? f->root.reduce(std::move(v)) : Algebraic::trim(std::move(v));
    if (!f && c.size() > 1) abort();
  }
  bool rational() const { return c.size() <= 1; }
  Q q() const { return c.empty() ? Q(0) : c[0]; }
  bool zero() const { return c.empty(); }
  bool operator==(const K& o) const { return c == o.c && (rational() || f == o.f); }
  bool operator!=(const K& o) const { return !(*this == o); }
  static const Field* common(const K& a, const K& b) {
    if (a.rational()) return b.f ? b.f : a.f;
    if (b.rational()) return a.f;
    if (a.f != b.f) abort();
    return a.f;
  }
  friend K operator+(const K& a, const K& b) {
    auto v = a.c;
    if (v.size() < b.c.size()) v.resize(b.c.size());
    for (size_t i = 0; i < b.c.size(); i++) v[i] += b.c[i];
    return K(common(a, b), v);
  }
  friend K operator*(const K& a, const K& b) {
    std::vector<Q> v(a.c.size() + b.c.size());
    for (size_t i = 0; i < a.c.size(); i++)
      for (size_t j = 0; j < b.c.size(); j++) v[i + j] += a.c[i] * b.c[j];
    return K(common(a, b), v);
  }
  K operator-() const {
    K r = *this;
    for (auto& x : r.c) x = -x;
    return r;
  }
  friend K operator-(const K& a, const K& b) { return a + (-b); }
  // Solve x·this = 1
  K inverse() const {
    if (rational()) {
      K r(Q(1) / q());
      r.f = f;
      return r;
    }
    size_t n = f->degree();
    // the matrix of the multiplication with this, augmented by e_0
    std::vector<std::vector<Q>> m(n, std::vector<Q>(n + 1));
    for (size_t j = 0; j < n; j++) {
      std::vector<Q> b(j + 1);
      b[j] = 1;
      K p = *this * K(f, b);
      for (size_t i = 0; i < p.c.size(); i++) m[i][j] = p.c[i];
    }
    m[0][n] = 1;
    for (size_t col = 0; col < n; col++) {
      size_t piv = col;
      while (m[piv][col] == 0) piv++;
      std::swap(m[piv], m[col]);
      for (size_t r = 0; r < n; r++)
        if (r != col && m[r][col] != 0) {
          Q t = m[r][col] / m[col][col];
          for (size_t k = col; k <= n; k++) m[r][k] -= t * m[col][k];
        }
    }
    std::vector<Q> x(n);
    for (size_t i = 0; i < n; i++) x[i] = m[i][n] / m[i][i];
    return K(f, x);
  }
  friend K operator/(const K& a, const K& b) { return a * b.inverse(); }
  I enclose(long bits) const {
    if (rational()) return {q(), q()};
    while (true) {
      auto i = f->root.eval(c);
      if (i.second - i.first <= ref::pow2(-bits) && (i.first > 0 || i.second < 0)) {
        if (i.second - i.first <= ref::pow2(-bits) * std::min(abs(i.first), abs(i.second))) return {i.first, i.second};
      }
      f->root.refine();
    }
  }
  int sign(const Q& s = 0) const {
    if (rational()) return sgn(q() - s);
    return f->root.sign(c, s);
  }
  Z floor() const {
    if (rational()) return ref::floorq(q());
    while (true) {
      auto i = f->root.eval(c);
      if (ref::floorq(i.first) == ref::floorq(i.second)) return ref::floorq(i.first);
      f->root.refine();
    }
  }
  std::string s() const {
    if (c.empty()) return "0";
    std::string r;
    for (size_t i = 0; i < c.size(); i++)
      if (c[i] != 0) r += (r.empty() ? "" : " + ") + c[i].get_str() + (i ? "θ^" + std::to_string(i) : "");
    return rational() ? r : "(" + r + ")";
  }
};

// The coefficients of each ring
template <typename R>
struct Ringed;
template <>
struct Ringed<IntegerRing> {
  static const char* name() { return "Z"; }
  static mpz_class to(const K& k) { return k.q().get_num(); }
  static K from(const mpz_class& x, const Field* = nullptr) { return K(Q(x)); }
  static bool holds(const K& k) { return k.rational() && k.q().get_den() == 1; }
  static std::vector<const Field*> over() { return {nullptr}; }
  static IntegerRing ring(const Field*) { return {}; }
};
template <>
struct Ringed<RationalField> {
  static const char* name() { return "Q"; }
  static mpq_class to(const K& k) { return k.q(); }
  static K from(const mpq_class& x, const Field* = nullptr) {
    Q y = x;
    y.canonicalize();
    if (y.get_num() != x.get_num() || y.get_den() != x.get_den()) throw std::runtime_error("a rational coefficient is not canonical");
    return K(y);
  }
  static bool holds(const K& k) { return k.rational(); }
  static std::vector<const Field*> over() { return {nullptr}; }
  static RationalField ring(const Field*) { return {}; }
};
template <>
struct Ringed<NumberField> {
  static const char* name() { return "K"; }
  static eantic::renf_elem_class to(const K& k) {
    if (!k.f) return eantic::renf_elem_class(k.q());
    if (k.c.empty()) return eantic::renf_elem_class(*k.f->k);
    return eantic::renf_elem_class(*k.f->k, k.c);
  }
  static K from(const eantic::renf_elem_class& x) {
    const Field* f = nullptr;
    for (auto& g : fields())
      if (x.parent() == *g.k) f = &g;
    if (!f && !x.is_rational()) throw std::runtime_error("a coefficient from an unknown field");
    if (x.is_rational()) {
      K r(static_cast<mpq_class>(x));
      r.f = f;
      return r;
    }
    std::vector<Q> v;
    Z den = x.den();
    for (auto& n : x.num_vector()) {
      Q q(n, den);
      q.canonicalize();
      v.push_back(q);
    }
    return K(f, v);
  }
  static bool holds(const K&) { return true; }
  static std::vector<const Field*> over() {
    std::vector<const Field*> r{nullptr};
    for (auto& f : fields()) r.push_back(&f);
    return r;
  }
  static NumberField ring(const Field* f) { return f ? NumberField(f->k) : NumberField(); }
};

// Coefficients in the ring with this field, small ones first
template <typename R>
std::vector<K> coefficients(const Field* f, int size) {
  std::vector<Q> qs;
  if constexpr (std::is_same_v<R, IntegerRing>) {
    for (int i = 0; i <= 2 + 3 * size; i++) qs.push_back(i), qs.push_back(-i);
    if (size > 1)
      for (auto& z : {ref::pow2z(31), ref::pow2z(32), ref::pow2z(63), ref::pow2z(64), ref::pow2z(100)})
        for (int d = -1; d <= 1; d++) qs.push_back(z + d), qs.push_back(-(z + d));
  } else {
    for (int d = 1; d <= 2 + size; d++)
      for (int n = 0; n <= 2 + 2 * size; n++) {
        Q q(n, d);
        q.canonicalize();
        if (q.get_den() == d) qs.push_back(q), qs.push_back(-q);
      }
    if (size > 1)
      for (auto& z : {ref::pow2z(32), ref::pow2z(63), ref::pow2z(64), ref::pow2z(100)})
        for (int s : {-1, 1}) {
          qs.push_back(Q(s * z));
          qs.push_back(Q(Z(s), z));
          qs.push_back(Q(s * (z + 1), Z(3)));
          qs.back().canonicalize();
          qs.push_back(Q(s * z, z + 1));
        }
  }
  std::vector<K> r;
  auto add = [&](const K& k) {
    for (auto& o : r)
      if (o.c == k.c) return;
    r.push_back(k);
  };
  for (auto& q : qs) {
    K k(q);
    k.f = f;
    add(k);
  }
  if (f) {
    std::vector<std::vector<Q>> vs{{0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {Q(1, 2), Q(1, 2)}, {0, Q(-2, 3)}, {-3, 2}, {3, -2}, {7, -5}, {-7, 5}, {Q(1, 3), 4}};
    if (f->degree() > 2) vs.insert(vs.end(), {{0, 0, 1}, {1, 1, 1}, {0, Q(1, 2), Q(-1, 3)}, {-1, 1, 0}, {4, -1, -1}});
    if (size > 1) vs.insert(vs.end(), {{Q("19601"), Q("-13860")}, {Q("-19601"), Q("13860")}, {Q(ref::pow2z(100)), 1}, {0, Q(Z(1), ref::pow2z(100))}, {Q("665857"), Q("-470832")}});
    for (auto& v : vs) add(K(f, v));
  }
  return r;
}

// Machine integers
template <typename T>
Z to_z(T t) {
  Z z;
  if constexpr (std::is_signed_v<T>) {
    bool neg = t < 0;
    auto u = neg ? 0 - static_cast<unsigned long long>(t) : static_cast<unsigned long long>(t);
    z = static_cast<unsigned long>(u);
    if (neg) z = -z;
  } else {
    z = static_cast<unsigned long>(t);
  }
  return z;
}
template <typename T>
std::vector<T> machine(int size) {
  using L = std::numeric_limits<T>;
  std::vector<T> r{0, 1, 2, 3, L::max(), static_cast<T>(L::max() - 1), static_cast<T>(L::max() / 2), static_cast<T>(L::max() / 2 + 1)};
  if (std::is_signed_v<T>) r.insert(r.end(), {static_cast<T>(-1), static_cast<T>(-2), static_cast<T>(-3), L::min(), static_cast<T>(L::min() + 1), static_cast<T>(L::min() / 2)});
  if (size > 1)
    for (int i = 4; i < 13; i++) {
      r.push_back(static_cast<T>(i));
      if (std::is_signed_v<T>) r.push_back(static_cast<T>(-i));
    }
  return r;
}
}  // namespace model
