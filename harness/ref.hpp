// Reference arithmetic that is independent of the library: exact rationals and
// dyadic numbers on top of GMP, and IEEE double rounding spelled out.
#pragma once
#include <flint/flint.h>
#include <flint/arb.h>
#include <flint/arf.h>
#include <flint/fmpq.h>
#include <gmpxx.h>

#include <cmath>
#include <limits>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

namespace ref {
using Z = mpz_class;
using Q = mpq_class;

inline Z pow2z(unsigned long e) {
  Z r;
  mpz_setbit(r.get_mpz_t(), e);
  return r;
}
inline Q pow2(long e) { return e >= 0 ? Q(pow2z(e)) : Q(1, pow2z(-e)); }
inline Q dy(const Z& m, long e) {
  Q r(m);
  if (e >= 0)
    mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e);
  else
    mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -e);
  return r;
}
inline Z floorq(const Q& q) {
  Z r;
  mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return r;
}
inline Z ceilq(const Q& q) {
  Z r;
  mpz_cdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return r;
}
// floor(log2(|q|)) for q != 0
inline long ilog2(const Q& q) {
  Q a = abs(q);
  long k = static_cast<long>(mpz_sizeinbase(a.get_num_mpz_t(), 2)) - static_cast<long>(mpz_sizeinbase(a.get_den_mpz_t(), 2));
  if (a < pow2(k)) k--;
  if (a >= pow2(k + 1)) k++;
  return k;
}
enum Rnd { DOWN, UP, FLOOR, CEIL, NEAR };
inline Z roundz(const Q& t, Rnd r) {
  switch (r) {
    case FLOOR: return floorq(t);
    case CEIL: return ceilq(t);
    case DOWN: return t >= 0 ? floorq(t) : ceilq(t);
    case UP: return t >= 0 ? ceilq(t) : floorq(t);
    default: {
      Z f = floorq(t);
      Q d = t - Q(f);
      int c = cmp(d, Q(1, 2));
      if (c < 0) return f;
      if (c > 0) return f + 1;
      return mpz_even_p(f.get_mpz_t()) ? f : Z(f + 1);
    }
  }
}
// q rounded to prec significant bits
inline Q roundq(const Q& q, long prec, Rnd r) {
  if (q == 0) return q;
  long u = ilog2(q) - prec + 1;
  return dy(roundz(q / pow2(u), r), u);
}
// the nearest double, ties to even, with gradual underflow and overflow to infinity
inline double nearest_double(const Q& q) {
  if (q == 0) return 0;
  long u = std::max(ilog2(q) - 52, -1074L);
  Z m = roundz(q / pow2(u), NEAR);
  if (m == 0) return sgn(q) < 0 ? -0.0 : 0.0;
  Q v = dy(m, u);
  if (abs(v) >= pow2(1024)) return sgn(q) < 0 ? -INFINITY : INFINITY;
  return std::ldexp(m.get_d(), static_cast<int>(u));
}
inline Q of_double(double d) {
  int e;
  double f = std::frexp(d, &e);
  return dy(Z(std::ldexp(f, 53)), e - 53);
}

// A value of an Arf: finite m·2^e (m odd or zero), or special.
struct V {
  enum Kind { FIN, PINF, NINF, NANV } kind = FIN;
  Z m = 0, e = 0;
  V() {}
  V(Kind k) : kind(k) {}
  V(const Z& m_, const Z& e_) : m(m_), e(e_) { norm(); }
  void norm() {
    if (m == 0) {
      e = 0;
      return;
    }
    auto k = mpz_scan1(m.get_mpz_t(), 0);
    mpz_tdiv_q_2exp(m.get_mpz_t(), m.get_mpz_t(), k);
    e += static_cast<unsigned long>(k);
  }
  bool operator==(const V& o) const { return kind == o.kind && m == o.m && e == o.e; }
  bool operator!=(const V& o) const { return !(*this == o); }
  Q q() const { return dy(m, e.get_si()); }
  bool fin() const { return kind == FIN; }
  std::string s() const {
    if (kind == PINF) return "+inf";
    if (kind == NINF) return "-inf";
    if (kind == NANV) return "nan";
    std::ostringstream o;
    o << m << "p" << e;
    return o.str();
  }
};
inline V of_q(const Q& q) {  // q must be dyadic
  long k = static_cast<long>(mpz_scan1(q.get_den_mpz_t(), 0));
  return V(q.get_num(), Z(-k));
}
inline V of_arf(const ::arf_t x) {
  if (arf_is_nan(x)) return V(V::NANV);
  if (arf_is_pos_inf(x)) return V(V::PINF);
  if (arf_is_neg_inf(x)) return V(V::NINF);
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  arf_get_fmpz_2exp(m, e, x);
  Z a, b;
  fmpz_get_mpz(a.get_mpz_t(), m);
  fmpz_get_mpz(b.get_mpz_t(), e);
  fmpz_clear(m);
  fmpz_clear(e);
  return V(a, b);
}
inline void to_arf(::arf_t x, const V& v) {
  switch (v.kind) {
    case V::NANV: arf_nan(x); return;
    case V::PINF: arf_pos_inf(x); return;
    case V::NINF: arf_neg_inf(x); return;
    default: break;
  }
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  fmpz_set_mpz(m, v.m.get_mpz_t());
  fmpz_set_mpz(e, v.e.get_mpz_t());
  arf_set_fmpz_2exp(x, m, e);
  fmpz_clear(m);
  fmpz_clear(e);
}
// three way comparison of values that are not NaN, safe for huge exponents
inline int cmpv(const V& a, const V& b) {
  auto rank = [](const V& v) { return v.kind == V::PINF ? 2 : v.kind == V::NINF ? -2 : 0; };
  if (rank(a) || rank(b)) return (rank(a) > rank(b)) - (rank(a) < rank(b));
  int sa = sgn(a.m), sb = sgn(b.m);
  if (sa != sb) return sa < sb ? -1 : 1;
  if (sa == 0) return 0;
  Z ta = a.e + static_cast<unsigned long>(mpz_sizeinbase(a.m.get_mpz_t(), 2));
  Z tb = b.e + static_cast<unsigned long>(mpz_sizeinbase(b.m.get_mpz_t(), 2));
  if (ta != tb) return (ta < tb ? -1 : 1) * sa;
  Z d = a.e - b.e;  // small, as the magnitudes agree
  Q x = Q(a.m) * pow2(d.get_si());
  int c = cmp(x, Q(b.m));
  return (c > 0) - (c < 0);
}
inline double nearest_double(const V& v) {
  if (v.kind == V::NANV) return NAN;
  if (v.kind == V::PINF) return INFINITY;
  if (v.kind == V::NINF) return -INFINITY;
  if (v.m == 0) return 0;
  Z t = v.e + static_cast<unsigned long>(mpz_sizeinbase(v.m.get_mpz_t(), 2));
  if (t > 1100) return sgn(v.m) < 0 ? -INFINITY : INFINITY;
  if (t < -1200) return sgn(v.m) < 0 ? -0.0 : 0.0;
  return nearest_double(v.q());
}

// Correctly rounded operations with the special values of FLINT's arf_ functions.
inline V rnd(const Q& q, long prec, Rnd r) { return of_q(prec >= ARF_PREC_EXACT ? q : roundq(q, prec, r)); }
inline V neg(const V& a) {
  V r = a;
  r.m = -r.m;
  if (a.kind == V::PINF) r.kind = V::NINF;
  if (a.kind == V::NINF) r.kind = V::PINF;
  return r;
}
inline V add(const V& a, const V& b, long p, Rnd r) {
  if (a.fin() && b.fin()) return rnd(a.q() + b.q(), p, r);
  if (a.kind == V::NANV || b.kind == V::NANV) return V(V::NANV);
  if (!a.fin() && !b.fin() && a.kind != b.kind) return V(V::NANV);
  return a.fin() ? V(b.kind) : V(a.kind);
}
inline V sub(const V& a, const V& b, long p, Rnd r) { return add(a, neg(b), p, r); }
inline int sign(const V& a) { return a.kind == V::PINF ? 1 : a.kind == V::NINF ? -1 : sgn(a.m); }
inline V mul(const V& a, const V& b, long p, Rnd r) {
  if (a.fin() && b.fin()) return rnd(a.q() * b.q(), p, r);
  if (a.kind == V::NANV || b.kind == V::NANV) return V(V::NANV);
  int s = sign(a) * sign(b);
  return s ? V(s > 0 ? V::PINF : V::NINF) : V(V::NANV);
}
inline V div(const V& a, const V& b, long p, Rnd r) {
  if (a.kind == V::NANV || b.kind == V::NANV) return V(V::NANV);
  if (a.fin() && b.fin()) {
    if (b.m == 0) return V(V::NANV);
    return rnd(a.q() / b.q(), p, r);
  }
  if (!a.fin() && !b.fin()) return V(V::NANV);
  if (!b.fin()) return V();
  if (b.m == 0) return V(V::NANV);
  return V(sign(a) * sign(b) > 0 ? V::PINF : V::NINF);
}

// The exact interval of an Arb; an infinite or invalid ball has none.
struct I {
  Q lo, hi;
};
inline Q mag_q(const ::mag_t m) {
  ::arf_t a;
  arf_init_set_mag_shallow(a, m);
  return of_arf(a).q();
}
inline bool finite(const ::arb_t x) { return arb_is_finite(x); }
inline I interval(const ::arb_t x) {
  Q m = of_arf(arb_midref(x)).q();
  Q r = mag_q(arb_radref(x));
  return {m - r, m + r};
}
inline bool contains(const ::arb_t x, const Q& q) {
  if (arf_is_nan(arb_midref(x)) || mag_is_inf(arb_radref(x))) return true;
  if (!arb_is_finite(x)) return false;
  auto i = interval(x);
  return i.lo <= q && q <= i.hi;
}
inline std::string show(const ::arb_t x) {
  std::ostringstream o;
  ::arf_t a;
  arf_init_set_mag_shallow(a, arb_radref(x));
  o << "[" << of_arf(arb_midref(x)).s() << " +/- " << of_arf(a).s() << "]";
  return o.str();
}
}  // namespace ref
