// A real algebraic number as an isolated root of an integer polynomial, with
// exact signs of polynomial expressions in it, by bisection over the rationals.
#pragma once
#include "ref.hpp"

struct Algebraic {
  using Q = ref::Q;
  std::vector<long> p;  // monic enough: a single simple root in (lo, hi)
  mutable Q lo, hi;
  Algebraic(std::vector<long> p, Q lo, Q hi) : p(std::move(p)), lo(std::move(lo)), hi(std::move(hi)) {}
  Q poly(const Q& x) const {
    Q r;
    for (size_t i = p.size(); i--;) r = r * x + Q(p[i]);
    return r;
  }
  void refine() const {
    Q mid = (lo + hi) / 2;
    int s = sgn(poly(mid));
    if (s == 0) {
      lo = hi = mid;
      return;
    }
    if (s == sgn(poly(lo)))
      lo = mid;
    else
      hi = mid;
  }
  // An interval that contains Σ co[i]·root^i
  std::pair<Q, Q> eval(const std::vector<Q>& co) const {
    Q a, b;  // Horner with intervals
    for (size_t i = co.size(); i--;) {
      Q t[] = {a * lo, a * hi, b * lo, b * hi};
      Q l = t[0], h = t[0];
      for (auto& v : t) {
        if (v < l) l = v;
        if (v > h) h = v;
      }
      a = l + co[i];
      b = h + co[i];
    }
    return {a, b};
  }
  static std::vector<Q> trim(std::vector<Q> v) {
    while (!v.empty() && v.back() == 0) v.pop_back();
    return v;
  }
  // The remainder modulo the polynomial
  std::vector<Q> reduce(std::vector<Q> v) const {
    v = trim(std::move(v));
    while (v.size() >= p.size()) {
      Q f = v.back() / Q(p.back());
      size_t shift = v.size() - p.size();
      for (size_t i = 0; i < p.size(); i++) v[i + shift] -= f * Q(p[i]);
      v.pop_back();
      v = trim(std::move(v));
    }
    return v;
  }
  // The sign of Σ co[i]·root^i - q. The polynomial must be irreducible.
  int sign(std::vector<Q> co, const Q& q = 0) const {
    if (co.empty()) co.push_back(0);
    co[0] -= q;
    co = reduce(co);
    if (co.empty()) return 0;
    while (true) {
      auto i = eval(co);
      if (i.first > 0) return 1;
      if (i.second < 0) return -1;
      refine();
    }
  }
};
