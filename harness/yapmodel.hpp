// A reference model of the lazily evaluated expressions: the same C++ text that
// builds a real expression builds one of these trees when its variables are of
// type E.
#pragma once
#include "ref.hpp"

#include <memory>

namespace yapmodel {
using ref::Q;
using ref::V;

struct Node {
  char op = 'v';  // v: variable, k: constant, n: negation, p: precision bound, r: rounding bound, or + - * /
  int var = 0;
  Q k;
  long prec = 0;
  int round = 0;
  std::shared_ptr<const Node> a, b;
};
template <typename Round>
struct E {
  std::shared_ptr<const Node> n;
  static std::shared_ptr<Node> mk(char op) {
    auto r = std::make_shared<Node>();
    r->op = op;
    return r;
  }
  E(std::shared_ptr<const Node> n) : n(n) {}
  static E variable(int i) {
    auto r = mk('v');
    r->var = i;
    return E(std::shared_ptr<const Node>(r));
  }
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
  E(T v) {
    auto r = mk('k');
    if constexpr (std::is_floating_point_v<T>)
      r->k = ref::of_double(v);
    else
      r->k = Q(v);
    n = r;
  }
  E operator()(long p) const {
    auto r = mk('p');
    r->prec = p;
    r->a = n;
    return E(std::shared_ptr<const Node>(r));
  }
  E operator()(Round p) const {
    auto r = mk('r');
    r->round = static_cast<int>(p);
    r->a = n;
    return E(std::shared_ptr<const Node>(r));
  }
  template <typename A, typename B>
  E operator()(A a, B b) const {
    return (*this)(a)(b);
  }
  static E bin(char op, const E& x, const E& y) {
    auto r = mk(op);
    r->a = x.n;
    r->b = y.n;
    return E(std::shared_ptr<const Node>(r));
  }
  E operator-() const {
    auto r = mk('n');
    r->a = n;
    return E(std::shared_ptr<const Node>(r));
  }
  friend E operator+(const E& x, const E& y) { return bin('+', x, y); }
  friend E operator-(const E& x, const E& y) { return bin('-', x, y); }
  friend E operator*(const E& x, const E& y) { return bin('*', x, y); }
  friend E operator/(const E& x, const E& y) { return bin('/', x, y); }
  // x op= expression: the precision and rounding bound outermost in the
  // expression also apply to the operation.
  E inplace(char op, const E& y) {
    long p = 0;
    int r = 0;
    bool hp = false, hr = false;
    for (auto m = y.n; m && (m->op == 'p' || m->op == 'r'); m = m->a) {
      if (m->op == 'p' && !hp) p = m->prec, hp = true;
      if (m->op == 'r' && !hr) r = m->round, hr = true;
    }
    E e = bin(op, *this, y);
    if (hp) e = e(p);
    if (hr) {
      auto m = mk('r');
      m->round = r;
      m->a = e.n;
      e = E(m);
    }
    return e;
  }
};
}  // namespace yapmodel
