// Elements of modules as polynomials in a few transcendental numbers.
#pragma once
#include "realmodel.hpp"
#include "ringmodel.hpp"

#include <exact-real/element.hpp>
#include <exact-real/module.hpp>

#include <algorithm>
#include <numeric>

namespace model {
using exactreal::Element;
using exactreal::Module;

using Exps = std::vector<int>;
constexpr size_t GENS = 3;
inline const Exps E0(GENS, 0);
inline int degree(const Exps& e) { return std::accumulate(e.begin(), e.end(), 0); }

struct Poly {
  std::map<Exps, K> t;
  Poly() {}
  Poly(const K& k) { add(E0, k); }
  Poly(const Exps& e, const K& k) { add(e, k); }
  void add(const Exps& e, const K& k) {
    K s = t.count(e) ? t[e] + k : k;
    if (s.zero())
      t.erase(e);
    else
      t[e] = s;
  }
  bool zero() const { return t.empty(); }
  bool constant() const { return t.empty() || (t.size() == 1 && t.begin()->first == E0); }
  K value() const { return t.empty() ? K() : t.begin()->second; }
  bool rational() const { return constant() && value().rational(); }
  int deg() const {
    int d = 0;
    for (auto& x : t) d = std::max(d, degree(x.first));
    return d;
  }
  friend Poly operator+(Poly a, const Poly& b) {
    for (auto& x : b.t) a.add(x.first, x.second);
    return a;
  }
  Poly operator-() const {
    Poly r;
    for (auto& x : t) r.t[x.first] = -x.second;
    return r;
  }
  friend Poly operator-(const Poly& a, const Poly& b) { return a + (-b); }
  friend Poly operator*(const Poly& a, const Poly& b) {
    Poly r;
    for (auto& x : a.t)
      for (auto& y : b.t) {
        Exps e = x.first;
        for (size_t i = 0; i < GENS; i++) e[i] += y.first[i];
        r.add(e, x.second * y.second);
      }
    return r;
  }
  bool operator==(const Poly& o) const { return t.size() == o.t.size() && std::equal(t.begin(), t.end(), o.t.begin(), [](auto& x, auto& y) { return x.first == y.first && x.second == y.second; }); }
  bool operator!=(const Poly& o) const { return !(*this == o); }
  // The quotient over the field of fractions of the coefficients, if there is
  // one; the lexicographic order is good enough.
  std::optional<Poly> divide(const Poly& d) const {
    Poly r = *this, q;
    auto& lead = *d.t.rbegin();
    while (!r.zero()) {
      Exps e = r.t.rbegin()->first;
      for (size_t i = 0; i < GENS; i++)
        if ((e[i] -= lead.first[i]) < 0) return std::nullopt;
      Poly p(e, r.t.rbegin()->second / lead.second);
      q = q + p;
      r = r - p * d;
    }
    return q;
  }
  template <typename F>
  bool all(F f) const {
    for (auto& x : t)
      if (!f(x.second)) return false;
    return true;
  }
  std::string s() const {
    std::string r;
    for (auto& x : t) {
      std::string m;
      for (size_t i = 0; i < GENS; i++)
        if (x.first[i]) m += std::string(1, static_cast<char>('a' + i)) + (x.first[i] > 1 ? "^" + std::to_string(x.first[i]) : "");
      r += (r.empty() ? "" : " + ") + x.second.s() + m;
    }
    return r.empty() ? "0" : r;
  }
};

// The transcendental numbers
enum World { PLAIN, CLOSE, EXTREME, TINY, WORLDS };
inline World& world() {
  static World w = PLAIN;
  return w;
}
inline const std::vector<Num>& generators() {
  static const std::vector<Num> g[WORLDS] = {
      {random(7), between(Q(-3), Q(5), 8), near(-2.5, 9)},
      // all of them are next to the same double
      {near(1, 7), near(1, 8), near(1, 9)},
      // beyond the range of doubles, on both sides
      {between(ref::pow2(1030), ref::pow2(1031), 7), between(-ref::pow2(-1090), ref::pow2(-1091), 8), near(-1.5, 9)},
      // next to an integer and to zero; created last to first
      {near(0, 9), between(Q(1) - ref::pow2(-80), Q(1) - ref::pow2(-81), 8), random(7)}};
  return g[world()];
}
inline I enclose(const Exps& e, long bits) {
  static std::map<std::tuple<World, Exps, long>, I> cache;
  auto [it, fresh] = cache.insert({{world(), e, bits}, I{1, 1}});
  if (fresh)
    for (size_t i = 0; i < GENS; i++)
      for (int k = 0; k < e[i]; k++) it->second = trim(mul(it->second, generators()[i].enclose(bits)));
  return it->second;
}
inline I enclose(const Poly& p, long bits) {
  I r{0, 0};
  for (auto& x : p.t) r = add(r, mul(x.second.enclose(bits), enclose(x.first, bits)));
  return r;
}
// An enclosure with that relative accuracy; exact zeros give [0, 0].
inline I accurate(const Poly& p, long bits) {
  if (p.zero()) return {0, 0};
  for (long b = 200;; b *= 2) {
    I i = enclose(p, b);
    if (i.lo > 0 || i.hi < 0) {
      Q m = std::min(abs(i.lo), abs(i.hi));
      if (i.hi - i.lo <= m * ref::pow2(-bits)) return i;
    }
  }
}
inline int sign(const Poly& p) {
  if (p.zero()) return 0;
  if (p.constant()) return p.value().sign();
  return accurate(p, 1).lo > 0 ? 1 : -1;
}
// floor(n/d)
inline Z floordiv(const Poly& n, const Poly& d) {
  auto q = n.divide(d);
  if (q && q->constant()) return q->value().floor();
  for (long b = 64;; b *= 2) {
    I x = accurate(n, b), y = accurate(d, b);
    I r = mul(x, {1 / y.hi, 1 / y.lo});
    if (ref::floorq(r.lo) == ref::floorq(r.hi)) return ref::floorq(r.lo);
  }
}
inline Z floor(const Poly& p) { return floordiv(p, Poly(K(1))); }
// The double that is closest to the value
inline double to_double(const Poly& p) {
  if (p.rational()) return ref::nearest_double(p.value().q());
  for (long b = 64;; b *= 2) {
    I i = accurate(p, b);
    double x = ref::nearest_double(i.lo);
    if (x == ref::nearest_double(i.hi)) return x;
  }
}

// A generator of a module: a monomial or a rational number
struct Gen {
  Exps e = E0;
  Q r = 1;
  bool operator==(const Gen& o) const { return e == o.e && r == o.r; }
  bool operator<(const Gen& o) const { return std::tie(e, r) < std::tie(o.e, o.r); }
  bool rational() const { return e == E0; }
  std::string s() const {
    if (rational()) return r.get_str();
    std::string x = Poly(e, K(1)).s();
    return x.substr(x.find_first_not_of("1"));
  }
};
inline Gen mono(int a, int b = 0, int c = 0) {
  Gen g;
  g.e = {a, b, c};
  return g;
}
inline Gen rat(const Q& q) {
  Gen g;
  g.r = q;
  return g;
}
using Gs = std::vector<Gen>;

// Keeps the monomials up to a degree alive, and knows them.
class Env {
  std::vector<P> keep;
  std::map<const RealNumber*, Exps> who;

 public:
  std::vector<P> gens;
  explicit Env(int degree = 6) {
    for (auto& g : generators()) gens.push_back(g.make());
    Exps e = E0;
    std::function<void(size_t, int, P)> go = [&](size_t i, int left, P p) {
      if (i == GENS) {
        if (model::degree(e)) {
          keep.push_back(p);
          who[p.get()] = e;
        }
        return;
      }
      for (int k = 0; k <= left; k++) {
        e[i] = k;
        go(i + 1, left - k, p);
        p = *p * *gens[i];
      }
      e[i] = 0;
    };
    go(0, degree, RealNumber::rational(1));
  }
  P real(const Gen& g) const {
    if (g.rational()) return RealNumber::rational(g.r);
    for (auto& w : who)
      if (w.second == g.e) return w.first->shared_from_this();
    throw std::runtime_error("the monomial is too big for the test");
  }
  std::optional<Gen> known(const RealNumber& x) const {
    if (auto q = static_cast<std::optional<mpq_class>>(x)) return rat(*q);
    auto it = who.find(&x);
    if (it == who.end()) return std::nullopt;
    Gen g;
    g.e = it->second;
    return g;
  }
  Gen gen(const RealNumber& x) const {
    auto g = known(x);
    if (!g) throw std::runtime_error("a generator that should not exist");
    return *g;
  }
  template <typename R>
  std::shared_ptr<const Module<R>> module(const Gs& gs, const Field* f = nullptr) const {
    std::vector<P> b;
    for (auto& g : gs) b.push_back(real(g));
    return Module<R>::make(b, Ringed<R>::ring(f));
  }
  template <typename R>
  Gs gens_of(const Module<R>& m) const {
    Gs r;
    for (auto& b : m.basis()) r.push_back(gen(*b));
    return r;
  }
  // What an element stands for
  template <typename R>
  Poly read(const Element<R>& x) const {
    Poly p;
    auto m = x.module();
    auto co = x.coefficients();
    if (co.size() != m->basis().size()) throw std::runtime_error("the number of coefficients is not the rank");
    for (size_t i = 0; i < co.size(); i++) {
      Gen g = gen(*m->basis()[i]);
      if constexpr (std::is_same_v<R, NumberField>)
        if (!co[i].is_rational() && !(co[i].parent() == *m->ring().parameters)) throw std::runtime_error("a coefficient is not in the ring of its module");
      p.add(g.e, Ringed<R>::from(co[i]) * K(g.r));
    }
    return p;
  }
};

// An element, before it is made
struct Spec {
  Gs gens;
  std::vector<K> co;
  const Field* f = nullptr;
  Poly poly() const {
    Poly p;
    for (size_t i = 0; i < gens.size(); i++) p.add(gens[i].e, co[i] * K(gens[i].r));
    return p;
  }
  template <typename R>
  Element<R> make(const Env& env) const {
    auto m = env.module<R>(gens, f);
    std::vector<typename R::ElementClass> v;
    for (auto& b : m->basis()) {
      Gen g = env.gen(*b);
      size_t i = static_cast<size_t>(std::find(gens.begin(), gens.end(), g) - gens.begin());
      v.push_back(Ringed<R>::to(co.at(i)));
    }
    return Element<R>(m, v);
  }
  std::string s() const {
    std::string r;
    for (size_t i = 0; i < gens.size(); i++) r += (i ? " + " : "") + co[i].s() + "·" + gens[i].s();
    return "{" + r + (f ? " over " + f->name : "") + "}";
  }
};
// All coefficient tuples over the alphabet
inline void tuples(std::vector<Spec>& out, const Gs& gs, const std::vector<K>& alphabet, const Field* f = nullptr) {
  Spec s;
  s.gens = gs;
  s.f = f;
  s.co.resize(gs.size());
  std::function<void(size_t)> go = [&](size_t i) {
    if (i == gs.size()) {
      out.push_back(s);
      return;
    }
    for (auto& k : alphabet) {
      s.co[i] = k;
      s.co[i].f = f;
      go(i + 1);
    }
  };
  go(0);
}
inline std::vector<K> alphabet(const std::vector<Q>& qs) { return {qs.begin(), qs.end()}; }
}  // namespace model
