// Elements as numbers: comparisons, floors, conversions, and how they print.
#include "mc.hpp"
#include "elementmodel.hpp"

#include <exact-real/yap/arb.hpp>

#include <boost/lexical_cast.hpp>
#include <cfloat>
#include <cmath>

using namespace model;
using mc::str;

namespace {
// The best rational approximation of the value with a denominator of at most about 2^n
Q convergent(const Poly& v, long n) {
  I i = accurate(v, 2 * n + 80);
  Z p0 = 1, q0 = 0, p1 = ref::floorq(i.lo), q1 = 1;
  Q x = i.lo - p1;
  while (x != 0) {
    x = 1 / x;
    Z a = ref::floorq(x);
    Z p = a * p1 + p0, q = a * q1 + q0;
    if (q > ref::pow2z(static_cast<unsigned long>(n))) break;
    p0 = p1, q0 = q1, p1 = p, q1 = q;
    x -= a;
  }
  return Q(p1, q1);
}
Q truncated(const Poly& v, long n) {
  I i = accurate(v, n + 80);
  return ref::dy(ref::floorq(i.lo * ref::pow2(n)), -n);
}

struct Specs {
  std::vector<Spec> all;
  const Field* f = nullptr;
  void add(const Gs& gs, std::vector<K> co) {
    Spec s;
    s.gens = gs;
    s.f = f;
    for (auto& k : co) {
      k.f = f;
      s.co.push_back(k);
    }
    all.push_back(s);
  }
};

// Values of all magnitudes, and close to each other, to integers, and to the
// ties between doubles.
template <typename R>
std::vector<Spec> values(bool thorough) {
  Specs r;
  const Gen one = rat(1), a = mono(1), b = mono(0, 1), c = mono(0, 0, 1), ab = mono(1, 1), a2 = mono(2);
  const Poly A(a.e, K(1)), B(b.e, K(1));
  r.add({}, {});
  constexpr bool field = !std::is_same_v<R, IntegerRing>;
  std::vector<long> ns = thorough ? std::vector<long>{3, 30, 53, 54, 63, 64, 65, 100, 127, 128, 129, 200, 256, 500, 1000} : std::vector<long>{3, 53, 64, 65, 128, 200, 1000};
  auto over = Ringed<R>::over();
  for (const Field* f : over) {
    if (f && f != &fields()[0] && (!thorough || f != &fields()[1])) continue;
    r.f = f;
    for (auto k : std::vector<int>{0, 1, -1, 2, -7}) {
      r.add({one}, {K(k)});
      if (!f) r.add({a}, {K(k)}), r.add({b}, {K(k)});
    }
    if (!f) {
      for (auto& q : {Q(1), Q(-2), Q(5)})
        for (auto& s : {Q(1), Q(-1), Q(0)}) {
          r.add({one, a}, {K(q), K(s)});
          r.add({b, c}, {K(s), K(q)});
          r.add({one, c, ab}, {K(s), K(q), K(s)});
        }
      r.add({a2, ab, c}, {K(3), K(-1), K(2)});
      r.add({a2, one}, {K(3), K(0)});
      for (auto& z : {ref::pow2z(31), ref::pow2z(63), ref::pow2z(64), ref::pow2z(1100)})
        for (int d : {-1, 0, 1})
          for (int s : {1, -1}) r.add({one}, {K(Q(s * (z + d)))});
      r.add({one, a}, {K(Q(ref::pow2z(300))), K(1)});
      r.add({one, a}, {K(Q(-ref::pow2z(300))), K(-1)});
    }
    if (!field) {
      for (long n : ns) {
        Q q = convergent(A, n);
        for (int s : {1, -1}) {
          r.add({one, a}, {K(Q(-s * q.get_num())), K(Q(s * q.get_den()))});
          r.add({one, a}, {K(Q(-s * q.get_num() + 3)), K(Q(s * q.get_den()))});
        }
        // two generators
        I x = accurate(A, 3 * n + 80), y = accurate(B, 3 * n + 80);
        (void)x, (void)y;
        Q t = convergent(Poly(A), n);
        r.add({a, one, ab}, {K(Q(t.get_den() + 1)), K(Q(-t.get_num())), K(0)});
      }
    } else if (!f) {
      for (long n : ns) {
        Q ra = truncated(A, n), rb = truncated(B, n);
        for (auto& off : {Q(0), Q(1), Q(-3), Q(1, 2)}) {
          r.add({one, a}, {K(off - ra), K(1)});
          r.add({one, a}, {K(off + ra), K(-1)});
        }
        r.add({one, b}, {K(-rb), K(1)});
        r.add({one, a, b}, {K(-ra - rb), K(1), K(1)});
        r.add({one, ab}, {K(-truncated(Poly(ab.e, K(1)), n)), K(1)});
        r.add({one}, {K(Q(1) - ref::pow2(-n))});
        r.add({one}, {K(ref::pow2(-n))});
        r.add({a}, {K(ref::pow2(-n))});
      }
    } else {
      std::vector<long> ks = f == &fields()[0] ? std::vector<long>{1, 10, 50, 101, 400} : std::vector<long>{1, 20, 100};
      // small elements of the field: (θ-1)^k
      K small(1), g(f, {-1, 1});
      long at = 0;
      for (long k : ks) {
        for (; at < k; at++) small = small * g;
        r.add({one}, {small});
        r.add({one}, {-small});
        r.add({one}, {small + K(2)});
        r.add({one}, {K(-2) - small});
        r.add({a}, {small});
        r.add({one, a}, {small, K(1)});
        r.add({one, a, b}, {small, K(0), -small});
      }
      for (long n : ns) {
        Poly v(a.e, K(f, {0, 1}));
        Q q = truncated(v, n);
        r.add({one, a}, {K(-q), K(f, {0, 1})});
        r.add({one, a}, {K(q + 1), K(f, {0, -1})});
      }
      r.add({one}, {K(f, {0, 1})});
      r.add({one}, {K(f, {0, -3})});
      r.add({one, a}, {K(f, {1, 1}), K(f, {Q(1, 2), -1})});
      r.add({b, c}, {K(f, {0, 1}), K(f, {-1, Q(1, 3)})});
    }
    // however close
    if (world() == PLAIN)
      for (long n : thorough ? std::vector<long>{2100, 4200, 9000, 20000, 70000} : std::vector<long>{2100, 9000, 20000}) {
        if (!field) {
          Z z = ref::floorq(truncated(A, n + 40) * ref::pow2(n));
          for (int d : {0, 1}) r.add({one, a}, {K(Q(-z - d)), K(Q(ref::pow2z(static_cast<unsigned long>(n))))});
        } else if (!f) {
          Q q = truncated(A, n);
          for (int d : {0, 1}) r.add({one, a}, {K(d - q), K(1)}), r.add({one, a}, {K(q + d), K(-1)});
          r.add({one}, {K(3 - ref::pow2(-n))});
          r.add({one, a, b}, {K(-q), K(1), K(ref::pow2(-n - 100))});
        } else if (n < 9000 || thorough) {
          Q q = truncated(Poly(a.e, K(f, {0, 1})), n);
          r.add({one, a}, {K(-q), K(f, {0, 1})});
          r.add({one, a}, {K(q + 1), K(f, {0, -1})});
        }
      }
    if (field && !f) {
      // the ties between doubles, and the ends of their range
      std::vector<Q> ties;
      for (auto& m : {Z("9007199254740993"), Z("9007199254740995"), Z("18014398509481983"), Z("1")})
        for (long e : {0L, -53L, -1076L, -1127L, 970L, -1100L}) ties.push_back(ref::dy(m, e));
      Q max = ref::of_double(DBL_MAX);
      for (auto& q : {max, Q(max + ref::pow2(969)), Q(max + ref::pow2(970)), Q(max + ref::pow2(970) - 1), ref::pow2(1024), ref::pow2(-1074), ref::pow2(-1075), Q(3 * ref::pow2(-1075)), ref::of_double(DBL_MIN), Q(ref::of_double(DBL_MIN) - ref::pow2(-1075)), Q(ref::of_double(DBL_MIN) - ref::pow2(-1076))}) ties.push_back(q);
      // double rounding: 53 bits at first, subnormal precision then
      for (long e : {-1074L, -1060L, -1050L}) ties.push_back(ref::pow2(e) * (1 + ref::pow2(-1 - std::max(0L, e + 1074))) + ref::pow2(-1074 - 100));
      for (auto& t : ties) {
        r.add({one}, {K(t)});
        r.add({one}, {K(-t)});
        r.add({one, a}, {K(Q(t - ref::pow2(-1300) * truncated(A, 100))), K(ref::pow2(-1300))});
        if (thorough) r.add({one, a}, {K(Q(-t + ref::pow2(-1300) * truncated(A, 100))), K(ref::pow2(-1300))});
      }
      // as good as a tie
      if (world() == PLAIN)
        for (auto& t : {Q(1 + ref::pow2(-53)), Q(-3 - ref::pow2(-51) - ref::pow2(-53)), Q(max + ref::pow2(970)), Q(ref::pow2(-1075)), Q(-3 * ref::pow2(-1075))})
          for (long n : thorough ? std::vector<long>{2000, 5000, 12000, 40000, 100000} : std::vector<long>{5000, 12000, 40000})
            for (int s : {1, -1}) r.add({one, a}, {K(t), K(s * ref::pow2(-n))});
      for (long e : {-1074L, -1080L, -1022L, 1023L, 1030L, 200L}) r.add({a}, {K(ref::pow2(e))}), r.add({b}, {K(-ref::pow2(e))});
    }
  }
  return r.all;
}
// Rational generators other than 1; these modules do not mix with others
template <typename R>
std::vector<Spec> odd() {
  Specs r;
  for (const Field* f : Ringed<R>::over()) {
    r.f = f;
    for (auto& q : {Q(1, 3), Q(-2, 3), Q(3), Q(-1), Q(-1, 2), Q(2)}) {
      std::vector<K> ks = std::is_same_v<R, IntegerRing> ? alphabet({0, 1, -1, 2, -2, 3, -3, 4, 9}) : f ? std::vector<K>{K(), K(1), K(f, {0, 1}), K(f, {Q(1, 2), -1})} : alphabet({0, 1, -1, Q(3, 2), Q(-3, 4), Q(1, 4)});
      for (auto& k : ks) {
        r.add({rat(q)}, {k});
        r.add({rat(q), mono(1)}, {k, K(0)});
        r.add({rat(q), mono(1)}, {k, K(1)});
        r.add({rat(q), mono(0, 1), mono(1, 1)}, {k, K(-1), K(0)});
      }
    }
  }
  return r.all;
}
bool compatible(const Spec& a, const Spec& b) { return !a.f || !b.f || a.f == b.f; }

template <typename R>
struct Kept {
  std::shared_ptr<const Module<R>> m;
  std::vector<typename R::ElementClass> co;
  explicit Kept(const Element<R>& x) : m(x.module()), co(x.coefficients()) {}
  void check(mc::Ctx& c, const Element<R>& y) const { c.check(y.module() == m && y.coefficients() == co, "an operand has changed"); }
};

template <typename A, typename B, typename W>
void relations(mc::Ctx& c, const A& x, const B& y, int s, W&& what) {
  auto is = [&](bool got, bool want, const char* op) {
    c.check(got == want, [&] { return str(what(), ": ", op, " is ", got, " although the difference has sign ", s); });
  };
  is(x < y, s < 0, "<");
  is(x <= y, s <= 0, "<=");
  is(x == y, s == 0, "==");
  is(x != y, s != 0, "!=");
  is(x >= y, s >= 0, ">=");
  is(x > y, s > 0, ">");
  is(y < x, s > 0, "reversed <");
  is(y <= x, s >= 0, "reversed <=");
  is(y == x, s == 0, "reversed ==");
  is(y != x, s != 0, "reversed !=");
  is(y >= x, s <= 0, "reversed >=");
  is(y > x, s < 0, "reversed >");
}

template <typename R>
void compare_pairs(mc::Ctx& c) {
  auto all = values<R>(c.thorough);
  for (size_t i = 0; i < all.size(); i++)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", all[i].s(), " and all others"); }, [&] {
      Env env(3);
      const auto x = all[i].template make<R>(env);
      const Poly p = all[i].poly();
      for (auto& o : all) {
        if (!compatible(all[i], o)) continue;
        const auto y = o.template make<R>(env);
        Kept<R> kx(x), ky(y);
        Poly d = p - o.poly();
        int s = d.zero() ? 0 : sign(d);
        relations(c, x, y, s, [&] { return str("with ", o.s()); });
        kx.check(c, x);
        ky.check(c, y);
        c.state(str(i, "|", o.s()));
        c.outcome(s < 0 ? "less" : s ? "greater" : "equal");
      }
    });
}

template <typename R, typename T>
void compare_machine(mc::Ctx& c, const Element<R>& x, const Poly& p, const Z& fl, const char* type) {
  std::vector<T> ts = machine<T>(c.thorough ? 2 : 1);
  for (int d = -1; d <= 2; d++) {
    Z z = fl + d;
    if (z >= to_z(std::numeric_limits<T>::min()) && z <= to_z(std::numeric_limits<T>::max())) {
      Z m = abs(z);
      auto u = static_cast<unsigned long long>(m.get_ui());
      ts.push_back(static_cast<T>(z < 0 ? 0 - u : u));
    }
  }
  for (T t : ts) {
    int s = sign(p - Poly(K(Q(to_z(t)))));
    relations(c, x, t, s, [&] { return str("with ", type, " ", to_z(t)); });
  }
}
template <typename R>
void compare_scalars(mc::Ctx& c) {
  auto all = values<R>(c.thorough);
  for (auto& s : odd<R>()) all.push_back(s);
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s(), " with constants"); }, [&] {
      Env env(3);
      const auto x = s.template make<R>(env);
      const Poly p = s.poly();
      Kept<R> kx(x);
      Z fl = model::floor(p);
      compare_machine<R, short>(c, x, p, fl, "short");
      compare_machine<R, unsigned short>(c, x, p, fl, "unsigned short");
      compare_machine<R, int>(c, x, p, fl, "int");
      compare_machine<R, unsigned int>(c, x, p, fl, "unsigned int");
      compare_machine<R, long>(c, x, p, fl, "long");
      compare_machine<R, unsigned long>(c, x, p, fl, "unsigned long");
      compare_machine<R, long long>(c, x, p, fl, "long long");
      compare_machine<R, unsigned long long>(c, x, p, fl, "unsigned long long");
      std::vector<Z> zs{0, 1, -1, fl, fl + 1, fl - 1, ref::pow2z(64), Z(-ref::pow2z(64)), ref::pow2z(2000), Z(-ref::pow2z(2000))};
      for (auto& z : zs) relations(c, x, z, sign(p - Poly(K(Q(z)))), [&] { return str("with mpz ", z); });
      std::vector<Q> qs{Q(0), Q(1, 3), Q(-1, 2), Q(fl) + Q(1, 2), Q(ref::pow2z(200) + 1, ref::pow2z(200))};
      if (!p.zero())
        for (long n : {20L, 64L, 128L, 700L}) {
          if (p.rational()) {
            Q q = p.value().q();
            qs.push_back(q);
            qs.push_back(q * (1 + ref::pow2(-n)));
            qs.push_back(q * (1 - ref::pow2(-n)));
          } else {
            I i = accurate(p, n);
            qs.push_back(i.lo);
            qs.push_back(i.hi);
            qs.push_back((i.lo + i.hi) / 2);
          }
        }
      for (auto& q : qs) relations(c, x, q, sign(p - Poly(K(q))), [&] { return str("with mpq ", q); });
      kx.check(c, x);
      c.state(p.s());
    });
}
// Generators of the element's module, and every number if the element is zero
template <typename R>
void compare_generators(mc::Ctx& c) {
  auto all = values<R>(c.thorough);
  for (auto& s : odd<R>()) all.push_back(s);
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s(), " with generators"); }, [&] {
      Env env(3);
      const auto x = s.template make<R>(env);
      const Poly p = s.poly();
      Kept<R> kx(x);
      auto with = [&](const Gen& g) {
        relations(c, x, *env.real(g), sign(p - Poly(g.e, K(g.r))), [&] { return str("with the generator ", g.s()); });
        c.state(p.s() + "|" + g.s());
      };
      for (auto& g : s.gens) with(g);
      bool zero = std::all_of(s.co.begin(), s.co.end(), [](auto& k) { return k.zero(); });
      if (zero)
        for (auto& g : {rat(0), rat(1), rat(-1), rat(Q(1, 3)), mono(1), mono(0, 1), mono(0, 0, 1), mono(1, 1)}) with(g);
      kx.check(c, x);
    });
}

// Floors
template <typename R>
void floors(mc::Ctx& c) {
  auto all = values<R>(c.thorough);
  for (auto& s : odd<R>()) all.push_back(s);
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": floor and ceil of ", s.s()); }, [&] {
      Env env(3);
      const auto x = s.template make<R>(env);
      const Poly p = s.poly();
      Kept<R> kx(x);
      Z f = model::floor(p), cl = -model::floor(-p);
      Z got = x.floor();
      c.check(got == f, [&] { return str("floor is ", got, " but should be ", f); });
      got = x.ceil();
      c.check(got == cl, [&] { return str("ceil is ", got, " but should be ", cl); });
      kx.check(c, x);
      c.state(p.s());
      c.outcome(f == cl ? "integer" : "not an integer");
    });
}
// The numerators: the values, and multiples of the divisor
template <typename R>
void floordivs(mc::Ctx& c) {
  auto all = values<R>(false);
  // numbers beyond the range of doubles would only need an awful lot of bits
  all.erase(std::remove_if(all.begin(), all.end(), [](auto& s) {
    auto p = s.poly();
    if (p.zero()) return false;
    auto i = accurate(p, 4);
    Q m = std::max(abs(i.lo), abs(i.hi));
    return m > ref::pow2(400) || m < ref::pow2(-400);
  }), all.end());
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": floordiv by ", s.s()); }, [&] {
      Env env(3);
      const auto d = s.template make<R>(env);
      const Poly q = s.poly();
      auto check = [&](const Element<R>& n, const Poly& p, auto&& what) {
        if (q.zero()) {
          bool thrown = false;
          try {
            n.floordiv(d);
          } catch (const std::exception&) {
            thrown = true;
          }
          c.check(thrown, [&] { return str(what(), " does not throw"); });
          c.outcome("division by zero");
          return;
        }
        Kept<R> kn(n), kd(d);
        Z want = floordiv(p, q), got = n.floordiv(d);
        c.check(got == want, [&] { return str(what(), " is ", got, " but should be ", want); });
        kn.check(c, n);
        kd.check(c, d);
        c.state(p.s() + "|" + q.s());
        c.outcome(want == 0 ? "zero" : want < 0 ? "negative" : "positive");
      };
      for (auto& t : all) {
        if (!compatible(s, t)) continue;
        check(t.template make<R>(env), t.poly(), [&] { return str(t.s(), " floordiv ", s.s()); });
      }
      auto one = Element<R>(Ringed<R>::to(K(1)));
      auto tiny = convergent(Poly(mono(1).e, K(1)), 40);
      for (auto& m : {Z(0), Z(1), Z(-1), Z(2), Z(-3), ref::pow2z(70), Z(-ref::pow2z(70))}) {
        auto n = d;
        n *= m;
        const Poly p = q * Poly(K(Q(m)));
        check(n, p, [&] { return str(m, " times the divisor"); });
        check(n + one, p + Poly(K(1)), [&] { return str(m, " times the divisor + 1"); });
        check(n - one, p - Poly(K(1)), [&] { return str(m, " times the divisor - 1"); });
        auto e = env.template module<R>({rat(1), mono(1)}, s.f);
        auto close = Element<R>(e, {Ringed<R>::to(K(Q(tiny.get_num()))), Ringed<R>::to(K(Q(-tiny.get_den())))});
        Poly cl = Poly(K(Q(tiny.get_num()))) - Poly(mono(1).e, K(Q(tiny.get_den())));
        check(n + close, p + cl, [&] { return str(m, " times the divisor + ", cl.s()); });
        check(n - close, p - cl, [&] { return str(m, " times the divisor - ", cl.s()); });
      }
    });
}

// Conversions
template <typename R>
void conversions(mc::Ctx& c) {
  auto all = values<R>(c.thorough);
  for (auto& s : odd<R>()) all.push_back(s);
  // Coefficients of every shape
  for (const Field* f : Ringed<R>::over())
    for (auto& k : coefficients<R>(f, c.thorough ? 2 : 1)) {
      Specs x;
      x.f = f;
      x.add({rat(1)}, {k});
      x.add({mono(1), mono(0, 1)}, {k, K(1)});
      x.add({rat(1), mono(1)}, {k, k});
      x.add({rat(1), mono(1)}, {k, K(0)});
      for (auto& y : x.all) all.push_back(y);
    }
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s()); }, [&] {
      Env env(3);
      const auto x = s.template make<R>(env);
      const Poly p = s.poly();
      Kept<R> kx(x);
      // coordinates
      auto m = x.module();
      std::vector<K> want;
      for (auto& b : m->basis()) want.push_back(s.co[static_cast<size_t>(std::find(s.gens.begin(), s.gens.end(), env.gen(*b)) - s.gens.begin())]);
      auto co = x.coefficients();
      auto rc = x.rationalCoefficients();
      c.check(co.size() == want.size() && static_cast<size_t>(m->rank()) == want.size(), "number of coefficients");
      const size_t deg = s.f ? s.f->degree() : 1;
      c.check(rc.size() == deg * want.size(), [&] { return str(rc.size(), " rational coefficients"); });
      for (size_t i = 0; i < want.size(); i++) {
        c.check(Ringed<R>::from(co[i]) == want[i], [&] { return str("coefficient ", i, " is ", Ringed<R>::from(co[i]).s()); });
        c.check(Ringed<R>::from(x[static_cast<long>(i)]) == want[i], [&] { return str("[", i, "] is ", Ringed<R>::from(x[static_cast<long>(i)]).s()); });
        for (size_t j = 0; j < deg; j++) {
          Q q = j < want[i].c.size() ? want[i].c[j] : Q(0);
          const mpq_class& g = rc[i * deg + j];
          c.check(g == q && g.get_den() == q.get_den(), [&] { return str("rational coefficient ", i * deg + j, " is ", g, " but should be ", q); });
        }
      }
      // casts
      auto z = static_cast<std::optional<mpz_class>>(x);
      auto q = static_cast<std::optional<mpq_class>>(x);
      bool isq = p.rational(), isz = isq && p.value().q().get_den() == 1;
      c.check(q.has_value() == isq, [&] { return str(q ? "it is " + q->get_str() + " as a rational" : "it is no rational"); });
      c.check(z.has_value() == isz, [&] { return str(z ? "it is " + z->get_str() + " as an integer" : "it is no integer"); });
      if (q) c.check(*q == p.value().q() && q->get_den() == p.value().q().get_den(), [&] { return str("it is ", *q, " as a rational"); });
      if (z) c.check(*z == p.value().q().get_num(), [&] { return str("it is ", *z, " as an integer"); });
      c.check(static_cast<bool>(x) == !p.zero(), "cast to bool");
      c.outcome(isz ? "integer" : isq ? "rational" : p.constant() ? "algebraic" : "transcendental");
      // the unit group of the ring
      {
        bool unit = p.constant() && !p.zero();
        if (unit && std::is_same_v<R, IntegerRing>) {
          // its inverse is a multiple of the rational generator
          Q r = 1;
          for (size_t i = 0; i < s.gens.size(); i++)
            if (s.gens[i].rational()) r = s.gens[i].r;
          Q inv = 1 / (p.value().q() * r);
          unit = inv.get_den() == 1;
        }
        c.check(x.unit() == unit, [&] { return str("unit() is ", x.unit()); });
      }
      // approximations
      double d = static_cast<double>(x), wd = to_double(p);
      c.check(d == wd, [&] { return str(std::hexfloat, "the double is ", d, " but should be ", wd); });
      std::vector<long> ps = c.thorough ? std::vector<long>{1, 2, 3, 10, 20, 52, 53, 54, 64, 65, 100, 128, 200, 513, 1024, 3000} : std::vector<long>{1, 2, 10, 53, 64, 65, 200, 1024};
      for (long prec : ps) {
        Arb b = x.arb(prec);
        I i = accurate(p, std::max(prec, std::min(10000L, static_cast<long>(arb_rel_accuracy_bits(b.arb_t())))) + 40);
        I g = ref::interval(b.arb_t());
        c.check(g.lo <= i.hi && i.lo <= g.hi, [&] { return str("arb(", prec, ") = ", ref::show(b.arb_t()), " does not contain the value"); });
        if (!p.zero()) c.check(arb_rel_accuracy_bits(b.arb_t()) >= prec, [&] { return str("arb(", prec, ") has only ", arb_rel_accuracy_bits(b.arb_t()), " bits"); });
        c.state(str(p.s(), "@", prec));
      }
      if (p.zero()) c.check(static_cast<bool>(arb_is_zero(x.arb(10).arb_t())), "the ball of zero");
      // hashes
      std::hash<Element<R>> h;
      {
        auto y = x, w = x;
        y.simplify();
        c.check(h(x) == h(y) && h(x) == h(w), "the hash of an equal element");
        if (std::none_of(s.gens.begin(), s.gens.end(), [](auto& g) { return g.rational() && g.r != 1; })) {
          auto big = env.template module<R>({rat(1), mono(1), mono(0, 1), mono(0, 0, 1), mono(1, 1), mono(2)}, s.f);
          y = x;
          y.promote(big);
          c.check(y == x && h(x) == h(y), "the hash of an equal element of another module");
          y += y;
          y -= x;
          c.check(y == x && h(x) == h(y), "the hash of an element that came back");
        }
      }
      kx.check(c, x);
    });
}

// Printing
template <typename R>
void printing(mc::Ctx& c) {
  auto all = values<R>(c.thorough);
  for (auto& s : odd<R>()) all.push_back(s);
  for (const Field* f : Ringed<R>::over()) {
    if (f && f != &fields()[0] && f != &fields()[1]) continue;
    std::vector<K> ks = std::is_same_v<R, IntegerRing> ? alphabet({0, 1, -1, 12, -5}) : f ? std::vector<K>{K(), K(1), K(-1), K(f, {0, 1}), K(f, {2, -3})} : alphabet({0, 1, -1, Q(2, 3), Q(-5, 7)});
    for (auto& g : std::vector<Gs>{{rat(1)}, {mono(1)}, {mono(1, 1)}, {rat(1), mono(1)}, {mono(1), mono(0, 1)}, {rat(1), mono(0, 0, 1), mono(1, 1)}, {mono(1), mono(0, 1), mono(0, 0, 1)}, {mono(2), mono(1, 1), mono(0, 2)}}) tuples(all, g, ks, f);
  }
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s()); }, [&] {
      Env env(3);
      const auto x = s.template make<R>(env);
      Kept<R> kx(x);
      const std::string got = boost::lexical_cast<std::string>(x);
      mc::keeps_format(c, x);
      mc::keeps_format(c, *x.module());
      // the terms that should be there, with their signs
      std::multiset<std::pair<bool, std::string>> terms;
      for (size_t i = 0; i < s.gens.size(); i++) {
        K k = s.co[i];
        if (k.zero()) continue;
        bool negative = k.sign() < 0;
        if (negative) k = -k;
        std::ostringstream t;
        auto g = env.real(s.gens[i]);
        bool one = k.rational() && k.q() == 1, trivial = s.gens[i].rational() && s.gens[i].r == 1;
        if (!one) t << Ringed<R>::to(k);
        if (!one && !trivial) t << "*";
        if (one || !trivial) t << *g;
        terms.insert({negative, t.str()});
      }
      auto bad = [&] { return "it prints as " + got; };
      // Take the sum apart
      if (terms.empty())
        c.check(got == "0", bad);
      else {
        std::function<bool(size_t, std::multiset<std::pair<bool, std::string>>)> parse = [&](size_t at, std::multiset<std::pair<bool, std::string>> left) -> bool {
          if (left.empty()) return at == got.size();
          for (auto& t : std::set<std::pair<bool, std::string>>(left.begin(), left.end())) {
            std::string sign = at ? (t.first ? " - " : " + ") : (t.first ? "-" : "");
            if (got.compare(at, sign.size() + t.second.size(), sign + t.second)) continue;
            auto rest = left;
            rest.erase(rest.find(t));
            if (parse(at + sign.size() + t.second.size(), rest)) return true;
          }
          return false;
        };
        c.check(parse(0, terms), bad);
      }
      c.check(boost::lexical_cast<std::string>(x) == got, "it prints differently the second time");
      auto y = x;
      c.check(boost::lexical_cast<std::string>(y) == got, "a copy prints differently");
      kx.check(c, x);
      c.check(x == y, "printing has changed it");
      c.state(got);
      // the module
      std::string want = std::is_same_v<R, IntegerRing> ? "ℤ-Module(" : std::is_same_v<R, RationalField> ? "ℚ-Module(" : "K-Module(";
      for (size_t i = 0; i < x.module()->basis().size(); i++) want += (i ? ", " : "") + boost::lexical_cast<std::string>(*x.module()->basis()[i]);
      want += ")";
      c.check(boost::lexical_cast<std::string>(*x.module()) == want, [&] { return str("the module prints as ", *x.module()); });
    });
}
}  // namespace

MC_SUITE(compare_pairs_integers) { compare_pairs<IntegerRing>(c); }
MC_SUITE(compare_pairs_rationals) { compare_pairs<RationalField>(c); }
MC_SUITE(compare_pairs_number_fields) { compare_pairs<NumberField>(c); }
MC_SUITE(compare_scalars_integers) { compare_scalars<IntegerRing>(c); }
MC_SUITE(compare_scalars_rationals) { compare_scalars<RationalField>(c); }
MC_SUITE(compare_scalars_number_fields) { compare_scalars<NumberField>(c); }
MC_SUITE(compare_generators_integers) { compare_generators<IntegerRing>(c); }
MC_SUITE(compare_generators_rationals) { compare_generators<RationalField>(c); }
MC_SUITE(compare_generators_number_fields) { compare_generators<NumberField>(c); }
MC_SUITE(floor_integers) { floors<IntegerRing>(c); }
MC_SUITE(floor_rationals) { floors<RationalField>(c); }
MC_SUITE(floor_number_fields) { floors<NumberField>(c); }
MC_SUITE(floordiv_integers) { floordivs<IntegerRing>(c); }
MC_SUITE(floordiv_rationals) { floordivs<RationalField>(c); }
MC_SUITE(floordiv_number_fields) { floordivs<NumberField>(c); }
MC_SUITE(convert_integers) { conversions<IntegerRing>(c); }
MC_SUITE(convert_rationals) { conversions<RationalField>(c); }
MC_SUITE(convert_number_fields) { conversions<NumberField>(c); }
MC_SUITE(print_integers) { printing<IntegerRing>(c); }
MC_SUITE(print_rationals) { printing<RationalField>(c); }
MC_SUITE(print_number_fields) { printing<NumberField>(c); }

// The same with other generators
#define MC_WORLD_SUITE(name, w, run) \
  MC_SUITE(name) {                   \
    world() = w;                     \
    run(c);                          \
  }
// in the thorough tier only
#define MC_WORLD_SUITE_THOROUGH(name, w, run)                           \
  static void mc_suite_##name(mc::Ctx& c) {                             \
    world() = w;                                                        \
    run(c);                                                             \
  }                                                                     \
  static mc::Register mc_reg_##name(#name, mc_suite_##name, 2);
MC_WORLD_SUITE(compare_pairs_integers_close, CLOSE, compare_pairs<IntegerRing>)
MC_WORLD_SUITE(compare_pairs_rationals_close, CLOSE, compare_pairs<RationalField>)
MC_WORLD_SUITE(compare_pairs_number_fields_close, CLOSE, compare_pairs<NumberField>)
MC_WORLD_SUITE(compare_pairs_integers_extreme, EXTREME, compare_pairs<IntegerRing>)
MC_WORLD_SUITE(compare_pairs_rationals_extreme, EXTREME, compare_pairs<RationalField>)
MC_WORLD_SUITE_THOROUGH(compare_pairs_number_fields_extreme, EXTREME, compare_pairs<NumberField>)
MC_WORLD_SUITE(compare_pairs_integers_tiny, TINY, compare_pairs<IntegerRing>)
MC_WORLD_SUITE(compare_pairs_rationals_tiny, TINY, compare_pairs<RationalField>)
MC_WORLD_SUITE_THOROUGH(compare_pairs_number_fields_tiny, TINY, compare_pairs<NumberField>)
MC_WORLD_SUITE_THOROUGH(compare_scalars_integers_close, CLOSE, compare_scalars<IntegerRing>)
MC_WORLD_SUITE(compare_scalars_rationals_close, CLOSE, compare_scalars<RationalField>)
MC_WORLD_SUITE(compare_scalars_number_fields_close, CLOSE, compare_scalars<NumberField>)
MC_WORLD_SUITE(compare_scalars_integers_extreme, EXTREME, compare_scalars<IntegerRing>)
MC_WORLD_SUITE(compare_scalars_rationals_extreme, EXTREME, compare_scalars<RationalField>)
MC_WORLD_SUITE_THOROUGH(compare_scalars_number_fields_extreme, EXTREME, compare_scalars<NumberField>)
MC_WORLD_SUITE_THOROUGH(compare_scalars_integers_tiny, TINY, compare_scalars<IntegerRing>)
MC_WORLD_SUITE(compare_scalars_rationals_tiny, TINY, compare_scalars<RationalField>)
MC_WORLD_SUITE_THOROUGH(compare_scalars_number_fields_tiny, TINY, compare_scalars<NumberField>)
MC_WORLD_SUITE(compare_generators_integers_close, CLOSE, compare_generators<IntegerRing>)
MC_WORLD_SUITE(compare_generators_rationals_close, CLOSE, compare_generators<RationalField>)
MC_WORLD_SUITE(compare_generators_number_fields_close, CLOSE, compare_generators<NumberField>)
MC_WORLD_SUITE(compare_generators_integers_extreme, EXTREME, compare_generators<IntegerRing>)
MC_WORLD_SUITE(compare_generators_rationals_extreme, EXTREME, compare_generators<RationalField>)
MC_WORLD_SUITE(compare_generators_number_fields_extreme, EXTREME, compare_generators<NumberField>)
MC_WORLD_SUITE(compare_generators_integers_tiny, TINY, compare_generators<IntegerRing>)
MC_WORLD_SUITE(compare_generators_rationals_tiny, TINY, compare_generators<RationalField>)
MC_WORLD_SUITE(compare_generators_number_fields_tiny, TINY, compare_generators<NumberField>)
MC_WORLD_SUITE(floor_integers_close, CLOSE, floors<IntegerRing>)
MC_WORLD_SUITE(floor_rationals_close, CLOSE, floors<RationalField>)
MC_WORLD_SUITE(floor_number_fields_close, CLOSE, floors<NumberField>)
MC_WORLD_SUITE(floor_integers_extreme, EXTREME, floors<IntegerRing>)
MC_WORLD_SUITE(floor_rationals_extreme, EXTREME, floors<RationalField>)
MC_WORLD_SUITE(floor_number_fields_extreme, EXTREME, floors<NumberField>)
MC_WORLD_SUITE(floor_integers_tiny, TINY, floors<IntegerRing>)
MC_WORLD_SUITE(floor_rationals_tiny, TINY, floors<RationalField>)
MC_WORLD_SUITE(floor_number_fields_tiny, TINY, floors<NumberField>)
MC_WORLD_SUITE(floordiv_integers_close, CLOSE, floordivs<IntegerRing>)
MC_WORLD_SUITE(floordiv_rationals_close, CLOSE, floordivs<RationalField>)
MC_WORLD_SUITE(floordiv_number_fields_close, CLOSE, floordivs<NumberField>)
MC_WORLD_SUITE(floordiv_integers_extreme, EXTREME, floordivs<IntegerRing>)
MC_WORLD_SUITE(floordiv_rationals_extreme, EXTREME, floordivs<RationalField>)
MC_WORLD_SUITE(floordiv_number_fields_extreme, EXTREME, floordivs<NumberField>)
MC_WORLD_SUITE(floordiv_integers_tiny, TINY, floordivs<IntegerRing>)
MC_WORLD_SUITE(floordiv_rationals_tiny, TINY, floordivs<RationalField>)
MC_WORLD_SUITE(floordiv_number_fields_tiny, TINY, floordivs<NumberField>)
MC_WORLD_SUITE(convert_integers_close, CLOSE, conversions<IntegerRing>)
MC_WORLD_SUITE(convert_rationals_close, CLOSE, conversions<RationalField>)
MC_WORLD_SUITE(convert_number_fields_close, CLOSE, conversions<NumberField>)
MC_WORLD_SUITE(convert_integers_extreme, EXTREME, conversions<IntegerRing>)
MC_WORLD_SUITE(convert_rationals_extreme, EXTREME, conversions<RationalField>)
MC_WORLD_SUITE(convert_number_fields_extreme, EXTREME, conversions<NumberField>)
MC_WORLD_SUITE(convert_integers_tiny, TINY, conversions<IntegerRing>)
MC_WORLD_SUITE(convert_rationals_tiny, TINY, conversions<RationalField>)
MC_WORLD_SUITE(convert_number_fields_tiny, TINY, conversions<NumberField>)
MC_WORLD_SUITE(print_integers_close, CLOSE, printing<IntegerRing>)
MC_WORLD_SUITE(print_rationals_close, CLOSE, printing<RationalField>)
MC_WORLD_SUITE(print_number_fields_close, CLOSE, printing<NumberField>)
MC_WORLD_SUITE(print_integers_extreme, EXTREME, printing<IntegerRing>)
MC_WORLD_SUITE(print_rationals_extreme, EXTREME, printing<RationalField>)
MC_WORLD_SUITE(print_number_fields_extreme, EXTREME, printing<NumberField>)
MC_WORLD_SUITE(print_integers_tiny, TINY, printing<IntegerRing>)
MC_WORLD_SUITE(print_rationals_tiny, TINY, printing<RationalField>)
MC_WORLD_SUITE(print_number_fields_tiny, TINY, printing<NumberField>)

// Real numbers print as their value, or else as a product of powers of primes.
MC_SUITE(print_reals) {
  std::vector<Q> qs;
  for (auto& k : coefficients<RationalField>(nullptr, 2)) qs.push_back(k.q());
  for (auto& q : qs)
    c.leaf([&] { return str("the rational ", q); }, [&] {
      auto x = RealNumber::rational(q);
      c.check(boost::lexical_cast<std::string>(*x) == q.get_str(), [&] { return str("it prints as ", *x); });
      c.check(boost::lexical_cast<std::string>(*x) == q.get_str(), "printed twice");
      mc::keeps_format(c, *x);
      c.state(q.get_str());
    });
  const int D = c.thorough ? 6 : 4;
  Exps e(GENS);
  for (e[0] = 0; e[0] <= D; e[0]++)
    for (e[1] = 0; e[1] + e[0] <= D; e[1]++)
      for (e[2] = 0; e[2] + e[1] + e[0] <= D; e[2]++) {
        if (!degree(e)) continue;
        Gen g;
        g.e = e;
        c.leaf([&] { return str("the monomial ", g.s()); }, [&] {
          Env env(D);
          auto x = env.real(g);
          std::vector<std::string> want;
          for (size_t i = 0; i < GENS; i++)
            if (e[i]) want.push_back(boost::lexical_cast<std::string>(*env.gens[i]) + (e[i] > 1 ? "^" + std::to_string(e[i]) : ""));
          std::sort(want.begin(), want.end());
          const auto got = boost::lexical_cast<std::string>(*x);
          bool found = false;
          do {
            std::string w;
            for (auto& f : want) w += (w.empty() ? "" : "*") + f;
            found |= w == got;
          } while (std::next_permutation(want.begin(), want.end()));
          c.check(found, [&] { return "it prints as " + got; });
          (void)x->arb(300);
          c.check(boost::lexical_cast<std::string>(*x) == got, "it prints differently after it was refined");
          mc::keeps_format(c, *x);
          c.check(boost::lexical_cast<std::string>(*x) == got, "it prints differently after it was printed to other streams");
          c.state(got);
        });
      }
}

MC_MAIN
