// Elements: the ring operations, scaling, and exact division.
#include "mc.hpp"
#include "elementmodel.hpp"

using namespace model;
using mc::str;

namespace {
const std::vector<Gs>& modules() {
  static const std::vector<Gs> m{
      {},
      {rat(1)},
      {mono(1)},
      {mono(0, 1)},
      {mono(0, 0, 1)},
      {mono(2)},
      {mono(1, 1)},
      {rat(1), mono(1)},
      {mono(1), mono(0, 1)},
      {mono(0, 1), mono(0, 0, 1)},
      {mono(1), mono(1, 1)},
      {mono(0, 1), mono(2)},
      {rat(1), mono(0, 2)},
      {rat(1), mono(1), mono(0, 1)},
      {rat(1), mono(0, 1), mono(1, 1)},
      {mono(1), mono(0, 1), mono(0, 0, 1)},
      {mono(2), mono(1, 1), mono(0, 2)},
  };
  return m;
}
// Elements of all these modules, with few coefficients
template <typename R>
std::vector<Spec> specs(bool thorough, size_t maxrank = 3) {
  std::vector<Spec> r;
  for (const Field* f : Ringed<R>::over()) {
    if (f && f != &fields()[0] && f != &fields()[1]) continue;
    std::vector<K> one, two, three;
    if (std::is_same_v<R, IntegerRing>) {
      one = alphabet({0, 1, -1, 2, -3});
      two = thorough ? alphabet({0, 1, -1, 2}) : alphabet({0, 1, -2});
      three = thorough ? alphabet({0, 1, -1, 2}) : alphabet({0, 1, -1});
    } else if (!f) {
      one = alphabet({0, 1, -1, Q(1, 2), Q(-2, 3)});
      two = thorough ? alphabet({0, 1, -1, Q(3, 2)}) : alphabet({0, 1, Q(-1, 2)});
      three = alphabet({0, Q(1, 3), -1});
      if (std::is_same_v<R, NumberField> && !thorough) one.resize(3), three.resize(2);
    } else {
      one = {K(), K(1), K(f, {0, 1}), K(f, {-1, 1})};
      two = {K(), K(1), K(f, {Q(1, 2), -1})};
      three = {K(), K(f, {1, 1})};
    }
    for (auto& g : modules())
      if (g.size() <= maxrank) tuples(r, g, g.size() <= 1 ? one : g.size() == 2 ? two : three, f);
  }
  return r;
}
// Can the coefficients be brought to a common field?
bool compatible(const Spec& a, const Spec& b) { return !a.f || !b.f || a.f == b.f; }

template <typename R>
struct Kept {
  Element<R> x;
  std::shared_ptr<const Module<R>> m;
  std::vector<typename R::ElementClass> co;
  explicit Kept(const Element<R>& x) : x(x), m(x.module()), co(x.coefficients()) {}
  void check(mc::Ctx& c, const Element<R>& y, const char* what) const { c.check(y.module() == m && y.coefficients() == co, [&] { return str(what, " has changed"); }); }
};

template <typename R>
void pairs(mc::Ctx& c) {
  auto all = specs<R>(c.thorough);
  for (size_t i = 0; i < all.size(); i++)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", all[i].s(), " and all others"); }, [&] {
      Env env;
      const auto x = all[i].template make<R>(env);
      const Poly p = all[i].poly();
      c.check(env.read(x) == p, [&] { return str("it is ", env.read(x).s()); });
      Kept<R> kx(x);
      auto is = [&](const Element<R>& got, const Poly& want, const char* op, const Spec& o) {
        Poly g = env.read(got);
        c.check(g == want, [&] { return str(op, " with ", o.s(), " is ", g.s(), " but should be ", want.s()); });
      };
      is(-x, -p, "-", all[i]);
      c.check((-x).module() == x.module(), "-x is in another module");
      {
        auto y = x;
        auto& r = (y += y);
        c.check(&r == &y, "+= returns something else");
        is(y, p + p, "+= itself", all[i]);
        y = x;
        y -= y;
        is(y, Poly(), "-= itself", all[i]);
        y = x;
        y *= y;
        is(y, p * p, "*= itself", all[i]);
      }
      for (auto& g : env.gens) {
        Gen e = env.gen(*g);
        auto y = x;
        y *= *g;
        is(y, p * Poly(e.e, K(1)), "*= generator", all[i]);
        is(x * *g, p * Poly(e.e, K(1)), "* generator", all[i]);
      }
      is(x * *RealNumber::rational(1), p, "* 1", all[i]);
      for (auto& o : all) {
        if (!compatible(all[i], o)) continue;
        const auto y = o.template make<R>(env);
        const Poly q = o.poly();
        Kept<R> ky(y);
        is(x + y, p + q, "+", o);
        is(x - y, p - q, "-", o);
        const auto xy = x * y;
        is(xy, p * q, "*", o);
        auto z = x;
        is(z += y, p + q, "+=", o);
        is(z -= y, p, "+= and then -=", o);
        z = x;
        is(z *= y, p * q, "*=", o);
        is(x * (y + x), p * (q + p), "x(x + y) with y", o);
        kx.check(c, x, "the left operand");
        ky.check(c, y, "the right operand");
        c.state(str(p.s(), "|", q.s()));
      }
    });
}

// Every program over two registers
template <typename R>
void programs(mc::Ctx& c) {
  std::vector<Spec> starts;
  const Field* f = std::is_same_v<R, NumberField> ? &fields()[0] : nullptr;
  K k = f ? K(f, {1, -1}) : std::is_same_v<R, IntegerRing> ? K(-3) : K(Q(-3, 2)), l = std::is_same_v<R, IntegerRing> ? K(2) : K(Q(2, 3));
  for (auto& g : std::vector<Gs>{{}, {rat(1)}, {mono(1)}, {rat(1), mono(1)}, {mono(0, 1), mono(0, 0, 1)}, {rat(1), mono(1), mono(0, 1)}, {mono(1, 1), mono(0, 0, 1)}}) {
    Spec s;
    s.gens = g;
    s.f = f;
    for (size_t i = 0; i < g.size(); i++) s.co.push_back(i == 0 ? k : i == 1 ? l : K(1));
    for (auto& x : s.co) x.f = f;
    starts.push_back(s);
  }
  const int D = c.thorough ? 5 : 4, CAP = 6;
  static const char* names[] = {"x += y", "x -= y", "x *= y", "y += x", "y -= x", "y *= x", "x += x", "x *= x", "x -= x", "x = -x", "x *= a", "y *= b", "x = x + y", "y = x * y", "swap", "x.simplify()", "x *= 0"};
  const int OPS = sizeof names / sizeof *names;
  for (auto& s : starts)
    for (auto& t : starts)
      for (int first = 0; first < OPS; first++)
        c.leaf([&] { return str(Ringed<R>::name(), ": programs from x = ", s.s(), ", y = ", t.s(), " that start with ", names[first]); }, [&] {
          Env env(CAP + 2);
          std::string history;
          std::function<void(const Element<R>&, const Element<R>&, const Poly&, const Poly&, int)> go = [&](const Element<R>& x0, const Element<R>& y0, const Poly& p0, const Poly& q0, int depth) {
            for (int op = 0; op < OPS; op++) {
              if (depth == 0 && op != first) continue;
              int dx = p0.deg(), dy = q0.deg();
              if ((op == 2 || op == 5 || op == 13) && dx + dy > CAP) continue;
              if (op == 7 && 2 * dx > CAP) continue;
              if ((op == 10 && dx >= CAP) || (op == 11 && dy >= CAP)) continue;
              Element<R> x = x0, y = y0;
              Poly p = p0, q = q0;
              switch (op) {
                case 0: x += y; p = p + q; break;
                case 1: x -= y; p = p - q; break;
                case 2: x *= y; p = p * q; break;
                case 3: y += x; q = q + p; break;
                case 4: y -= x; q = q - p; break;
                case 5: y *= x; q = q * p; break;
                case 6: x += x; p = p + p; break;
                case 7: x *= x; p = p * p; break;
                case 8: x -= x; p = Poly(); break;
                case 9: x = -x; p = -p; break;
                case 10: x *= *env.gens[0]; p = p * Poly(mono(1).e, K(1)); break;
                case 11: y *= *env.gens[1]; q = q * Poly(mono(0, 1).e, K(1)); break;
                case 12: x = x + y; p = p + q; break;
                case 13: y = x * y; q = p * q; break;
                case 14: std::swap(x, y); std::swap(p, q); break;
                case 15: x.simplify(); break;
                case 16: x *= 0; p = Poly(); break;
              }
              std::string h = history;
              history += std::string(history.empty() ? "" : "; ") + names[op];
              c.trans();
              Poly gp = env.read(x), gq = env.read(y);
              c.check(gp == p, [&] { return str("x is ", gp.s(), " but should be ", p.s(), " after ", history); });
              c.check(gq == q, [&] { return str("y is ", gq.s(), " but should be ", q.s(), " after ", history); });
              c.check((x == y) == (p == q) && static_cast<bool>(x) == !p.zero(), [&] { return "equality after " + history; });
              // copies are independent
              c.check(op != 0 || env.read(x0) == p0, "the copy has changed");
              c.state(p.s() + "|" + q.s());
              if (depth + 1 < D) go(x, y, p, q, depth + 1);
              history = h;
            }
          };
          go(s.template make<R>(env), t.template make<R>(env), s.poly(), t.poly(), 0);
        });
}

// Scaling by constants
template <typename R, typename T, typename E>
void scale(mc::Ctx& c, const Env& env, const E& x, const Spec& s, const T& t, const K& k, const std::string& what) {
  const Poly p = s.poly();
  auto m = x.module();
  auto holds = [](const Poly& q) { return q.all([](auto& v) { return Ringed<R>::holds(v); }); };
  // what the coefficients, not the values, have to satisfy
  auto fits = [&](const K& f) {
    for (auto& co : s.co)
      if (!Ringed<R>::holds(co * f)) return false;
    return true;
  };
  (void)holds;
  {
    bool thrown = false;
    E y = x;
    try {
      auto& r = (y *= t);
      c.check(&r == &y, "*= returns something else");
    } catch (const std::exception&) {
      thrown = true;
    }
    c.check(thrown == !fits(k), [&] { return str("*= ", what, thrown ? " throws" : " does not throw"); });
    if (!thrown) {
      c.check(env.read(y) == p * Poly(k), [&] { return str("*= ", what, " gives ", env.read(y).s()); });
      c.check(y.module() == m, "the module has changed");
      c.check(env.read(x * t) == p * Poly(k), [&] { return str("* ", what, " gives ", env.read(x * t).s()); });
      c.check(env.read(t * x) == p * Poly(k), [&] { return str(what, " * gives ", env.read(t * x).s()); });
      c.state(str(p.s(), "*", k.s()));
    }
    c.outcome(thrown ? "no product" : "product");
  }
  {
    bool thrown = false;
    E y = x;
    try {
      y /= t;
    } catch (const std::exception&) {
      thrown = true;
    }
    // nothing is divided in the trivial module
    if (!s.co.empty()) c.check(thrown == (k.zero() || !fits(k.inverse())), [&] { return str("/= ", what, thrown ? " throws" : " does not throw"); });
    if (!thrown && !k.zero()) {
      c.check(env.read(y) == p * Poly(k.inverse()), [&] { return str("/= ", what, " gives ", env.read(y).s()); });
      c.check(y.module() == m, "the module has changed");
      c.check(env.read(x / t) == p * Poly(k.inverse()), [&] { return str("/ ", what, " gives ", env.read(x / t).s()); });
      c.state(str(p.s(), "/", k.s()));
    }
    c.outcome(thrown ? k.zero() ? "division by zero" : "no quotient" : "quotient");
  }
  c.check(env.read(x) == p && x.module() == m, "the operand has changed");
}
template <typename R, typename T, typename E>
void machines(mc::Ctx& c, const Env& env, const E& x, const Spec& s, const char* type) {
  for (T t : machine<T>(2)) scale<R>(c, env, x, s, t, K(Q(to_z(t))), str(type, " ", to_z(t)));
}
template <typename R>
void scaling(mc::Ctx& c) {
  std::vector<Spec> all;
  for (const Field* f : Ringed<R>::over()) {
    auto ks = coefficients<R>(f, c.thorough ? 2 : 1);
    for (auto& g : std::vector<Gs>{{}, {rat(1)}, {mono(1)}, {rat(Q(2, 3))}}) tuples(all, g, ks, f);
    for (auto& g : std::vector<Gs>{{rat(1), mono(0, 1)}, {mono(1), mono(1, 1)}, {rat(Q(-1, 2)), mono(1), mono(0, 0, 2)}}) {
      auto small = std::is_same_v<R, IntegerRing> ? alphabet({0, 6, -2, 5}) : f ? std::vector<K>{K(), K(Q(-2, 3)), K(f, {1, -1})} : alphabet({0, Q(6, 5), -2});
      tuples(all, g, small, f);
    }
  }
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s()); }, [&] {
      Env env(3);
      const auto x = s.template make<R>(env);
      machines<R, short>(c, env, x, s, "short");
      machines<R, unsigned short>(c, env, x, s, "unsigned short");
      machines<R, int>(c, env, x, s, "int");
      machines<R, unsigned int>(c, env, x, s, "unsigned int");
      machines<R, long>(c, env, x, s, "long");
      machines<R, unsigned long>(c, env, x, s, "unsigned long");
      machines<R, long long>(c, env, x, s, "long long");
      machines<R, unsigned long long>(c, env, x, s, "unsigned long long");
      for (auto& z : coefficients<IntegerRing>(nullptr, 2)) scale<R>(c, env, x, s, mpz_class(z.q().get_num()), z, str("mpz ", z.s()));
      for (auto& q : coefficients<RationalField>(nullptr, 2)) scale<R>(c, env, x, s, mpq_class(q.q()), q, str("mpq ", q.s()));
      if constexpr (std::is_same_v<R, NumberField>)
        for (auto& k : coefficients<R>(s.f, 1)) scale<R>(c, env, x, s, Ringed<R>::to(k), k, str("element ", k.s()));
    });
}

// Exact division
template <typename R>
void divide(mc::Ctx& c, const Env& env, const Element<R>& a, const Element<R>& b, const Poly& p, const Poly& q, const std::string& what) {
  std::optional<Element<R>> got;
  bool thrown = false;
  auto ma = a.module(), mb = b.module();
  try {
    got = a.truediv(b);
  } catch (const std::exception&) {
    thrown = true;
  }
  c.check(thrown == q.zero(), [&] { return str(what, thrown ? " throws" : " does not throw"); });
  c.check(env.read(a) == p && env.read(b) == q && a.module() == ma && b.module() == mb, "an operand has changed");
  if (thrown) {
    c.outcome("division by zero");
    return;
  }
  auto want = p.divide(q);
  if (want && !want->all([](auto& k) { return Ringed<R>::holds(k); })) want = std::nullopt;
  c.check(got.has_value() == want.has_value(), [&] { return str(what, got ? " exists: " + env.read(*got).s() : " does not exist although it is " + want->s()); });
  if (got) {
    c.check(env.read(*got) == *want, [&] { return str(what, " is ", env.read(*got).s(), " but should be ", want->s()); });
    c.check(env.read(*got * b) == p && *got * b == a, [&] { return str(what, " times the divisor is not the dividend"); });
  }
  c.outcome(got ? "exact" : "none");
  c.state(str(p.s(), "/", q.s()));
}
template <typename R>
void division_pairs(mc::Ctx& c) {
  auto all = specs<R>(false);
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": division by ", s.s()); }, [&] {
      Env env;
      const auto b = s.template make<R>(env);
      const Poly q = s.poly();
      for (auto& t : all) {
        if (!compatible(s, t)) continue;
        const auto a = t.template make<R>(env);
        divide(c, env, a, b, t.poly(), q, str(t.s(), " / ", s.s()));
      }
    });
}
template <typename R>
void division_products(mc::Ctx& c) {
  auto all = specs<R>(false, 2);
  for (auto& s : all) {
    if (s.poly().zero()) continue;
    c.leaf([&] { return str(Ringed<R>::name(), ": multiples of ", s.s()); }, [&] {
      Env env;
      const auto b = s.template make<R>(env);
      const Poly q = s.poly();
      const auto unit = Element<R>(Ringed<R>::to(K(1)));
      for (auto& t : all) {
        if (!compatible(s, t)) continue;
        const auto y = t.template make<R>(env);
        const auto a = b * y;
        const Poly p = q * t.poly();
        divide(c, env, a, b, p, q, str("(", p.s(), ") / ", s.s()));
        // the last step fails
        divide(c, env, a + unit, b, p + Poly(K(1)), q, str("(", p.s(), " + 1) / ", s.s()));
        // a remainder in another variable
        auto g = Element<R>(env.module<R>({mono(0, 0, 1)}, s.f), {Ringed<R>::to(K(1))});
        divide(c, env, a - g, b, p - Poly(mono(0, 0, 1).e, K(1)), q, str("(", p.s(), " - c) / ", s.s()));
        // leading terms that cancel
        auto h = b * b - y * y;
        divide(c, env, h, b - y, q * q - t.poly() * t.poly(), q - t.poly(), str("a difference of squares by ", (q - t.poly()).s()));
        divide(c, env, h, b + y, q * q - t.poly() * t.poly(), q + t.poly(), str("a difference of squares by ", (q + t.poly()).s()));
      }
    });
  }
}
// Dividends with few terms of high degree: the quotient has more terms than
// there are generators.
template <typename R>
void division_sparse(mc::Ctx& c) {
  const int n = c.thorough ? 18 : 12, d = c.thorough ? 6 : 5;
  for (const Field* f : Ringed<R>::over()) {
    if (f && f != &fields()[0]) continue;
    const bool Z = std::is_same_v<R, IntegerRing>;
    std::vector<K> ks{K(1), K(-1)};
    ks.push_back(f ? K(f, {-1, 1}) : K(Z ? Q(2) : Q(-2, 3)));
    auto spec = [&](const std::vector<std::pair<Gen, K>>& terms) {
      Spec s;
      s.f = f;
      for (auto& [g, k] : terms) {
        K l = k;
        l.f = f;
        s.gens.push_back(g);
        s.co.push_back(l);
      }
      return s;
    };
    // divisors x^i + k y^j, x^i y + k, x + k y^j + 1
    std::vector<Spec> divisors;
    for (int i = 1; i <= d; i++)
      for (int j = 0; j <= d; j++)
        for (auto& k : ks) {
          if (i == 1 || j == 1 || i != j || k != K(1)) divisors.push_back(spec({{mono(i), K(1)}, {j ? mono(0, j) : rat(1), k}}));
          if (j == 1) divisors.push_back(spec({{mono(i, j), k}, {rat(1), K(1)}}));
          if (i == 1 && j) divisors.push_back(spec({{mono(i), K(1)}, {mono(0, j), k}, {rat(1), K(1)}}));
        }
    // geometric sums: factors with more terms than their multiples
    for (int m = 3; m <= d + 2; m++)
      for (auto& k : ks)
        for (int kind = 0; kind < 3; kind++) {
          std::vector<std::pair<Gen, K>> terms;
          K l(1);
          for (int i = 0; i < m; i++) {
            Gen g = kind == 0 ? mono(m - 1 - i, i) : kind == 1 ? mono(m - 1 - i) : mono(2 * (m - 1 - i), i);
            if (kind == 1 && i == m - 1) g = rat(1);
            terms.push_back({g, l});
            l = l * k;
          }
          divisors.push_back(spec(terms));
        }
    for (auto& s : divisors)
      c.leaf([&] { return str(Ringed<R>::name(), ": sparse dividends by ", s.s()); }, [&] {
        Env env(2 * n);
        const auto b = s.template make<R>(env);
        const Poly q = s.poly();
        for (int i = 1; i <= n; i++)
          for (int j = 0; j <= n; j++)
            for (auto& k : ks) {
              auto t = spec({{mono(i), K(1)}, {j ? mono(0, j) : rat(1), k}});
              divide(c, env, t.template make<R>(env), b, t.poly(), q, str("(", t.s(), ") / (", s.s(), ")"));
              if (i != j || i > d + 2) continue;
              // three terms
              auto u = spec({{mono(i), K(1)}, {mono(0, j), k}, {mono(1, 1), K(2)}});
              divide(c, env, u.template make<R>(env), b, u.poly(), q, str("(", u.s(), ") / (", s.s(), ")"));
            }
        // powers
        auto power = b;
        Poly want = q;
        for (int i = 2; i * q.deg() <= n; i++) {
          auto next = power * b;
          Poly p = want * q;
          divide(c, env, next, b, p, q, str("power ", i, " of ", s.s()));
          divide(c, env, next, power, p, want, str("power ", i, " by the previous one of ", s.s()));
          divide(c, env, power, next, want, p, str("power ", i - 1, " by the next one of ", s.s()));
          power = next;
          want = p;
        }
      });
  }
}
}  // namespace

MC_SUITE(pairs_integers) { pairs<IntegerRing>(c); }
MC_SUITE(pairs_rationals) { pairs<RationalField>(c); }
MC_SUITE(pairs_number_fields) { pairs<NumberField>(c); }
MC_SUITE(programs_integers) { programs<IntegerRing>(c); }
MC_SUITE(programs_rationals) { programs<RationalField>(c); }
MC_SUITE(programs_number_fields) { programs<NumberField>(c); }
MC_SUITE(scale_integers) { scaling<IntegerRing>(c); }
MC_SUITE(scale_rationals) { scaling<RationalField>(c); }
MC_SUITE(scale_number_fields) { scaling<NumberField>(c); }
MC_SUITE(divide_integers) { division_pairs<IntegerRing>(c); }
MC_SUITE(divide_rationals) { division_pairs<RationalField>(c); }
MC_SUITE(divide_number_fields) { division_pairs<NumberField>(c); }
MC_SUITE(divide_products_integers) { division_products<IntegerRing>(c); }
MC_SUITE(divide_products_rationals) { division_products<RationalField>(c); }
MC_SUITE(divide_products_number_fields) { division_products<NumberField>(c); }
MC_SUITE(divide_sparse_integers) { division_sparse<IntegerRing>(c); }
MC_SUITE(divide_sparse_rationals) { division_sparse<RationalField>(c); }
MC_SUITE(divide_sparse_number_fields) { division_sparse<NumberField>(c); }

MC_MAIN
