// The helpers for the Python bindings.
#include "mc.hpp"
#include "elementmodel.hpp"

#include <e-antic/renfxx.h>

#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <e-antic/cereal.hpp>

#include <exact-real/cereal.hpp>
#include <exact-real/cppyy.hpp>

using namespace model;
using mc::str;
namespace py = exactreal::cppyy;
using Round = Arf::Round;

namespace {
template <typename R>
std::vector<Spec> specs(bool thorough) {
  std::vector<Spec> r;
  for (const Field* f : Ringed<R>::over()) {
    if (f && f != &fields()[0] && f != &fields()[1]) continue;
    std::vector<K> one, two;
    if (std::is_same_v<R, IntegerRing>) {
      one = alphabet({0, 1, -1, 2, -6});
      two = thorough ? alphabet({0, 1, 3, -2}) : alphabet({0, 3, -2});
    } else if (!f) {
      one = alphabet({0, 1, -1, Q(1, 2), Q(-4, 3)});
      two = thorough ? alphabet({0, 1, Q(-1, 2), Q(5, 3)}) : alphabet({0, 1, Q(-1, 2)});
    } else {
      one = {K(), K(1), K(f, {0, 1}), K(f, {-1, 1})};
      two = {K(), K(1), K(f, {Q(1, 2), -1})};
    }
    for (auto& g : std::vector<Gs>{{}, {rat(1)}, {mono(1)}, {mono(0, 1)}, {mono(1, 1)}, {rat(1), mono(1)}, {mono(1), mono(0, 1)}, {rat(1), mono(0, 1), mono(2)}}) {
      auto a = g.size() <= 1 ? one : two;
      if (g.size() == 3) a.resize(2);
      tuples(r, g, a, f);
    }
  }
  return r;
}
bool compatible(const Spec& a, const Spec& b) { return !a.f || !b.f || a.f == b.f; }
template <typename R>
bool holds(const Poly& q) {
  return q.all([](auto& k) { return Ringed<R>::holds(k); });
}

template <typename F>
auto attempt(F f) -> std::optional<decltype(f())> {
  try {
    return f();
  } catch (const std::exception&) {
    return std::nullopt;
  }
}

template <typename R, typename T>
void scalar(mc::Ctx& c, const Env& env, const Spec& s, const Element<R>& x, const T& t, const K& k, const std::string& what) {
  const Poly p = s.poly();
  auto fits = [&](const K& f) {
    for (auto& co : s.co)
      if (!Ringed<R>::holds(co * f)) return false;
    return true;
  };
  auto l = attempt([&] { return py::mul(x, t); });
  auto r = attempt([&] { return py::mul(t, x); });
  bool ok = fits(k);
  c.check(l.has_value() == ok && r.has_value() == ok, [&] { return str("mul with ", what, ok ? " throws" : " does not throw"); });
  if (ok) c.check(env.read(*l) == p * Poly(k) && env.read(*r) == p * Poly(k), [&] { return str("mul with ", what, " is ", env.read(*l).s(), " and ", env.read(*r).s()); });
  auto q = attempt([&] { return py::truediv(x, t); });
  if (!s.co.empty()) {
    ok = !k.zero() && fits(k.inverse());
    c.check(q.has_value() == ok, [&] { return str("truediv by ", what, ok ? " throws" : " does not throw"); });
    if (ok) c.check(env.read(*q) == p * Poly(k.inverse()), [&] { return str("truediv by ", what, " is ", env.read(*q).s()); });
  }
  c.check(env.read(x) == p, "an operand changed");
}

template <typename R>
void elements(mc::Ctx& c) {
  auto all = specs<R>(c.thorough);
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s()); }, [&] {
      Env env(5);
      const auto x = s.template make<R>(env);
      const auto module = x.module();
      const Poly p = s.poly();
      auto is = [&](const Element<R>& got, const Poly& want, const char* op, const std::string& o) {
        c.check(env.read(got) == want, [&] { return str(op, " with ", o, " is ", env.read(got).s(), " but should be ", want.s()); });
      };
      static_assert(std::is_same_v<decltype(py::neg(x)), Element<R>> && std::is_same_v<decltype(py::truediv(x, x)), std::optional<Element<R>>>);
      is(py::neg(x), -p, "neg", "it");
      {
        auto q = py::optional_rational(x);
        auto z = py::optional_integer(x);
        c.check(q.has_value() == p.rational() && (!q || *q == p.value().q()), [&] { return str("optional_rational is ", q ? q->get_str() : "nothing"); });
        bool integer = p.rational() && p.value().q().get_den() == 1;
        c.check(z.has_value() == integer && (!z || *z == p.value().q().get_num()), [&] { return str("optional_integer is ", z ? z->get_str() : "nothing"); });
        c.outcome(z ? "integer" : q ? "rational" : "neither");
      }
      for (auto& o : all) {
        if (!compatible(s, o)) continue;
        const auto y = o.template make<R>(env);
        const Poly q = o.poly();
        is(py::add(x, y), p + q, "add", o.s());
        is(py::sub(x, y), p - q, "sub", o.s());
        is(py::mul(x, y), p * q, "mul", o.s());
        if (q.zero()) {
          bool thrown = false;
          try {
            py::truediv(x, y);
          } catch (const std::exception&) {
            thrown = true;
          }
          c.check(thrown, [&] { return str("truediv by ", o.s(), " does not throw"); });
        } else {
          auto got = py::truediv(x, y);
          auto want = p.divide(q);
          if (want && !holds<R>(*want)) want = std::nullopt;
          c.check(got.has_value() == want.has_value() && (!got || env.read(*got) == *want), [&] { return str("truediv by ", o.s(), " is ", got ? env.read(*got).s() : "nothing", " but should be ", want ? want->s() : "nothing"); });
        }
        c.check(env.read(x) == p && env.read(y) == q && x.module() == module, "an operand changed");
        c.state(str(p.s(), "|", q.s()));
      }
      for (auto& g : env.gens) {
        is(py::mul(x, *g), p * Poly(env.gen(*g).e, K(1)), "mul", "a generator");
        is(py::mul(*g, x), p * Poly(env.gen(*g).e, K(1)), "mul from the left", "a generator");
      }
      for (int i : {0, 1, -1, 2, 3, -7, INT_MAX, INT_MIN}) {
        scalar<R>(c, env, s, x, i, K(Q(i)), str("int ", i));
        scalar<R>(c, env, s, x, static_cast<short>(i), K(Q(static_cast<short>(i))), str("short ", static_cast<short>(i)));
        scalar<R>(c, env, s, x, static_cast<unsigned>(i), K(Q(static_cast<unsigned>(i))), str("unsigned ", static_cast<unsigned>(i)));
        scalar<R>(c, env, s, x, static_cast<long>(i) * 5, K(Q(static_cast<long>(i) * 5)), str("long ", static_cast<long>(i) * 5));
        scalar<R>(c, env, s, x, static_cast<unsigned long>(i), K(Q(static_cast<unsigned long>(i))), str("unsigned long ", static_cast<unsigned long>(i)));
        scalar<R>(c, env, s, x, mpz_class(Z(i) * Z("123456789012345678901")), K(Q(Z(i) * Z("123456789012345678901"))), str("mpz ", i));
        scalar<R>(c, env, s, x, mpq_class(i, 1), K(Q(i)), str("mpq ", i));
        Q q(i, 6);
        q.canonicalize();
        scalar<R>(c, env, s, x, mpq_class(q), K(q), str("mpq ", q));
      }
    });
}

// Serialization with the archives the bindings use
template <typename A, typename B, typename T>
std::string roundtrip(const T& x, T& y) {
  auto text = py::serialize<T, A>(x);
  y = py::deserialize<T, B>(text);
  return text;
}
template <typename R, typename A, typename B>
void serialization(mc::Ctx& c) {
  for (auto& s : specs<R>(c.thorough))
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s()); }, [&] {
      Env env(5);
      const auto x = s.template make<R>(env);
      Element<R> y;
      auto text = roundtrip<A, B>(x, y);
      c.check(env.read(x) == s.poly(), "serializing changes the element");
      c.check(y == x && y.module() == x.module() && y.coefficients() == x.coefficients(), [&] { return str("comes back as ", env.read(y).s()); });
      c.check(py::serialize<Element<R>, A>(x) == text, "serializing again gives another text");
      std::shared_ptr<const Module<R>> m;
      roundtrip<A, B>(x.module(), m);
      c.check(m == x.module(), "the module is another one");
      for (auto& g : x.module()->basis()) {
        P b;
        roundtrip<A, B>(P(g), b);
        c.check(b && *b == *g, "a generator is another one");
        if (!static_cast<std::optional<mpq_class>>(*g)) c.check(b == g, "a generator is another object");
      }
      c.state(text);
    });
}

// Expressions
template <typename X>
X from(const ref::V& v);
template <>
Arf from<Arf>(const ref::V& v) {
  Arf x;
  ref::to_arf(x.arf_t(), v);
  return x;
}
std::vector<ref::V> floats(bool thorough) {
  using ref::V;
  std::vector<V> r{V(), V(1, 0), V(-3, 0), V(5, -3), V(-7, 6), V(ref::pow2z(60) + 1, -30), V(3, 100)};
  if (thorough) r.insert(r.end(), {V(-ref::pow2z(64) + 1, 0), V(11, -11), V(-1, -100), V(V::PINF), V(V::NINF)});
  return r;
}
const Round rounds[] = {Round::NEAR, Round::DOWN, Round::UP, Round::FLOOR, Round::CEIL};
}  // namespace

MC_SUITE(elements_integers) { elements<IntegerRing>(c); }
MC_SUITE(elements_rationals) { elements<RationalField>(c); }
MC_SUITE(elements_number_fields) { elements<NumberField>(c); }
MC_SUITE(serialize_integers) { serialization<IntegerRing, cereal::JSONOutputArchive, cereal::JSONInputArchive>(c); }
MC_SUITE(serialize_rationals) { serialization<RationalField, cereal::JSONOutputArchive, cereal::JSONInputArchive>(c); }
MC_SUITE(serialize_number_fields) { serialization<NumberField, cereal::JSONOutputArchive, cereal::JSONInputArchive>(c); }
MC_SUITE(serialize_binary) { serialization<RationalField, cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>(c); }

MC_SUITE(arf_expressions) {
  using namespace ref;
  auto vs = floats(c.thorough);
  for (auto& vx : vs)
    for (auto& vy : vs)
      c.leaf([&] { return str("x = ", vx.s(), ", y = ", vy.s()); }, [&] {
        for (long p : {2L, 3L, 24L, 53L, 200L})
          for (auto r : rounds) {
            Rnd n = r == Round::NEAR ? NEAR : r == Round::DOWN ? DOWN : r == Round::UP ? UP : r == Round::FLOOR ? FLOOR : CEIL;
            const Arf x = from<Arf>(vx), y = from<Arf>(vy);
            auto is = [&](const Arf& got, const V& want, const char* what) {
              c.check(val(got) == want, [&] { return str(what, " with ", p, " bits, rounding ", static_cast<int>(r), " is ", val(got).s(), " but should be ", want.s()); });
              c.state(want.s());
            };
            is(py::eval(py::add(x, y), p, r), add(vx, vy, p, n), "x + y");
            is(py::eval(py::sub(x, y), p, r), sub(vx, vy, p, n), "x - y");
            is(py::eval(py::mul(x, y), p, r), mul(vx, vy, p, n), "x * y");
            is(py::eval(py::truediv(x, y), p, r), div(vx, vy, p, n), "x / y");
            is(py::eval(py::sub(py::mul(x, y), x), p, r), sub(mul(vx, vy, p, n), vx, p, n), "x * y - x");
            is(py::eval(py::sub(x, py::mul(x, y)), p, r), sub(vx, mul(vx, vy, p, n), p, n), "x - x * y");
            is(py::eval(py::truediv(py::add(x, y), py::sub(x, y)), p, r), div(add(vx, vy, p, n), sub(vx, vy, p, n), p, n), "(x + y)/(x - y)");
            is(py::eval(py::neg(py::sub(x, y)), p, r), neg(sub(vx, vy, p, n)), "-(x - y)");
            is(py::eval(py::sub(x, 3), p, r), sub(vx, V(3, 0), p, n), "x - 3");
            is(py::eval(py::truediv(-5L, y), p, r), div(V(-5, 0), vy, p, n), "-5 / y");
            is(py::eval(py::mul(x, 0.75), p, r), mul(vx, V(3, -2), p, n), "x * 0.75");
            is(py::neg(x), neg(vx), "-x");
            auto e = py::sub(x, y);
            is(py::eval(e, p, r), sub(vx, vy, p, n), "a stored x - y");
            is(py::eval(e, 77, Round::NEAR), sub(vx, vy, 77, NEAR), "a stored x - y, evaluated again");
            c.check(val(x) == vx && val(y) == vy, "an operand changed");
          }
      });
}

MC_SUITE(arb_expressions) {
  using ref::V;
  auto vs = floats(c.thorough);
  struct B {
    V m;
    long r;  // radius 2^r, or none for LONG_MIN
  };
  std::vector<B> bs;
  for (auto& v : vs)
    for (long r : {LONG_MIN, -4L}) bs.push_back({v, r});
  auto make = [](const B& b) {
    Arb x;
    ref::to_arf(arb_midref(x.arb_t()), b.m);
    if (b.r != LONG_MIN) mag_set_ui_2exp_si(arb_radref(x.arb_t()), 1, b.r);
    return x;
  };
  for (auto& bx : bs)
    for (auto& by : bs)
      c.leaf([&] { return str("x = ", ref::show(make(bx).arb_t()), ", y = ", ref::show(make(by).arb_t())); }, [&] {
        for (long p : {2L, 5L, 24L, 64L, 200L}) {
          const Arb x = make(bx), y = make(by);
          Arb want, t, three(3), five(-5);
          auto is = [&](const Arb& got, const char* what) {
            // as narrow as the step by step evaluation, and at the same place
            bool same = !arb_is_finite(want.arb_t()) || (arb_overlaps(got.arb_t(), want.arb_t()) && mag_cmp(arb_radref(got.arb_t()), arb_radref(want.arb_t())) <= 0);
            c.check(same, [&] { return str(what, " with ", p, " bits is ", ref::show(got.arb_t()), " but should be ", ref::show(want.arb_t())); });
            c.state(ref::show(want.arb_t()));
          };
          auto *X = x.arb_t(), *Y = y.arb_t();
          arb_add(want.arb_t(), X, Y, p);
          is(py::eval(py::add(x, y), p), "x + y");
          arb_sub(want.arb_t(), X, Y, p);
          is(py::eval(py::sub(x, y), p), "x - y");
          arb_neg(want.arb_t(), want.arb_t());
          is(py::eval(py::neg(py::sub(x, y)), p), "-(x - y)");
          arb_mul(want.arb_t(), X, Y, p);
          is(py::eval(py::mul(x, y), p), "x * y");
          arb_sub(want.arb_t(), X, want.arb_t(), p);
          is(py::eval(py::sub(x, py::mul(x, y)), p), "x - x * y");
          arb_div(want.arb_t(), X, Y, p);
          is(py::eval(py::truediv(x, y), p), "x / y");
          arb_add(want.arb_t(), X, Y, p);
          arb_sub(t.arb_t(), X, Y, p);
          arb_div(want.arb_t(), want.arb_t(), t.arb_t(), p);
          is(py::eval(py::truediv(py::add(x, y), py::sub(x, y)), p), "(x + y)/(x - y)");
          arb_sub(want.arb_t(), X, three.arb_t(), p);
          is(py::eval(py::sub(x, 3), p), "x - 3");
          arb_div(want.arb_t(), five.arb_t(), Y, p);
          is(py::eval(py::truediv(-5L, y), p), "-5 / y");
          arb_neg(want.arb_t(), X);
          is(py::neg(x), "-x");
          auto e = py::sub(x, y);
          arb_sub(want.arb_t(), X, Y, p);
          is(py::eval(e, p), "a stored x - y");
          arb_sub(want.arb_t(), X, Y, 77);
          is(py::eval(e, 77), "a stored x - y, evaluated again");
          Arb x0 = make(bx), y0 = make(by);
          c.check(arb_equal(x.arb_t(), x0.arb_t()) && arb_equal(y.arb_t(), y0.arb_t()), "an operand changed");
        }
      });
}

// Expressions with machine numbers on either side
template <typename T>
std::vector<T> extremes() {
  if constexpr (std::is_floating_point_v<T>)
    return {0., 1., -3., 0.1, 5e-324, -2.5e-310, 1.7e308, 9007199254740993., -0x1p63, HUGE_VAL, -HUGE_VAL};
  else {
    using L = std::numeric_limits<T>;
    std::set<T> r{0, 1, static_cast<T>(2), static_cast<T>(7), L::max(), static_cast<T>(L::max() - 1), L::min(), static_cast<T>(L::min() + 1), static_cast<T>(L::max() / 2), static_cast<T>(L::max() / 2 + 1)};
    if constexpr (std::is_signed_v<T>) r.insert({static_cast<T>(-1), static_cast<T>(-2), static_cast<T>(-100)});
    if constexpr (sizeof(T) == 8) r.insert({static_cast<T>((1ul << 53) + 1), static_cast<T>(1ul << 32), static_cast<T>((1ul << 62) + 1), static_cast<T>((1ul << 61) - 1)});
    return {r.begin(), r.end()};
  }
}
template <typename T>
ref::V exactly(T t) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isinf(t)) return ref::V(t > 0 ? ref::V::PINF : ref::V::NINF);
    return ref::of_q(Q(t));
  } else
    return ref::of_q(Q(Z(std::to_string(t))));
}
template <typename T>
void arf_scalars(mc::Ctx& c, const char* name) {
  using namespace ref;
  for (auto& vx : floats(true))
    for (T t : extremes<T>())
      c.leaf([&] { return str("x = ", vx.s(), " and the ", name, " ", t); }, [&] {
        const V vt = exactly(t);
        for (long p : {2L, 3L, 24L, 53L, 64L, 200L})
          for (auto r : rounds) {
            Rnd n = r == Round::NEAR ? NEAR : r == Round::DOWN ? DOWN : r == Round::UP ? UP : r == Round::FLOOR ? FLOOR : CEIL;
            const Arf x = from<Arf>(vx);
            auto is = [&](const Arf& got, const V& want, const char* what) { c.check(val(got) == want, [&] { return str(what, " with ", p, " bits, rounding ", static_cast<int>(r), " is ", val(got).s(), " but should be ", want.s()); }); };
            is(py::eval(py::add(x, t), p, r), add(vx, vt, p, n), "x + t");
            is(py::eval(py::add(t, x), p, r), add(vt, vx, p, n), "t + x");
            is(py::eval(py::sub(x, t), p, r), sub(vx, vt, p, n), "x - t");
            is(py::eval(py::sub(t, x), p, r), sub(vt, vx, p, n), "t - x");
            is(py::eval(py::mul(x, t), p, r), mul(vx, vt, p, n), "x * t");
            is(py::eval(py::mul(t, x), p, r), mul(vt, vx, p, n), "t * x");
            is(py::eval(py::truediv(x, t), p, r), div(vx, vt, p, n), "x / t");
            is(py::eval(py::truediv(t, x), p, r), div(vt, vx, p, n), "t / x");
            is(py::eval(py::sub(py::mul(t, x), t), p, r), sub(mul(vt, vx, p, n), vt, p, n), "t * x - t");
            is(py::eval(py::truediv(py::sub(x, t), py::add(t, x)), p, r), div(sub(vx, vt, p, n), add(vt, vx, p, n), p, n), "(x - t)/(t + x)");
            is(py::eval(py::neg(py::sub(t, x)), p, r), neg(sub(vt, vx, p, n)), "-(t - x)");
            c.check(val(x) == vx, "an operand changed");
          }
        c.state(str(vx.s(), t, name));
      });
}
template <typename T>
void arb_scalars(mc::Ctx& c, const char* name) {
  using ref::V;
  for (auto& vx : floats(true))
    for (long radius : {LONG_MIN, -4L, 5L})
      for (T t : extremes<T>())
        c.leaf([&] { return str("x = ", vx.s(), " with radius 2^", radius, " and the ", name, " ", t); }, [&] {
          auto make = [&] {
            Arb x;
            ref::to_arf(arb_midref(x.arb_t()), vx);
            if (radius != LONG_MIN) mag_set_ui_2exp_si(arb_radref(x.arb_t()), 1, radius);
            return x;
          };
          const Arb x = make();
          Arb s, want, other;
          ref::to_arf(arb_midref(s.arb_t()), exactly(t));
          const auto* X = x.arb_t();
          const auto* S = s.arb_t();
          for (long p : {2L, 5L, 24L, 64L, 200L}) {
            auto is = [&](const Arb& got, const char* what) {
              bool same = !arb_is_finite(want.arb_t()) || (arb_overlaps(got.arb_t(), want.arb_t()) && mag_cmp(arb_radref(got.arb_t()), arb_radref(want.arb_t())) <= 0);
              c.check(same, [&] { return str(what, " with ", p, " bits is ", ref::show(got.arb_t()), " but should be ", ref::show(want.arb_t())); });
            };
            arb_add(want.arb_t(), X, S, p);
            is(py::eval(py::add(x, t), p), "x + t");
            arb_add(want.arb_t(), S, X, p);
            is(py::eval(py::add(t, x), p), "t + x");
            arb_sub(want.arb_t(), X, S, p);
            is(py::eval(py::sub(x, t), p), "x - t");
            arb_sub(want.arb_t(), S, X, p);
            is(py::eval(py::sub(t, x), p), "t - x");
            arb_neg(want.arb_t(), want.arb_t());
            is(py::eval(py::neg(py::sub(t, x)), p), "-(t - x)");
            arb_mul(want.arb_t(), X, S, p);
            is(py::eval(py::mul(x, t), p), "x * t");
            arb_mul(want.arb_t(), S, X, p);
            is(py::eval(py::mul(t, x), p), "t * x");
            arb_sub(want.arb_t(), want.arb_t(), S, p);
            is(py::eval(py::sub(py::mul(t, x), t), p), "t * x - t");
            arb_div(want.arb_t(), X, S, p);
            is(py::eval(py::truediv(x, t), p), "x / t");
            arb_div(want.arb_t(), S, X, p);
            is(py::eval(py::truediv(t, x), p), "t / x");
            arb_sub(want.arb_t(), X, S, p);
            arb_add(other.arb_t(), S, X, p);
            arb_div(want.arb_t(), want.arb_t(), other.arb_t(), p);
            is(py::eval(py::truediv(py::sub(x, t), py::add(t, x)), p), "(x - t)/(t + x)");
          }
          c.check(arb_equal(x.arb_t(), make().arb_t()), "an operand changed");
          c.state(str(vx.s(), radius, t, name));
        });
}
MC_SUITE(arf_scalars) {
  arf_scalars<int>(c, "int");
  arf_scalars<long>(c, "long");
  arf_scalars<double>(c, "double");
}
MC_SUITE(arb_scalars) {
  arb_scalars<int>(c, "int");
  arb_scalars<long>(c, "long");
  arb_scalars<unsigned long>(c, "unsigned long");
  arb_scalars<double>(c, "double");
}

// Products and quotients of real numbers
MC_SUITE(real_numbers) {
  std::vector<Gen> gs{mono(1), mono(0, 1), mono(1, 1), mono(2), mono(0, 1, 1), mono(2, 1), rat(1), rat(Q(2, 3)), rat(-4)};
  for (auto& g : gs)
    for (auto& h : gs)
      c.leaf([&] { return str(g.s(), " and ", h.s()); }, [&] {
        Env env;
        P x = env.real(g), y = env.real(h);
        // products with rationals that are not 1 are not implemented, nor are divisions by them
        if ((g.rational() && g.r != 1 && !h.rational()) || (h.rational() && h.r != 1 && !g.rational())) {
          c.outcome("not supported");
          return;
        }
        auto xy = py::mul(*x, *y);
        c.check(xy == *x * *y || *xy == *(*x * *y), "mul");
        Gen want;
        for (size_t i = 0; i < GENS; i++) want.e[i] = g.e[i] + h.e[i];
        want.r = g.r * h.r;
        c.check(env.gen(*xy) == want, [&] { return str("mul is ", env.gen(*xy).s()); });
        if (h.rational() && h.r != 1) {
          c.outcome("no division");
          return;
        }
        auto q = py::truediv(*x, *y);
        bool divides = true;
        for (size_t i = 0; i < GENS; i++) {
          want.e[i] = g.e[i] - h.e[i];
          divides = divides && want.e[i] >= 0;
        }
        want.r = g.r / h.r;
        c.check(q.has_value() == divides && (!q || env.gen(**q) == want), [&] { return str("truediv is ", q ? env.gen(**q).s() : "nothing"); });
        c.outcome(q ? "quotient" : "none");
        c.state(g.s() + h.s());
      });
}

MC_MAIN
