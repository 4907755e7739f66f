// The balls exactreal::Arb against exact rational intervals.
#include "mc.hpp"
#include "ref.hpp"
#include "algebraic.hpp"

#include <exact-real/arb.hpp>
#include <exact-real/arf.hpp>
#include <exact-real/yap/arb.hpp>
#include <e-antic/renfxx.h>

#include <iomanip>

using namespace ref;
using exactreal::Arb;
using exactreal::Arf;
using mc::str;

namespace {
V val(const ::arf_t x) { return of_arf(x); }
V val(const Arf& x) { return of_arf(x.arf_t()); }

// A ball by the exact values of its midpoint and its radius.
struct B {
  V mid;
  Q rad = 0;
  bool infrad = false;
  std::string s() const { return str("[", mid.s(), " +/- ", infrad ? std::string("inf") : rad.get_str(), "]"); }
};
Arb make(const B& b) {
  Arb x;
  to_arf(arb_midref(x.arb_t()), b.mid);
  if (b.infrad)
    mag_inf(arb_radref(x.arb_t()));
  else {
    V r = of_q(b.rad);
    mag_set_ui_2exp_si(arb_radref(x.arb_t()), r.m.get_ui(), r.e.get_si());
  }
  return x;
}
// The radius that a ball made from b really has (mag_t has 30 bits only.)
B actual(const Arb& x) {
  B b;
  b.mid = val(arb_midref(x.arb_t()));
  b.infrad = mag_is_inf(arb_radref(x.arb_t()));
  if (!b.infrad) b.rad = mag_q(arb_radref(x.arb_t()));
  return b;
}
bool sameball(const Arb& x, const B& b) {
  B a = actual(x);
  return a.mid == b.mid && a.infrad == b.infrad && a.rad == b.rad;
}

// Bounds in the extended reals.
struct X {
  int inf = 0;
  Q q;
  int cmp(const X& o) const {
    if (inf || o.inf) return (inf > o.inf) - (inf < o.inf);
    int c = ::cmp(q, o.q);
    return (c > 0) - (c < 0);
  }
};
struct XI {
  bool nan = false;
  X lo, hi;
};
XI bounds(const B& b) {
  XI r;
  if (b.mid.kind == V::NANV) {
    r.nan = true;
  } else if (b.infrad) {
    r.lo.inf = -1;
    r.hi.inf = 1;
  } else if (!b.mid.fin()) {
    r.lo.inf = r.hi.inf = b.mid.kind == V::PINF ? 1 : -1;
  } else {
    r.lo.q = b.mid.q() - b.rad;
    r.hi.q = b.mid.q() + b.rad;
  }
  return r;
}
using T = std::optional<bool>;
T t_lt(const XI& a, const XI& b) {
  if (a.nan || b.nan) return {};
  if (a.hi.cmp(b.lo) < 0) return true;
  if (a.lo.cmp(b.hi) >= 0) return false;
  return {};
}
T t_not(T t) { return t ? T(!*t) : T(); }
T t_eq(const XI& a, const XI& b) {
  if (a.nan || b.nan) return {};
  if (a.hi.cmp(b.lo) < 0 || b.hi.cmp(a.lo) < 0) return false;
  if (a.lo.cmp(a.hi) == 0 && b.lo.cmp(b.hi) == 0) return true;
  return {};
}
const char* show(T t) { return !t ? "unknown" : *t ? "true" : "false"; }

// Compare all operators of (x, y) with the model. `loose` is the comparison for
// slightly larger balls: when it is still decided, then so must be the operator.
template <typename L, typename R>
void check_tri(mc::Ctx& c, const L& x, const R& y, const XI& a, const XI& b, const XI& looser) {
  auto one = [&](const char* op, T got, T sharp, T loose) {
    c.check(!got || got == sharp, [&] { return str("x ", op, " y is ", show(got), ", expected ", show(sharp)); });
    c.check(got || !loose, [&] { return str("x ", op, " y is unknown, expected ", show(loose)); });
    c.outcome(str(op, " ", show(got)));
  };
  one("<", x < y, t_lt(a, b), t_lt(looser, b));
  one(">", x > y, t_lt(b, a), t_lt(b, looser));
  one("<=", x <= y, t_not(t_lt(b, a)), t_not(t_lt(b, looser)));
  one(">=", x >= y, t_not(t_lt(a, b)), t_not(t_lt(looser, b)));
  one("==", x == y, t_eq(a, b), t_eq(looser, b));
  one("!=", x != y, t_not(t_eq(a, b)), t_not(t_eq(looser, b)));
}

std::vector<B> balls(bool deep) {
  std::vector<B> r;
  std::vector<V> mids{V()};
  for (long m = 1; m <= (deep ? 9 : 6); m++) mids.push_back(V(m, -1)), mids.push_back(V(-m, -1));
  for (auto& v : {V(pow2z(100) + 1, -100), V(pow2z(100) - 1, -100), V(-pow2z(100) - 1, -100), V(pow2z(64) + 1, 0), V(pow2z(64), 0), V(-pow2z(63), 0), V(1, -200), V(-1, -200), V(3, 300), V(pow2z(80) + 1, 0)}) mids.push_back(v);
  std::vector<Q> rads{0, Q(1, 2), 1, pow2(-30), pow2(-100), pow2(-200), pow2(40)};
  if (deep) rads.insert(rads.end(), {Q(3, 2), 2, Q(1, 4), pow2(70), pow2(-29) + pow2(-30), pow2(301)});
  for (auto& m : mids) {
    for (auto& q : rads) r.push_back({m, q, false});
    r.push_back({m, 0, true});
  }
  r.push_back({V(V::PINF), 0, false});
  r.push_back({V(V::NINF), 0, false});
  r.push_back({V(V::NANV), 0, false});
  r.push_back({V(V::NANV), 0, true});
  return r;
}

std::vector<Z> big_integers(bool deep) {
  std::vector<Z> r{0};
  for (int i = 1; i <= (deep ? 300 : 40); i++) r.push_back(i);
  for (unsigned k : {8u, 15u, 16u, 29u, 30u, 31u, 32u, 52u, 53u, 54u, 61u, 62u, 63u, 64u, 65u, 100u, 127u, 128u, 200u, 1000u})
    for (int d = -2; d <= 2; d++) r.push_back(pow2z(k) + d);
  r.push_back(Z("123456789012345678901234567890"));
  size_t n = r.size();
  for (size_t i = 1; i < n; i++) r.push_back(-r[i]);
  return r;
}

template <typename Int>
std::vector<Int> values_of() {
  using L = std::numeric_limits<Int>;
  std::vector<Int> r{0, 1, 2, 3, 5, 7, 10, 100, 1000, L::max(), static_cast<Int>(L::max() - 1), static_cast<Int>(L::max() / 2), static_cast<Int>(L::max() / 2 + 1), static_cast<Int>(L::max() / 2 + 2), static_cast<Int>(L::max() / 3), L::min(), static_cast<Int>(L::min() + 1), static_cast<Int>(-1), static_cast<Int>(-2), static_cast<Int>(-1000)};
  for (size_t k = 3; k < sizeof(Int) * 8 - 1; k++) r.push_back(static_cast<Int>(Int(1) << k)), r.push_back(static_cast<Int>((Int(1) << k) + 1)), r.push_back(static_cast<Int>((Int(1) << k) - 1));
  return r;
}
template <typename Int>
Z exact(Int v) {
  Z r;
  bool neg = v < 0;
  unsigned long long u = neg ? 0ull - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v);
  mpz_import(r.get_mpz_t(), 1, -1, sizeof u, 0, 0, &u);
  return neg ? Z(-r) : r;
}
template <typename F>
void for_integer_types(F&& f) {
  f(short(), "short");
  f((unsigned short)0, "unsigned short");
  f(int(), "int");
  f(unsigned(), "unsigned int");
  f(long(), "long");
  f((unsigned long)0, "unsigned long");
  f((long long)0, "long long");
  f((unsigned long long)0, "unsigned long long");
}

std::vector<Q> rationals(bool deep) {
  std::vector<Q> r;
  const int n = deep ? 40 : 16;
  for (int d = 1; d <= n; d++)
    for (int m = 0; m <= 2 * n; m++)
      if (std::__gcd(m, d) == 1 || (m == 0 && d == 1)) r.push_back(Q(m, d));
  for (auto& z : std::vector<Z>{pow2z(64) + 1, pow2z(64) - 1, pow2z(63), pow2z(128) + 1, Z("314159265358979323846264338327950288")})
    for (auto& d : std::vector<Z>{Z(1), Z(3), Z(7), pow2z(64) + 13, pow2z(65), Z("271828182845904523536028747135266")}) {
      Q q(z, d);
      q.canonicalize();
      r.push_back(q);
      r.push_back(1 / q);
    }
  size_t k = r.size();
  for (size_t i = 0; i < k; i++)
    if (r[i] != 0) r.push_back(-r[i]);
  return r;
}

void check_contains(mc::Ctx& c, const Arb& x, const Q& q, long prec) {
  c.check(ref::contains(x.arb_t(), q), [&] { return str("the ball ", ref::show(x.arb_t()), " does not contain ", q); });
  c.check(arb_is_finite(x.arb_t()) && mag_q(arb_radref(x.arb_t())) <= abs(q) * pow2(2 - prec), [&] { return str("the ball ", ref::show(x.arb_t()), " is too wide for precision ", prec); });
}
}  // namespace

MC_SUITE(construct_integers) {
  for_integer_types([&](auto t, const char* name) {
    using Int = decltype(t);
    for (Int v : values_of<Int>())
      c.leaf([&] { return str("Arb from the ", name, " ", exact(v)); }, [&] {
        B want{V(exact(v), 0), 0, false};
        Arb x(v);
        c.check(sameball(x, want), [&] { return str("is ", ref::show(x.arb_t())); });
        for (auto& before : {B{V(), 0, false}, B{V(3, -7), Q(1, 8), false}, B{V(V::NANV), 0, true}, B{V(pow2z(200) + 1, 0), pow2(100), false}}) {
          Arb y = make(before);
          Arb& r = (y = v);
          c.check(&r == &y && sameball(y, want), [&] { return str("assigned over ", before.s(), " is ", ref::show(y.arb_t())); });
        }
        c.state(str(name, exact(v)));
      });
  });
  for (auto& z : big_integers(c.thorough))
    c.leaf([&] { return str("Arb from the mpz ", z); }, [&] {
      B want{V(z, 0), 0, false};
      Z copy = z;
      Arb x(z);
      c.check(sameball(x, want), [&] { return str("is ", ref::show(x.arb_t())); });
      Arb y = make({V(3, -7), Q(1, 8), false});
      y = z;
      c.check(sameball(y, want), [&] { return str("assigned is ", ref::show(y.arb_t())); });
      c.check(copy == z, "the argument changed");
      c.state(z.get_str());
    });
}

MC_SUITE(assign_doubles) {
  std::vector<double> ds{0., -0., 1., -1., 0.375, -2.5, 0.1, 1e300, -1e-300, 5e-324, -5e-324, 1.7976931348623157e308, 4503599627370497.5, 9007199254740993., 18446744073709551616., -9223372036854775808., 3.14f, INFINITY, -INFINITY};
  for (int m = 1; m < (c.thorough ? 64 : 16); m++)
    for (int e = -12; e <= 12; e++) ds.insert(ds.end(), {std::ldexp(m, e), -std::ldexp(m, 80 * e)});
  for (double d : ds)
    c.leaf([&] { return str("Arb assigned from the double ", d); }, [&] {
      B want{std::isinf(d) ? V(d > 0 ? V::PINF : V::NINF) : of_q(of_double(d)), 0, false};
      for (auto& before : {B{V(), 0, false}, B{V(3, -7), Q(1, 8), false}, B{V(V::NANV), 0, true}}) {
        Arb y = make(before);
        Arb& r = (y = d);
        c.check(&r == &y && sameball(y, want), [&] { return str("assigned over ", before.s(), " is ", ref::show(y.arb_t())); });
      }
      c.state(want.s());
    });
}

MC_SUITE(construct_rationals) {
  for (auto& q : rationals(c.thorough))
    c.leaf([&] { return str("Arb from the rational ", q); }, [&] {
      Q copy = q;
      check_contains(c, Arb(q), q, 64);
      for (long p : {2L, 3L, 8L, 24L, 53L, 54L, 63L, 64L, 65L, 113L, 128L, 256L, 1000L}) {
        Arb x(q, p);
        check_contains(c, x, q, p);
        c.state(ref::show(x.arb_t()));
        if (mpz_sizeinbase(q.get_num_mpz_t(), 2) <= size_t(p) && mpz_popcount(q.get_den_mpz_t()) == 1) c.check(sameball(x, {of_q(q), 0, false}), [&] { return str("a dyadic rational is represented as ", ref::show(x.arb_t())); });
      }
      c.check(copy == q, "the argument changed");
    });
}

MC_SUITE(construct_number_field) {
  struct Field {
    const char *poly, *emb;
    std::vector<long> p;
    Q lo, hi;
  };
  const std::vector<Field> fields{{"a^2 - 2", "1.4 +/- 0.1", {-2, 0, 1}, 1, 2}, {"a^2 - 2", "-1.4 +/- 0.1", {-2, 0, 1}, -2, -1}, {"a^3 - 2", "1.26 +/- 0.1", {-2, 0, 0, 1}, 1, 2}, {"a^2 - a - 1", "1.6 +/- 0.1", {-1, -1, 1}, 1, 2}};
  const int n = c.thorough ? 5 : 3;
  for (auto& f : fields) {
    for (int a = -n; a <= n; a++)
      for (int b = -n; b <= n; b++)
        for (int e = -1; e <= 1; e++)
          for (int d : {1, 3, 64}) {
            if (f.p.size() == 3 && e) continue;
            c.leaf([&] { return str("(", a, " + ", b, "a + ", e, "a²)/", d, " in ", f.poly, " near ", f.emb); }, [&] {
              auto K = eantic::renf_class::make(f.poly, "a", f.emb);
              std::vector<mpq_class> co{Q(a, d), Q(b, d)};
              if (f.p.size() == 4) co.push_back(Q(e, d));
              for (auto& x : co) x.canonicalize();
              Algebraic alg(f.p, f.lo, f.hi);
              // the precision of earlier queries must not spoil later ones
              for (auto& ps : {std::vector<long>{0, 64, 8, 256, 32}, std::vector<long>{128, 0, 16}}) {
                eantic::renf_elem_class x(*K, co);
                for (long p : ps) {
                  Arb y = p ? Arb(x, p) : Arb(x);
                  c.check(arb_is_finite(y.arb_t()), "not finite");
                  auto i = interval(y.arb_t());
                  c.check(alg.sign(co, i.lo) >= 0 && alg.sign(co, i.hi) <= 0, [&] { return str("at precision ", p, " the ball ", ref::show(y.arb_t()), " does not contain the element"); });
                  long q = p ? p : 64;
                  // prec is the precision of the evaluation, cancellation may lose some of it
                  Q mag;
                  for (auto& x : co) mag += 2 * abs(x);
                  c.check(i.hi - i.lo <= mag * pow2(6 - q), [&] { return str("at precision ", p, " the ball ", ref::show(y.arb_t()), " is too wide"); });
                  c.state(ref::show(y.arb_t()));
                }
              }
            });
          }
  }
}

MC_SUITE(construct_interval) {
  std::vector<V> vs{V()};
  for (long m : {1L, 3L, 5L})
    for (long e : {-60L, -2L, -1L, 0L, 1L, 70L}) vs.push_back(V(m, e)), vs.push_back(V(-m, e));
  for (auto& v : {V(pow2z(64) + 1, -64), V(pow2z(64) - 1, -64), V(pow2z(200) + 1, -200)}) vs.push_back(v), vs.push_back(neg(v));
  if (c.thorough)
    for (long m = 1; m < 32; m += 2)
      for (long e = -5; e <= 3; e++) vs.push_back(V(m, e)), vs.push_back(V(-m, e));
  vs.push_back(V(V::PINF));
  vs.push_back(V(V::NINF));
  for (auto& a : vs)
    for (auto& b : vs) {
      if (cmpv(a, b) > 0) continue;
      c.leaf([&] { return str("Arb from the bounds ", a.s(), ", ", b.s()); }, [&] {
        Arf x, y;
        to_arf(x.arf_t(), a);
        to_arf(y.arf_t(), b);
        for (long p : {ARF_PREC_EXACT + 0L, 2L, 10L, 30L, 53L, 64L, 128L}) {
          Arb z = p == ARF_PREC_EXACT ? Arb(std::pair{x, y}) : Arb(std::pair{x, y}, p);
          XI i = bounds(actual(z));
          if (a.fin() && b.fin()) {
            c.check(!i.nan && (i.lo.inf < 0 || i.lo.q <= a.q()) && (i.hi.inf > 0 || i.hi.q >= b.q()), [&] { return str("the ball ", ref::show(z.arb_t()), " with precision ", p, " is too small"); });
            c.check(arb_is_finite(z.arb_t()), "not finite");
            Q r = mag_q(arb_radref(z.arb_t())), m = std::max(abs(a.q()), abs(b.q()));
            c.check(r <= (b.q() - a.q()) / 2 * (1 + pow2(-20)) + (p == ARF_PREC_EXACT ? Q(0) : Q(m * pow2(2 - p))), [&] { return str("the ball ", ref::show(z.arb_t()), " with precision ", p, " is too wide"); });
            if (a == b && p == ARF_PREC_EXACT) c.check(sameball(z, {a, 0, false}), "a single point is not exact");
          } else {
            c.check(i.nan || ((a.fin() ? i.lo.inf < 0 || i.lo.q <= a.q() : i.lo.inf == (a.kind == V::PINF ? 1 : -1)) && (b.fin() ? i.hi.inf > 0 || i.hi.q >= b.q() : i.hi.inf == (b.kind == V::PINF ? 1 : -1))), [&] { return str("the ball ", ref::show(z.arb_t()), " is too small"); });
          }
          c.check(val(x) == a && val(y) == b, "an argument changed");
          c.state(ref::show(z.arb_t()));
        }
      });
    }
}

MC_SUITE(construct_string) {
  // decimal strings, exactly representable or not
  std::vector<std::pair<std::string, Q>> ms;
  for (int m : {0, 1, 3, 7, 10, 125, 333, 1024, 99999})
    for (int d : {0, 1, 2, 5, 12})
      for (int s : {1, -1}) {
        Z ten;
        mpz_ui_pow_ui(ten.get_mpz_t(), 10, d);
        Q q(Z(s * m), ten);
        q.canonicalize();
        ms.push_back({str(s * m, "e-", d), q});
        ms.push_back({str(s * m, "e", d), Q(Z(s * m) * ten)});
        if (d == 0) ms.push_back({str(s * m), Q(s * m)});
      }
  // every way to write a number
  for (auto whole : {"", "0", "1", "7", "00", "012", "16777217", "9007199254740993", "123456789012345678901234567890"})
    for (auto frac : {"", "0", "1", "5", "25", "3", "007", "000001", "1234567", "0000000000000000000000000000001"})
      for (auto sign : {"", "-", "+"})
        for (auto exp : {"", "e0", "e3", "E3", "e-3", "e+2", "e-20", "e400"}) {
          const std::string w = whole, f = frac, e = exp;
          if (w.empty() || (c.thorough ? false : e.size() > 2 && w.size() > 3 && f.size() > 3)) continue;
          long k = e.empty() ? 0 : std::stol(e.substr(1));
          k -= static_cast<long>(f.size());
          Z ten;
          mpz_ui_pow_ui(ten.get_mpz_t(), 10, static_cast<unsigned long>(std::abs(k)));
          Q q = k < 0 ? Q(Z(w + f, 10), ten) : Q(Z(w + f, 10) * ten);
          q.canonicalize();
          if (*sign == '-') q = -q;
          ms.push_back({sign + w + (f.empty() ? "" : "." + f) + e, q});
        }
  ms.push_back({"3.25", Q(13, 4)});
  ms.push_back({"-0.001", Q(-1, 1000)});
  ms.push_back({std::string(300, '7'), Q(Z(std::string(300, '7')))});
  for (auto& m : ms)
    for (int r : {-1, 0, 1, 5, 1000})
      for (int d : {0, 4, 30})
        for (long p : {2L, 10L, 24L, 53L, 54L, 64L, 256L}) {
          if (r < 0 && d) continue;
          std::string s = r < 0 ? m.first : str("[", m.first, " +/- ", r, "e-", d, "]");
          c.leaf([&] { return str("Arb(\"", s, "\", ", p, ")"); }, [&] {
            Arb x(s, p);
            Z ten;
            mpz_ui_pow_ui(ten.get_mpz_t(), 10, d);
            Q rad(r < 0 ? Z(0) : Z(r), ten);
            rad.canonicalize();
            auto i = interval(x.arb_t());
            c.check(arb_is_finite(x.arb_t()) && i.lo <= m.second - rad && i.hi >= m.second + rad, [&] { return str("the ball ", ref::show(x.arb_t()), " is too small"); });
            c.check(mag_q(arb_radref(x.arb_t())) <= rad * 2 + abs(m.second) * pow2(2 - p), [&] { return str("the ball ", ref::show(x.arb_t()), " is too wide"); });
            c.state(ref::show(x.arb_t()));
          });
        }
}

MC_SUITE(constants) {
  auto check = [&](const char* n, Arb x, bool ok) {
    c.leaf([&] { return n; }, [&] { c.check(ok, [&] { return ref::show(x.arb_t()); }); });
  };
  check("Arb()", Arb(), sameball(Arb(), {V(), 0, false}));
  check("zero", Arb::zero(), sameball(Arb::zero(), {V(), 0, false}));
  check("one", Arb::one(), sameball(Arb::one(), {V(1, 0), 0, false}));
  check("pos_inf", Arb::pos_inf(), sameball(Arb::pos_inf(), {V(V::PINF), 0, false}));
  check("neg_inf", Arb::neg_inf(), sameball(Arb::neg_inf(), {V(V::NINF), 0, false}));
  check("zero_pm_inf", Arb::zero_pm_inf(), sameball(Arb::zero_pm_inf(), {V(), 0, true}));
  check("zero_pm_one", Arb::zero_pm_one(), sameball(Arb::zero_pm_one(), {V(), 1, false}));
  check("indeterminate", Arb::indeterminate(), sameball(Arb::indeterminate(), {V(V::NANV), 0, true}));
  check("unit_interval", Arb::unit_interval(), sameball(Arb::unit_interval(), {V(1, -1), Q(1, 2), false}));
}

// What a ball reports about itself is what it is.
// The same balls as arb_randtest and arb_randtest_exact make from the same state.
MC_SUITE(random) {
  for (long prec : {2, 3, 10, 53, 64, 65, 300})
    for (long magbits : {1, 2, 10, 62, 64, 100})
      for (ulong seed = 0; seed < (c.thorough ? 64 : 8); seed++)
        c.leaf([&] { return str("randtest(", prec, ", ", magbits, ") from the state ", seed); }, [&] {
          flint_rand_t a, b;
          flint_randinit(a), flint_randinit(b);
          flint_randseed(a, seed, seed + 1), flint_randseed(b, seed, seed + 1);
          for (int i = 0; i < 40; i++) {
            const bool exact = i % 3 == 1;
            Arb x = exact ? Arb::randtest_exact(a, prec, magbits) : Arb::randtest(a, prec, magbits);
            ::arb_t y;
            arb_init(y);
            if (exact)
              arb_randtest_exact(y, b, prec, magbits);
            else
              arb_randtest(y, b, prec, magbits);
            c.check(arb_equal(x.arb_t(), y), [&] { return str("the ball ", i, " is another one: ", x); });
            c.check(!exact || x.is_exact(), "not exact");
            arb_clear(y);
            c.state(str(prec, magbits, seed, i, x));
          }
          flint_randclear(a), flint_randclear(b);
        });
}

MC_SUITE(observers) {
  auto bs = balls(true);
  for (auto& v : {V((pow2z(53) - 1) * 4 + 1, -10), V((pow2z(53) - 1) * 4 + 2, -10), V((pow2z(53) - 1) * 4 + 3, -10), V((pow2z(52) + 1) * 2 + 1, 3), V(1, -1075), V(3, -1076), V(pow2z(60) - 1, 970), V(1, 1024), V(-1, 5000)})
    for (auto& r : std::vector<Q>{Q(0), pow2(-70), Q(3)}) bs.push_back({v, r, false});
  for (auto& b0 : bs)
    c.leaf([&] { return b0.s(); }, [&] {
      const Arb x = make(b0);
      const B b = actual(x);
      c.check(x.is_exact() == (!b.infrad && b.rad == 0), "is_exact is wrong");
      c.check(x.is_finite() == (!b.infrad && b.mid.fin()), "is_finite is wrong");
      double d = static_cast<double>(x), e = nearest_double(b.mid);
      c.check(d == e || (std::isnan(d) && std::isnan(e)), [&] { return str("cast to double is ", d, ", expected ", e); });
      c.check(val(static_cast<Arf>(x)) == b.mid, "cast to Arf is not the midpoint");
      c.check(val(static_cast<Arf>(x).arf_t()) == b.mid, "cast to Arf is not the midpoint");
      auto i = static_cast<std::pair<Arf, Arf>>(x);
      V lo = val(i.first), hi = val(i.second);
      XI w = bounds(b);
      if (!w.nan) {
        auto ext = [](const V& v) {
          X r;
          if (v.fin()) r.q = v.q();
          r.inf = v.kind == V::PINF ? 1 : v.kind == V::NINF ? -1 : 0;
          return r;
        };
        c.check(lo.kind != V::NANV && hi.kind != V::NANV, [&] { return str("bounds are ", lo.s(), ", ", hi.s()); });
        c.check(ext(lo).cmp(w.lo) <= 0 && ext(hi).cmp(w.hi) >= 0, [&] { return str("bounds ", lo.s(), ", ", hi.s(), " do not contain the ball"); });
        if (x.is_finite()) c.check(lo.fin() && hi.fin(), [&] { return str("bounds ", lo.s(), ", ", hi.s(), " of a finite ball"); });
        if (x.is_exact()) c.check(lo == b.mid && hi == b.mid, [&] { return str("bounds ", lo.s(), ", ", hi.s(), " of an exact ball"); });
      }
      Arb n = -x;
      B nb = b;
      nb.mid = neg(b.mid);
      c.check(sameball(n, nb), [&] { return str("negated it is ", ref::show(n.arb_t())); });
      c.check(x.equal(x) && x.equal(Arb(x)), "not equal() to its copy");
      c.check(sameball(x, b), "an observer changed the ball");
      if (b.mid.kind != V::NANV) {
        Arf m = static_cast<Arf>(x);
        Arb y(m);
        c.check(sameball(y, {b.mid, 0, false}), "ball from the midpoint is not exact");
        c.check(y.equal(x) == (b.rad == 0 && !b.infrad), "equal() is wrong for the midpoint");
      }
      c.state(b.s());
    });
}

MC_SUITE(compare_balls) {
  auto bs = balls(c.thorough);
  for (auto& p : bs)
    for (auto& q : bs)
      c.leaf([&] { return str("x = ", p.s(), ", y = ", q.s()); }, [&] {
        Arb x = make(p), y = make(q);
        B a = actual(x), b = actual(y);
        check_tri(c, x, y, bounds(a), bounds(b), bounds(a));
        c.check(x.equal(y) == (a.mid == b.mid && a.infrad == b.infrad && a.rad == b.rad && (a.mid.kind != V::NANV || true)), "equal() is wrong");
        if (&p == &q) check_tri(c, x, x, bounds(a), bounds(a), bounds(a));
        c.check(sameball(x, a) && sameball(y, b), "an operand changed");
        c.state(a.s() + b.s());
      });
}

MC_SUITE(compare_integers) {
  for_integer_types([&](auto t, const char* name) {
    using Int = decltype(t);
    for (Int v : values_of<Int>()) {
      Z z = exact(v);
      std::vector<B> bs{{V(V::PINF), 0, false}, {V(V::NINF), 0, false}, {V(), 0, true}, {V(V::NANV), 0, true}, {V(), 1, false}, {V(), pow2(70), false}};
      for (auto& m : std::vector<Q>{Q(z), Q(z - 1), Q(z + 1), Q(z + Q(1, 2)), Q(z - Q(1, 2)), Q(z + pow2(-40)), Q(z - pow2(-40)), Q(-z), Q(z + pow2z(64)), Q(z - pow2z(64)), Q(z + pow2z(32)), Q(z - pow2z(16)), Q(z - pow2z(32))})
        for (auto& r : std::vector<Q>{Q(0), Q(1, 2), Q(1), Q(pow2(-40))}) bs.push_back({of_q(m), r, false});
      for (auto& p : bs)
        c.leaf([&] { return str("x = ", p.s(), ", y = ", name, " ", z); }, [&] {
          Arb x = make(p);
          B a = actual(x);
          B b{V(z, 0), 0, false};
          check_tri(c, x, v, bounds(a), bounds(b), bounds(a));
          c.state(a.s() + z.get_str());
        });
    }
  });
}

MC_SUITE(compare_rationals) {
  auto qs = rationals(false);
  size_t k = 0;
  for (auto& q : qs) {
    if (!c.thorough && ++k % 3) continue;
    std::vector<B> bs{{V(V::PINF), 0, false}, {V(V::NINF), 0, false}, {V(), 0, true}, {V(V::NANV), 0, true}, {V(), 1, false}, {V(), pow2(70), false}, {V(), 0, false}};
    for (long prec : {1L, 4L, 32L, 64L, 100L})
      for (int ulps : {-2, -1, 0, 1, 2}) {
        Q m = q == 0 ? Q(ulps) : roundq(q, prec, FLOOR);
        if (q != 0) m += ulps * pow2(ilog2(q) - prec + 1);
        for (auto& r : std::vector<Q>{Q(0), q == 0 ? Q(1, 2) : Q(pow2(ilog2(q) - prec)), q == 0 ? Q(1) : Q(pow2(ilog2(q) - prec + 1)), pow2(-120)}) bs.push_back({of_q(m), r, false});
      }
    for (auto& p : bs)
      c.leaf([&] { return str("x = ", p.s(), ", y = ", q); }, [&] {
        Arb x = make(p);
        B a = actual(x);
        XI w = bounds(a), loose = w, e;
        e.lo.q = e.hi.q = q;
        if (!w.nan && !w.lo.inf && !w.hi.inf && a.rad != 0) {
          loose.lo.q -= a.rad * pow2(-20);
          loose.hi.q += a.rad * pow2(-20);
        }
        check_tri(c, x, q, w, e, loose);
        c.check(sameball(x, a), "an operand changed");
        c.state(a.s() + q.get_str());
      });
  }
}

// All sequences of value operations on two balls.
MC_SUITE(register_histories) {
  struct S {
    B x, y;
  };
  struct Op {
    const char* name;
    void (*real)(Arb&, Arb&);
    void (*model)(S&);
  };
  static const std::vector<Op> ops{
      {"x = -x", [](Arb& x, Arb&) { x = -x; }, [](S& s) { s.x.mid = neg(s.x.mid); }},
      {"y = -x", [](Arb& x, Arb& y) { y = -x; }, [](S& s) { s.y = s.x; s.y.mid = neg(s.x.mid); }},
      {"y = x", [](Arb& x, Arb& y) { y = x; }, [](S& s) { s.y = s.x; }},
      {"x = x", [](Arb& x, Arb&) { Arb& z = x; x = z; }, [](S&) {}},
      {"x = move(x)", [](Arb& x, Arb&) { Arb& z = x; x = std::move(z); }, [](S&) {}},
      {"swap(x, y)", [](Arb& x, Arb& y) { swap(x, y); }, [](S& s) { std::swap(s.x, s.y); }},
      {"swap(x, x)", [](Arb& x, Arb&) { swap(x, x); }, [](S&) {}},
      {"std::swap(x, y)", [](Arb& x, Arb& y) { std::swap(x, y); }, [](S& s) { std::swap(s.x, s.y); }},
      {"x = move(y), y = 7", [](Arb& x, Arb& y) { x = std::move(y); y = 7; }, [](S& s) { s.x = s.y; s.y = {V(7, 0), 0, false}; }},
      {"Arb z(move(x)); x = 2, y = z", [](Arb& x, Arb& y) { Arb z(std::move(x)); x = 2ul; y = z; }, [](S& s) { s.y = s.x; s.x = {V(2, 0), 0, false}; }},
      {"Arb z(x); y = move(z)", [](Arb& x, Arb& y) { Arb z(x); y = std::move(z); }, [](S& s) { s.y = s.x; }},
      {"x = ULLONG_MAX", [](Arb& x, Arb&) { x = ~0ull; }, [](S& s) { s.x = {V(pow2z(64) - 1, 0), 0, false}; }},
      {"x = mpz", [](Arb& x, Arb&) { x = Z(pow2z(100) + 1); }, [](S& s) { s.x = {V(pow2z(100) + 1, 0), 0, false}; }},
      {"x = Arb(Arf(y))", [](Arb& x, Arb& y) { x = Arb(static_cast<Arf>(y)); }, [](S& s) { s.x = {s.y.mid, 0, false}; }},
      {"x = unit interval", [](Arb& x, Arb&) { x = Arb::unit_interval(); }, [](S& s) { s.x = {V(1, -1), Q(1, 2), false}; }},
  };
  std::vector<B> init{{V(), 0, false}, {V(3, 0), Q(1, 8), false}, {V(-pow2z(130) - 1, -130), pow2(-60), false}, {V(), 0, true}, {V(V::NANV), 0, true}, {V(V::NINF), 0, false}};
  const int depth = c.thorough ? 6 : 4;
  for (auto& a : init)
    for (auto& b : init)
      for (size_t first = 0; first < ops.size(); first++)
        c.leaf([&] { return str("x = ", a.s(), ", y = ", b.s(), ", first ", ops[first].name); }, [&] {
          std::set<std::string> seen;
          std::vector<std::vector<int>> frontier{{}};
          for (int d = 0; d < depth; d++) {
            std::vector<std::vector<int>> next;
            for (auto& h : frontier)
              for (size_t o = 0; o < ops.size(); o++) {
                if (d == 0 && o != first) continue;
                Arb x = make(a), y = make(b);
                S s{a, b};
                for (int p : h) ops[p].real(x, y), ops[p].model(s);
                ops[o].real(x, y);
                ops[o].model(s);
                c.check(sameball(x, s.x) && sameball(y, s.y), [&] {
                  std::string t;
                  for (int p : h) t += str(ops[p].name, "; ");
                  return str("after ", t, ops[o].name, ": x = ", actual(x).s(), ", y = ", actual(y).s(), ", expected x = ", s.x.s(), ", y = ", s.y.s());
                });
                std::string key = s.x.s() + " " + s.y.s();
                c.state(key);
                if (seen.insert(key).second) {
                  next.push_back(h);
                  next.back().push_back(static_cast<int>(o));
                }
              }
            frontier.swap(next);
          }
        });
}

namespace {
// The number written in decimal notation, e.g., -1.25e-7
std::optional<Q> decimal(const std::string& s) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
  Z m = 0;
  long e = 0;
  bool any = false, dot = false;
  for (; i < s.size(); i++) {
    if (s[i] == '.' && !dot) dot = true;
    else if (isdigit(s[i])) {
      m = m * 10 + (s[i] - '0');
      if (dot) e--;
      any = true;
    } else
      break;
  }
  if (!any) return {};
  if (i < s.size() && s[i] == 'e') {
    char* end;
    e += strtol(s.c_str() + i + 1, &end, 10);
    i = end - s.c_str();
  }
  if (i != s.size()) return {};
  Z ten;
  mpz_ui_pow_ui(ten.get_mpz_t(), 10, std::labs(e));
  Q r = e >= 0 ? Q(m * ten) : Q(m, ten);
  r.canonicalize();
  return neg ? Q(-r) : r;
}
}  // namespace

// A printed ball encloses the ball.
MC_SUITE(print) {
  auto bs = balls(c.thorough);
  for (auto& m : {V(1537228672809129301L, -62), V(pow2z(300) + 1, -3), V(-7, -40), V(123456789, 0)})
    for (auto& r : std::vector<Q>{Q(0), pow2(-20), pow2(-300), Q(1), pow2(10)}) bs.push_back({m, r, false});
  for (auto& b0 : bs)
    for (int digits : {1, 3, 6, 15, 40})
      c.leaf([&] { return str(b0.s(), " with ", digits, " digits"); }, [&] {
        Arb x = make(b0);
        B b = actual(x);
        std::ostringstream o;
        o << std::setprecision(digits) << x;
        std::string s = o.str();
        if (digits == 6) mc::keeps_format(c, x);
        c.state(s);
        if (b.mid.kind == V::NANV || b.infrad || !b.mid.fin()) {
          c.check(s.find("inf") != std::string::npos || s.find("nan") != std::string::npos, [&] { return str("printed as ", s); });
          return;
        }
        std::optional<Q> mid, rad = Q(0);
        if (s[0] == '[') {
          auto k = s.find("+/-");
          c.check(k != std::string::npos && s.back() == ']', [&] { return str("printed as ", s); });
          mid = k == 1 ? Q(0) : decimal(s.substr(1, k - 2));
          rad = decimal(s.substr(k + 4, s.size() - k - 5));
        } else
          mid = decimal(s);
        c.check(mid && rad, [&] { return str("printed as ", s); });
        c.check(*mid - *rad <= b.mid.q() - b.rad && b.mid.q() + b.rad <= *mid + *rad, [&] { return str("printed as ", s, " which does not contain the ball"); });
        c.check(b.rad != 0 || *rad <= abs(b.mid.q()), [&] { return str("an exact ball is printed as ", s); });
      });
}

MC_MAIN
