// The floating point numbers exactreal::Arf against exact dyadic arithmetic.
#include "mc.hpp"
#include "ref.hpp"

#include <exact-real/arf.hpp>
#include <exact-real/yap/arf.hpp>

using namespace ref;
using exactreal::Arf;
using mc::str;

namespace {
V val(const Arf& x) { return of_arf(x.arf_t()); }
Arf make(const V& v) {
  Arf x;
  to_arf(x.arf_t(), v);
  return x;
}
bool same(double a, double b) { return std::isnan(a) ? std::isnan(b) : a == b; }

std::vector<Z> mantissas(bool deep) {
  std::vector<Z> m{0};
  const int n = deep ? 64 : 20;
  for (int i = 1; i <= n; i++) m.push_back(i);
  for (unsigned k : {8u, 24u, 30u, 31u, 32u, 51u, 52u, 53u, 54u, 55u, 61u, 62u, 63u, 64u, 65u, 100u, 127u, 128u, 129u, 192u})
    for (int d = -3; d <= 3; d++) m.push_back(pow2z(k) + d);
  // halfway cases of the conversion to double
  for (unsigned k : {1u, 2u, 3u, 11u, 12u, 40u})
    for (int d = -1; d <= 1; d++) {
      m.push_back(((pow2z(53) - 1) << k) + pow2z(k - 1) + d);
      m.push_back(((pow2z(52) + 1) << k) + pow2z(k - 1) + d);
      m.push_back(((pow2z(52) + 2) << k) + pow2z(k - 1) + d);
    }
  m.push_back(Z("123456789012345678901234567890123456789"));
  m.push_back(Z("-98765432109876543210987654321098765432109876543210"));
  size_t k = m.size();
  for (size_t i = 0; i < k; i++)
    if (m[i] > 0) m.push_back(-m[i]);
  return m;
}
std::vector<long> exponents() {
  std::vector<long> e;
  for (long i : {0, 1, 2, 3, 4, 7, 8, 16, 30, 31, 32, 51, 52, 53, 54, 62, 63, 64, 65, 100, 127, 128, 500, 920, 960, 969, 970, 971, 972, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1050, 1072, 1073, 1074, 1075, 1076, 1100, 1126, 1127, 1128, 2000}) {
    e.push_back(i);
    if (i) e.push_back(-i);
  }
  return e;
}
std::vector<long> huge_exponents() { return {65536, -65536, 1L << 32, -(1L << 32), (1L << 61), -(1L << 61), (1L << 62) - 1, (1L << 62), -(1L << 62), -(1L << 62) - 1, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1}; }

// The value v in storage with different histories.
constexpr int HISTORIES = 8;
Arf with_history(const V& v, int h) {
  static const Z big = pow2z(2000) + 1;
  Arf x = make(v);
  switch (h) {
    case 1: {  // copied over a much longer number
      Arf y(big, -7);
      y = x;
      return y;
    }
    case 2: {  // moved over a much longer number
      Arf y(big, 3);
      y = std::move(x);
      return y;
    }
    case 3: {  // swapped with a much longer number
      Arf y(big, 0);
      swap(x, y);
      return y;
    }
    case 4: {  // what cancellation leaves over
      if (!v.fin() || abs(v.e) > 10000) return x;
      Arf y(big, 0);
      arf_add(y.arf_t(), y.arf_t(), x.arf_t(), ARF_PREC_EXACT, ARF_RND_DOWN);
      Arf z(big, 0);
      arf_sub(y.arf_t(), y.arf_t(), z.arf_t(), ARF_PREC_EXACT, ARF_RND_DOWN);
      return y;
    }
    case 5: {  // shifted there and back
      x <<= 1000;
      x >>= 1000;
      return x;
    }
    case 6:  // negated twice
      return -(-x);
    case 7: {  // a zero, an infinity or a short number before
      Arf y(big, 0);
      y = 0;
      y = Arf(5);
      y = std::move(x);
      return Arf(y);
    }
  }
  return x;
}

void check_value(mc::Ctx& c, const Arf& x, const V& v) {
  c.check(val(x) == v, [&] { return str("has value ", val(x).s(), ", expected ", v.s()); });
  double d = static_cast<double>(x), e = nearest_double(v);
  c.check(same(d, e), [&] { return str("casts to double ", d, ", expected ", e); });
  if (v.fin()) {
    c.check(x.mantissa() == v.m, [&] { return str("mantissa ", x.mantissa(), ", expected ", v.m); });
    c.check(x.exponent() == v.e, [&] { return str("exponent ", x.exponent(), ", expected ", v.e); });
    Z t = v.e + static_cast<unsigned long>(mpz_sizeinbase(v.m.get_mpz_t(), 2)) - 1;
    if (v.m != 0 && t.fits_slong_p()) c.check(Z(x.logb()) == t, [&] { return str("logb ", x.logb(), ", expected ", t); });
    if (v.e < 3000 && v.e > -70000) {
      Z f = floorq(v.q()), g = ceilq(v.q());
      c.check(x.floor() == f, [&] { return str("floor ", x.floor(), ", expected ", f); });
      c.check(x.ceil() == g, [&] { return str("ceil ", x.ceil(), ", expected ", g); });
    } else if (v.e < 0 && v.m != 0) {
      // the absolute value is less than one
      c.check(x.floor() == (v.m < 0 ? -1 : 0), [&] { return str("floor ", x.floor()); });
      c.check(x.ceil() == (v.m > 0 ? 1 : 0), [&] { return str("ceil ", x.ceil()); });
    }
  }
  V n = neg(v), a = sign(v) < 0 ? n : v;
  Arf nx = -x, ax = x.abs();
  c.check(val(nx) == n, [&] { return str("negates to ", val(nx).s()); });
  c.check(val(ax) == a, [&] { return str("has absolute value ", val(ax).s()); });
  Arf copy(x), assigned(17), moved(-3);
  assigned = x;
  c.check(val(copy) == v && val(assigned) == v, "copies differ");
  c.check(val(x) == v, "changed by const operations");
  moved = std::move(copy);
  Arf constructed(std::move(assigned));
  c.check(val(moved) == v && val(constructed) == v, "moved values differ");
  Arf other(5);
  swap(moved, other);
  c.check(val(other) == v && val(moved) == V(5, 0), "swap does not exchange the values");
  using std::swap;
  swap(moved, other);
  c.check(val(moved) == v && val(other) == V(5, 0), "second swap does not exchange the values");
  if (v.kind != V::NANV) {
    c.check(moved == x && !(moved != x), "not equal to its copy");
    c.check(std::hash<Arf>()(moved) == std::hash<Arf>()(x), "equal values hash differently");
    c.check(std::hash<Arf>()(make(v)) == std::hash<Arf>()(x), "equal values hash differently");
  }
  c.state(v.s());
}
}  // namespace

MC_SUITE(construct_mantissa_exponent) {
  auto es = exponents();
  for (auto& m : mantissas(c.thorough)) {
    for (long e : es)
      c.leaf([&] { return str("Arf(", m, ", ", e, ")"); }, [&] { check_value(c, Arf(m, e), V(m, e)); });
    for (long e : huge_exponents())
      c.leaf([&] { return str("Arf(", m, ", ", e, ")"); }, [&] { check_value(c, Arf(m, e), V(m, e)); });
  }
}

MC_SUITE(construct_string) {
  for (auto& m : mantissas(c.thorough))
    for (int base = 2; base <= 36; base++)
      for (long e : {0L, 1L, -1L, -8L, 53L, -64L, 1000L, -1080L, LONG_MAX, LONG_MIN})
        c.leaf([&] { return str("Arf(\"", m.get_str(base), "\", ", base, ", ", e, ")"); }, [&] {
          check_value(c, Arf(m.get_str(base), base, e), V(m, e));
          std::string padded = m < 0 ? "-00" + Z(-m).get_str(base) : "00" + m.get_str(base);
          c.check(val(Arf(padded, base, e)) == V(m, e), "leading zeros change the value");
        });
  // all short binary strings
  for (int len = 1; len <= (c.thorough ? 14 : 11); len++)
    for (int bits = 0; bits < (1 << len); bits++) {
      std::string s;
      for (int i = len; i--;) s += (bits >> i & 1) ? '1' : '0';
      c.leaf([&] { return str("Arf(\"", s, "\", 2, ", -len, ")"); }, [&] { check_value(c, Arf(s, 2, -len), V(bits, -len)); });
    }
}

MC_SUITE(construct_integer) {
  std::vector<long> is{0, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, INT_MAX, INT_MIN, 1L << 31, -(1L << 31) - 1, 1L << 32, 1L << 53, (1L << 53) + 1, (1L << 53) - 1, 1L << 62, (1L << 62) - 1, (1L << 62) + 1};
  for (long i = 1; i <= 2000; i++) is.push_back(i);
  for (int k = 0; k < 63; k++)
    for (int d = -1; d <= 1; d++) is.push_back((1L << k) + d);
  size_t n = is.size();
  for (size_t i = 0; i < n; i++)
    if (is[i] != LONG_MIN) is.push_back(-is[i]);
  for (long i : is)
    c.leaf([&] { return str("Arf from the integer ", i); }, [&] {
      check_value(c, Arf(i), V(i, 0));
      for (auto before : {V(0, 0), V(Z("123456789123456789123456789"), -7), V(V::PINF), V(V::NANV)}) {
        Arf x = make(before);
        Arf& r = (x = i);
        c.check(&r == &x && val(x) == V(i, 0), [&] { return str("assigning a long gives ", val(x).s()); });
        if (i >= INT_MIN && i <= INT_MAX) {
          Arf y = make(before);
          y = static_cast<int>(i);
          c.check(val(y) == V(i, 0), [&] { return str("assigning an int gives ", val(y).s()); });
          c.check(val(Arf(static_cast<int>(i))) == V(i, 0), "constructing from int gives another value");
        }
      }
      check_value(c, Arf(Z(i), 0), V(i, 0));
    });
  c.leaf([] { return "default constructed"; }, [&] { check_value(c, Arf(), V()); });
}

MC_SUITE(construct_double) {
  // every binade of the doubles, with all mantissas in the alphabet, and their nearest neighbours
  std::vector<uint64_t> ms;
  for (uint64_t i = 0; i < 16; i++) ms.push_back(i), ms.push_back((1ull << 52) - 1 - i);
  for (int k = 4; k < 52; k++) {
    ms.push_back(1ull << k);
    if (c.thorough) ms.push_back((1ull << k) - 1), ms.push_back((1ull << k) + 1), ms.push_back((1ull << 52) - (1ull << k));
  }
  ms.push_back(0x5555555555555ull);
  for (uint64_t ex = 0; ex < 2048; ex++)
    for (uint64_t m : ms)
      for (uint64_t s : {0ull, 1ull})
        c.leaf(
            [&] {
              uint64_t b = s << 63 | ex << 52 | m;
              double d;
              memcpy(&d, &b, 8);
              char t[64];
              snprintf(t, sizeof t, "Arf(%a)", d);
              return std::string(t);
            },
            [&] {
              uint64_t b = s << 63 | ex << 52 | m;
              double d;
              memcpy(&d, &b, 8);
              V v = std::isnan(d) ? V(V::NANV) : std::isinf(d) ? V(d > 0 ? V::PINF : V::NINF) : of_q(of_double(d));
              Arf x(d);
              check_value(c, x, v);
              c.check(same(static_cast<double>(x), d), "does not convert back to the same double");
              Arf y(17);
              y = d;
              c.check(val(y) == v, [&] { return str("assigning the double gives ", val(y).s()); });
            });
}

MC_SUITE(special_values) {
  for (auto v : {V(V::PINF), V(V::NINF), V(V::NANV), V()})
    c.leaf([&] { return v.s(); }, [&] { check_value(c, make(v), v); });
}

// The same numbers as arf_randtest makes from the same state.
MC_SUITE(random) {
  for (long prec : {2, 3, 10, 53, 64, 65, 300})
    for (long magbits : {1, 2, 10, 62, 64, 100})
      for (ulong seed = 0; seed < (c.thorough ? 64 : 8); seed++)
        c.leaf([&] { return str("randtest(", prec, ", ", magbits, ") from the state ", seed); }, [&] {
          flint_rand_t a, b;
          flint_randinit(a), flint_randinit(b);
          flint_randseed(a, seed, seed + 1), flint_randseed(b, seed, seed + 1);
          std::set<std::string> seen;
          for (int i = 0; i < 40; i++) {
            Arf x = Arf::randtest(a, prec, magbits);
            ::arf_t y;
            arf_init(y);
            arf_randtest(y, b, prec, magbits);
            c.check(arf_equal(x.arf_t(), y), [&] { return str("the number ", i, " is another one: ", x); });
            c.check(arf_is_special(y) || mpz_sizeinbase(x.mantissa().get_mpz_t(), 2) <= size_t(prec), "too many bits");
            arf_clear(y);
            seen.insert(str(x));
            c.state(str(prec, magbits, seed, i, x));
          }
          c.check(seen.size() > 3, "always the same number");
          flint_randclear(a), flint_randclear(b);
        });
}

namespace {
// For every accepted integer argument type, the operators of Arf must agree with the order of the values.
template <typename A, typename B>
void check_order(mc::Ctx& c, const A& a, const B& b, int o) {
  c.check((a < b) == (o < 0), [&] { return str("a < b is ", a < b); });
  c.check((a > b) == (o > 0), [&] { return str("a > b is ", a > b); });
  c.check((a <= b) == (o <= 0), [&] { return str("a <= b is ", a <= b); });
  c.check((a >= b) == (o >= 0), [&] { return str("a >= b is ", a >= b); });
  c.check((a == b) == (o == 0), [&] { return str("a == b is ", a == b); });
  c.check((a != b) == (o != 0), [&] { return str("a != b is ", a != b); });
}
}  // namespace

MC_SUITE(order_pairs) {
  std::vector<V> vs{V(V::PINF), V(V::NINF), V()};
  for (long m : {1L, 3L, 5L, 7L, 9L, 13L, 15L, 31L})
    for (long e : {-4L, -2L, -1L, 0L, 1L, 2L, 62L, -1074L, 5000L}) vs.push_back(V(m, e)), vs.push_back(V(-m, e));
  for (unsigned k : {53u, 62u, 63u, 64u, 65u, 128u})
    for (int d = -1; d <= 1; d++)
      for (long e : {0L, -1L, -63L, -64L}) vs.push_back(V(pow2z(k) + d, e)), vs.push_back(V(-pow2z(k) - d, e));
  for (long e : {65536L, -65536L, LONG_MAX, LONG_MIN, LONG_MIN + 1, 1L << 62, -(1L << 62)})
    for (long m : {1L, 3L}) vs.push_back(V(m, e)), vs.push_back(V(-m, e));
  if (c.thorough)
    for (long m = 1; m < 64; m += 2)
      for (long e = -8; e <= 4; e++) vs.push_back(V(m, e)), vs.push_back(V(-m, e));
  for (auto& a : vs)
    for (auto& b : vs)
      c.leaf([&] { return str("a = ", a.s(), ", b = ", b.s()); }, [&] {
        Arf x = make(a), y = make(b);
        check_order(c, x, y, cmpv(a, b));
        if (a == b) {
          check_order(c, x, x, 0);
          c.check(std::hash<Arf>()(x) == std::hash<Arf>()(y), "equal values hash differently");
        }
        for (int i = 0; i < HISTORIES; i++) {
          Arf p = with_history(a, i);
          c.check(val(p) == a, [&] { return str("history ", i, " changes the value"); });
          for (int j = 0; j < (a == b ? HISTORIES : 1); j++) {
            Arf q = with_history(b, a == b ? j : HISTORIES - 1 - i);
            check_order(c, p, q, cmpv(a, b));
            if (a == b) c.check(std::hash<Arf>()(p) == std::hash<Arf>()(q), [&] { return str("equal values with the histories ", i, " and ", j, " hash differently"); });
          }
        }
        c.check(val(x) == a && val(y) == b, "comparison changes an operand");
        c.state(str(a.s(), " ", b.s()));
      });
}

MC_SUITE(order_integers) {
  std::vector<long> is{0, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, INT_MAX, INT_MIN, INT_MAX + 1L, INT_MIN - 1L};
  for (long i = 1; i <= 10; i++) is.push_back(i), is.push_back(-i);
  for (int k : {31, 32, 52, 53, 54, 61, 62}) {
    for (int d = -1; d <= 1; d++) is.push_back((1L << k) + d), is.push_back(-(1L << k) - d);
  }
  for (long i : is) {
    std::vector<V> vs{V(V::PINF), V(V::NINF), V()};
    for (long j : is) {
      vs.push_back(V(j, 0));
      if (j) {
        for (long e : {-1L, -64L, 1L, 64L}) vs.push_back(V(j, e));
        // just above and below the integer j
        vs.push_back(V(Z(j) * pow2z(70) + 1, -70));
        vs.push_back(V(Z(j) * pow2z(70) - 1, -70));
        vs.push_back(V(Z(j) * 2 + 1, -1));
      }
    }
    for (auto& v : vs)
      c.leaf([&] { return str("a = ", v.s(), ", b = ", i); }, [&] {
        Arf x = make(v);
        int o = cmpv(v, V(i, 0));
        check_order(c, x, i, o);
        check_order(c, i, x, -o);
        if (i >= INT_MIN && i <= INT_MAX) {
          check_order(c, x, static_cast<int>(i), o);
          check_order(c, static_cast<int>(i), x, -o);
        }
        for (int h = 1; h < HISTORIES; h++) {
          Arf p = with_history(v, h);
          check_order(c, p, i, o);
          check_order(c, i, p, -o);
        }
        c.state(str(v.s(), " ", i));
      });
  }
}

MC_SUITE(not_a_number) {
  // NaN is not smaller than, larger than, or equal to any number.
  std::vector<V> vs{V(V::PINF), V(V::NINF), V(), V(1, -5000), V(-1, 5000), V(pow2z(64) - 1, -64)};
  std::vector<long> is{0, 1, -1, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN};
  for (int h = 0; h < HISTORIES; h++)
    c.leaf([&] { return str("history ", h); }, [&] {
      Arf n = with_history(V(V::NANV), h);
      auto none = [&](const auto& a, const auto& b, const std::string& what) {
        c.check(!(a == b) && a != b && !(a < b) && !(a > b), [&] { return str("NaN and ", what, ": == ", a == b, ", < ", a < b, ", > ", a > b); });
      };
      for (auto& v : vs)
        for (int g = 0; g < HISTORIES; g++) {
          Arf x = with_history(v, g);
          none(n, x, v.s()), none(x, n, v.s());
          c.state(str(h, g, v.s()));
        }
      for (long i : is) {
        none(n, i, str(i)), none(i, n, str(i));
        if (i >= INT_MIN && i <= INT_MAX) none(n, static_cast<int>(i), str(i)), none(static_cast<int>(i), n, str(i));
      }
      Arf m = make(V(V::NANV));
      c.check((n == m) == (m == n) && (n != m) == !(n == m), "equality of NaN is not consistent");
      if (n == m) c.check(std::hash<Arf>()(n) == std::hash<Arf>()(m), "equal values hash differently");
      c.check(!(n < m) && !(n > m), "NaN is ordered");
    });
}

// All sequences of in-place operations on two registers, up to a depth, with
// states that have the same pair of values merged.
MC_SUITE(register_histories) {
  struct S {
    V x, y;
  };
  struct Op {
    const char* name;
    void (*real)(Arf&, Arf&);
    void (*model)(S&);
  };
#define SHIFT(op, k) \
  { "x " #op " " #k, [](Arf& x, Arf&) { Arf& r = (x op k); if (&r != &x) throw mc::Failure{"does not return itself"}; }, [](S& s) { if (s.x.fin()) s.x = V(s.x.m, s.x.m == 0 ? Z(0) : Z(s.x.e + ((#op)[0] == '<' ? 1 : -1) * Z(long(k)))); } }
  static const std::vector<Op> ops{
      {"x = -x", [](Arf& x, Arf&) { x = -x; }, [](S& s) { s.x = neg(s.x); }},
      {"y = -x", [](Arf& x, Arf& y) { y = -x; }, [](S& s) { s.y = neg(s.x); }},
      {"x = x.abs()", [](Arf& x, Arf&) { x = x.abs(); }, [](S& s) { if (sign(s.x) < 0) s.x = neg(s.x); }},
      SHIFT(<<=, 1),
      SHIFT(>>=, 1),
      SHIFT(<<=, -3),
      SHIFT(>>=, -3),
      SHIFT(<<=, 0),
      SHIFT(>>=, 0),
      SHIFT(<<=, 64),
      SHIFT(>>=, 64),
      SHIFT(<<=, LONG_MAX),
      SHIFT(>>=, LONG_MAX),
      SHIFT(<<=, LONG_MIN),
      SHIFT(>>=, LONG_MIN),
      {"y = x << 3", [](Arf& x, Arf& y) { y = x << 3; }, [](S& s) { s.y = s.x; if (s.y.fin() && s.y.m != 0) s.y.e += 3; }},
      {"y = x >> 3", [](Arf& x, Arf& y) { y = x >> 3; }, [](S& s) { s.y = s.x; if (s.y.fin() && s.y.m != 0) s.y.e -= 3; }},
      {"y = x", [](Arf& x, Arf& y) { y = x; }, [](S& s) { s.y = s.x; }},
      {"x = x", [](Arf& x, Arf&) { Arf& z = x; x = z; }, [](S&) {}},
      {"x = move(x)", [](Arf& x, Arf&) { Arf& z = x; x = std::move(z); }, [](S&) {}},
      {"swap(x, y)", [](Arf& x, Arf& y) { swap(x, y); }, [](S& s) { std::swap(s.x, s.y); }},
      {"swap(x, x)", [](Arf& x, Arf&) { swap(x, x); }, [](S&) {}},
      {"std::swap(x, y)", [](Arf& x, Arf& y) { std::swap(x, y); }, [](S& s) { std::swap(s.x, s.y); }},
      {"x = move(y), y = 7", [](Arf& x, Arf& y) { x = std::move(y); y = 7; }, [](S& s) { s.x = s.y; s.y = V(7, 0); }},
      {"Arf z(move(x)); x = 2, y = z", [](Arf& x, Arf& y) { Arf z(std::move(x)); x = 2L; y = z; }, [](S& s) { s.y = s.x; s.x = V(2, 0); }},
      {"x = 0.375", [](Arf& x, Arf&) { x = 0.375; }, [](S& s) { s.x = V(3, -3); }},
      {"x = 0x1p63", [](Arf& x, Arf&) { x = 0x1p63; }, [](S& s) { s.x = V(1, 63); }},
      {"x = -0x1p63", [](Arf& x, Arf&) { x = -0x1p63; }, [](S& s) { s.x = V(-1, 63); }},
      {"x = -0x1p31", [](Arf& x, Arf&) { x = -0x1p31; }, [](S& s) { s.x = V(-1, 31); }},
      {"x = DBL_MAX", [](Arf& x, Arf&) { x = 0x1.fffffffffffffp1023; }, [](S& s) { s.x = V(pow2z(53) - 1, 971); }},
      {"x = 0x1p-1074", [](Arf& x, Arf&) { x = 0x1p-1074; }, [](S& s) { s.x = V(1, -1074); }},
      {"x = -0.", [](Arf& x, Arf&) { x = -0.; }, [](S& s) { s.x = V(); }},
      {"x = -HUGE_VAL", [](Arf& x, Arf&) { x = -HUGE_VAL; }, [](S& s) { s.x = V(V::NINF); }},
      {"x = NAN", [](Arf& x, Arf&) { x = std::nan(""); }, [](S& s) { s.x = V(V::NANV); }},
      {"x = LONG_MAX", [](Arf& x, Arf&) { x = LONG_MAX; }, [](S& s) { s.x = V(LONG_MAX, 0); }},
      {"x = INT_MIN", [](Arf& x, Arf&) { x = INT_MIN; }, [](S& s) { s.x = V(INT_MIN, 0); }},
      {"x = LONG_MIN", [](Arf& x, Arf&) { x = LONG_MIN; }, [](S& s) { s.x = V(LONG_MIN, 0); }},
      {"x = 0", [](Arf& x, Arf&) { x = 0; }, [](S& s) { s.x = V(); }},
      {"y = Arf(x.floor(), 0)", [](Arf& x, Arf& y) { if (val(x).fin() && val(x).e < 1000 && val(x).e > -1000) y = Arf(x.floor(), 0); }, [](S& s) { if (s.x.fin() && s.x.e < 1000 && s.x.e > -1000) s.y = V(floorq(s.x.q()), 0); }},
      {"y = Arf(x.mantissa(), 0)", [](Arf& x, Arf& y) { if (val(x).fin()) y = Arf(x.mantissa(), 0); }, [](S& s) { if (s.x.fin()) s.y = V(s.x.m, 0); }},
  };
#undef SHIFT
  std::vector<V> init{V(), V(3, 0), V(-5, -2), V(Z("340282366920938463463374607431768211457"), -3), V(V::PINF), V(V::NANV)};
#ifdef MC_SANITIZED
  const int depth = 4;
#else
  const int depth = c.thorough ? 5 : 4;
#endif
  for (auto& a : init)
    for (auto& b : init)
      for (size_t first = 0; first < ops.size(); first++) {
        // breadth first search below the first operation
        c.leaf([&] { return str("x = ", a.s(), ", y = ", b.s(), ", first ", ops[first].name); }, [&] {
          std::set<std::string> seen;
          std::vector<std::vector<int>> frontier{{}};
          for (int d = 0; d < depth; d++) {
            std::vector<std::vector<int>> next;
            for (auto& h : frontier)
              for (size_t o = 0; o < ops.size(); o++) {
                if (d == 0 && o != first) continue;
                Arf x = make(a), y = make(b);
                S s{a, b};
                for (int p : h) ops[p].real(x, y), ops[p].model(s);
                ops[o].real(x, y);
                ops[o].model(s);
                c.check(val(x) == s.x && val(y) == s.y, [&] {
                  std::string t;
                  for (int p : h) t += str(ops[p].name, "; ");
                  return str("after ", t, ops[o].name, ": x = ", val(x).s(), ", y = ", val(y).s(), ", expected x = ", s.x.s(), ", y = ", s.y.s());
                });
                std::string key = s.x.s() + " " + s.y.s();
                c.state(key);
                if (seen.insert(key).second) {
                  next.push_back(h);
                  next.back().push_back(static_cast<int>(o));
                }
              }
            frontier.swap(next);
            c.beat();
          }
        });
      }
}

// Printing: the exact part of the output determines the value.
MC_SUITE(print) {
  auto es = exponents();
  es.push_back(-65536);
  for (auto& m : mantissas(c.thorough))
    for (long e : es)
      c.leaf([&] { return str(m, "p", e); }, [&] {
        V v(m, e);
        std::ostringstream o;
        o << make(v);
        std::ostringstream d;
        d << nearest_double(v);
        std::string s = o.str();
        c.check(s.substr(0, d.str().size()) == d.str(), [&] { return str("printed as ", s, " which does not start with ", d.str()); });
        std::string rest = s.substr(d.str().size());
        std::string exact = str("=", v.m, "p", v.e);
        if (v.m != 0 && (v.e < 0 || !std::isfinite(nearest_double(v)) || of_double(nearest_double(v)) != v.q()))
          c.check(rest == exact, [&] { return str("printed as ", s, ", expected ", d.str(), exact); });
        else
          c.check(rest.empty() || rest == exact, [&] { return str("printed as ", s); });
        mc::keeps_format(c, make(v));
        c.state(s);
      });
  struct {
    V v;
    const char* s;
  } special[] = {{V(V::PINF), "+∞"}, {V(V::NINF), "-∞"}, {V(V::NANV), "NaN"}, {V(), "0"}};
  for (auto& p : special)
    c.leaf([&] { return p.v.s(); }, [&] {
      c.check(str(make(p.v)) == p.s, [&] { return str("printed as ", make(p.v)); });
      mc::keeps_format(c, make(p.v));
    });
}

MC_MAIN
