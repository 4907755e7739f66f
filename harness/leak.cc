// Everything that is dropped is released: the memory in use does not grow when
// a computation is repeated.
//
// All allocations of the process are counted. A leaf repeats one computation
// (or alternates between several) and watches how many bytes are in use after
// each block of repetitions, after emptying FLINT's own pools. A computation
// is fine as soon as a few consecutive blocks add nothing; it leaks if this
// never happens within a bound that is larger than all caches of the library.
#include "mc.hpp"
#include "elementmodel.hpp"

#include <e-antic/renfxx.h>
#include <malloc.h>

#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/vector.hpp>
#include <e-antic/cereal.hpp>

#include <exact-real/cereal.hpp>
#include <exact-real/cppyy.hpp>

namespace {
std::atomic<long long> live{0};
}
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static void* counted(void* p) {
  if (p) live.fetch_add((long long)malloc_usable_size(p), std::memory_order_relaxed);
  return p;
}
void* malloc(size_t n) { return counted(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return counted(__libc_calloc(n, m)); }
void* realloc(void* p, size_t n) {
  const long long old = p ? (long long)malloc_usable_size(p) : 0;
  void* q = __libc_realloc(p, n);
  if (q || n == 0) live.fetch_sub(old, std::memory_order_relaxed);
  return counted(q);
}
void* memalign(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return counted(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) {
  *p = counted(__libc_memalign(a, n));
  return *p ? 0 : 12;
}
void free(void* p) {
  if (p) live.fetch_sub((long long)malloc_usable_size(p), std::memory_order_relaxed);
  __libc_free(p);
}
}

using namespace model;
using mc::str;
namespace py = exactreal::cppyy;
using Round = Arf::Round;
using exactreal::Seed;
using Real = std::shared_ptr<const RealNumber>;

namespace {
struct Op {
  std::string name;
  std::function<void()> run;
};

volatile double sink;
template <typename T>
void use(const T& x) {
  std::ostringstream s;
  if constexpr (std::is_convertible_v<T, double>)
    sink = (double)x;
  else
    sink = (double)sizeof x;
}
template <typename T>
void show(const T& x) {
  std::ostringstream s;
  s << x;
}
template <typename F>
void refused(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return;
  }
  throw mc::Failure{"this should have thrown"};
}

mpz_class big(int bits, int d = 1) {
  mpz_class r = 1;
  r <<= bits;
  return r + d;
}
mpq_class frac(int bits) {
  mpq_class q(big(bits), big(bits, 3));
  q.canonicalize();
  return q;
}
Arf longarf() { return Arf(big(700), -350); }

template <typename A, typename T>
void cycle(const T& x) {
  std::ostringstream s;
  {
    typename A::first_type archive(s);
    archive(x);
  }
  std::istringstream in(s.str());
  T y;
  typename A::second_type archive(in);
  archive(y);
}
using Json = std::pair<cereal::JSONOutputArchive, cereal::JSONInputArchive>;
using Portable = std::pair<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>;

void arfs(std::vector<Op>& ops) {
  auto add = [&](std::string n, std::function<void()> f) { ops.push_back({"Arf: " + n, f}); };
  add("default", [] { Arf x; });
  add("from integers", [] { Arf a(1), b(-7L), c(std::numeric_limits<long>::min()), d(big(500), 3), e(big(500), std::numeric_limits<long>::max()); });
  add("from doubles", [] { Arf a(0.1), b(5e-324), c(HUGE_VAL), d(NAN); });
  add("from a string", [] { Arf a("123456789012345678901234567890123456789012345678901234567890", 10, -7), b("zz", 36, 900); });
  add("copy, move, swap", [] {
    Arf a = longarf(), b(a), c(std::move(a)), d;
    d = b;
    b = std::move(c);
    a = longarf();
    swap(a, d);
    using std::swap;
    swap(a, b);
    a = a;
    c = Arf(big(900), 1);
    c = longarf();
    c = std::move(d);
  });
  add("assign", [] {
    Arf a = longarf();
    a = 3;
    a = longarf();
    a = 3L;
    a = longarf();
    a = 0.5;
  });
  add("huge exponents", [] {
    Arf a(big(200), std::numeric_limits<long>::max());
    for (int i = 0; i < 3; i++) a <<= std::numeric_limits<long>::max();
    Arf b(a), c(-a), d(a.abs());
    a >>= 5;
    b = 0;
    c = d;
    show(c);
    show(a < d);
  });
  add("shift", [] {
    Arf a = longarf(), b(a << 1000), c(a >> 1000);
    a <<= std::numeric_limits<long>::min();
    b >>= std::numeric_limits<long>::min();
  });
  add("negate, abs", [] { Arf a = longarf(), b(-a), c(b.abs()); });
  add("floor, ceil, mantissa, exponent, logb", [] {
    Arf a = longarf();
    use(a.floor() + a.ceil() + a.mantissa() + a.exponent());
    use(a.logb());
    Arf b(big(200), std::numeric_limits<long>::max());
    b <<= 1000;
    use(b.exponent() + b.mantissa());
  });
  add("cast, compare, hash, print", [] {
    Arf a = longarf(), b(big(700, 3), -350);
    use(static_cast<double>(a));
    show(a < b || a == b || a > 3L || a == 3L || 3L < b);
    use(std::hash<Arf>()(a));
    show(a);
    show(-b);
    show(Arf(big(300), 900));
    show(Arf(0));
    show(Arf(HUGE_VAL));
    show(Arf(NAN));
  });
  add("randtest", [] {
    flint_rand_t s;
    flint_randinit(s);
    for (int i = 0; i < 4; i++) use(Arf::randtest(s, 300, 80));
    flint_randclear(s);
  });
  add("expressions", [] {
    Arf a = longarf(), b(big(300), 5), c;
    c = (a + b)(64, Round::NEAR);
    c = (a * b - a)(300, Round::UP);
    c = (-(a / b))(300, Round::DOWN);
    c = (a * (b + 3)(128, Round::CEIL))(64)(Round::FLOOR);
    Arf d((a + b * a)(500, Round::NEAR));
    c += a(64)(Round::NEAR);
    c -= (a * a)(64, Round::NEAR);
    c *= b(200, Round::UP);
    c /= b(200, Round::UP);
    c = (c * c - c / a)(90, Round::NEAR);
  });
  add("expressions with infinities and zero", [] {
    Arf a(HUGE_VAL), b(0), c;
    c = (a - a)(64, Round::NEAR);
    c = (a / b)(64, Round::NEAR);
    c = (longarf() / b)(64, Round::NEAR);
    c = (longarf() - longarf())(64, Round::NEAR);
  });
  add("expressions with numbers", [] {
    Arf a = longarf(), c;
    c = (a + 1)(64, Round::NEAR);
    c = (a - 1)(300, Round::UP);
    c = (a * 3)(300, Round::DOWN);
    c = (a / 3)(300, Round::DOWN);
  });
  add("serialize", [] {
    cycle<Json>(longarf());
    cycle<Portable>(longarf());
    Arf a(big(200), std::numeric_limits<long>::max());
    a <<= 1000;
    cycle<Portable>(Arf(HUGE_VAL));
  });
  add("Python helpers", [] {
    Arf a = longarf(), b(big(300), 5);
    show(py::eval(py::add(a, b), 64, Round::NEAR));
    show(py::eval(py::truediv(a, py::neg(b)), 300, Round::UP));
  });
}

// Integers become multiprecision ones between 62 and 64 bits, so everything
// is also done with numbers of such sizes.
std::vector<std::pair<std::string, mpz_class>> sizes() {
  std::vector<std::pair<std::string, mpz_class>> r;
  for (int bits : {3, 31, 53, 61, 62, 63, 64, 65, 127, 128})
    for (int sign : {1, -1}) r.push_back({str(sign < 0 ? "-" : "", "(2^", bits, " + 1)"), sign * big(bits)});
  return r;
}

void sized(std::vector<Op>& ops) {
  for (auto& [name, z] : sizes()) {
    auto add = [&, name = name](std::string n, std::function<void()> f) { ops.push_back({"size " + name + ": " + n, f}); };
    for (long e : {0L, -1L, -40L, 1L, -200L, (1L << 62) - 1, -(1L << 62), std::numeric_limits<long>::max(), std::numeric_limits<long>::min()})
      add(str("Arf times 2^", e), [z = z, e] {
        Arf a(z, e), b(z.get_str(), 10, e), c(z.get_str(36), 36, e);
        use(a.mantissa() + a.exponent());
        use(a == b && a == c && a < 3L && a > -3L && a == 1L && a < b);
        if (e < 1000 && e > -1000) {
          use(a.floor() + a.ceil() + Arf(-a).floor() + Arf(-a).ceil());
          use((a >> 1).ceil());
        }
        use(a.logb());
        use(static_cast<double>(a));
        show(a);
        use(std::hash<Arf>()(a));
        a <<= e;
        use(a.exponent());
        a >>= 7;
        a >>= -e;
        a <<= 1L << 62;
        use(a.exponent());
        b = (a * b - c / a)(100, Round::NEAR);
        b += (c * c)(70, Round::UP);
        cycle<Portable>(c);
      });
    add("Arb", [z = z] {
      Arb a(z), b(mpq_class(z, 3), 100), c;
      c = z;
      b = c;
      mpq_class q(5, abs(z));
      q.canonicalize();
      Arb d(q, 70);
      for (auto* x : {&a, &b, &d}) {
        use((*x < q).has_value() + (*x <= q).has_value() + (*x > q).has_value() + (*x >= q).has_value() + (*x == q).has_value() + (*x != q).has_value());
        use((*x < 3).has_value() + (*x == 1ull).has_value() + (*x < a).has_value());
        std::pair<Arf, Arf> bounds(*x);
        use(bounds.first.floor());
        use(static_cast<Arf>(*x));
        show(*x);
      }
      c = (a * d)(64);
      c -= (a / d)(100);
      cycle<Portable>(d);
    });
    add("rational number", [z = z] {
      mpq_class q(z, 7), p(7, abs(z));
      q.canonicalize(), p.canonicalize();
      auto x = RealNumber::rational(q), y = RealNumber::rational(p), w = RealNumber::random(Seed(51));
      for (auto& n : {x, y, w}) {
        use(n->arf(70)), use(n->arb(30)), use(static_cast<double>(*n));
        use((*n < q) + (*n == p) + (*n > p) + (*n < z) + (*n == z) + (*n > z) + (*n < Arf(z, -3)) + (*n == Arf(z, 0)) + n->cmp(Arb(z)) + n->cmp(Arb(q, 90)) + (*n < *w));
        cycle<Portable>(n);
      }
      show(*(*x * *y));
      auto r = RealNumber::random(Arf(z, 0), Arf(z + 1, 0), Seed(3));
      use(r->arf(5)), use(r->arf(200));
      cycle<Portable>(r);
    });
    add("element", [z = z] {
      auto one = RealNumber::rational(1), a = RealNumber::random(Seed(52));
      Element<IntegerRing> x(Module<IntegerRing>::make({one, a}), {z, 1}), y(z);
      Element<RationalField> u(x), v(mpq_class(z, 6));
      auto elements = [&](const auto& x, const auto& y) {
        use(x.floor()), use(x.ceil()), use(y.floor()), use(y.ceil()), use(x.floordiv(y)), use(y.floordiv(x));
        use((x < z) + (x == z) + (y == z) + (y < 5) + (x < mpq_class(z)) + (y == mpq_class(z)) + (x < y));
        use(static_cast<std::optional<mpz_class>>(y).has_value());
        use(static_cast<double>(x)), use(x.unit());
        show(x * y);
        show(x * z / z);
        use((x * y).truediv(y).has_value());
        use(x.arb(100));
        cycle<Portable>(x);
      };
      elements(x, y);
      elements(u, v);
      elements(u + v, v);
      elements(Element<NumberField>(u), Element<NumberField>(fields()[0].k->gen() * z));
    });
  }
}

// Archives in which one character of a number is wrong.
template <typename T>
void damaged(std::vector<Op>& ops, const std::string& name, std::function<T()> make) {
  // (FLINT aborts on some malformed numbers with a zero mantissa)
  ops.push_back({"a damaged archive with " + name, [make] {
                   std::ostringstream s;
                   {
                     cereal::JSONOutputArchive archive(s, cereal::JSONOutputArchive::Options::NoIndent());
                     archive(make());
                   }
                   const auto text = s.str();
                   // Damage the values that are strings.
                   bool quoted = false, value = false;
                   for (size_t i = 0; i < text.size(); i++) {
                     if (text[i] == '"') quoted = !quoted;
                     if (!quoted && text[i] == ':') value = true;
                     if (!quoted && (text[i] == ',' || text[i] == '{')) value = false;
                     if (!quoted || !value || text[i] == '"') continue;
                     for (int how = 0; how < 3; how++) {
                       auto t = text;
                       if (how == 0)
                         t[i] = '?';
                       else if (how == 1)
                         t.insert(i, "?");
                       else
                         t.erase(i, 1);
                       try {
                         std::istringstream in(t);
                         T y;
                         cereal::JSONInputArchive archive(in);
                         archive(y);
                       } catch (const std::exception&) {
                       }
                     }
                   }
                 }});
}

void arbs(std::vector<Op>& ops) {
  auto add = [&](std::string n, std::function<void()> f) { ops.push_back({"Arb: " + n, f}); };
  add("default", [] { Arb x; });
  add("from integers", [] { Arb a(1), b(-7L), c(std::numeric_limits<unsigned long long>::max()), d(big(500)), e((short)3); });
  add("from rationals", [] { Arb a(frac(300), 64), b(frac(300), 1000); });
  add("from rationals without a precision", [] { Arb a(mpq_class(1, 3), 10); });
  add("from number field elements", [] {
    auto& K = *fields()[0].k;
    Arb a(K.gen() * K.gen() * 3 + K.gen()), b(K.gen() / 7, 300);
  });
  add("from an interval", [] { Arb a(std::pair(longarf(), Arf(big(701), -100))), b(std::pair(longarf(), longarf()), 64); });
  add("from a string", [] { Arb a("1.234567890123456789012345678901234567890", 200), b("[3 +/- 0.1]", 64); });
  add("from a string that is no number", [] {
    try {
      Arb a("foo", 64);
    } catch (const std::exception&) {
    }
  });
  add("copy, move, swap", [] {
    Arb a(frac(300), 500), b(a), c(std::move(a)), d;
    d = b;
    b = std::move(c);
    a = Arb(frac(200), 700);
    swap(a, d);
    a = a;
    c = -d;
    c = Arb(frac(300), 900);
  });
  add("huge exponents", [] {
    Arf x(big(200), std::numeric_limits<long>::max());
    for (int i = 0; i < 3; i++) x <<= std::numeric_limits<long>::max();
    Arb a(x), b(-a), c(std::pair(-x, x)), d(a);
    d = 1;
    b = c;
    show(c.is_finite());
    std::pair<Arf, Arf> bounds(c);
    std::pair<Arf, Arf> exact(a);
    use((a < b).has_value());
    show(a.equal(c));
    use(static_cast<Arf>(a));
  });
  add("assign", [] {
    Arb a(frac(300), 500);
    a = 3;
    a = Arb(frac(300), 500);
    a = big(300);
    a = 0.5;
    a = (short)4;
  });
  add("constants", [] { use(Arb::zero()), use(Arb::one()), use(Arb::pos_inf()), use(Arb::neg_inf()), use(Arb::zero_pm_inf()), use(Arb::indeterminate()), use(Arb::zero_pm_one()), use(Arb::unit_interval()); });
  add("randtest", [] {
    flint_rand_t s;
    flint_randinit(s);
    for (int i = 0; i < 4; i++) use(Arb::randtest(s, 300, 80)), use(Arb::randtest_exact(s, 300, 80));
    flint_randclear(s);
  });
  add("compare", [] {
    Arb a(frac(300), 500), b(frac(200), 500), c(frac(200), 90);
    for (auto* x : {&a, &b, &c})
      for (auto* y : {&a, &b, &c}) use((*x < *y).has_value() + (*x <= *y).has_value() + (*x > *y).has_value() + (*x >= *y).has_value() + (*x == *y).has_value() + (*x != *y).has_value() + x->equal(*y));
  });
  add("compare with integers", [] {
    Arb a(frac(300), 500);
    use((a < 1).has_value() + (a <= 1L).has_value() + (a > std::numeric_limits<unsigned long long>::max()).has_value() + (a >= (short)1).has_value() + (a == 1).has_value() + (a != 1u).has_value());
  });
  add("compare with rationals", [] {
    for (auto prec : {10, 500}) {
      Arb a(frac(300), prec);
      mpq_class q = frac(300);
      use((a < q).has_value() + (a <= q).has_value() + (a > q).has_value() + (a >= q).has_value() + (a == q).has_value() + (a != q).has_value());
      q += 1;
      use((a < q).has_value() + (a <= q).has_value() + (a > q).has_value() + (a >= q).has_value() + (a == q).has_value() + (a != q).has_value());
    }
    use((Arb(1) == mpq_class(1)).has_value());
    use((Arb::zero_pm_inf() == frac(200)).has_value());
  });
  add("observe", [] {
    for (Arb a : {Arb(frac(300), 500), Arb(big(400)), Arb::zero_pm_inf(), Arb::indeterminate(), Arb::pos_inf()}) {
      use(a.is_exact() + a.is_finite());
      std::pair<Arf, Arf> b(a);
      use(static_cast<double>(a));
      use(static_cast<Arf>(a));
      show(a);
    }
  });
  add("expressions", [] {
    Arb a(frac(300), 500), b(frac(200), 300), c;
    c = (a + b)(64);
    c = (a * b - a)(300);
    c = (-(a / b))(300);
    c = (a * (b + 3)(128))(64);
    Arb d((a + b * a)(500));
    c += a(64);
    c -= (a * a)(64);
    c *= b(200);
    c /= b(200);
    c = (c * c - c / a)(90);
    c = (a / Arb(0))(64);
    c = (a + 0.5)(64);
    c = (a * 3)(64);
  });
  add("serialize", [] {
    cycle<Json>(Arb(frac(300), 500));
    cycle<Portable>(Arb(frac(300), 500));
  });
  add("Python helpers", [] {
    Arb a(frac(300), 500), b(frac(200), 300);
    show(py::eval(py::add(a, b), 64));
    show(py::eval(py::truediv(a, py::neg(b)), 300));
  });
}

// The numbers that an operation on reals starts from: made anew each time, or
// kept alive all the time.
struct Kind {
  std::string name;
  std::function<Real()> make;
};
std::vector<Kind> kinds() {
  static unsigned fresh = 1u << 20;
  return {
      {"the rational 1/3", [] { return RealNumber::rational(mpq_class(1, 3)); }},
      {"the rational 1", [] { return RealNumber::rational(1); }},
      {"a rational with 200 bits", [] { return RealNumber::rational(frac(200)); }},
      {"a new rational", [] { return RealNumber::rational(mpq_class(++fresh, 1u << 21)); }},
      {"the random number 17", [] { return RealNumber::random(Seed(17)); }},
      {"a new random number", [] { return RealNumber::random(Seed(++fresh)); }},
      {"a default random number", [] { return RealNumber::random(); }},
      {"random(0, 1)", [] { return RealNumber::random(Arf(0), Arf(1), Seed(5)); }},
      {"random in a narrow interval", [] { return RealNumber::random(Arf(big(300), -300), Arf(big(300, 2), -300), Seed(5)); }},
      {"random in a huge interval", [] { return RealNumber::random(Arf(-1), Arf(mpz_class(1), 300), Seed(5)); }},
      {"random(a, b)", [] { return RealNumber::random(Arf(-1), Arf(0.5)); }},
      {"random(0.1)", [] { return RealNumber::random(0.1, Seed(9)); }},
      {"random(-3)", [] { return RealNumber::random(-3.); }},
      {"a square", [] { auto a = RealNumber::random(Seed(21)); return *a * *a; }},
      {"a new product", [] { return *RealNumber::random(Seed(++fresh)) * *RealNumber::random(Seed(22)); }},
      {"a product of five", [] { auto a = RealNumber::random(Seed(21)), b = RealNumber::random(0.5, Seed(23)), ab = *a * *b; return *(*ab * *ab) * *a; }},
      {"a square of a new number", [] { auto a = RealNumber::random(Seed(++fresh)); return *a * *a; }},
  };
}

void reals(std::vector<Op>& ops) {
  struct Query {
    std::string name;
    std::function<void(const Real&)> f;
  };
  std::vector<Query> qs = {
      {"nothing", [](const Real&) {}},
      {"arf", [](const Real& x) { for (long p : {1L, 10L, 53L, 64L, 200L, 64L}) use(x->arf(p)); }},
      {"arf at many precisions", [](const Real& x) { for (long p = 1; p < 4000; p = p * 3 / 2 + 1) use(x->arf(p)); }},
      {"arb, refine", [](const Real& x) {
         for (long p : {2L, 64L, 500L}) use(x->arb(p));
         Arb a(std::pair(Arf(-3), Arf(mpz_class(1), 301)));
         x->refine(a, 10), x->refine(a, 300);
       }},
      {"double, bool, rational", [](const Real& x) { use(static_cast<double>(*x)), use(static_cast<bool>(*x)), use(static_cast<std::optional<mpq_class>>(*x).has_value()); }},
      {"print", [](const Real& x) { show(*x); }},
      {"compare with numbers", [](const Real& x) {
         use((*x < 1) + (*x == 1) + (*x > 0L) + (*x < frac(100)) + (*x == frac(100)) + (*x > frac(100)) + (*x < big(90)) + (*x == big(90)) + (*x > big(90)) + (*x < longarf()) + (*x == longarf()) + (*x > longarf()));
         Arf near = x->arf(300);
         use((*x < near) + (*x == near) + (*x > near));
       }},
      {"compare with reals", [](const Real& x) {
         auto y = RealNumber::random(Seed(31));
         auto q = RealNumber::rational(frac(90));
         use((*x < *y) + (*x == *y) + (*y < *x) + (*x < *x) + (*x == *x) + (*x < *q) + (*q < *x) + (*x == *q) + x->deglex(*y) + y->deglex(*x) + x->deglex(*x) + q->deglex(*x));
       }},
      {"cmp", [](const Real& x) {
         use(x->cmp(Arb::unit_interval()) + x->cmp(Arb(7)) + x->cmp(x->arb(20)) + x->cmp(Arb(x->arf(200))) + x->cmp(Arb::zero_pm_inf()));
       }},
      {"multiply", [](const Real& x) {
         auto one = RealNumber::rational(1), y = RealNumber::random(Seed(31));
         auto z = *x * *one;
         z = *one * *x;
         if (!static_cast<std::optional<mpq_class>>(*x)) {
           z = *x * *y;
           z = *z * *x;
           z = *(*y * *y) * *z;
         } else
           z = *x * *x;
       }},
      {"divide", [](const Real& x) {
         auto one = RealNumber::rational(1), y = RealNumber::random(Seed(31));
         auto q = *x / *one;
         if (!static_cast<std::optional<mpq_class>>(*x)) {
           auto z = *x * *y;
           q = *z / *y;
           q = *z / *x;
           q = *z / *z;
           q = *y / *z;
           q = *z / *one;
         }
       }},
      {"multiply by a rational", [](const Real& x) {
         try {
           use(*x * *RealNumber::rational(mpq_class(2, 7)));
         } catch (const std::exception&) {
         }
         try {
           use(*RealNumber::rational(mpq_class(2, 7)) / *x);
         } catch (const std::exception&) {
         }
       }},
      {"serialize", [](const Real& x) { cycle<Json>(x), cycle<Portable>(x); }},
      {"serialize a list", [](const Real& x) { cycle<Json>(std::vector<Real>{x, x, nullptr, RealNumber::random(Seed(31))}); }},
      {"a module", [](const Real& x) {
         auto M = Module<IntegerRing>::make({x});
         auto e = M->gen(0);
         show(e + e);
         use(e < e), use(e == *x), use(e < *x);
       }},
  };
  for (auto& k : kinds())
    for (auto& q : qs) {
      ops.push_back({"real number: " + k.name + ": " + q.name, [k, q] { q.f(k.make()); }});
      ops.push_back({"real number, kept: " + k.name + ": " + q.name, [k, q, x = Real()]() mutable {
                       if (!x) x = k.make();
                       q.f(x);
                     }});
    }
  auto add = [&](std::string n, std::function<void()> f) { ops.push_back({"real number: " + n, f}); };
  add("random in an empty interval", [] { refused([] { RealNumber::random(Arf(1), Arf(0)); }); });
  add("random in a point", [] { refused([] { RealNumber::random(longarf(), longarf(), Seed(3)); }); });
  add("random near infinity", [] { refused([] { RealNumber::random(HUGE_VAL); }); });
  add("random near nan", [] { refused([] { RealNumber::random(NAN, Seed(4)); }); });
}

template <typename R>
void modules(std::vector<Op>& ops, const std::string& ring, const R& r, const typename R::ElementClass& k) {
  static unsigned fresh = 1u << 24;
  using M = std::shared_ptr<const Module<R>>;
  using E = Element<R>;
  auto add = [&](std::string n, std::function<void()> f) { ops.push_back({ring + ": " + n, f}); };
  auto one = [] { return RealNumber::rational(1); };
  auto a = [] { return RealNumber::random(Seed(41)); };
  auto b = [] { return RealNumber::random(Arf(-1), Arf(3), Seed(42)); };
  auto big1 = [=] { return Module<R>::make({one(), a()}, r); };
  auto big2 = [=] { return Module<R>::make({a(), b(), *a() * *b()}, r); };
  auto x = [=] { return E(big1(), {k, k + k}); };
  auto y = [=] { return E(big2(), {k * k, k, typename R::ElementClass(3)}); };

  add("make", [=] { big1(), big2(), Module<R>::make({}, r), Module<R>::make({one()}, r); });
  add("make new ones", [=] { Module<R>::make({RealNumber::random(Seed(++fresh)), one()}, r); });
  add("make new ones with new products", [=] { auto z = RealNumber::random(Seed(++fresh)); Module<R>::make({z, *z * *z, *z * *a()}, r); });
  add("make with duplicates", [=] { refused([=] { Module<R>::make({a(), b(), a()}, r); }); });
  add("make with two rationals", [=] { refused([=] { Module<R>::make({one(), RealNumber::rational(2)}, r); }); });
  add("span, submodule", [=] {
    M m = big1(), n = big2();
    M s = Module<R>::span(m, n);
    use(m->submodule(*s) + s->submodule(*m) + (*m == *n) + m->rank());
    show(*s);
  });
  add("gen, zero, one", [=] {
    M m = big1();
    show(m->gen(1));
    show(m->zero());
    show(m->one());
    refused([&] { big2()->one(); });
  });
  add("default element", [=] { E z, w(z); z = w; show(z); });
  add("element of the wrong length", [=] {
    try {
      E z(big1(), {k});
    } catch (const std::exception&) {
    }
  });
  add("from a number", [=] { E z(k); show(z); });
  add("copy, move, assign", [=] {
    E z = x(), w(z), u(std::move(z));
    z = w;
    w = y();
    u = std::move(w);
    w = z;
    std::swap(z, u);
  });
  add("coefficients", [=] {
    E z = y();
    use(z.coefficients());
    use(z.rationalCoefficients());
    show(z[1]);
    use(std::hash<E>()(z));
  });
  add("add, subtract", [=] {
    E z = x() + y();
    z -= x();
    z += z;
    z -= z;
    z = -y();
    z = x() - x();
  });
  add("multiply", [=] {
    E z = x() * y();
    z *= x();
    z *= z;
    z = x() * *a();
    z = x() * *b();
  });
  add("multiply new numbers", [=] {
    auto n = RealNumber::random(Seed(++fresh));
    E z(Module<R>::make({n}, r), {k});
    z *= z;
    z *= x();
  });
  add("scale", [=] {
    E z = x();
    z *= 3;
    z *= (short)-2;
    z *= 7ull;
    z *= big(100);
    z *= k;
    show(z);
  });
  add("scale down", [=] {
    E z = x() * 12;
    z /= 3;
    z /= (unsigned short)2;
    z /= 1ll;
    z /= mpz_class(2);
    z *= mpq_class(4, 2);
    z /= mpq_class(2);
    z = x() * big(100);
    z /= big(100);
  });
  add("divisions that throw", [=] {
    refused([=] { x() / 0; });
    refused([=] { x() / mpz_class(0); });
    refused([=] { x() / mpq_class(0); });
    refused([=] { x() / typename R::ElementClass(0); });
    if (std::is_same_v<R, IntegerRing>) {
      refused([=] { x() / 1000; });
      refused([=] { x() / big(100); });
      refused([=] { x() * mpq_class(1, 1000); });
    }
  });
  add("exact division", [=] {
    E p = x() * y();
    use((p.truediv(x())).has_value());
    use((p.truediv(y())).has_value());
    use((y().truediv(x())).has_value());
    use((x().truediv(x())).has_value());
  });
  add("division by the element zero", [=] {
    refused([=] { x().truediv(E(big1(), {0, 0})); });
    refused([=] { x().floordiv(E(big1(), {0, 0})); });
  });
  add("floor, ceil, floordiv", [=] { show(x().floor()), show(y().ceil()), show(x().floordiv(y())), show((x() * y()).floordiv(y())); });
  add("compare", [=] {
    E z = x(), w = y();
    use((z < w) + (z == w) + (z <= w) + (z > w) + (z != z) + (w < 3) + (w == 3) + (w > big(80)) + (w < frac(80)) + (w == frac(80)) + (w < *a()) + (w == *b()) + (w > 5ull));
  });
  add("arb, double, bool, unit", [=] {
    E z = x() - y();
    for (long p : {1, 10, 64, 500, 3000}) use(z.arb(p));
    use(static_cast<double>(z));
    use(static_cast<bool>(z));
    use(z.unit());
    use(E(k).unit());
  });
  add("integer, rational", [=] {
    use(static_cast<std::optional<mpz_class>>(x()).has_value());
    use(static_cast<std::optional<mpz_class>>(E(k)).has_value());
    use(static_cast<std::optional<mpq_class>>(E(k)).has_value());
    use(static_cast<std::optional<mpq_class>>(y()).has_value());
  });
  add("print", [=] { show(x()), show(y() - x()), show(*big2()), show(E(big2(), {0, 0, 0})); });
  add("promote, simplify", [=] {
    E z = x();
    z.promote(Module<R>::span(big1(), big2()));
    z.simplify();
    z -= z;
    z.simplify();
    try {
      E w = x();
      w.promote(big2());
    } catch (const std::exception&) {
    }
  });
  add("extend the coefficients", [=] {
    E z(Element<IntegerRing>(Module<IntegerRing>::make({one(), a()}), {1, 2}));
    show(z);
    if constexpr (R::contains_rationals) {
      E w(Element<RationalField>(Module<RationalField>::make({one(), a()}), {1, mpq_class(1, 2)}));
      show(w + z);
    }
  });
  add("serialize", [=] { cycle<Json>(x()), cycle<Portable>(y()), cycle<Json>(big2()), cycle<Portable>(std::vector<E>{x(), y(), x() * y()}); });
  add("Python helpers", [=] {
    show(py::add(x(), y())), show(py::mul(x(), 3)), show(py::neg(x()));
    use(py::optional_integer(x()).has_value());
    use(py::truediv(x(), x()).has_value());
    auto s = py::serialize<E, cereal::JSONOutputArchive>(x());
    show(py::deserialize<E, cereal::JSONInputArchive>(s));
  });
  add("deserialize garbage", [=] {
    auto s = py::serialize<E, cereal::JSONOutputArchive>(x());
    for (size_t n : {size_t(0), s.size() / 3, s.size() / 2, s.size() - 3}) {
      try {
        show(py::deserialize<E, cereal::JSONInputArchive>(s.substr(0, n)));
      } catch (const std::exception&) {
      }
    }
  });
  add("ring operations", [=] {
    auto u = k;
    R::imul(u, 3);
    R::imul(u, big(100));
    R::idiv(u, big(100));
    use(R::unit(u));
    show(R::floor(u));
    use(R::arb(u, 100));
    use(R::rational(u).has_value());
    show(r.coerce(u));
    R other(R::compositum(r, r));
    use(other == r);
    use(std::hash<R>()(r));
    try {
      R::idiv(u, 0);
    } catch (const std::exception&) {
    }
  });
}

std::vector<Op> everything() {
  std::vector<Op> ops;
  arfs(ops);
  arbs(ops);
  sized(ops);
  damaged<Arf>(ops, "an Arf", [] { return longarf(); });
  damaged<Arf>(ops, "an Arf with a long exponent", [] { Arf a(big(70), std::numeric_limits<long>::max()); a <<= std::numeric_limits<long>::max(); return a; });
  damaged<Arb>(ops, "an Arb", [] { return Arb(frac(300), 200); });
  damaged<Arb>(ops, "an exact Arb", [] { return Arb(big(300)); });
  damaged<Real>(ops, "a rational", [] { return RealNumber::rational(frac(200)); });
  damaged<Real>(ops, "a random number", [] { return RealNumber::random(Seed(61)); });
  damaged<Real>(ops, "a random number in an interval", [] { return RealNumber::random(Arf(big(100), -100), Arf(big(100, 2), -100), Seed(61)); });
  damaged<Real>(ops, "a product", [] { auto a = RealNumber::random(Seed(61)), b = RealNumber::random(0.1, Seed(62)); return *(*a * *a) * *b; });
  damaged<Element<IntegerRing>>(ops, "an element of an integer module", [] { return Element<IntegerRing>(Module<IntegerRing>::make({RealNumber::rational(1), RealNumber::random(0.2, Seed(63))}), {big(90), 3}); });
  damaged<Element<RationalField>>(ops, "an element of a rational module", [] { return Element<RationalField>(Module<RationalField>::make({RealNumber::rational(frac(90)), RealNumber::random(Seed(63))}), {frac(90), 3}); });
  reals(ops);
  modules<IntegerRing>(ops, "Z", IntegerRing(), 5);
  modules<RationalField>(ops, "Q", RationalField(), mpq_class(5, 7));
  {
    const auto& f = fields()[0];
    modules<NumberField>(ops, "number field", NumberField(f.k), f.k->gen() + mpq_class(1, 2));
  }
  auto add = [&](std::string n, std::function<void()> f) { ops.push_back({n, f}); };
  add("seeds", [] { Seed a, b(7), c(a); use(a.value + c.value); });
  add("an element of a field that is forgotten", [] {
    auto K = eantic::renf_class::make("x^2 - 7", "x", "2.6 +/- 0.1");
    NumberField N(K);
    auto M = Module<NumberField>::make({RealNumber::rational(1), RealNumber::random(Seed(43))}, N);
    Element<NumberField> x(M, {K->gen(), 1});
    show(x * x);
    show(NumberField::compositum(N, NumberField()) == N);
    show(NumberField::compositum(NumberField(K->gen()), N) == N);
  });
  add("two different fields", [] {
    auto K = eantic::renf_class::make("x^2 - 7", "x", "2.6 +/- 0.1"), L = eantic::renf_class::make("x^2 - 11", "x", "3.3 +/- 0.1");
    try {
      NumberField::compositum(NumberField(K), NumberField(L));
    } catch (const std::exception&) {
    }
    try {
      NumberField(K).coerce(L->gen());
    } catch (const std::exception&) {
    }
  });
  add("deserialize a truncated list of reals", [] {
    std::ostringstream s;
    {
      cereal::PortableBinaryOutputArchive archive(s);
      auto a = RealNumber::random(Seed(44));
      archive(std::vector<Real>{a, *a * *a, RealNumber::random(0.25, Seed(45)), RealNumber::rational(frac(90))});
    }
    for (size_t n = 0; n < s.str().size(); n += 7) {
      std::istringstream in(s.str().substr(0, n));
      std::vector<Real> v;
      try {
        cereal::PortableBinaryInputArchive archive(in);
        archive(v);
      } catch (const std::exception&) {
      }
    }
  });
  return ops;
}

long long in_use() {
  flint_cleanup();
  return live.load();
}

// Repeat until the least memory that was in use during some period is no more
// than it was in the period of half that length before. Caches are filled and
// swept now and then, so short periods can show growth where there is none.
void steady(mc::Ctx& c, const std::vector<const Op*>& ops) {
  for (int i = 0; i < 2; i++)
    for (auto* o : ops) o->run();
  const long long first = in_use();
  long long before = first, repetitions = 0;
  for (int period = 4; period <= 16384; period *= 2) {
    long long least = std::numeric_limits<long long>::max();
    for (int j = 0; j < period; j++) {
      for (auto* o : ops) o->run();
      least = std::min(least, in_use());
      c.beat();
    }
    repetitions += period;
    c.trans(period * ops.size());
    // a repetition that leaks takes at least 16 bytes away for good
    if (period > 4 && least - before < 8ll * std::max(0, period - 32)) return;
    before = least;
    // (no more than 2 MB is added before it stops growing)
    if (before - first > 64ll << 20) break;
  }
  c.fail(str("the memory in use keeps growing: ", before - first, " bytes in ", repetitions, " repetitions"));
}
}  // namespace

MC_SUITE(repeat) {
  for (auto& op : everything())
    c.leaf([&] { return op.name; }, [&] {
      steady(c, {&op});
      c.state(op.name);
    });
}

// Alternating computations, such that each finds caches as the other left them.
static void mc_suite_alternate(mc::Ctx& c);
static mc::Register mc_reg_alternate("alternate", mc_suite_alternate, 2);
static void mc_suite_alternate(mc::Ctx& c) {
  const auto ops = everything();
  std::vector<const Op*> others;
  for (auto& o : ops)
    for (const char* name : {"real number: a new product: print", "real number: a new random number: arf", "real number: a new rational: nothing", "Z: make new ones with new products", "Q: multiply new numbers", "number field: divisions that throw", "Arf: huge exponents", "Q: deserialize garbage", "Arb: compare with rationals"})
      if (o.name == name) others.push_back(&o);
  if (others.size() != 9) throw std::logic_error("computations are missing");
  for (auto* o : others)
    for (auto& op : ops)
      c.leaf([&] { return op.name + " / " + o->name; }, [&] {
        steady(c, {&op, o});
        c.state(op.name + o->name);
      });
}

MC_MAIN
