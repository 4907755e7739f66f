// Real numbers: approximations in every query order, where random numbers lie,
// and comparisons with everything that they can be compared with.
#include "mc.hpp"
#include "realmodel.hpp"
#include "reuse.hpp"

#include <exact-real/element.hpp>
#include <exact-real/integer_ring.hpp>
#include <exact-real/module.hpp>

#include <algorithm>
#include <cfloat>
#include <map>
#include <numeric>

using namespace model;
using mc::str;

namespace {
const long BITS = 2200;  // accuracy of the reference

std::vector<Q> rationals() {
  std::vector<Q> r{0};
  for (int d = 1; d <= 12; d++)
    for (int n = 1; n <= 20; n++) {
      Q q(n, d);
      q.canonicalize();
      if (q.get_den() == d) r.push_back(q), r.push_back(-q);
    }
  for (long k : {1L, 5L, 31L, 52L, 53L, 54L, 63L, 64L, 65L, 127L, 128L, 1000L, 1074L, 1100L, 5000L})
    for (int s : {1, -1})
      for (int t : {1, -1}) {
        Z p = ref::pow2z(static_cast<unsigned long>(k));
        r.push_back(Q(s * (p + t)));
        Q u(s * p, p + t);
        u.canonicalize();
        r.push_back(u);
        Q w(Z(s), p + t);
        w.canonicalize();
        r.push_back(w);
        Q v = s * (ref::pow2(k) + ref::pow2(-t * k));
        r.push_back(v);
      }
  for (long k : {-5000L, -1100L, -1074L, -64L, -1L, 64L, 1024L, 5000L}) r.push_back(ref::pow2(k)), r.push_back(-ref::pow2(k));
  r.push_back(Q(Z("123456789012345678901234567890"), Z("98765432109876543210987654321")));
  r.back().canonicalize();
  return r;
}
std::vector<std::pair<Q, Q>> intervals() {
  std::vector<std::pair<Q, Q>> r;
  std::vector<Q> ends;
  for (int k = -16; k <= 16; k++) ends.push_back(Q(k, 4));
  for (auto& e : ends) e.canonicalize();
  std::vector<Q> some{-4, Q(-3, 4), Q(-1, 2), Q(-1, 4), 0, Q(1, 4), Q(1, 2), Q(3, 4), 1, Q(5, 4), 2, Q(7, 2)};
  for (size_t i = 0; i < some.size(); i++)
    for (size_t j = i + 1; j < some.size(); j++) r.push_back({some[i], some[j]});
  // tight intervals, on both sides of a power of two and of zero
  for (long k : {1L, 3L, 10L, 52L, 64L, 100L, 300L})
    for (Q c : {Q(0), Q(1), Q(-1), Q(2), Q(-2), Q(1, 2), Q(-1, 2), Q(3), Q(-3), Q(-4), Q(-1, 4)}) {
      Q h = ref::pow2(-k);
      r.push_back({c, c + h});
      r.push_back({c - h, c});
      r.push_back({c - h, c + h});
    }
  // different sizes
  for (long k : {20L, 64L, 100L, 1000L})
    for (int s : {1, -1}) {
      r.push_back({-ref::pow2(k), ref::pow2(-k)});
      r.push_back({-ref::pow2(-k), ref::pow2(k)});
      r.push_back({s > 0 ? Q(1) : Q(-ref::pow2(k)), s > 0 ? Q(ref::pow2(k)) : Q(-1)});
      r.push_back({s > 0 ? Q(ref::pow2(k)) : Q(-ref::pow2(k) - 1), s > 0 ? Q(ref::pow2(k) + 1) : Q(-ref::pow2(k))});
      r.push_back({s > 0 ? Q(ref::pow2(-k - 1)) : Q(-ref::pow2(-k)), s > 0 ? Q(ref::pow2(-k)) : Q(-ref::pow2(-k - 1))});
    }
  r.push_back({0, 1});
  return r;
}
std::vector<double> doubles() {
  std::vector<double> r{0., -0., DBL_TRUE_MIN, 2 * DBL_TRUE_MIN, 3 * DBL_TRUE_MIN, DBL_MIN, std::nextafter(DBL_MIN, 0.), std::nextafter(DBL_MIN, 1.), DBL_MAX, std::nextafter(DBL_MAX, 0.), M_PI, 1. / 3, .1, 1e22, 1e23, 123456.789};
  for (int e : {-1074, -1073, -1060, -1022, -1021, -500, -64, -53, -52, -2, -1, 0, 1, 2, 3, 31, 52, 53, 54, 63, 64, 500, 1022, 1023}) {
    double p = std::ldexp(1., e);
    for (double x : {p, std::nextafter(p, 0.), std::nextafter(p, INFINITY), std::ldexp(1.5, e), std::ldexp(1.75, e)}) r.push_back(x);
  }
  size_t n = r.size();
  for (size_t i = 0; i < n; i++) r.push_back(-r[i]);
  return r;
}

std::vector<Num> numbers(bool thorough) {
  std::vector<Num> r;
  for (auto& q : rationals()) r.push_back(rational(q));
  for (unsigned s = 0; s < (thorough ? 400u : 60u); s++) r.push_back(random(s));
  for (unsigned s : {1337u, 0xffffu, 0x10000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) r.push_back(random(s));
  for (unsigned s : EXTREME_SEEDS) r.push_back(random(s));
  unsigned s = 0;
  for (auto& i : intervals())
    for (unsigned k = 0; k < (thorough ? 12u : 3u); k++)
      if (i.first != 0 || i.second != 1) r.push_back(between(i.first, i.second, s++ % 97));
  for (auto& i : intervals())
    for (unsigned k = 0; k < (thorough ? EXTREME_SEEDS.size() : 1); k++)
      if (i.first != 0 || i.second != 1) r.push_back(between(i.first, i.second, EXTREME_SEEDS[thorough ? k : s++ % EXTREME_SEEDS.size()]));
  for (double d : doubles())
    if (std::abs(d) != DBL_MAX)
      for (unsigned k = 0; k < (thorough ? 4u : 1u); k++) r.push_back(near(d, s++ % 97));
  return r;
}

std::string hex(double d) {
  std::ostringstream o;
  o << std::hexfloat << d;
  return o.str();
}

// Is the approximation as good as promised?
void check_arf(mc::Ctx& c, const Num& n, const P& x, long prec, const std::string& when, long bits = BITS) {
  Arf a = x->arf(prec);
  auto v = val(a);
  c.check(v.fin(), [&] { return str("arf(", prec, ") = ", v.s(), when); });
  c.check(!off(v.q(), n.truth(bits), ref::pow2(-std::max(0L, prec))), [&] { return str("arf(", prec, ") = ", v.s(), " is not accurate to ", prec, " bits", when); });
}
bool holds(const Arb& b, const I& x) {
  if (!ref::finite(b.arb_t())) return ref::contains(b.arb_t(), x.lo);
  auto i = ref::interval(b.arb_t());
  return i.lo <= x.hi && x.lo <= i.hi;
}
void check_ball(mc::Ctx& c, const Num& n, const Arb& b, long prec, const std::string& what, const std::string& when, long bits = BITS) {
  auto t = n.truth(bits);
  c.check(holds(b, t), [&] { return str(what, " = ", ref::show(b.arb_t()), " does not contain the number", when); });
  if (t.lo == 0 && t.hi == 0) return;
  c.check(arb_rel_accuracy_bits(b.arb_t()) >= prec, [&] { return str(what, " = ", ref::show(b.arb_t()), " has only ", arb_rel_accuracy_bits(b.arb_t()), " bits", when); });
}
void check_double(mc::Ctx& c, const Num& n, const P& x, const std::string& when) {
  auto t = n.truth(BITS);
  double d = static_cast<double>(*x), lo = ref::nearest_double(t.lo), hi = ref::nearest_double(t.hi);
  c.check(d == lo || d == hi, [&] { return str("the cast to double is ", hex(d), " but the nearest double is ", hex(lo), when); });
}
}  // namespace

// One query of each kind on a fresh object, for many precisions.
MC_SUITE(single_queries) {
  std::vector<long> precs;
  for (long p = -3; p <= 70; p++) precs.push_back(p);
  for (long p : {95L, 96L, 97L, 126L, 127L, 128L, 129L, 130L, 191L, 192L, 200L, 255L, 256L, 257L, 300L, 511L, 512L, 513L, 1000L, 1023L, 1024L, 1074L, 1100L, 2000L}) precs.push_back(p);
  for (auto& n : numbers(c.thorough))
    c.leaf([&] { return str("queries on fresh objects: ", n.name); }, [&] {
      for (long p : precs) {
        check_arf(c, n, n.make(), p, "");
        check_ball(c, n, n.make()->arb(p), p, str("arb(", p, ")"), "");
        c.state(str(n.name, p));
      }
      check_double(c, n, n.make(), "");
      c.check(n.make()->operator bool() == (!n.rational || n.q != 0), "the cast to bool is wrong");
      auto q = static_cast<std::optional<mpq_class>>(*n.make());
      c.check(q.has_value() == n.rational && (!q || *q == n.q), "the cast to a rational is wrong");
      c.outcome(n.rational ? "rational" : "transcendental");
    });
}

// All pairs of queries, on an object that is made for this pair.
MC_SUITE(query_pairs) {
  const std::vector<long> precs{-1, 0, 1, 2, 3, 10, 52, 53, 54, 55, 62, 63, 64, 65, 126, 127, 128, 129, 256};
  auto all = numbers(c.thorough);
  std::vector<Num> some;
  for (size_t i = 0; i < all.size(); i += c.thorough ? 1 : 5) some.push_back(all[i]);
  // queries: arf(p), arb(p), double
  const int Q = static_cast<int>(2 * precs.size() + 1);
  for (auto& n : some)
    for (int a = 0; a < Q; a++)
      c.leaf([&] { return str("query ", a, " followed by any other query: ", n.name); }, [&] {
        for (int b = 0; b < Q; b++) {
          P x = n.make();
          const std::string when = str(" (after query ", a, ")");
          for (int q : {a, b, a}) {
            size_t k = static_cast<size_t>(q / 2);
            if (q == Q - 1)
              check_double(c, n, x, when);
            else if (q % 2 == 0)
              check_arf(c, n, x, precs[k], when);
            else
              check_ball(c, n, x->arb(precs[k]), precs[k], str("arb(", precs[k], ")"), when);
          }
          // the answer is the one that a fresh object gives
          if (b < Q - 1 && b % 2 == 0) {
            auto v = val(x->arf(precs[static_cast<size_t>(b / 2)]));
            x.reset();
            c.check(val(n.make()->arf(precs[static_cast<size_t>(b / 2)])) == v, [&] { return str("arf(", precs[static_cast<size_t>(b / 2)], ") depends on earlier queries"); });
          }
          c.state(str(n.name, "/", a, "/", b));
        }
      });
}

// More precisions than the caches hold, in several orders.
MC_SUITE(query_sweeps) {
  auto all = numbers(c.thorough);
  for (size_t i = 0; i < all.size(); i += c.thorough ? 1 : 7)
    for (int order = 0; order < 4; order++) {
      auto& n = all[i];
      c.leaf([&] { return str("all precisions in order ", order, ": ", n.name); }, [&] {
        const long N = c.thorough ? 600 : 300;
        // what an object says that is asked only once
        std::map<long, ref::V> first;
        for (long p = 0; p <= N; p++) first[p] = val(n.make()->arf(p));
        P x = n.make();
        for (int round = 0; round < 2; round++)
          for (long k = 0; k <= N; k++) {
            long p = order == 0 ? k : order == 1 ? N - k : order == 2 ? (k * 37) % (N + 1) : k % 2 ? N - k / 2 : k / 2;
            check_arf(c, n, x, p, " (in a sweep)");
            auto v = val(x->arf(p));
            c.check(first[p] == v, [&] { return str("arf(", p, ") is ", v.s(), " in a sweep but ", first[p].s(), " on a fresh object"); });
            if (k % 16 == 0) check_ball(c, n, x->arb(p), p, str("arb(", p, ")"), " (in a sweep)");
          }
        c.state(str(n.name, order));
      });
    }
}

// Balls around the number, and near misses.
MC_SUITE(balls) {
  for (auto& n : numbers(c.thorough))
    c.leaf([&] { return str("balls near ", n.name); }, [&] {
      P x = n.make();
      auto t = n.truth(BITS);
      long scale = t.lo == 0 || t.hi == 0 ? 0 : ref::ilog2(t.lo);
      std::vector<Q> ends;
      for (long k : {-1L, 0L, 1L, 3L, 10L, 30L, 53L, 54L, 64L, 65L, 100L, 128L, 300L})
        for (int d = -1; d <= 2; d++) {
          long u = scale - k;
          ends.push_back(ref::dy(ref::floorq(t.lo / ref::pow2(u)) + d, u));
        }
      ends.push_back(0);
      std::sort(ends.begin(), ends.end());
      ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
      std::vector<Arb> bs;
      for (size_t i = 0; i < ends.size(); i++)
        for (size_t j = i; j < ends.size(); j += (j == i ? 1 : 3)) bs.push_back(Arb(std::pair(arf(ends[i]), arf(ends[j])), 400));
      // balls that end very close to the number
      for (long k : {10L, 64L, 100L})
        for (int s : {1, -1}) {
          Arb b;
          Q e = ref::dy(ref::floorq(t.lo / ref::pow2(scale - k)) + (s < 0), scale - k);
          ref::to_arf(arb_midref(b.arb_t()), ref::of_q(e - s * ref::pow2(scale - 3)));
          mag_set_ui_2exp_si(arb_radref(b.arb_t()), 1, scale - 3);
          bs.push_back(b);
        }
      for (auto& b : bs) {
        auto i = ref::interval(b.arb_t());
        int got = x->cmp(b);
        std::string s = ref::show(b.arb_t());
        c.state(s);
        c.check(got >= -1 && got <= 1, [&] { return str("cmp(", s, ") = ", got); });
        bool in = side(t, i.lo) >= 0 && side(t, i.hi) <= 0 && (t.lo >= i.lo && t.hi <= i.hi);
        if (in) {
          c.outcome("inside");
          c.check(got == 0, [&] { return str("cmp(", s, ") = ", got, " but the ball contains the number"); });
        } else if (t.hi < i.lo)
          c.outcome("left"), c.check(got == -1, [&] { return str("cmp(", s, ") = ", got, " but the number is left of the ball"); });
        else if (t.lo > i.hi)
          c.outcome("right"), c.check(got == 1, [&] { return str("cmp(", s, ") = ", got, " but the number is right of the ball"); });
        else
          c.check(got != (side(t, i.lo) < 0 ? 1 : -1), [&] { return str("cmp(", s, ") = ", got, " is the wrong side"); });
        if (!in) continue;
        for (long p : {-2L, 0L, 1L, 2L, 5L, 20L, 53L, 54L, 64L, 70L, 128L, 200L}) {
          Arb r = b;
          long acc = arb_rel_accuracy_bits(r.arb_t());
          x->refine(r, p);
          check_ball(c, n, r, p, str("refine(", s, ", ", p, ")"), "");
          if (t.lo != 0 || t.hi != 0) c.check(arb_rel_accuracy_bits(r.arb_t()) >= std::min(acc, std::max(acc, p)), [&] { return str("refine(", s, ", ", p, ") made the ball worse: ", ref::show(r.arb_t())); });
        }
      }
      Arb inf = Arb::zero_pm_inf();
      c.check(x->cmp(inf) == 0, "not in the whole line");
      // a chain of refinements of the same ball, up and down
      for (int a = 0; a < 6; a++)
        for (int b = 0; b < 6; b++) {
          Arb r = Arb::zero_pm_inf();
          const long ps[]{1, 7, 54, 64, 100, 257};
          for (long p : {ps[a], ps[b], ps[(a + b) % 6]}) {
            x->refine(r, p);
            check_ball(c, n, r, p, str("refine(…, ", p, ")"), " in a chain");
          }
        }
    });
}

// Powers of one number: its error is multiplied by the exponent, which takes up
// the guard digits completely for some exponents.
MC_SUITE(powers) {
  std::vector<long> precs;
  for (long p = 0; p <= 64; p++) precs.push_back(p);
  auto test = [&](unsigned s, int n) {
    P x = RealNumber::random(Seed(s)), p;
    P y = x;
    for (int k = n; k; k /= 2) {
      if (k % 2) p = p ? *p * *y : y;
      if (k > 1) y = *y * *y;
    }
    // the exact value, rounded to 300 bits now and then
    auto i = random(s).truth(400);
    I t{1, 1};
    for (int k = 0; k < n; k++) t = trim(mul(t, i));
    Num num;
    num.enclose = [t](long) { return t; };
    for (long q : precs) {
      check_arf(c, num, p, q, str(" for the power ", n));
      if (q % 8 == 0) check_ball(c, num, p->arb(q), q, str("arb(", q, ")"), str(" for the power ", n));
    }
    c.state(str(s, "^", n));
  };
  const std::vector<int> ns = c.thorough ? std::vector<int>{2, 3, 4, 5, 6, 7, 9, 10, 11, 20, 21, 22, 42, 43, 85, 86, 170, 341} : std::vector<int>{2, 3, 5, 6, 10, 11, 21, 43, 85};
  for (unsigned s = 0; s < (c.thorough ? 4000 : 240); s++)
    c.leaf([&] { return str("powers of random(", s, ")"); }, [&] {
      for (int n : ns) test(s, n);
    });
  // where the error of the approximation almost reaches its bound
  for (auto [s, n] : CLOSE_POWERS)
    c.leaf([&, s = s, n = n] { return str("random(", s, ")^", n); }, [&, s = s, n = n] { test(s, n); });
}

// Numbers of extreme magnitude are the same as ordinary ones up to a shift.
MC_SUITE(huge) {
  const long MAX = std::numeric_limits<long>::max(), MIN = std::numeric_limits<long>::min();
  std::vector<long> shifts{1, -1, 1L << 20, -(1L << 20), 1L << 40, -(1L << 40), 1L << 61, -(1L << 61), 1L << 62, -(1L << 62), (1L << 62) - 5, MAX - 70, MAX - 3, MAX - 2, MAX - 1, MAX, MIN, MIN + 1, MIN + 2, MIN + 3, MIN + 64, MIN + 1000};
  std::vector<std::pair<Q, Q>> is{{1, 2}, {-2, -1}, {0, 1}, {-1, 1}, {3, 5}, {Q(-1, 2), 7}, {5, 6}};
  const int degree = c.thorough ? 40 : 9;
  for (long k : shifts)
    for (auto& i : is)
      // A random number in [0, 2^k] has k bits of which it draws all.
      if (i.first != 0 || k < (1L << 30))
        for (unsigned s = 0; s < (c.thorough ? 40u : 4u); s++)
        c.leaf([&] { return str("random(2^", k, " * [", i.first, ", ", i.second, "]; ", s, ")"); }, [&] {
          Arf a = arf(i.first), b = arf(i.second), A = a, B = b;
          A <<= k, B <<= k;
          auto fits = [](const Arf& x) { return x.exponent().fits_slong_p() != 0; };
          P x, y = RealNumber::random(a, b, Seed(s));
          // The exponents of the ends (as integers times a power of two) decide.
          bool refuse = !(fits(A) && fits(B)), thrown = false;
          try {
            x = RealNumber::random(A, B, Seed(s));
          } catch (const std::exception&) {
            thrown = true;
          }
          c.check(!thrown || refuse || k > MAX - 70 || k < MIN + 70, "this is refused");
          if (thrown) {
            c.outcome("refused");
            return;
          }
          // 0 is not represented with the same exponent as the other end
          if (i.first == 0) {
            c.check(*x > A && *x < B, "it is not in its interval");
            return;
          }
          c.check(*x > A && *x < B && !(*x < A) && !(*x > B), "it is not in its interval");
          Z shift = 0;
          P px, py;
          for (int d = 1; d <= degree; d++) {
            px = px ? *px * *x : x;
            py = py ? *py * *y : y;
            shift += k;
            fmpz_t e;
            fmpz_init(e);
            fmpz_set_mpz(e, shift.get_mpz_t());
            auto scaled = [&](const Arf& z) {
              Arf r = z;
              arf_mul_2exp_fmpz(r.arf_t(), r.arf_t(), e);
              return r;
            };
            auto what = [&](const char* q, long p) { return str(q, "(", p, ") of the power ", d, " is not the same as that of random([", i.first, ", ", i.second, "]) shifted by ", shift); };
            for (long p : {0L, 1L, 2L, 10L, 54L, 64L, 200L}) {
              c.check(arf_equal(px->arf(p).arf_t(), scaled(py->arf(p)).arf_t()), [&] { return what("arf", p); });
              Arb u = px->arb(p), v = py->arb(p);
              arb_mul_2exp_fmpz(v.arb_t(), v.arb_t(), e);
              c.check(arb_equal(u.arb_t(), v.arb_t()), [&] { return what("arb", p); });
              c.check(px->cmp(u) == 0, [&] { return what("cmp", p); });
              c.trans(3);
            }
            const Arf lead = scaled(py->arf(10));
            const bool positive = *py > 0;
            c.check((*px > 0) == positive && (*px < 0) != positive, "the sign");
            if (shift > 2000 || shift < -2000) {
              double v = static_cast<double>(*px);
              c.check(v == (shift < 0 ? 0. : positive ? INFINITY : -INFINITY), [&] { return str("the power ", d, " converts to ", v); });
              c.check((*px > *py) == (positive == (shift > 0)) && (*px < *py) != (*px > *py), [&] { return str("the power ", d, " and the power of the ordinary number"); });
              c.check((*px > Q(1, 3)) == (positive && shift > 0), [&] { return str("the power ", d, " and 1/3"); });
              c.check((*px < Arf(-1)) == (!positive && shift > 0), [&] { return str("the power ", d, " and -1"); });
            }
            Arf up = lead, down = lead;
            up <<= 1, down >>= 1;
            c.check((*px < up) == positive && (*px > down) == positive, [&] { return str("the power ", d, " and its approximations"); });
            fmpz_clear(e);
          }
          std::ostringstream out;
          out << *x << *px;
          c.state(out.str());
        });
}

// A number that takes the place of another one in memory.
MC_SUITE(replaced) {
  std::vector<std::pair<std::string, std::function<Num(unsigned)>>> kinds{
      {"random", [](unsigned s) { return random(s); }},
      {"interval", [](unsigned s) { return between(Q(3), Q(5), s); }},
      {"tiny interval", [](unsigned s) { return between(Q(1), Q(1) + ref::pow2(-70), s); }},
      {"double", [](unsigned s) { return near(-2.5, s); }},
      {"square", [](unsigned s) { return product({random(s), random(s)}); }},
      {"product", [](unsigned s) { return product({random(s), random(s + 1)}); }},
      {"rational", [](unsigned s) { return rational(Q(1, static_cast<long>(2 * s + 1))); }}};
  static const char* queries[] = {"arf", "arb", "double", "cmp", "<", "element", "floor of an element"};
  const int QUERIES = sizeof queries / sizeof *queries;
  const std::vector<long> precs = c.thorough ? std::vector<long>{1, 2, 54, 64, 65, 128, 500, 1000, 5000, 20000} : std::vector<long>{2, 54, 64, 500, 5000};
  // rounded down to a multiple of 2^e
  auto grid = [](const Q& q, long e) { return arf(ref::dy(ref::floorq(q / ref::pow2(e)), e)); };
  auto ask = [&](const Num& n, const P& x, int q, long p, const std::string& when) {
    const I t = n.truth(p + 80);
    switch (q) {
      case 0: check_arf(c, n, x, p, when, p + 80); break;
      case 1: check_ball(c, n, x->arb(p), p, str("arb(", p, ")"), when, p + 80); break;
      case 2: {
        double d = static_cast<double>(*x);
        c.check(d == ref::nearest_double(t.lo) || d == ref::nearest_double(t.hi), [&] { return str("the double of ", n.name, when, " is ", d); });
        break;
      }
      case 3: {
        Q w = abs(t.lo) * ref::pow2(-p);
        Arb inside(std::pair(grid(t.lo - w, -p - 90), grid(t.hi + w, -p - 90)), p + 100), right(grid(t.hi + w, -p - 90));
        c.check(x->cmp(inside) == 0 && x->cmp(right) == -1, [&] { return str("cmp of ", n.name, when, " with balls at ", p, " bits"); });
        break;
      }
      case 4: {
        Q w = abs(t.lo) * ref::pow2(-p);
        Q l = t.lo - w, h = t.hi + w;
        c.check(*x > l && *x < h && !(*x < l) && !(*x > h), [&] { return str("comparisons of ", n.name, when, " at ", p, " bits"); });
        break;
      }
      case 5: {
        auto e = exactreal::Module<exactreal::IntegerRing>::make({x})->gen(0);
        check_ball(c, n, e.arb(p), p, str("arb(", p, ") of an element"), when, p + 80);
        break;
      }
      case 6: {
        // needs p bits after the point
        auto e = exactreal::Module<exactreal::IntegerRing>::make({x})->gen(0);
        e *= ref::pow2z(static_cast<unsigned long>(p));
        Z f = e.floor();
        c.check(f == ref::floorq(t.lo * ref::pow2(p)) || f == ref::floorq(t.hi * ref::pow2(p)), [&] { return str("the floor of ", n.name, when, " times 2^", p); });
        break;
      }
    }
    c.trans();
  };
  unsigned seed = 4000;
  for (auto& k1 : kinds)
    for (auto& k2 : kinds)
      for (long p1 : precs)
        for (unsigned rep = 0; rep < (c.thorough ? 3u : 1u); rep++) {
          const unsigned s = seed += 20;
          c.leaf([&, s] { return str(k1.first, " replaced by ", k2.first, ", ", s, " at ", p1, " bits"); }, [&, s] {
            Num a = k1.second(s);
            // Which of these numbers takes the place of a depends on the allocations.
            std::vector<Num> bs;
            for (unsigned k = 0; k < 4; k++) bs.push_back(k2.second(s + 2 * k + 2));
            // The reference is computed before anything else happens.
            auto fix = [&](Num& n) {
              std::map<long, I> t;
              for (long p : precs) t[p + 80] = n.truth(p + 80);
              if (!n.rational) n.enclose = [t](long bits) { return t.at(bits); };
            };
            fix(a);
            for (auto& b : bs) fix(b);
            for (long p2 : precs)
              for (int q1 = 0; q1 < QUERIES; q1++)
                for (int q2 = 0; q2 < QUERIES; q2++) {
                  if (!c.thorough && p1 != p2 && q1 != q2) continue;
                  P x = a.make();
                  ask(a, x, q1, p1, "");
                  x = nullptr;
                  if (q1 > 4)
                    // Modules are kept alive for a while.
                    for (int i = 0; i < 1030; i++) exactreal::Module<exactreal::IntegerRing>::make({RealNumber::rational(Q(i + 2))});
                  if ((k1.first == "square" || k1.first == "product") && q1 == q2) {
                    // and so are products
                    P y = RealNumber::random(Seed(1));
                    for (unsigned i = 0; i < 1030; i++) *y * *RealNumber::random(Seed(i + 2));
                  }
                  std::vector<P> ys;
                  for (auto& b : bs) {
                    ys.push_back(b.make());
                    ask(b, ys.back(), q2, p2, str(" after ", queries[q1], " at ", p1, " bits of another number that is destroyed"));
                  }
                  ys.clear();
                  x = a.make();
                  ask(a, x, q2, p2, str(" that has been destroyed and made again after ", queries[q2], " at ", p2, " bits of another one"));
                  c.state(str(k1.first, k2.first, p1, p2, q1, q2));
                }
          });
        }
}

// Products: every shape on fresh factors.
MC_SUITE(product_queries) {
  std::vector<std::pair<std::string, std::function<Num(unsigned)>>> kinds;
  auto r = [](unsigned s) { return random(s); };
  auto b = [](Q lo, Q hi) { return [=](unsigned s) { return between(lo, hi, s); }; };
  auto d = [](double x) { return [=](unsigned s) { return near(x, s); }; };
  std::vector<std::function<Num(unsigned)>> f{r, b(-1, 1), b(Q(1), Q(2)), b(-ref::pow2(-70), ref::pow2(-70)), d(1.), d(-1e300), d(1e-300), d(-.75)};
  std::vector<std::vector<size_t>> shapes;
  for (size_t i = 0; i < f.size(); i++)
    for (size_t j = i; j < f.size(); j++) {
      shapes.push_back({i, j});
      if ((i + j) % 2) shapes.push_back({i, j, (i + j) % f.size()});
    }
  std::vector<long> precs;
  for (long p = -2; p <= 20; p++) precs.push_back(p);
  for (long p : {31L, 53L, 54L, 55L, 63L, 64L, 65L, 100L, 127L, 128L, 129L, 256L, 500L}) precs.push_back(p);
  unsigned seeds = c.thorough ? 40 : 6;
  for (auto& shape : shapes)
    for (unsigned s = 0; s < seeds; s++)
      for (int same = 0; same < 2; same++) {
        // the factors are different numbers, or the first one repeated
        std::vector<Num> fs;
        for (size_t i = 0; i < shape.size(); i++) fs.push_back(same && i ? fs[0] : f[shape[i]](s * 7 + static_cast<unsigned>(i)));
        auto n = product(fs);
        c.leaf([&] { return str("queries on ", n.name); }, [&] {
          P x = n.make();
          for (long p : precs) {
            check_arf(c, n, x, p, "");
            check_ball(c, n, x->arb(p), p, str("arb(", p, ")"), "");
            c.state(str(n.name, p));
          }
          check_double(c, n, x, "");
          for (long p : precs) check_arf(c, n, x, p, " again");
        });
      }
  // powers and products of many factors
  for (int deg : {4, 5, 7, 8, 12, 16, 17, 30, 64})
    for (unsigned s = 0; s < seeds; s++)
      for (int kind = 0; kind < 3; kind++) {
        std::vector<Num> fs;
        for (int i = 0; i < deg; i++) fs.push_back(kind == 0 ? random(s) : kind == 1 ? random(s + static_cast<unsigned>(i) % 3) : f[static_cast<size_t>(i) % f.size()](s));
        auto n = product(fs);
        c.leaf([&] { return str("product of degree ", deg, ", kind ", kind, ", seed ", s); }, [&] {
          P x = n.make();
          for (long p : {0L, 1L, 2L, 3L, 10L, 53L, 54L, 64L, 65L, 128L, 300L}) {
            check_arf(c, n, x, p, "");
            check_ball(c, n, x->arb(p), p, str("arb(", p, ")"), "");
          }
          check_double(c, n, x, "");
        });
      }
}

// ---------------------------------------------------------------- C10

MC_SUITE(seeds) {
  const unsigned N = c.thorough ? 1u << 19 : 1u << 15;
  auto one = [&](unsigned s) {
    c.leaf([&] { return str("random(", s, ")"); }, [&] {
      auto t = random(s, 300);
      for (int round = 0; round < 2; round++) {
        P x = RealNumber::random(Seed(s));
        c.check(x == RealNumber::random(Seed(s)), "made twice while it is alive");
        for (long p : {100L, 64L}) {
          auto v = val(x->arf(p)).q();
          c.check(!off(v, t, ref::pow2(-p)), [&] { return str("random(", s, ") has the digits ", val(x->arf(p)).s()); });
        }
        c.check(*x >= 0 && *x <= 1 && *x > Arf(0) && *x < Arf(1), "not in [0, 1]");
      }
      P x = RealNumber::random(Seed(s)), y = RealNumber::random(Seed(s + 1)), z = RealNumber::random(Seed(s ^ 0x80000000u));
      c.check(x != y && *x != *y && (*x < *y) != (*y < *x), "equal to the next seed's number");
      c.check(x != z && *x != *z && (*x < *z) != (*z < *x), "equal to another seed's number");
      c.state(str(s));
    });
  };
  for (unsigned s = 0; s < N; s++) one(s);
  for (int k = 15; k < 32; k++)
    for (int d = -8; d <= 8; d++) one((1u << k) + static_cast<unsigned>(d));
  for (unsigned d = 0; d < 64; d++) one(0xffffffffu - d);
  for (unsigned s : EXTREME_SEEDS)
    for (int d = -3; d <= 3; d++) one(s + static_cast<unsigned>(d));
}

MC_SUITE(random_intervals) {
  std::vector<std::pair<Q, Q>> is = intervals();
  std::vector<Q> grid;
  for (int e = -3; e <= 3; e++)
    for (int m = -7; m <= 7; m++) grid.push_back(m * ref::pow2(e));
  for (long k : {60L, 200L, 5000L}) grid.push_back(ref::pow2(k)), grid.push_back(-ref::pow2(k)), grid.push_back(ref::pow2(-k)), grid.push_back(-ref::pow2(-k));
  std::sort(grid.begin(), grid.end());
  grid.erase(std::unique(grid.begin(), grid.end()), grid.end());
  for (auto& a : grid)
    for (auto& b : grid) is.push_back({a, b});
  // narrow intervals next to a power of two, where one end needs many more bits than the other one
  for (long k : {1L, 2L, 3L, 30L, 31L, 52L, 53L, 62L, 63L, 64L, 65L, 127L, 128L, 500L, 1022L, 1023L, 1024L, 1025L, 1074L, 1500L, 3000L, 5000L})
    for (long e : {0L, 1L, -1L, 5L, -5L, 63L, -64L, 1023L, -1074L, 4000L, -4000L})
      for (int sgn : {1, -1}) {
        Q m = sgn * ref::pow2(e), d = ref::pow2(e - k);
        is.push_back({m - d, m});
        is.push_back({m, m + d});
        is.push_back({m - d, m + d});
        is.push_back({m + d, m + 2 * d});
        if (c.thorough) is.push_back({m - 3 * d, m - d}), is.push_back({m - d, 3 * m + 5 * d}), is.push_back({-3 * m - d, 3 * m + d});
      }
  // ends that are no numbers
  {
    std::vector<std::pair<std::string, Arf>> ends;
    for (double d : std::initializer_list<double>{INFINITY, -INFINITY, NAN, 0, 1, -3.5}) ends.push_back({str(d), Arf(d)});
    Arf huge(1);
    huge <<= std::numeric_limits<long>::max();
    ends.push_back({"2^LONG_MAX", huge});
    for (auto& a : ends)
      for (auto& b : ends) {
        if (arf_is_finite(a.second.arf_t()) && arf_is_finite(b.second.arf_t())) continue;
        c.leaf([&] { return str("random(", a.first, ", ", b.first, ")"); }, [&] {
          for (unsigned s : {0u, 1u}) {
            bool thrown = false;
            try {
              (void)RealNumber::random(a.second, b.second, Seed(s));
            } catch (const std::exception&) {
              thrown = true;
            }
            c.check(thrown, "no exception for an interval that is not bounded");
            c.outcome("unbounded");
          }
        });
      }
  }
  std::vector<unsigned> seeds(c.thorough ? 60 : 6);
  std::iota(seeds.begin(), seeds.end(), 0);
  seeds.insert(seeds.end(), EXTREME_SEEDS.begin(), c.thorough ? EXTREME_SEEDS.end() : EXTREME_SEEDS.begin() + 3);
  for (auto& i : is)
    c.leaf([&] { return str("random(", i.first, ", ", i.second, ")"); }, [&] {
      Arf a = arf(i.first), b = arf(i.second);
      std::set<P> all;
      std::vector<P> order;
      for (unsigned s : seeds) {
        if (i.first >= i.second) {
          bool thrown = false;
          try {
            (void)RealNumber::random(a, b, Seed(s));
          } catch (const std::exception&) {
            thrown = true;
          }
          c.check(thrown, "no exception for an empty interval");
          c.outcome("empty");
          continue;
        }
        ref::V v;
        for (int round = 0; round < 2; round++) {
          P x = RealNumber::random(a, b, Seed(s));
          c.check(x == RealNumber::random(a, b, Seed(s)), "made twice while it is alive");
          Arb ball = x->arb(128);
          auto iv = ref::interval(ball.arb_t());
          c.check(iv.lo <= i.second && i.first <= iv.hi, [&] { return str("seed ", s, " gives ", ref::show(ball.arb_t()), " outside of the interval"); });
          c.check(*x >= a && *x <= b && !(*x < a) && !(*x > b), [&] { return str("seed ", s, " gives ", ref::show(ball.arb_t()), " not between the bounds"); });
          c.check(*x >= i.first && *x <= i.second, [&] { return str("seed ", s, " gives a number that is not between the rational bounds"); });
          auto w = val(x->arf(90));
          if (round)
            c.check(v == w, "the digits change when the number is made again");
          v = w;
        }
        P x = RealNumber::random(a, b, Seed(s));
        all.insert(x);
        for (auto& y : order) c.check(*x != *y && (*x < *y) != (*y < *x), [&] { return str("seed ", s, " gives the same number as another seed"); });
        order.push_back(x);
        c.outcome("number");
        c.state(str(i.first, i.second, s));
      }
      if (i.first < i.second) {
        P x = RealNumber::random(a, b), y = RealNumber::random(a, b);
        c.check(*x != *y && *x >= a && *x <= b && *y >= a && *y <= b, "numbers without a seed");
        c.check(all.size() == seeds.size(), "the numbers of different seeds are not different");
      }
    });
}

// All numbers that can be made from one seed: two of them are the same object
// if and only if they are the same number, and their digits do not depend on
// which of the others are alive.
MC_SUITE(same_seed) {
  std::vector<std::pair<Q, Q>> is = intervals();
  for (Q a : {Q(0), Q(1), Q(-1), Q(1, 2), Q(3), Q(-5, 4), ref::pow2(70), Q(-ref::pow2(-70))})
    for (long k : {-80L, -3L, -2L, -1L, 0L, 1L, 2L, 3L, 4L, 5L, 6L, 20L, 70L, 71L, 72L, 75L, 130L})
      for (int m : {1, 3, 5}) {
        is.push_back({a, a + m * ref::pow2(-k)});
        is.push_back({a - m * ref::pow2(-k), a});
        is.push_back({a + ref::pow2(-k), a + (m + 1) * ref::pow2(-k)});
      }
  std::sort(is.begin(), is.end());
  is.erase(std::unique(is.begin(), is.end()), is.end());
  const auto ds = doubles();
  std::vector<unsigned> seeds(c.thorough ? 40 : 8);
  std::iota(seeds.begin(), seeds.end(), 0);
  seeds.insert(seeds.end(), EXTREME_SEEDS.begin(), EXTREME_SEEDS.end());
  for (unsigned seed : seeds)
    c.leaf([&] { return str("seed ", seed); }, [&] {
      std::vector<Num> ns{random(seed)};
      for (auto& i : is) ns.push_back(between(i.first, i.second, seed));
      for (double d : ds)
        if (std::abs(d) != DBL_MAX) ns.push_back(near(d, seed));
      // the digits of each number while no other is alive
      std::vector<std::string> alone;
      for (auto& n : ns) {
        alone.push_back(val(n.make()->arf(1400)).s());
        c.beat();
      }
      for (size_t step : {size_t(1), ns.size() - 1, size_t(7), size_t(101)}) {
        if (std::gcd(step, ns.size()) != 1) continue;
        std::map<std::string, P> numbers;
        std::map<P, std::string> digits;
        for (size_t k = 0, i = 0; k < ns.size(); k++, i = (i + step) % ns.size()) {
          P x = ns[i].make();
          auto v = val(x->arf(1400)).s();
          c.check(v == alone[i], [&] { return str(ns[i].name, " is ", v, " but was ", alone[i], " when no other number was alive"); });
          auto at = numbers.emplace(v, x);
          c.check(at.second || at.first->second == x, [&] { return str(ns[i].name, ": there are two objects for that number"); });
          auto it = digits.emplace(x, v);
          c.check(it.second || it.first->second == v, [&] { return str(ns[i].name, ": there are two numbers for that object"); });
          c.check(x == ns[i].make(), [&] { return str(ns[i].name, ": made twice while it is alive"); });
          c.state(str(step, seed, ns[i].name));
          c.beat();
        }
        c.outcome(str(numbers.size(), " numbers"));
      }
    });
}

MC_SUITE(random_doubles) {
  auto ds = doubles();
  std::vector<unsigned> seeds(c.thorough ? 200 : 24);
  std::iota(seeds.begin(), seeds.end(), 0);
  seeds.insert(seeds.end(), EXTREME_SEEDS.begin(), EXTREME_SEEDS.end());
  for (double d : ds)
    c.leaf([&] { return str("random(", hex(d), ")"); }, [&] {
      // the numbers that are closer to d than to any other double
      Q v = ref::of_double(d);
      double up = std::nextafter(d, INFINITY), dn = std::nextafter(d, -INFINITY);
      Q hi = std::isinf(up) ? Q(v + (v - ref::of_double(dn)) / 2) : Q((v + ref::of_double(up)) / 2);
      Q lo = std::isinf(dn) ? Q(v - (ref::of_double(up) - v) / 2) : Q((v + ref::of_double(dn)) / 2);
      for (unsigned s : seeds) {
        P x = RealNumber::random(d, Seed(s));
        c.check(x == RealNumber::random(d, Seed(s)), "made twice while it is alive");
        auto iv = ref::interval(x->arb(200).arb_t());
        c.check(lo < iv.lo && iv.hi < hi, [&] { return str("seed ", s, " gives ", ref::show(x->arb(200).arb_t()), " which is not closest to that double"); });
        c.check(static_cast<double>(*x) == d, [&] { return str("seed ", s, " casts to ", hex(static_cast<double>(*x))); });
        auto a = val(x->arf(90));
        x.reset();
        c.check(val(RealNumber::random(d, Seed(s))->arf(90)) == a, "the digits change when the number is made again");
        c.state(hex(d) + str(s));
      }
      P x = RealNumber::random(d), y = RealNumber::random(d);
      c.check(*x != *y && static_cast<double>(*x) == d && static_cast<double>(*y) == d, "numbers without a seed");
    });
  for (double d : std::initializer_list<double>{INFINITY, -INFINITY, NAN, -NAN})
    for (unsigned s = 0; s < 3; s++)
      c.leaf([&] { return str("random(", d, ")"); }, [&] {
        bool thrown = false;
        try {
          (void)RealNumber::random(d, Seed(s));
        } catch (const std::exception&) {
          thrown = true;
        }
        c.check(thrown, "no exception");
        thrown = false;
        try {
          (void)RealNumber::random(d);
        } catch (const std::exception&) {
          thrown = true;
        }
        c.check(thrown, "no exception without a seed");
      });
}

// ---------------------------------------------------------------- C12

namespace {
std::vector<Num> ordered(bool thorough) {
  std::vector<Num> r;
  std::vector<Num> trans;
  for (unsigned s : {0u, 1u, 2u, 1337u}) trans.push_back(random(s));
  for (unsigned s : EXTREME_SEEDS) trans.push_back(random(s));
  trans.push_back(between(-1, 1, 3));
  trans.push_back(between(-2, -1, 3));
  trans.push_back(between(Q(1), 1 + ref::pow2(-90), 4));
  trans.push_back(between(1 - ref::pow2(-90), Q(1), 4));
  trans.push_back(between(-ref::pow2(-90), Q(0), 4));
  trans.push_back(between(Q(0), ref::pow2(-90), 4));
  trans.push_back(between(Q(0), ref::pow2(-90), 5));
  trans.push_back(between(ref::pow2(64), ref::pow2(64) + 1, 5));
  trans.push_back(near(1., 7));
  trans.push_back(near(-1., 7));
  trans.push_back(near(1e300, 7));
  trans.push_back(near(-1e-300, 7));
  trans.push_back(near(0., 7));
  trans.push_back(product({random(0), random(0)}));
  trans.push_back(product({random(0), random(1)}));
  trans.push_back(product({random(1), between(-2, -1, 3)}));
  trans.push_back(product({near(1., 7), near(1., 8)}));
  trans.push_back(product({near(1., 7), near(1., 7)}));
  if (thorough)
    for (unsigned s = 10; s < 30; s++) trans.push_back(random(s)), trans.push_back(between(-1, 1, s)), trans.push_back(near(-2., s)), trans.push_back(product({random(s), random(s + 1)}));
  for (auto& n : trans) {
    r.push_back(n);
    // rationals that are very close to it
    auto t = n.truth(1200);
    long scale = ref::ilog2(t.lo);
    for (long k : {1L, 30L, 64L, 200L, 700L})
      for (int d = 0; d < 2; d++) r.push_back(rational(ref::dy(ref::floorq(t.lo / ref::pow2(scale - k)) + d, scale - k)));
  }
  // however close
  for (size_t i : {size_t(1), size_t(4), trans.size() - 4}) {
    auto& n = trans[i];
    for (long k : thorough ? std::vector<long>{2100, 4200, 9000, 17000, 70000} : std::vector<long>{2100, 9000, 40000}) {
      auto t = n.truth(k + 100);
      long scale = ref::ilog2(t.lo);
      for (int d = 0; d < 2; d++) r.push_back(rational(ref::dy(ref::floorq(t.lo / ref::pow2(scale - k)) + d, scale - k)));
    }
  }
  for (long k : {2100L, 9000L, 70000L}) r.push_back(rational(Q(1, 3) + ref::pow2(-k))), r.push_back(rational(Q(-1, 3) - ref::pow2(-k))), r.push_back(rational(Q(1) - ref::pow2(-k)));
  // numbers in very narrow intervals next to each other
  for (long k : {2100L, 9000L}) {
    r.push_back(between(Q(1), 1 + ref::pow2(-k), 4));
    r.push_back(between(1 + ref::pow2(-k), 1 + 2 * ref::pow2(-k), 5));
    r.push_back(rational(1 + ref::pow2(-k)));
  }
  for (Q q : {Q(0), Q(1), Q(-1), Q(1, 3), Q(-1, 3), Q(2), Q(-2), Q(255), Q(256), Q(127), Q(128), Q(-128), Q(-129), Q(65535), Q(32767), Q(-32768), Q(Z("9223372036854775807")), Q(Z("9223372036854775808")), Q(Z("-9223372036854775808")), Q(Z("18446744073709551615")), Q(Z("18446744073709551616")), Q(2147483647), Q(Z("2147483648")), Q(Z("4294967295")), Q(Z("4294967296"))}) {
    r.push_back(rational(q));
    r.push_back(rational(q + ref::pow2(-200)));
    r.push_back(rational(q - Q(1, 1000)));
  }
  return r;
}
// cmp of the values
int order(const Num& a, const Num& b) {
  for (long bits = 128;; bits *= 2) {
    auto x = a.truth(bits), y = b.truth(bits);
    if (x.hi < y.lo) return -1;
    if (x.lo > y.hi) return 1;
    if (a.rational && b.rational) return 0;
    if (bits > 1000000) throw mc::Failure{"cannot decide the order of " + a.name + " and " + b.name};
  }
}
template <typename A, typename B>
void six(mc::Ctx& c, const A& a, const B& b, int o, const std::string& what) {
  c.check((a < b) == (o < 0), [&] { return str(what, ": < is wrong"); });
  c.check((a <= b) == (o <= 0), [&] { return str(what, ": <= is wrong"); });
  c.check((a > b) == (o > 0), [&] { return str(what, ": > is wrong"); });
  c.check((a >= b) == (o >= 0), [&] { return str(what, ": >= is wrong"); });
  c.check((a == b) == (o == 0), [&] { return str(what, ": == is wrong"); });
  c.check((a != b) == (o != 0), [&] { return str(what, ": != is wrong"); });
}
template <typename A, typename B>
void both(mc::Ctx& c, const A& a, const B& b, int o, const std::string& what) {
  six(c, a, b, o, what);
  six(c, b, a, -o, what + ", the other way round");
}
}  // namespace

MC_SUITE(order_pairs) {
  auto ns = ordered(c.thorough);
  for (size_t i = 0; i < ns.size(); i++)
    for (size_t j = 0; j < ns.size(); j++)
      c.leaf([&] { return str(ns[i].name, " and ", ns[j].name); }, [&] {
        // on fresh objects and on objects that know some digits
        for (int warm = 0; warm < 2; warm++) {
          P a = ns[i].make(), b = ns[j].make();
          if (warm) (void)a->arf(2), (void)a->arf(500), (void)b->arf(64), (void)b->arf(54);
          int o = i == j ? 0 : order(ns[i], ns[j]);
          if (o == 0 && !(ns[i].rational && ns[j].rational)) c.check(ns[i].name == ns[j].name, "the same number twice");
          six(c, *a, *b, o, "");
          auto v = val(a->arf(70));
          if (i == j) c.check(a == b, "the same number is two objects");
          c.check(!off(v.q(), ns[i].truth(200), ref::pow2(-70)), "comparing has changed the number");
        }
        c.state(str(i, " ", j));
      });
}

MC_SUITE(order_others) {
  auto ns = ordered(c.thorough);
  std::vector<Q> qs;
  for (auto& n : ns)
    if (n.rational) qs.push_back(n.q);
  std::sort(qs.begin(), qs.end());
  qs.erase(std::unique(qs.begin(), qs.end()), qs.end());
  for (auto& n : ns)
    for (auto& q : qs)
      c.leaf([&] { return str(n.name, " and the constant ", q); }, [&] {
        P x = n.make();
        int o = order(n, rational(q));
        both(c, *x, q, o, "mpq");
        if (q.get_den() == 1) both(c, *x, Z(q.get_num()), o, "mpz");
        if (dyadic(q)) both(c, *x, arf(q), o, "Arf");
        auto integer = [&](auto t, const char* name) {
          using T = decltype(t);
          if (q.get_den() != 1) return;
          Z z = q.get_num();
          Z lo = std::is_signed_v<T> ? Z(-ref::pow2z(8 * sizeof(T) - 1)) : Z(0), hi = ref::pow2z(8 * sizeof(T) - std::is_signed_v<T>) - 1;
          if (z < lo || z > hi) return;
          T v = std::is_signed_v<T> ? static_cast<T>(z.get_si()) : static_cast<T>(z.get_ui());
          both(c, *x, v, o, name);
          c.outcome(name);
        };
        integer(static_cast<signed char>(0), "signed char");
        integer(static_cast<unsigned char>(0), "unsigned char");
        integer(static_cast<short>(0), "short");
        integer(static_cast<unsigned short>(0), "unsigned short");
        integer(0, "int");
        integer(0u, "unsigned int");
        integer(0l, "long");
        integer(0ul, "unsigned long");
        c.state(n.name + q.get_str());
      });
  for (auto& n : ns)
    c.leaf([&] { return str(n.name, " and infinities"); }, [&] {
      P x = n.make();
      Arf nan;
      arf_nan(nan.arf_t());
      c.check(!(*x == nan) && *x != nan && !(nan == *x) && nan != *x, "it is equal to NaN");
      c.check(!(*x < nan) && !(*x > nan) && !(nan < *x) && !(nan > *x), "it is smaller or larger than NaN");
      Arf inf, ninf;
      arf_pos_inf(inf.arf_t());
      arf_neg_inf(ninf.arf_t());
      both(c, *x, inf, -1, "+inf");
      both(c, *x, ninf, 1, "-inf");
      c.state(n.name);
    });
}

MC_MAIN
