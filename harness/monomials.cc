// Real numbers as monomials: uniqueness, products, quotients, the monomial
// order, and independence of what else has been created and destroyed.
#include "mc.hpp"
#include "realmodel.hpp"
#include "reuse.hpp"

#include <algorithm>
#include <numeric>

#include <exact-real/integer_ring.hpp>
#include <exact-real/module.hpp>
#include <exact-real/rational_field.hpp>

using namespace model;
using mc::str;

namespace {
using Exps = std::vector<int>;

int degree(const Exps& e) { return std::accumulate(e.begin(), e.end(), 0); }
std::string name(const Exps& e) {
  std::string r;
  for (size_t i = 0; i < e.size(); i++)
    if (e[i]) r += (r.empty() ? "" : "*") + std::string(1, static_cast<char>('a' + i)) + (e[i] > 1 ? "^" + std::to_string(e[i]) : "");
  return r.empty() ? "1" : r;
}
// All monomials in n generators with lo <= degree <= hi
std::vector<Exps> monomials(int n, int lo, int hi) {
  std::vector<Exps> r;
  Exps e(static_cast<size_t>(n), 0);
  std::function<void(size_t, int)> go = [&](size_t i, int left) {
    if (i == e.size()) {
      if (degree(e) >= lo) r.push_back(e);
      return;
    }
    for (int k = 0; k <= left; k++) {
      e[i] = k;
      go(i + 1, left - k);
    }
    e[i] = 0;
  };
  go(0, hi);
  std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return std::pair(degree(x), x) < std::pair(degree(y), y); });
  return r;
}

// Generators of several kinds; perm is the order in which they are created.
struct Gens {
  std::vector<P> g;
  explicit Gens(int n, const std::vector<int>& perm = {}, unsigned seed = 100) {
    g.resize(static_cast<size_t>(n));
    for (int k = 0; k < n; k++) {
      int i = perm.empty() ? k : perm[static_cast<size_t>(k)];
      unsigned s = seed + static_cast<unsigned>(i);
      g[static_cast<size_t>(i)] = i == 2 ? RealNumber::random(arf(Q(-3)), arf(Q(5)), Seed(s)) : i == 3 ? RealNumber::random(1.5, Seed(s)) : RealNumber::random(Seed(s));
    }
  }
  P operator()(const Exps& e) const {
    P p = RealNumber::rational(1);
    for (size_t i = 0; i < e.size(); i++)
      for (int k = 0; k < e[i]; k++) p = *p * *g[i];
    return p;
  }
};

// Make unrelated products until every bounded cache has been flushed
void flush(int n = 1100) {
  static unsigned round = 0;
  const unsigned seed = 0xc0000000u + 1000 * round++;  // new numbers each time
  std::vector<P> x, y;
  for (unsigned k = 0; static_cast<int>(x.size() * y.size()) < n; k++) {
    x.push_back(RealNumber::random(Seed(seed + 2 * k)));
    y.push_back(RealNumber::random(Seed(seed + 2 * k + 1)));
  }
  for (auto& a : x)
    for (auto& b : y)
      if (n-- > 0) *a * *b;
}

// Every binary tree over the word, with the factor 1 before/after each product
void groupings(mc::Ctx& c, const std::vector<P>& w, size_t from, size_t to, const std::function<void(const P&)>& f) {
  if (to - from == 1) return f(w[from]);
  for (size_t m = from + 1; m < to; m++)
    groupings(c, w, from, m, [&](const P& l) {
      groupings(c, w, m, to, [&](const P& r) {
        c.trans();
        f(*l * *r);
      });
    });
}
}  // namespace

// Each monomial, written as a product in every order and grouping
MC_SUITE(words) {
  const int G = 4;
  auto ms = monomials(G, 1, c.thorough ? 8 : 7);
  for (int keep = 0; keep < 2; keep++)
    for (auto& m : ms)
      c.leaf([&] { return str("products that are ", name(m), keep ? " (alive)" : " (rebuilt)"); }, [&] {
        Gens G4(G);
        P one = RealNumber::rational(1);
        P expected = keep ? G4(m) : nullptr;
        auto id = keep ? expected.get() : nullptr;
        std::vector<int> word;
        for (int i = 0; i < G; i++)
          for (int k = 0; k < m[static_cast<size_t>(i)]; k++) word.push_back(i);
        Arf reference(0);
        bool have = false;
        do {
          std::vector<P> w;
          for (int i : word) w.push_back(G4.g[static_cast<size_t>(i)]);
          groupings(c, w, 0, w.size(), [&](const P& p) {
            if (!keep) {
              // whatever the caches keep, the digits are the same
              if (!have) {
                reference = p->arf(70);
                have = true;
              }
              c.check(val(p->arf(70)) == val(reference), "the digits of a product depend on how it is written");
              P again = G4(m);
              c.check(again == p && *again == *p && !(*again != *p), "the same product exists twice");
            } else {
              c.check(p.get() == id && *p == *expected, "a product depends on how it is written");
            }
            c.check(*p * *one == p && *one * *p == p, "1 is not neutral");
            c.check(!static_cast<std::optional<mpq_class>>(*p), "a monomial is rational");
          });
          c.state(name(m) + std::string(word.begin(), word.end()));
        } while (std::next_permutation(word.begin(), word.end()));
      });
}

// Products of any two monomials, with distinct ones being distinct objects
MC_SUITE(multiplication_table) {
  struct Case {
    int gens, degree;
  };
  for (auto [gens, deg] : {Case{1, c.thorough ? 80 : 40}, Case{2, c.thorough ? 12 : 9}, Case{3, c.thorough ? 7 : 5}, Case{4, c.thorough ? 5 : 4}, Case{6, c.thorough ? 3 : 2}})
    for (int noise = 0; noise < 2; noise++) {
      auto ms = monomials(gens, 0, deg);
      for (size_t i = 0; i < ms.size(); i++)
        c.leaf([&, gens = gens, deg = deg] { return str("multiples of ", name(ms[i]), " with monomials of degree up to ", deg, " in ", gens, " variables", noise ? " and noise" : ""); }, [&, gens = gens, deg = deg] {
          Gens G(gens, {}, noise ? 300 : 100);
          std::vector<P> ps;
          std::map<const RealNumber*, Exps> who;
          for (auto& m : ms) {
            P p = G(m);
            ps.push_back(p);
            auto [it, fresh] = who.insert({p.get(), m});
            c.check(fresh, [&] { return name(m) + " is the same object as " + name(it->second); });
          }
          std::map<Exps, P> all;
          for (size_t j = 0; j < ms.size(); j++) {
            if (noise && j % 16 == 0) flush(j % 32 ? 1100 : 30);
            Exps e = ms[i];
            for (size_t k = 0; k < e.size(); k++) e[k] += ms[j][k];
            P p = *ps[i] * *ps[j], q = *ps[j] * *ps[i];
            c.check(p == q, [&] { return str(name(ms[i]), " and ", name(ms[j]), " do not commute"); });
            if (degree(e) <= deg) {
              auto it = std::find(ms.begin(), ms.end(), e);
              c.check(p == ps[static_cast<size_t>(it - ms.begin())], [&] { return str(name(ms[i]), " * ", name(ms[j]), " is not ", name(e)); });
            }
            auto [it, fresh] = all.insert({e, p});
            c.check(it->second == p, [&] { return name(e) + " exists twice"; });
            c.check(G(e) == p, [&] { return name(e) + " is something else when multiplied out"; });
            for (auto& [f, o] : all)
              if (f != e) c.check(*o != *p, [&] { return str(name(e), " is the same number as ", name(f)); });
            c.state(str(gens, name(ms[i]), ".", name(ms[j])));
          }
        });
    }
}

// Quotients of any two monomials
MC_SUITE(division_table) {
  struct Case {
    int gens, degree;
  };
  for (auto [gens, deg] : {Case{1, c.thorough ? 40 : 20}, Case{2, c.thorough ? 11 : 8}, Case{3, c.thorough ? 7 : 5}, Case{4, c.thorough ? 5 : 4}, Case{5, c.thorough ? 4 : 3}}) {
    auto ms = monomials(gens, 0, deg);
    for (size_t i = 0; i < ms.size(); i++)
      c.leaf([&, gens = gens] { return str("quotients of ", name(ms[i]), " in ", gens, " variables"); }, [&, gens = gens] {
        Gens G(gens);
        P n = G(ms[i]);
        for (int alive = 0; alive < 2; alive++) {
          for (size_t j = 0; j < ms.size(); j++) {
            P d = G(ms[j]);
            Exps e = ms[i];
            bool exact = true;
            for (size_t k = 0; k < e.size(); k++) exact = (e[k] -= ms[j][k]) >= 0 && exact;
            P want = exact && alive ? G(e) : nullptr;
            auto got = *n / *d;
            c.check(got.has_value() == exact, [&] { return str(name(ms[i]), " / ", name(ms[j]), exact ? " does not exist" : " exists"); });
            c.outcome(exact ? "exact" : "none");
            if (exact) {
              c.check(*got && **got * *d == n, [&] { return str(name(ms[i]), " / ", name(ms[j]), " is not the inverse of a multiplication"); });
              c.check((!alive || *got == want) && G(e) == *got, [&] { return str(name(ms[i]), " / ", name(ms[j]), " is not ", name(e)); });
            }
            c.check(G(ms[i]) == n && G(ms[j]) == d, "the operands have changed");
            c.state(str(gens, name(ms[i]), ".", name(ms[j])));
          }
          flush();
        }
      });
  }
  // rational numbers
  std::vector<Q> qs{1, 2, -1, Q(1, 2), Q(-3, 2), ref::pow2(100), ref::pow2(-100)};
  for (auto& q : qs)
    c.leaf([&] { return "quotients of and by " + q.get_str(); }, [&] {
      Gens G(3);
      P r = RealNumber::rational(q);
      c.check(*r / *r == RealNumber::rational(1), "the quotient by itself is not 1");
      c.check(*r / *RealNumber::rational(1) == r, "the quotient by 1 is something else");
      for (auto& m : monomials(3, 1, 3)) {
        P x = G(m);
        c.check(!(*r / *x).has_value(), [&] { return str("the quotient by ", name(m), " exists"); });
        if (q == 1) {
          auto y = *x / *r;
          c.check(y && *y == x, [&] { return str("the quotient of ", name(m), " is something else"); });
        }
      }
    });
}

// Large exponents, by squaring; their hashes collide
MC_SUITE(large_powers) {
  const int K = 29;
  for (int i = 0; i <= K; i++)
    c.leaf([&] { return str("products of a^(2^", i, ") and powers of b"); }, [&] {
      Gens G(2, {}, 700);
      std::vector<P> a{G.g[0]}, b{G.g[1]};
      for (int k = 0; k < K; k++) a.push_back(*a.back() * *a.back()), b.push_back(*b.back() * *b.back());
      std::map<const RealNumber*, std::string> who;
      for (int j = 0; j <= K; j++) {
        auto si = static_cast<size_t>(i), sj = static_cast<size_t>(j);
        P p = *a[si] * *b[sj];
        c.check(*b[sj] * *a[si] == p, "does not commute");
        c.check(who.insert({p.get(), ""}).second, [&] { return str("a^(2^", i, ") b^(2^", j, ") is not new"); });
        if (i && j) {
          P q = *a[si - 1] * *b[sj - 1];
          c.check(*q * *q == p, "the square is something else");
          P s = *q * *a[si - 1], t = *q * *b[sj - 1];
          c.check(*s * *b[sj - 1] == p && *t * *a[si - 1] == p && *a[si - 1] * *t == p, "another grouping is something else");
          auto d = *p / *q;
          c.check(d && *d == q, "the quotient is something else");
          c.check(*p / *a[si] == b[sj] && *p / *b[sj] == a[si], "the quotient by a factor is something else");
        }
        c.check((*(*b[si] * *a[sj]) / *b[si]) == a[sj], "cannot be cancelled");
        if (i > j) {
          auto d = *a[si] / *a[sj];
          c.check(d && **d * *a[sj] == a[si], "the quotient of powers is something else");
          c.check(!(*a[sj] / *a[si]), "the quotient of powers exists");
        }
        c.check((*a[si]).deglex(*a[sj]) == (i < j) && (*a[sj]).deglex(*a[si]) == (j < i), "the order of powers");
        c.check((*a[si]).deglex(*b[sj]) == (i < j || (i == j && (*a[0]).deglex(*b[0]))), "the order of powers of different variables");
        c.state(str(i, ",", j));
      }
      for (int j = 0; j <= K; j++) c.check(who.insert({a[static_cast<size_t>(j)].get(), ""}).second && who.insert({b[static_cast<size_t>(j)].get(), ""}).second, "a power is not new");
    });
}

// Rational numbers are unique, and multiply as rationals
MC_SUITE(rationals) {
  std::vector<Q> qs;
  for (int d = 1; d <= (c.thorough ? 20 : 12); d++)
    for (int n = -12; n <= 12; n++) qs.push_back(Q(n, d)), qs.back().canonicalize();
  for (long k : {60L, 64L, 1000L, 1100L})
    for (int s : {-1, 1})
      for (int t : {-1, 0, 1}) {
        qs.push_back(s * (ref::pow2(k) + t));
        qs.push_back(1 / qs.back());
        qs.push_back(Q(1, 3) + t * ref::pow2(-k));
        qs.push_back(Q(s) + t * ref::pow2(-k));
      }
  std::sort(qs.begin(), qs.end());
  qs.erase(std::unique(qs.begin(), qs.end()), qs.end());
  for (auto& x : qs)
    c.leaf([&] { return "products with " + x.get_str(); }, [&] {
      P p = RealNumber::rational(x);
      c.check(static_cast<std::optional<mpq_class>>(*p) == x, "the value is something else");
      c.check(static_cast<bool>(*p) == (x != 0), "the cast to bool");
      for (auto& y : qs) {
        P q = RealNumber::rational(y);
        c.check((p == q) == (x == y) && (*p == *q) == (x == y) && (*p != *q) == (x != y), [&] { return "uniqueness of " + y.get_str(); });
        Q z = x * y;
        P r = *p * *q;
        c.check(static_cast<std::optional<mpq_class>>(*r) == z, [&] { return str("the product with ", y.get_str(), " is ", *r); });
        c.check(r == RealNumber::rational(z), [&] { return str("the product with ", y.get_str(), " exists twice"); });
        c.check(RealNumber::rational(x) == p && RealNumber::rational(y) == q, "exists twice");
        if (y != 0 && x == y) c.check(*p / *q == RealNumber::rational(1), "the quotient by itself is not 1");
        c.state(z.get_str());
      }
    });
}

namespace {
// The strict order on all the numbers: total, transitive and compatible.
struct Order {
  std::vector<P> x;
  std::vector<std::string> n;
  std::vector<int> deg;
  std::vector<std::vector<char>> lt;
  void add(const P& p, const std::string& s, int d) {
    x.push_back(p);
    n.push_back(s);
    deg.push_back(d);
  }
  void compute() {
    lt.assign(x.size(), std::vector<char>(x.size()));
    for (size_t i = 0; i < x.size(); i++)
      for (size_t j = 0; j < x.size(); j++) lt[i][j] = x[i]->deglex(*x[j]);
  }
};
}  // namespace

MC_SUITE(order) {
  struct Case {
    int gens, degree;
  };
  int which = 0;
  for (auto [gens, deg] : {Case{2, c.thorough ? 14 : 9}, Case{3, c.thorough ? 8 : 6}, Case{4, c.thorough ? 6 : 5}, Case{5, c.thorough ? 5 : 3}, Case{8, c.thorough ? 3 : 2}}) {
    std::vector<std::vector<int>> perms;
    std::vector<int> p(static_cast<size_t>(gens));
    std::iota(p.begin(), p.end(), 0);
    do perms.push_back(p);
    while (gens <= 4 ? std::next_permutation(p.begin(), p.end()) : std::rotate(p.begin(), p.begin() + 1, p.end()) != p.begin() && p[0] != 0);
    which++;
    for (auto& perm : perms)
      c.leaf([&, gens = gens, deg = deg] { return str("monomials of degree up to ", deg, " in ", gens, " variables, created in the order ", mc::str(perm[0], perm[1], gens > 2 ? perm[2] : 9, gens > 3 ? perm[3] : 9)); }, [&, gens = gens, deg = deg] {
        auto ms = monomials(gens, 1, deg);
        Order o;
        {
          // products of some generators may exist before other generators do
          Gens G(gens, perm, 1000 + 100 * static_cast<unsigned>(which));
          for (auto& q : std::vector<Q>{0, 1, -2, Q(1, 3)}) o.add(RealNumber::rational(q), q.get_str(), 0);
          for (auto& m : ms) o.add(G(m), name(m), degree(m));
          o.compute();
          const size_t N = o.x.size(), R = 4;
          std::vector<char> once;
          for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) {
              bool l = o.lt[i][j], g = o.lt[j][i];
              once.push_back(l);
              c.check(!(l && g), [&] { return str(o.n[i], " and ", o.n[j], " are smaller than each other"); });
              if (i == j || (i < R && j < R))
                c.check(!l, [&] { return str(o.n[i], " < ", o.n[j]); });
              else
                c.check(l || g, [&] { return str(o.n[i], " and ", o.n[j], " are not ordered"); });
              if (o.deg[i] < o.deg[j]) c.check(l, [&] { return str(o.n[i], " < ", o.n[j], " does not hold although the degree is smaller"); });
              c.state(str(gens, o.n[i], "<", o.n[j]));
            }
          for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++) {
              c.beat();
              if (o.lt[i][j])
                for (size_t k = 0; k < N; k++)
                  if (o.lt[j][k]) c.check(o.lt[i][k], [&] { return str(o.n[i], " < ", o.n[j], " < ", o.n[k], " but not ", o.n[i], " < ", o.n[k]); });
            }
          // multiplication with another monomial
          for (size_t k = R; k < N; k++) {
            if (o.deg[k] > 2 && !(c.thorough && o.deg[k] <= 3)) continue;
            std::vector<P> prod;
            for (size_t i = 0; i < N; i++) prod.push_back(i == 1 || i >= R ? *o.x[i] * *o.x[k] : nullptr);
            for (size_t i = 1; i < N; i++)
              for (size_t j = 1; j < N; j++)
                if (prod[i] && prod[j])
                  c.check(prod[i]->deglex(*prod[j]) == static_cast<bool>(o.lt[i][j]), [&] { return str(o.n[i], " < ", o.n[j], " is not the same after multiplication with ", o.n[k]); });
          }
          // ... the order is still the same
          flush();
          {
            Gens H(3, {2, 1, 0}, 77);
            P p = *H.g[0] * *G.g[0];
            P q = *H.g[1] * *p;
          }
          for (size_t r = R; r < N; r++) {
            // drop a product and make it again
            if (o.deg[r] < 2) continue;
            o.x[r].reset();
            o.x[r] = G(ms[r - R]);
          }
          auto before = o.lt;
          o.compute();
          c.check(before == o.lt, "the order has changed");
        }
      });
  }
}

// Exponents around the limits of machine types and floating point numbers
namespace {
std::vector<Exps> large_monomials(int n, bool thorough) {
  std::vector<int> es{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 24) + 1, 1 << 29, 1 << 30, INT_MAX - 1};
  if (n == 3) es = {0, 1, 128, 255, 32768, 65535, 1 << 24, 1 << 29};
  if (thorough && n == 3)
    for (int e : {2, INT_MAX}) es.push_back(e);
  else if (thorough)
    for (int e : {2, 3, 129, 32766, 65537, 1 << 24, (1 << 24) - 1, (1 << 29) + 1, INT_MAX}) es.push_back(e);
  std::vector<Exps> r;
  Exps e(static_cast<size_t>(n), 0);
  std::function<void(size_t, long)> go = [&](size_t i, long left) {
    if (i == e.size()) {
      if (degree(e)) r.push_back(e);
      return;
    }
    for (int k : es)
      if (k <= left) {
        e[i] = k;
        go(i + 1, left - k);
      }
    e[i] = 0;
  };
  go(0, INT_MAX);
  return r;
}
struct Powers {
  std::vector<std::vector<P>> p;
  explicit Powers(const Gens& G) {
    for (auto& g : G.g) {
      p.push_back({g});
      for (int k = 1; k <= 30; k++) p.back().push_back(*p.back().back() * *p.back().back());
    }
  }
  P operator()(const Exps& e) const {
    P r = RealNumber::rational(1);
    for (size_t i = 0; i < e.size(); i++)
      for (int k = 0; k <= 30; k++)
        if (e[i] >> k & 1) r = *r * *p[i][static_cast<size_t>(k)];
    return r;
  }
};
}  // namespace

MC_SUITE(order_large) {
  for (int gens : {2, 3})
    for (int swapped = 0; swapped < 2; swapped++) {
      auto ms = large_monomials(gens, c.thorough);
      // All pairs, in parts, for the degrees and totality; the order has to be
      // the same as that of the small monomials with the same pattern.
      for (size_t i = 0; i < ms.size(); i++)
        c.leaf([&] { return str(name(ms[i]), " and all others, ", swapped ? "b" : "a", " was created first"); }, [&] {
          std::vector<int> perm{0, 1, 2};
          perm.resize(static_cast<size_t>(gens));
          if (swapped) std::reverse(perm.begin(), perm.end());
          Gens G(gens, perm, 900);
          Powers pow(G);
          P x = pow(ms[i]);
          c.check(x == pow(ms[i]), "it exists twice");
          P g = G.g[0];
          std::vector<P> others;
          for (size_t j = 0; j < ms.size(); j++) {
            P y = pow(ms[j]);
            c.check((x == y) == (i == j), [&] { return str(name(ms[j]), " is the same number"); });
            bool l = x->deglex(*y), m = y->deglex(*x);
            auto what = [&] { return str(name(ms[i]), " < ", name(ms[j]), ": ", l, ", > ", m); };
            c.check(i == j ? !l && !m : l != m, what);
            int di = degree(ms[i]), dj = degree(ms[j]);
            if (di != dj)
              c.check(l == (di < dj), what);
            else if (i != j) {
              // Divide by the common part; what is left compares like that part
              // with all exponents replaced.
              Exps u = ms[i], v = ms[j];
              for (size_t k = 0; k < u.size(); k++) {
                int d = std::min(u[k], v[k]);
                u[k] -= d, v[k] -= d;
              }
              P a = pow(u), b = pow(v);
              c.check(a->deglex(*b) == l && b->deglex(*a) == m, [&] { return str(what(), " but ", name(u), " < ", name(v), " is ", !l); });
            }
            if (di < INT_MAX && dj < INT_MAX) {
              P gx = *g * *x, gy = *g * *y;
              c.check(gx->deglex(*gy) == l && gy->deglex(*gx) == m, [&] { return str(what(), " is not the same after multiplication with a"); });
            }
            auto q = *x / *y;
            bool divides = true;
            Exps d = ms[i];
            for (size_t k = 0; k < d.size(); k++)
              if ((d[k] -= ms[j][k]) < 0) divides = false;
            c.check(q.has_value() == divides, [&] { return str(name(ms[j]), " divides: ", q.has_value()); });
            if (q && divides) c.check(*q == pow(d), [&] { return str("the quotient by ", name(ms[j])); });
            c.state(str(gens, swapped, name(ms[i]), "<", name(ms[j])));
            c.beat();
          }
        });
    }
}

// Products at and beyond the largest exponent
MC_SUITE(degree_overflow) {
  for (int gens : {1, 2, 3}) {
    auto ms = large_monomials(gens, c.thorough);
    for (auto& m : ms)
      c.leaf([&] { return str(name(m), " times all others"); }, [&] {
        Gens G(gens, {}, 940);
        Powers pow(G);
        P x = pow(m);
        for (auto& n : ms) {
          P y = pow(n);
          auto what = [&] { return str(name(m), " times ", name(n)); };
          long d = static_cast<long>(degree(m)) + degree(n);
          P p;
          bool threw = false;
          try {
            p = *x * *y;
          } catch (const std::overflow_error&) { threw = true; }
          c.check(threw == (d > INT_MAX), [&] { return str(what(), " is of degree ", d, " and ", threw ? "throws" : "does not throw"); });
          c.check(pow(m) == x && pow(n) == y && x->deglex(*y) == (x != y && !y->deglex(*x)), [&] { return str(what(), " has changed its operands"); });
          if (p) {
            Exps e = m;
            for (size_t k = 0; k < e.size(); k++) e[k] += n[k];
            c.check(p == pow(e), [&] { return str(what(), " is not ", name(e)); });
            auto q = *p / *y;
            c.check(q && *q == x, [&] { return str(what(), " divided by ", name(n)); });
          } else {
            // nothing is left behind
            bool again = false;
            try {
              *y * *x;
            } catch (const std::overflow_error&) { again = true; }
            c.check(again, [&] { return str(what(), " does not throw the other way around"); });
          }
          c.state(str(gens, name(m), "*", name(n)));
          c.beat();
        }
      });
  }
}

// Every history of creations and destructions over a small set of names. Each
// history is about numbers of its own, so that it starts from the same state.
namespace {
using exactreal::IntegerRing;
using exactreal::Module;
using exactreal::RationalField;

struct World {
  static constexpr int A = 0, B = 1, C = 2, R = 3, AB = 4, ABC = 5, A2B = 6, M = 7, N = 8, COUNT = 9;
  unsigned salt;
  P x[7];
  std::shared_ptr<const Module<IntegerRing>> m;
  std::shared_ptr<const Module<RationalField>> n;
  std::optional<ref::V> digits[7], former[7];  // of this object, and of an earlier one

  explicit World(unsigned salt) : salt(salt) {}

  static const char* label(int i) {
    static const char* names[] = {"a", "b", "c", "1/r", "ab", "abc", "a²b", "M(a, ab)", "N(1/r, b, a²b)"};
    return names[i];
  }
  bool alive(int i) const { return i < 7 ? !!x[i] : i == M ? !!m : !!n; }
  void drop(int i) {
    if (i < 7) {
      x[i].reset();
      if (digits[i]) former[i] = digits[i];
      digits[i].reset();
    } else if (i == M)
      m.reset();
    else
      n.reset();
  }
  // How many ways to write it?
  static int ways(int i) { return i < AB ? 1 : i == AB ? 2 : i == ABC ? 12 : 6; }
  // builds from scratch, never from what is alive, except through the library's caches
  P build(int i, int way = 0) const {
    auto times = [&](auto&& f, auto&& g) {
      P p = f(), q = g();
      return *p * *q;
    };
    auto pair = [&](int i, int j) { return times([&] { return build(i); }, [&] { return build(j); }); };
    switch (i) {
      case A: return RealNumber::random(Seed(3 * salt));
      case B: return RealNumber::random(arf(Q(-2)), arf(Q(3)), Seed(3 * salt + 1));
      case C: return RealNumber::random(2.5, Seed(3 * salt + 2));
      case R: return RealNumber::rational(Q(1, 3 + salt));
      case AB: return way ? pair(B, A) : pair(A, B);
      case ABC: {
        const int perms[6][3] = {{B, C, A}, {A, B, C}, {A, C, B}, {B, A, C}, {C, A, B}, {C, B, A}};
        auto& p = perms[way % 6];
        if (way < 6) return times([&] { return pair(p[0], p[1]); }, [&] { return build(p[2]); });
        return times([&] { return build(p[2]); }, [&] { return pair(p[0], p[1]); });
      }
      default: {
        const int words[3][3] = {{B, A, A}, {A, A, B}, {A, B, A}};
        auto& p = words[way % 3];
        if (way < 3) return times([&] { return pair(p[0], p[1]); }, [&] { return build(p[2]); });
        return times([&] { return build(p[2]); }, [&] { return pair(p[0], p[1]); });
      }
    }
  }
  auto buildM() const { return Module<IntegerRing>::make({build(AB), build(A)}); }
  auto buildN() const { return Module<RationalField>::make({build(B), build(R), build(A2B)}); }
  void create(int i) {
    if (i < 7)
      x[i] = build(i);
    else if (i == M)
      m = buildM();
    else
      n = buildN();
  }
};
}  // namespace

MC_SUITE(histories) {
  const int D = c.thorough ? 6 : 5;
  const int OPS = World::COUNT + 1;  // toggle a name, or flush the caches
  for (int first = 0; first < OPS * OPS; first++)
    c.leaf([&] { auto l = [](int o) { return o == World::COUNT ? "flush" : World::label(o); }; return str("histories that start with ", l(first / OPS), ", ", l(first % OPS)); }, [&] {
      std::vector<int> ops;
      unsigned salt = static_cast<unsigned>(first) << 22;
      auto run = [&](World& w, int o) {
        if (o == World::COUNT)
          flush(ops.size() % 2 ? 1030 : 70);
        else if (w.alive(o))
          w.drop(o);
        else
          w.create(o);
      };
      auto history = [&] {
        std::string s;
        for (int o : ops) s += str(s.empty() ? "" : ", ", o == World::COUNT ? "flush" : World::label(o));
        return s;
      };
      using Order = std::vector<std::vector<signed char>>;
      auto digits = [&](World& w, int i) {
        auto d = val(w.x[i]->arf(80));
        if (!w.digits[i]) w.digits[i] = d;
        c.check(*w.digits[i] == d, [&] { return str("the digits of ", World::label(i), " are ", d.s(), " after ", history()); });
        // Products may be rounded in another way when they are made again.
        if (w.former[i]) c.check(*w.former[i] == d || (i >= World::AB && abs(w.former[i]->q() - d.q()) <= ref::pow2(-79) * abs(d.q())), [&] { return str("the digits of ", World::label(i), " are ", d.s(), " when it is made again after ", history()); });
      };
      auto verify = [&](World& w, Order& order, const Order& was, bool last) {
        order.assign(7, std::vector<signed char>(7, -1));
        for (int i = 0; i < 7; i++)
          for (int j = 0; j < 7; j++)
            if (w.x[i] && w.x[j]) {
              auto si = static_cast<size_t>(i), sj = static_cast<size_t>(j);
              order[si][sj] = w.x[i]->deglex(*w.x[j]);
              c.check((w.x[i] == w.x[j]) == (i == j), [&] { return str(World::label(i), " and ", World::label(j), " are the same after ", history()); });
              if (was[si][sj] >= 0) c.check(was[si][sj] == order[si][sj], [&] { return str("the order of ", World::label(i), " and ", World::label(j), " has changed after ", history()); });
            }
        for (int i = 0; i < 7; i++)
          if (w.x[i]) digits(w, i);
        // the names, in a history that ends here
        for (int i = 0; last && i < World::COUNT; i++) {
          if (!w.alive(i)) continue;
          if (i < 7) {
            for (int way = 0; way < World::ways(i); way++) c.check(w.build(i, way) == w.x[i], [&] { return str(World::label(i), " exists twice after ", history(), " (when it is written as number ", way, ")"); });
            digits(w, i);
          } else if (i == World::M) {
            c.check(w.buildM() == w.m, [&] { return str(World::label(i), " exists twice after ", history()); });
            auto& b = w.m->basis();
            c.check(b.size() == 2 && b[0] == w.build(World::A) && b[1] == w.build(World::AB, 1), [&] { return str("the basis of ", World::label(i), " has changed after ", history()); });
          } else {
            c.check(w.buildN() == w.n, [&] { return str(World::label(i), " exists twice after ", history()); });
            auto& b = w.n->basis();
            c.check(b.size() == 3 && b[0] == w.build(World::R) && b[1] == w.build(World::B) && b[2] == w.build(World::A2B, 4), [&] { return str("the basis of ", World::label(i), " has changed after ", history()); });
          }
        }
      };
      const Order none(7, std::vector<signed char>(7, -1));
      // depth first; every history is executed from the start
      std::function<void()> dfs = [&] {
        c.beat();
        if (static_cast<int>(ops.size()) >= D) return;
        for (int o = 0; o < OPS; o++) {
          if (ops.size() == 0 && o != first / OPS) continue;
          if (ops.size() == 1 && o != first % OPS) continue;
          if (o == World::COUNT && std::count(ops.begin(), ops.end(), o) >= (c.thorough ? 2 : 1)) continue;
          ops.push_back(o);
          {
            // replay, so that nothing but the history keeps objects alive
            World v(++salt);
            Order order = none, last = none;
            std::vector<int> all = ops;
            ops.clear();
            for (size_t k = 0; k < all.size(); k++) {
              ops.push_back(all[k]);
              run(v, all[k]);
              c.trans();
              // what is dropped may be ordered differently when it is made again
              if (k + 1 == all.size() || k % 2 == 1) {
                verify(v, order, last, k + 1 == all.size());
                last = order;
              } else {
                for (int i = 0; i < 7; i++)
                  for (int j = 0; j < 7; j++)
                    if (!v.x[i] || !v.x[j]) last[static_cast<size_t>(i)][static_cast<size_t>(j)] = -1;
              }
            }
            std::string s;
            for (int i = 0; i < World::COUNT; i++) s += v.alive(i) ? '1' : '0';
            if (std::count(ops.begin(), ops.end(), +World::COUNT)) s += "f";
            c.state(s + "|" + std::to_string(o));
          }
          dfs();
          ops.pop_back();
        }
      };
      dfs();
    });
}

MC_MAIN
