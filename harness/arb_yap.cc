// Expressions over Arb contain the exact result for all points in their
// operands and are no wider than a step by step evaluation.
#include "mc.hpp"
#include "yapmodel.hpp"

#include <exact-real/arb.hpp>
#include <exact-real/arf.hpp>
#include <exact-real/yap/arb.hpp>

using namespace ref;
using exactreal::Arb;
using exactreal::Arf;
using mc::str;
enum NoRound { NOROUND };
using E = yapmodel::E<NoRound>;
using yapmodel::Node;

namespace {
// Step by step evaluation with FLINT.
struct Ball {
  ::arb_t b;
  Ball() { arb_init(b); }
  Ball(const Ball& o) {
    arb_init(b);
    arb_set(b, o.b);
  }
  Ball& operator=(const Ball& o) {
    arb_set(b, o.b);
    return *this;
  }
  ~Ball() { arb_clear(b); }
  bool same(const ::arb_t o) const { return arf_equal(arb_midref(b), arb_midref(o)) && mag_equal(arb_radref(b), arb_radref(o)); }
};
void step(Ball& out, const Node& n, const Ball* vars, long p) {
  switch (n.op) {
    case 'v': out = vars[n.var]; return;
    case 'k':
      to_arf(arb_midref(out.b), of_q(n.k));
      mag_zero(arb_radref(out.b));
      return;
    case 'n':
      step(out, *n.a, vars, p);
      arb_neg(out.b, out.b);
      return;
    case 'p': step(out, *n.a, vars, n.prec); return;
    default: break;
  }
  Ball a, b;
  step(a, *n.a, vars, p);
  step(b, *n.b, vars, p);
  switch (n.op) {
    case '+': arb_add(out.b, a.b, b.b, p); return;
    case '-': arb_sub(out.b, a.b, b.b, p); return;
    case '*': arb_mul(out.b, a.b, b.b, p); return;
    default: arb_div(out.b, a.b, b.b, p); return;
  }
}
// The exact value at a point; nothing if it divides by zero.
std::optional<Q> exact(const Node& n, const Q* vars) {
  switch (n.op) {
    case 'v': return vars[n.var];
    case 'k': return n.k;
    case 'p': return exact(*n.a, vars);
    default: break;
  }
  auto a = exact(*n.a, vars);
  if (!a) return a;
  if (n.op == 'n') return Q(-*a);
  auto b = exact(*n.b, vars);
  if (!b) return b;
  switch (n.op) {
    case '+': return Q(*a + *b);
    case '-': return Q(*a - *b);
    case '*': return Q(*a * *b);
    default: break;
  }
  if (*b == 0) return {};
  return Q(*a / *b);
}
bool narrower(const ::arb_t x, const ::arb_t y) {  // x is at most as wide as y
  if (!arb_is_finite(y)) return true;
  return arb_is_finite(x) && mag_cmp(arb_radref(x), arb_radref(y)) <= 0;
}

Arb COPY(const Arb& x) { return x; }
E COPY(const E& x) { return x; }

struct Shape {
  std::string name;
  bool inplace, mixed;
  Arb (*real)(int d, Arb& x, Arb& y, Arb& z, long p, long q);
  E (*model)(E x, E y, E z, long p, long q);
};
std::vector<Shape>& shapes() {
  static std::vector<Shape> s;
  return s;
}
bool has(const char* t, char ch) { return strchr(t, ch) != nullptr; }

#define UNUSED (void)x, (void)y, (void)z, (void)p, (void)q
#define REAL_LOCALS                                  \
  const Arb& cx = x;                                 \
  auto B = [](long v) { return Arb(v); };            \
  (void)B, (void)cx
#define MODEL_LOCALS                                 \
  E cx = x;                                          \
  auto B = [](long v) { return E(v); };              \
  (void)B
// destination d: 0: construct, 1: fresh variable, 2: x, 3: y, 4: z, 5: construct from a moved expression, 6: assign a moved expression
#define EXPR(...)                                                                              \
  shapes().push_back({#__VA_ARGS__, false, has(#__VA_ARGS__, 'q'),                             \
                      [](int d, Arb& x, Arb& y, Arb& z, long p, long q) -> Arb {               \
                        UNUSED;                                                                \
                        REAL_LOCALS;                                                           \
                        if (d == 0) {                                                          \
                          Arb w(__VA_ARGS__);                                                  \
                          return w;                                                            \
                        }                                                                      \
                        if (d == 5) {                                                          \
                          auto e = __VA_ARGS__;                                                \
                          Arb w(std::move(e));                                               \
                          return w;                                                            \
                        }                                                                      \
                        Arb w(-77);                                                            \
                        if (d == 6) {                                                          \
                          auto e = __VA_ARGS__;                                                \
                          w = std::move(e);                                                  \
                          return w;                                                            \
                        }                                                                      \
                        Arb& t = d == 1 ? w : d == 2 ? x : d == 3 ? y : z;                     \
                        Arb& u = (t = __VA_ARGS__);                                            \
                        if (&u != &t) throw mc::Failure{"does not return its left hand side"}; \
                        return t;                                                              \
                      },                                                                       \
                      [](E x, E y, E z, long p, long q) -> E {                                 \
                        UNUSED;                                                                \
                        MODEL_LOCALS;                                                          \
                        return E(__VA_ARGS__);                                                 \
                      }});
#define INPLACE_(OPEQ, ...)                                                                    \
  shapes().push_back({"x " #OPEQ " " #__VA_ARGS__, true, has(#__VA_ARGS__, 'q'),               \
                      [](int, Arb& x, Arb& y, Arb& z, long p, long q) -> Arb {                 \
                        UNUSED;                                                                \
                        REAL_LOCALS;                                                           \
                        Arb& t = (x OPEQ __VA_ARGS__);                                         \
                        if (&t != &x) throw mc::Failure{"does not return its left hand side"}; \
                        return x;                                                              \
                      },                                                                       \
                      [](E x, E y, E z, long p, long q) -> E {                                 \
                        UNUSED;                                                                \
                        MODEL_LOCALS;                                                          \
                        return x.inplace(#OPEQ[0], __VA_ARGS__);                               \
                      }});

#define TWO(O, OEQ)                        \
  EXPR((x O y)(p))                         \
  EXPR((x O x)(p))                         \
  EXPR((cx O COPY(y))(p))                  \
  EXPR((x O 3)(p))                         \
  EXPR((-5 O x)(p))                        \
  EXPR((x O 9007199254740993L)(p))         \
  EXPR((std::numeric_limits<long>::min() O x)(p)) \
  EXPR((x O std::numeric_limits<unsigned long>::max())(p)) \
  EXPR((7L O x)(p))                        \
  EXPR((x O 0)(p))                         \
  EXPR((x O 0.375)(p))                     \
  EXPR((-1.5 O y)(p))                      \
  EXPR((B(-3) O y)(p))                     \
  EXPR((-(x O y))(p))                      \
  EXPR((-x O y)(p))                        \
  EXPR((x O(-y))(p))                       \
  INPLACE_(OEQ, y(p))                      \
  INPLACE_(OEQ, x(p))                      \
  INPLACE_(OEQ, B(-3)(p))                  \
  INPLACE_(OEQ, (y + z)(p))                \
  INPLACE_(OEQ, (y - x)(p))                \
  INPLACE_(OEQ, (x * y)(p))                \
  INPLACE_(OEQ, (y / z)(p))                \
  INPLACE_(OEQ, (x - (y * z)(q))(p))       \
  INPLACE_(OEQ, ((x + y)(q))(p))           \
  INPLACE_(OEQ, (-y)(p))                   \
  INPLACE_(OEQ, (y * 3)(p))

#define THREE(O, U)                        \
  EXPR(((x O y) U z)(p))                   \
  EXPR((x O(y U z))(p))                    \
  EXPR((x O(y U x))(p))                    \
  EXPR(((x O y) U(x O z))(p))              \
  EXPR(((x O y) U(z O x))(p))              \
  EXPR((x O(y U z)(q))(p))                 \
  EXPR((x O(y U z(q))(q))(p))              \
  EXPR(((x O y) U(z O x)(p))(q))        \
  EXPR((-(x O y) U z)(p))                  \
  EXPR((2 O(x U y))(p))                    \
  EXPR((x O(2 U y))(p))

struct Init {
  Init() {
    TWO(+, +=)
    TWO(-, -=)
    TWO(*, *=)
    TWO(/, /=)
    THREE(+, +)
    THREE(+, -)
    THREE(+, *)
    THREE(+, /)
    THREE(-, +)
    THREE(-, -)
    THREE(-, *)
    THREE(-, /)
    THREE(*, +)
    THREE(*, -)
    THREE(*, *)
    THREE(*, /)
    THREE(/, +)
    THREE(/, -)
    THREE(/, *)
    THREE(/, /)
    EXPR(((x + y) + ((y - z) * (x + z)))(p))
    EXPR((((x + y) * z - x) / y + z)(p))
    EXPR((x - (y - (z - (x - y))))(p))
    EXPR((-(-(x + y)))(p))
    EXPR((x + y * z)(p))
    EXPR((x * y + z)(p))
    EXPR((x * y - z * x)(p))
    EXPR(-(-x))
    EXPR(-x)
    EXPR(x(p))
  }
};

struct BallV {
  V mid;
  Z rm;
  long re;  // radius rm * 2^re; re == LONG_MAX for an infinite radius
  std::string s() const { return re == LONG_MAX ? str("[", mid.s(), " +/- inf]") : str("[", mid.s(), " +/- ", V(rm, re).s(), "]"); }
  void to(::arb_t b) const {
    to_arf(arb_midref(b), mid);
    if (re == LONG_MAX) {
      mag_inf(arb_radref(b));
    } else {
      ::arf_t r;
      arf_init(r);
      to_arf(r, V(rm, re));
      arf_get_mag(arb_radref(b), r);  // rounds up
      // radii here have few bits, so that the exact value can be set
      mag_t m;
      mag_init(m);
      mag_set_ui_2exp_si(m, rm.get_ui(), re);
      mag_set(arb_radref(b), m);
      mag_clear(m);
      arf_clear(r);
    }
  }
  std::vector<Q> points() const {
    if (!mid.fin()) return {};
    Q m = mid.q();
    if (re == LONG_MAX) return {Q(0), m, Q(-12345)};
    Q r = V(rm, re).q();
    if (r == 0) return {m};
    return {m, Q(m - r), Q(m + r), Q(m + r / 3)};
  }
};

void run(mc::Ctx& c, const Shape& sh, const std::vector<BallV>& vs, const std::vector<std::pair<long, long>>& precs, bool alldst) {
  bool usez = sh.name.find('z') != std::string::npos;
  bool usey = sh.name.find('y') != std::string::npos;
  std::vector<BallV> one{vs[1]};
  for (auto& vx : vs)
    for (auto& vy : usey ? vs : one)
      c.leaf([&] { return str(sh.name, " with x = ", vx.s(), ", y = ", vy.s()); }, [&] {
        for (auto& vz : usez ? vs : one) {
          Ball vars[3];
          vx.to(vars[0].b);
          vy.to(vars[1].b);
          vz.to(vars[2].b);
          auto px = vx.points(), py = vy.points(), pz = vz.points();
          if (!usey && py.size()) py.resize(1);
          if (!usez && pz.size()) pz.resize(1);
          std::vector<Q> want;
          {
            E e = sh.model(E::variable(0), E::variable(1), E::variable(2), 64, 64);
            for (auto& a : px)
              for (auto& b : py)
                for (auto& d : pz) {
                  Q v[] = {a, b, d};
                  if (auto w = exact(*e.n, v)) want.push_back(*w);
                }
          }
          for (auto& pq : precs) {
            long p = pq.first, q = pq.second;
            E e = sh.model(E::variable(0), E::variable(1), E::variable(2), p, q);
            Ball direct;
            step(direct, *e.n, vars, 64);
            for (int d = sh.inplace ? 2 : 0; d < (sh.inplace ? 3 : alldst ? 7 : 3); d++) {
              Arb x, y, z;
              vx.to(x.arb_t());
              vy.to(y.arb_t());
              vz.to(z.arb_t());
              Arb got = sh.real(d, x, y, z, p, q);
              auto where = [&] { return str("z = ", vz.s(), ", p = ", p, ", q = ", q, ", destination ", d, ": "); };
              c.check(narrower(got.arb_t(), direct.b), [&] { return str(where(), "result ", show(got.arb_t()), " is wider than ", show(direct.b)); });
              if (!direct.same(got.arb_t()) || d == 0)
                for (auto& w : want)
                  c.check(contains(got.arb_t(), w), [&] { return str(where(), "result ", show(got.arb_t()), " does not contain ", w); });
              else
                c.check(true, [] { return std::string(); });
              c.check((d == 2 || vars[0].same(x.arb_t())) && (d == 3 || vars[1].same(y.arb_t())) && (d == 4 || vars[2].same(z.arb_t())), [&] { return str(where(), "an operand changed"); });
            }
            c.state(show(direct.b));
          }
        }
      });
}
Init init;
}  // namespace

// Small dyadic balls at tiny precisions, where every operation rounds.
MC_SUITE(expressions_small) {
  std::vector<BallV> vs{{V(), 0, 0}, {V(5, 1), 1, 0}, {V(-7, -3), 0, 0}, {V(11, -4), 1, -4}, {V(-1, 0), 3, 0}};
  if (c.thorough) vs.insert(vs.end(), {{V(13, 0), 1, -10}, {V(-9, 2), 0, 0}, {V(), 1, -2}});
  std::vector<std::pair<long, long>> precs{{2, 5}, {5, 2}};
  if (c.thorough) precs.insert(precs.end(), {{3, 64}, {64, 3}});
  for (auto& sh : shapes()) run(c, sh, vs, precs, true);
}

// Numbers with many bits and very different magnitudes.
MC_SUITE(expressions_wide) {
  std::vector<BallV> vs{{V(pow2z(64) + 1, -32), 0, 0}, {V(1 - pow2z(63), 0), 1, -70}, {V(Z("123456789012345678901234567890123456789"), -60), 0, 0}, {V(3, 200), 5, 100}, {V(-5, -200), 1, -260}};
  for (auto& sh : shapes()) run(c, sh, vs, {{53, 64}, {128, 53}, {64, 113}}, false);
}

// Zero, infinite radius and balls around zero.
MC_SUITE(expressions_special) {
  std::vector<BallV> vs{{V(), 0, 0}, {V(-3, 0), 0, 0}, {V(1, 1), 1, 5}, {V(7, -2), 0, LONG_MAX}, {V(), 1, -2000}};
  if (c.thorough) vs.insert(vs.end(), {{V(V::PINF), 0, 0}, {V(V::NANV), 0, 0}});
  for (auto& sh : shapes()) run(c, sh, vs, {{24, 53}}, false);
}

// Sequences of in-place operations and assignments on a pair of balls; states
// are merged by value.
MC_SUITE(accumulate_histories) {
  std::vector<BallV> vs{{V(3, 0), 0, 0}, {V(-5, -2), 1, -8}, {V(1, 4), 1, 0}, {V(), 1, -1}};
  const int depth = c.thorough ? 5 : 4;
  for (auto& vx : vs)
    for (auto& vy : vs)
      for (long p : {3L, 24L, 64L})
        c.leaf([&] { return str("x = ", vx.s(), ", y = ", vy.s(), ", p = ", p); }, [&] {
          struct S {
            Ball x, y;
            Q px, py;      // points in x and y that are tracked exactly
            bool ok = true;  // whether the points are defined
          };
          std::set<std::string> seen;
          std::vector<S> frontier(1);
          vx.to(frontier[0].x.b);
          vy.to(frontier[0].y.b);
          frontier[0].px = vx.points().back();
          frontier[0].py = vy.points().back();
          for (int d = 0; d < depth; d++) {
            std::vector<S> next;
            for (auto& s : frontier)
              for (int o = 0; o < 12; o++) {
                Arb x, y;
                arb_set(x.arb_t(), s.x.b);
                arb_set(y.arb_t(), s.y.b);
                S m = s;
                Ball t;
                switch (o) {
                  case 0: x += y(p); arb_add(m.x.b, m.x.b, m.y.b, p); m.px = s.px + s.py; break;
                  case 1: x -= y(p); arb_sub(m.x.b, m.x.b, m.y.b, p); m.px = s.px - s.py; break;
                  case 2: x *= y(p); arb_mul(m.x.b, m.x.b, m.y.b, p); m.px = s.px * s.py; break;
                  case 3: x /= y(p); arb_div(m.x.b, m.x.b, m.y.b, p); m.ok = s.py != 0; if (m.ok) m.px = s.px / s.py; break;
                  case 4: x += x(p); arb_add(m.x.b, m.x.b, m.x.b, p); m.px = s.px * 2; break;
                  case 5: x -= (x * y)(p); arb_mul(t.b, m.x.b, m.y.b, p); arb_sub(m.x.b, m.x.b, t.b, p); m.px = s.px - s.px * s.py; break;
                  case 6: swap(x, y); arb_swap(m.x.b, m.y.b); std::swap(m.px, m.py); break;
                  case 7: y = (x - y)(p); arb_sub(m.y.b, m.x.b, m.y.b, p); m.py = s.px - s.py; break;
                  case 8: x = (-(x + y))(p); arb_add(m.x.b, m.x.b, m.y.b, p); arb_neg(m.x.b, m.x.b); m.px = -(s.px + s.py); break;
                  case 9: x = (y / 3 + x)(p); arb_div_si(t.b, m.y.b, 3, p); arb_add(m.x.b, t.b, m.x.b, p); m.px = s.py / 3 + s.px; break;
                  case 10: x *= x(p); arb_mul(m.x.b, m.x.b, m.x.b, p); m.px = s.px * s.px; break;
                  case 11: y = std::move(x); x = (y * y)(p); m.y = s.x; arb_mul(m.x.b, s.x.b, s.x.b, p); m.py = s.px; m.px = s.px * s.px; break;
                }
                if (!m.ok || !arb_is_finite(m.x.b)) continue;
                if (mpz_sizeinbase(m.px.get_num_mpz_t(), 2) > 3000 || mpz_sizeinbase(m.px.get_den_mpz_t(), 2) > 3000) continue;
                auto where = [&] { return str("from x = ", show(s.x.b), ", y = ", show(s.y.b), " operation ", o, ": "); };
                c.check(contains(x.arb_t(), m.px) && contains(y.arb_t(), m.py), [&] { return str(where(), show(x.arb_t()), " and ", show(y.arb_t()), " do not contain ", m.px, " and ", m.py); });
                c.check(narrower(x.arb_t(), m.x.b) && narrower(y.arb_t(), m.y.b), [&] { return str(where(), show(x.arb_t()), " and ", show(y.arb_t()), " are wider than ", show(m.x.b), " and ", show(m.y.b)); });
                arb_set(m.x.b, x.arb_t());
                arb_set(m.y.b, y.arb_t());
                std::string key = show(m.x.b) + " " + show(m.y.b);
                c.state(key);
                if (seen.insert(key + str(" ", m.px, " ", m.py)).second) next.push_back(m);
              }
            frontier.swap(next);
            c.beat();
          }
        });
}

MC_MAIN
