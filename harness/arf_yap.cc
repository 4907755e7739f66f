// Expressions over Arf evaluate their operators one by one, correctly rounded
// to the precision and direction that they are bound to.
#include "mc.hpp"
#include "yapmodel.hpp"

#include <exact-real/arf.hpp>
#include <exact-real/yap/arf.hpp>

using namespace ref;
using exactreal::Arf;
using mc::str;
using Round = Arf::Round;
using E = yapmodel::E<Round>;

namespace {
Rnd dir(int r) {
  switch (r) {
    case ARF_RND_DOWN: return DOWN;
    case ARF_RND_UP: return UP;
    case ARF_RND_FLOOR: return FLOOR;
    case ARF_RND_CEIL: return CEIL;
    default: return NEAR;
  }
}
V eval(const yapmodel::Node& n, const V* vars, long p, int r) {
  switch (n.op) {
    case 'v': return vars[n.var];
    case 'k': return of_q(n.k);
    case 'n': return neg(eval(*n.a, vars, p, r));
    case 'p': return eval(*n.a, vars, n.prec, r);
    case 'r': return eval(*n.a, vars, p, n.round);
    default: break;
  }
  V a = eval(*n.a, vars, p, r), b = eval(*n.b, vars, p, r);
  switch (n.op) {
    case '+': return add(a, b, p, dir(r));
    case '-': return sub(a, b, p, dir(r));
    case '*': return mul(a, b, p, dir(r));
    default: return div(a, b, p, dir(r));
  }
}

V val(const Arf& x) { return of_arf(x.arf_t()); }

Arf COPY(const Arf& x) { return x; }
E COPY(const E& x) { return x; }

struct Shape {
  std::string name;
  bool inplace;
  bool divides;
  bool mixed;  // uses the inner precision q and rounding s
  // Evaluate into destination d (0: construct, 1: fresh variable, 2: x, 3: y, 4: z), return the value
  Arf (*real)(int d, Arf& x, Arf& y, Arf& z, long p, long q, Round r, Round s);
  E (*model)(E x, E y, E z, long p, long q, Round r, Round s);
};
std::vector<Shape>& shapes() {
  static std::vector<Shape> s;
  return s;
}
bool has(const char* t, char ch) { return strchr(t, ch) != nullptr; }

#define UNUSED (void)x, (void)y, (void)z, (void)p, (void)q, (void)r, (void)s
#define EXPR(...)                                                                                                       \
  shapes().push_back({#__VA_ARGS__, false, has(#__VA_ARGS__, '/'), has(#__VA_ARGS__, 'q') || has(#__VA_ARGS__, 's'),     \
                      [](int d, Arf& x, Arf& y, Arf& z, long p, long q, Round r, Round s) -> Arf {                       \
                        UNUSED;                                                                                         \
                        const Arf& cx = x;                                                                              \
                        (void)cx;                                                                                       \
                        if (d == 0) {                                                                                   \
                          Arf w(__VA_ARGS__);                                                                           \
                          return w;                                                                                     \
                        }                                                                                               \
                        Arf w(-77);                                                                                     \
                        Arf& t = d == 1 ? w : d == 2 ? x : d == 3 ? y : z;                                              \
                        t = __VA_ARGS__;                                                                                \
                        return t;                                                                                       \
                      },                                                                                                \
                      [](E x, E y, E z, long p, long q, Round r, Round s) -> E {                                        \
                        UNUSED;                                                                                         \
                        E cx = x;                                                                                       \
                        return E(__VA_ARGS__);                                                                          \
                      }});
#define INPLACE_(OP, OPEQ, ...)                                                                                         \
  shapes().push_back({"x " #OPEQ " " #__VA_ARGS__, true, #OPEQ[0] == '/' || has(#__VA_ARGS__, '/'), has(#__VA_ARGS__, 'q') || has(#__VA_ARGS__, 's'), \
                      [](int, Arf& x, Arf& y, Arf& z, long p, long q, Round r, Round s) -> Arf {                         \
                        UNUSED;                                                                                         \
                        Arf& t = (x OPEQ __VA_ARGS__);                                                                  \
                        if (&t != &x) throw mc::Failure{"does not return its left hand side"};                          \
                        return x;                                                                                       \
                      },                                                                                                \
                      [](E x, E y, E z, long p, long q, Round r, Round s) -> E {                                        \
                        UNUSED;                                                                                         \
                        return x.inplace(#OPEQ[0], __VA_ARGS__);                                                        \
                      }});

#define TWO(O, OEQ)             \
  EXPR((x O y)(p, r))           \
  EXPR((x O y)(p)(r))           \
  EXPR((x O y)(r)(p))           \
  EXPR((x O y)(r, p))           \
  EXPR((x O x)(p, r))           \
  EXPR((cx O COPY(y))(p, r))     \
  EXPR((x O 3)(p, r))           \
  EXPR((-5 O x)(p, r))          \
  EXPR((x O 9007199254740993L)(p, r)) \
  EXPR((7L O x)(p, r))          \
  EXPR((x O 0.375)(p, r))       \
  EXPR((-1.5 O y)(p, r))        \
  EXPR((-(x O y))(p, r))        \
  EXPR((-x O y)(p, r))          \
  EXPR((x O (-y))(p, r))        \
  INPLACE_(O, OEQ, y(p)(r))     \
  INPLACE_(O, OEQ, y(r)(p))     \
  INPLACE_(O, OEQ, y(p, r))     \
  INPLACE_(O, OEQ, x(p)(r))     \
  INPLACE_(O, OEQ, (y + z)(p)(r)) \
  INPLACE_(O, OEQ, (y - x)(p)(r)) \
  INPLACE_(O, OEQ, (x * y)(r)(p)) \
  INPLACE_(O, OEQ, (y / z)(p)(r)) \
  INPLACE_(O, OEQ, (x - (y * z)(q)(s))(p)(r)) \
  INPLACE_(O, OEQ, (-y)(p)(r))  \
  INPLACE_(O, OEQ, (y * 3)(p)(r))

#define THREE(O, U)                    \
  EXPR(((x O y) U z)(p, r))            \
  EXPR((x O (y U z))(p, r))            \
  EXPR((x O (y U x))(p, r))            \
  EXPR(((x O y) U (x O z))(p, r))      \
  EXPR(((x O y) U (z O x))(p, r))      \
  EXPR((x O (y U z)(q))(p, r))         \
  EXPR((x O (y U z)(s))(p, r))         \
  EXPR((x O (y U z)(s))(r, p))         \
  EXPR((x O (y U z)(q, s))(p, r))      \
  EXPR((x O (y U z(q, s))(q))(p, r))   \
  EXPR((x O (y U z)(q)(s))(p)(r))      \
  EXPR(((x O y) U (z O x)(s))(r)(p))   \
  EXPR((-(x O y) U z)(p, r))           \
  EXPR((x O (2 U y))(p, r))

struct Init {
  Init() {
    TWO(+, +=)
    TWO(-, -=)
    TWO(*, *=)
    TWO(/, /=)
    THREE(+, +)
    THREE(+, -)
    THREE(+, *)
    THREE(+, /)
    THREE(-, +)
    THREE(-, -)
    THREE(-, *)
    THREE(-, /)
    THREE(*, +)
    THREE(*, -)
    THREE(*, *)
    THREE(*, /)
    THREE(/, +)
    THREE(/, -)
    THREE(/, *)
    THREE(/, /)
    EXPR(((x + y) + ((y - z) * (x + z)))(p, r))
    EXPR((((x + y) * z - x) / y + z)(p, r))
    EXPR((x - (y - (z - (x - y))))(p, r))
    EXPR((-(-(x + y)))(p, r))
    EXPR((x + y * z)(p, r))
    EXPR((x * y + z)(p, r))
    EXPR((x * y - z * x)(p, r))
    EXPR(-(-x))
    EXPR(-x)
  }
};

const Round rounds[] = {Round::NEAR, Round::DOWN, Round::UP, Round::FLOOR, Round::CEIL};
const char* roundnames[] = {"NEAR", "DOWN", "UP", "FLOOR", "CEIL"};

void run(mc::Ctx& c, const Shape& sh, const std::vector<V>& vs, const std::vector<std::pair<long, long>>& precs, bool alldst) {
  auto roundname = [](Round r) {
    for (int i = 0; i < 5; i++)
      if (rounds[i] == r) return roundnames[i];
    return "?";
  };
  bool usez = sh.name.find('z') != std::string::npos;
  bool usey = sh.name.find('y') != std::string::npos;
  std::vector<V> one{vs[1]};
  for (auto& vx : vs)
    for (auto& vy : usey ? vs : one)
      c.leaf([&] { return str(sh.name, " with x = ", vx.s(), ", y = ", vy.s()); }, [&] {
        for (auto& vz : usez ? vs : one)
          for (auto& pq : precs) {
            long p = pq.first, q = pq.second;
            if (sh.divides && (p == ARF_PREC_EXACT || q == ARF_PREC_EXACT)) continue;
            for (auto r : rounds)
              for (auto s : rounds) {
                if (!sh.mixed && s != r) continue;
                E e = sh.model(E::variable(0), E::variable(1), E::variable(2), p, q, r, s);
                V vars[] = {vx, vy, vz};
                V want = eval(*e.n, vars, 53, ARF_RND_NEAR);
                for (int d = sh.inplace ? 2 : 0; d < (sh.inplace ? 3 : alldst ? 5 : 3); d++) {
                  Arf x, y, z;
                  to_arf(x.arf_t(), vx);
                  to_arf(y.arf_t(), vy);
                  to_arf(z.arf_t(), vz);
                  V got = val(sh.real(d, x, y, z, p, q, r, s));
                  auto where = [&] { return str("z = ", vz.s(), ", p = ", p, ", q = ", q, ", r = ", roundname(r), ", s = ", roundname(s), ", destination ", d); };
                  c.check(got == want, [&] { return str(where(), ": result ", got.s(), ", expected ", want.s()); });
                  c.check((d == 2 || val(x) == vx) && (d == 3 || val(y) == vy) && (d == 4 || val(z) == vz), [&] { return str(where(), ": an operand changed"); });
                }
                c.state(want.s());
              }
          }
      });
}
Init init;
}  // namespace

MC_SUITE(expressions_small) {
  std::vector<V> vs{V(), V(3, 0), V(-1, -1), V(5, 1), V(-7, -3), V(11, -4)};
  if (c.thorough) vs.insert(vs.end(), {V(13, 0), V(-9, 2), V(1, 6)});
  std::vector<std::pair<long, long>> precs{{2, 3}, {3, 2}, {4, 64}};
  if (c.thorough) precs.insert(precs.end(), {{5, 2}, {6, 1}, {64, 2}});
  for (auto& sh : shapes()) run(c, sh, vs, precs, true);
}

MC_SUITE(expressions_special) {
  std::vector<V> vs{V(), V(-3, 0), V(V::PINF), V(V::NINF), V(V::NANV), V(1, 1)};
  for (auto& sh : shapes()) run(c, sh, vs, {{3, 2}, {53, 24}}, false);
}

MC_SUITE(expressions_wide) {
  std::vector<V> vs{V(pow2z(64) + 1, -32), V(1 - pow2z(63), 0), V(Z("123456789012345678901234567890123456789"), -60), V(3, 200), V(-5, -200), V(pow2z(53) + 1, -53)};
  for (auto& sh : shapes()) run(c, sh, vs, {{53, 64}, {64, 113}, {128, 53}, {ARF_PREC_EXACT, 10}, {24, ARF_PREC_EXACT}}, false);
}

// Sequences of in-place operations on a pair of numbers, states merged by value.
MC_SUITE(accumulate_histories) {
  std::vector<V> vs{V(), V(3, 0), V(-5, -2), V(1, 4), V(-7, 1), V(V::PINF)};
  const int depth = c.thorough ? 5 : 4;
  for (auto& vx : vs)
    for (auto& vy : vs)
      for (long p : {2L, 4L, 53L})
        for (auto r : rounds)
          c.leaf([&] { return str("x = ", vx.s(), ", y = ", vy.s(), ", p = ", p, ", rounding ", static_cast<int>(r)); }, [&] {
            std::set<std::string> seen;
            struct S {
              V x, y;
            };
            std::vector<S> frontier{{vx, vy}};
            for (int d = 0; d < depth; d++) {
              std::vector<S> next;
              for (auto& s : frontier)
                for (int o = 0; o < 11; o++) {
                  Arf x, y;
                  to_arf(x.arf_t(), s.x);
                  to_arf(y.arf_t(), s.y);
                  S m = s;
                  Rnd n = dir(static_cast<int>(r));
                  switch (o) {
                    case 0: x += y(p)(r); m.x = add(m.x, m.y, p, n); break;
                    case 1: x -= y(p)(r); m.x = sub(m.x, m.y, p, n); break;
                    case 2: x *= y(p)(r); m.x = mul(m.x, m.y, p, n); break;
                    case 3: x /= y(p)(r); m.x = div(m.x, m.y, p, n); break;
                    case 4: x += x(p)(r); m.x = add(m.x, m.x, p, n); break;
                    case 5: x -= (x * y)(p)(r); m.x = sub(m.x, mul(m.x, m.y, p, n), p, n); break;
                    case 6: swap(x, y); std::swap(m.x, m.y); break;
                    case 7: y = (x - y)(p, r); m.y = sub(m.x, m.y, p, n); break;
                    case 8: x = (-(x + y))(p, r); m.x = neg(add(m.x, m.y, p, n)); break;
                    case 9: x = (y / 3 + x)(p, r); m.x = add(div(m.y, V(3, 0), p, n), m.x, p, n); break;
                    case 10: x *= x(p)(r); m.x = mul(m.x, m.x, p, n); break;
                  }
                  if ((m.x.fin() && abs(m.x.e) > 4000) || (m.y.fin() && abs(m.y.e) > 4000)) continue;
                  c.check(val(x) == m.x && val(y) == m.y, [&] { return str("from x = ", s.x.s(), ", y = ", s.y.s(), " operation ", o, " gives x = ", val(x).s(), ", y = ", val(y).s(), ", expected ", m.x.s(), ", ", m.y.s()); });
                  std::string key = m.x.s() + " " + m.y.s();
                  c.state(key);
                  if (seen.insert(key).second) next.push_back(m);
                }
              frontier.swap(next);
              c.beat();
            }
          });
}

MC_MAIN
