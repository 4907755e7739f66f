// The coefficient rings
#include "mc.hpp"
#include "ringmodel.hpp"

#include <exact-real/arb.hpp>

using namespace model;
using mc::str;

namespace {
template <typename R, typename T>
void scale(mc::Ctx& c, const K& k, const T& t, const Q& q, const std::string& what) {
  using E = typename R::ElementClass;
  using M = Ringed<R>;
  {
    K want = k * K(q);
    E x = M::to(k);
    bool thrown = false;
    E* ret = nullptr;
    try {
      ret = &R::imul(x, t);
    } catch (const std::exception&) {
      thrown = true;
    }
    c.check(thrown != M::holds(want), [&] { return str(k.s(), " * ", what, thrown ? " throws" : " does not throw"); });
    if (!thrown) {
      c.check(ret == &x, "imul returns something else");
      c.check(M::from(x) == want, [&] { return str(k.s(), " * ", what, " is ", M::from(x).s(), " but should be ", want.s()); });
      c.state(str(M::name(), k.s(), "*", q.get_str()));
    }
    c.outcome(thrown ? "no product" : "product");
  }
  {
    E x = M::to(k);
    bool thrown = false;
    E* ret = nullptr;
    try {
      ret = &R::idiv(x, t);
    } catch (const std::exception&) {
      thrown = true;
    }
    if (q == 0) {
      c.check(thrown, [&] { return str(k.s(), " / ", what, " does not throw"); });
      c.check(M::from(x) == k, "a division by zero has changed the value");
      c.outcome("division by zero");
    } else {
      K want = k / K(q);
      c.check(thrown != M::holds(want), [&] { return str(k.s(), " / ", what, thrown ? " throws" : " does not throw"); });
      if (!thrown) {
        c.check(ret == &x, "idiv returns something else");
        c.check(M::from(x) == want, [&] { return str(k.s(), " / ", what, " is ", M::from(x).s(), " but should be ", want.s()); });
        c.state(str(M::name(), k.s(), "/", q.get_str()));
      }
      c.outcome(thrown ? "no quotient" : "quotient");
    }
  }
}
template <typename R, typename T>
void machines(mc::Ctx& c, const K& k, const char* type, int size) {
  for (T t : machine<T>(size)) scale<R, T>(c, k, t, Q(to_z(t)), str(type, " ", to_z(t)));
}
template <typename R>
void scaling(mc::Ctx& c) {
  using M = Ringed<R>;
  const int size = c.thorough ? 4 : 2;
  for (const Field* f : M::over())
    for (auto& k : coefficients<R>(f, size))
      c.leaf([&] { return str(M::name(), f ? " = " + f->name : "", ": ", k.s()); }, [&] {
        machines<R, short>(c, k, "short", size);
        machines<R, unsigned short>(c, k, "unsigned short", size);
        machines<R, int>(c, k, "int", size);
        machines<R, unsigned int>(c, k, "unsigned int", size);
        machines<R, long>(c, k, "long", size);
        machines<R, unsigned long>(c, k, "unsigned long", size);
        machines<R, long long>(c, k, "long long", size);
        machines<R, unsigned long long>(c, k, "unsigned long long", size);
        for (auto& z : coefficients<IntegerRing>(nullptr, size)) scale<R, mpz_class>(c, k, z.q().get_num(), z.q(), str("mpz ", z.q()));
        for (auto& q : coefficients<RationalField>(nullptr, size)) scale<R, mpq_class>(c, k, q.q(), q.q(), str("mpq ", q.q()));
        if constexpr (std::is_same_v<R, NumberField>) {
          // by elements of the same field, and by rational elements of another one
          for (const Field* g : M::over())
            for (auto& o : coefficients<R>(g, size)) {
              if (!(o.rational() || k.rational() || f == g)) continue;
              auto y = M::to(o);
              eantic::renf_elem_class x = M::to(k);
              NumberField::imul(x, y);
              c.check(M::from(x) == k * o, [&] { return str(k.s(), " * ", o.s(), " is ", M::from(x).s()); });
              c.check(M::from(y) == o, "the operand has changed");
              x = M::to(k);
              bool thrown = false;
              try {
                NumberField::idiv(x, y);
              } catch (const std::exception&) {
                thrown = true;
              }
              c.check(thrown == o.zero(), [&] { return str(k.s(), " / ", o.s(), thrown ? " throws" : " does not throw"); });
              if (!thrown) c.check(M::from(x) == k / o, [&] { return str(k.s(), " / ", o.s(), " is ", M::from(x).s()); });
              if (!thrown && f == g) {
                // with itself as the operand
                auto z = M::to(o);
                NumberField::imul(z, z);
                c.check(M::from(z) == o * o, "the square");
                z = M::to(o);
                NumberField::idiv(z, z);
                c.check(M::from(z) == K(1), "the quotient by itself");
              }
            }
        }
      });
}
// Numbers that are huge, tiny, or extremely close to an integer.
template <typename R>
std::vector<K> extremes(const Field* f, bool deep) {
  std::vector<K> r;
  auto add = [&](K k) {
    k.f = f;
    r.push_back(k), r.push_back(-k);
  };
  for (unsigned e : {256u, 1022u, 1023u, 1024u, 1075u, 1100u, 5000u})
    for (int d = -1; d <= 1; d++) {
      Z z = ref::pow2z(e) + d;
      add(K(Q(z)));
      if (std::is_same_v<R, IntegerRing>) continue;
      for (auto q : {Q(Z(1), z), Q(z + 7, z), Q(2 * z + 1, z), Q(z, Z(3)), Q(z, z * 3 + 1)}) {
        q.canonicalize();
        add(K(q));
      }
    }
  if (f) {
    // the fractional part of the generator, and its powers
    K u = K(f, {0, 1});
    u = u - K(Q(u.floor()));
    K p = u;
    for (unsigned e = 1; e <= (deep ? 2048 : 1024); e *= 2, p = p * p)
      if (e >= 16) {
        add(p), add(p * u), add(K(1) / p);
        for (int n : {1, -1, 12, 1 << 20}) add(K(n) + p);
      }
  }
  return r;
}
template <typename R>
void observers(mc::Ctx& c, bool extreme) {
  using M = Ringed<R>;
  for (const Field* f : M::over())
    for (auto& k : extreme ? extremes<R>(f, c.thorough) : coefficients<R>(f, c.thorough ? 12 : 4))
      c.leaf([&] { return str(M::name(), f ? " = " + f->name : "", ": ", k.s()); }, [&] {
        const auto x = M::to(k);
        c.check(R::floor(x) == k.floor(), [&] { return str("floor(", k.s(), ") is ", R::floor(x), " but should be ", k.floor()); });
        bool unit = std::is_same_v<R, IntegerRing> ? k == K(1) || k == K(-1) : !k.zero();
        c.check(R::unit(x) == unit, [&] { return str("unit(", k.s(), ") is ", R::unit(x)); });
        auto r = R::rational(x);
        c.check(r.has_value() == k.rational() && (!r || *r == k.q()), [&] { return str("rational(", k.s(), ") is wrong"); });
        if (r) c.check(Q(r->get_str()).get_den() == r->get_den(), "the rational is not canonical");
        c.outcome(str("rational ", k.rational(), ", unit ", unit));
        // the terms of an element of a number field may cancel
        long loss = 0;
        if (f && !k.zero()) {
          Q top = 2;
          for (auto& x : k.c) top += abs(x) * 4;
          auto t = k.enclose(8);
          loss = 4 + 2 * (ref::ilog2(top) + 1) - std::min(0L, ref::ilog2(std::min(abs(t.lo), abs(t.hi))));
        }
        for (long p : {2L, 5L, 10L, 53L, 64L, 100L, 128L, 200L, 1000L, 5000L}) {
          auto b = R::arb(x, p);
          auto t = k.enclose(p + 200);
          auto i = ref::interval(b.arb_t());
          c.check(ref::finite(b.arb_t()) && i.lo <= t.hi && t.lo <= i.hi, [&] { return str("arb(", k.s(), ", ", p, ") = ", ref::show(b.arb_t()), " does not contain it"); });
          // the precision is a working precision; the result is good to almost as many bits
          if (!k.zero() && p >= 53 + loss) c.check(arb_rel_accuracy_bits(b.arb_t()) >= p - 4 - loss, [&] { return str("arb(", k.s(), ", ", p, ") = ", ref::show(b.arb_t()), " has only ", arb_rel_accuracy_bits(b.arb_t()), " bits"); });
        }
        c.check(M::from(x) == k, "the value has changed");
        c.state(str(M::name(), k.s(), f ? f->name : ""));
      });
}
}  // namespace

namespace {
template <typename R>
void scale_extremes(mc::Ctx& c) {
  using M = Ringed<R>;
  using E = typename R::ElementClass;
  for (const Field* f : M::over()) {
    auto ks = extremes<R>(f, c.thorough);
    for (auto& k : ks)
      c.leaf([&] { return str(M::name(), f ? " = " + f->name : "", ": scale ", k.s()); }, [&] {
        machines<R, int>(c, k, "int", 1);
        machines<R, unsigned long long>(c, k, "unsigned long long", 1);
        for (size_t i = 0; i < ks.size(); i += c.thorough ? 1 : 7) {
          auto& o = ks[i];
          if (std::is_same_v<R, IntegerRing>) {
            scale<R, mpz_class>(c, k, o.q().get_num(), o.q(), "mpz");
          } else {
            if (o.rational()) scale<R, mpq_class>(c, k, o.q(), o.q(), "mpq");
            E x = M::to(k);
            const E y = M::to(o);
            R::imul(x, y);
            c.check(M::from(x) == k * o, [&] { return str(k.s(), " * ", o.s()); });
            R::idiv(x, y);
            c.check(M::from(x) == k, [&] { return str(k.s(), " * ", o.s(), " / ", o.s()); });
            c.check(M::from(y) == o, "the operand has changed");
          }
        }
      });
  }
}
}  // namespace

MC_SUITE(scale_all_extremes) {
  scale_extremes<IntegerRing>(c);
  scale_extremes<RationalField>(c);
  scale_extremes<NumberField>(c);
}
MC_SUITE(scale_integers) { scaling<IntegerRing>(c); }
MC_SUITE(scale_rationals) { scaling<RationalField>(c); }
MC_SUITE(scale_number_fields) { scaling<NumberField>(c); }
MC_SUITE(observe) {
  observers<IntegerRing>(c, false);
  observers<RationalField>(c, false);
  observers<NumberField>(c, false);
}
MC_SUITE(observe_extremes) {
  observers<IntegerRing>(c, true);
  observers<RationalField>(c, true);
  observers<NumberField>(c, true);
}

MC_SUITE(rings) {
  // the same field, described in another way, is the same ring
  auto all = [] {
    using eantic::renf_class;
    std::vector<std::pair<std::string, NumberField>> r{{"", NumberField()}, {"", NumberField(renf_class::make())}, {"", NumberField(eantic::renf_elem_class(mpq_class(1, 2)))}};
    for (auto& f : fields()) {
      r.push_back({f.name, NumberField(f.k)});
      r.push_back({f.name, NumberField(*f.k)});
      r.push_back({f.name, NumberField(f.k->gen())});
      r.push_back({f.name, NumberField(f.k->one())});
    }
    r.push_back({"Q(√2)", NumberField(renf_class::make("x^2 - 2", "x", "1.41 +/- 0.1"))});
    return r;
  }();
  for (size_t i = 0; i < all.size(); i++)
    c.leaf([&] { return str("ring ", i, " ", all[i].first); }, [&] {
      auto& [n, R] = all[i];
      for (auto& [m, S] : all) {
        c.check((R == S) == (n == m) && (R != S) == (n != m), [&] { return str("== of ", n, " and ", m); });
        if (n == m) c.check(std::hash<NumberField>()(R) == std::hash<NumberField>()(S), "equal rings have different hashes");
        bool thrown = false;
        try {
          auto T = NumberField::compositum(R, S);
          c.check(n.empty() ? T == S : T == R, [&] { return str("the compositum of ", n, " and ", m, " is wrong"); });
          c.check(*T.parameters == *(n.empty() ? S : R).parameters, "the parameters of the compositum");
        } catch (const std::logic_error&) {
          thrown = true;
        }
        c.check(thrown == (!n.empty() && !m.empty() && n != m), [&] { return str("the compositum of ", n, " and ", m, thrown ? " throws" : " does not throw"); });
        c.outcome(thrown ? "no compositum" : "compositum");
        c.state(n + "," + m);
      }
      // coercion of elements of every field into this one
      for (const Field* f : Ringed<NumberField>::over())
        for (auto& k : coefficients<NumberField>(f, 2)) {
          auto x = Ringed<NumberField>::to(k);
          bool thrown = false;
          try {
            auto y = R.coerce(x);
            c.check(Ringed<NumberField>::from(y) == k, [&] { return str("coerce(", k.s(), ") changes the value to ", Ringed<NumberField>::from(y).s()); });
            c.check(NumberField(y.parent()) == R, [&] { return str("coerce(", k.s(), ") is in another field"); });
          } catch (const std::logic_error&) {
            thrown = true;
          }
          c.check(thrown == (!k.rational() && f->name != n), [&] { return str("coerce(", k.s(), ") from ", f ? f->name : "Q", " to ", n, thrown ? " throws" : " does not throw"); });
        }
      c.check(NumberField::isField && NumberField::contains_rationals, "a number field is a field");
    });
  c.leaf([&] { return "Z and Q"; }, [&] {
    IntegerRing z, y(mpz_class(5));
    RationalField q, p(mpq_class(1, 2));
    c.check(z == y && !(z != y) && q == p && !(q != p), "equality");
    c.check(std::hash<IntegerRing>()(z) == std::hash<IntegerRing>()(y) && std::hash<RationalField>()(q) == std::hash<RationalField>()(p), "hash");
    c.check(IntegerRing::compositum(z, y) == z && RationalField::compositum(q, p) == q, "compositum");
    c.check(!IntegerRing::isField && RationalField::isField && !IntegerRing::contains_rationals && RationalField::contains_rationals, "kinds");
    for (auto& k : coefficients<IntegerRing>(nullptr, 8)) c.check(z.coerce(k.q().get_num()) == k.q().get_num(), "coerce");
    for (auto& k : coefficients<RationalField>(nullptr, 8)) c.check(q.coerce(k.q()) == k.q(), "coerce");
  });
}

MC_MAIN
