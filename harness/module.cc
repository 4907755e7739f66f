// Modules, and moving elements between them.
#include "mc.hpp"
#include "elementmodel.hpp"
#include "reuse.hpp"

using namespace model;
using mc::str;

namespace {
const std::vector<Gen>& universe() {
  static const std::vector<Gen> u{mono(1), mono(0, 1), mono(0, 0, 1), mono(1, 1), mono(2), mono(0, 1, 2), rat(1), rat(Q(1, 3)), rat(Q(-1, 2)), rat(-1), rat(5), rat(Q(2, 3)), rat(Q(-2, 3)), rat(0)};
  return u;
}
// All sets of generators with at most one rational one
std::vector<Gs> sets(size_t max) {
  std::vector<Gs> r;
  auto& u = universe();
  for (unsigned m = 0; m < 1u << u.size(); m++) {
    Gs g;
    int rats = 0;
    for (size_t i = 0; i < u.size(); i++)
      if (m >> i & 1) g.push_back(u[i]), rats += u[i].rational();
    if (rats <= 1 && g.size() <= max) r.push_back(g);
  }
  return r;
}
std::string show(const Gs& g) {
  std::string r;
  for (auto& x : g) r += (r.empty() ? "" : ", ") + x.s();
  return "{" + r + "}";
}
template <typename R>
bool same_ring(const R& r, const Field* f) {
  if constexpr (std::is_same_v<R, NumberField>)
    return *r.parameters == *(f ? f->k : NumberField().parameters);
  else
    return r == Ringed<R>::ring(f);
}
template <typename R>
void check_module(mc::Ctx& c, const Env& env, const std::shared_ptr<const Module<R>>& m, const Gs& gs, const Field* f, const std::string& what) {
  auto got = env.gens_of(*m);
  c.check(static_cast<size_t>(m->rank()) == got.size(), [&] { return str(what, ": the rank is ", m->rank()); });
  for (size_t i = 0; i + 1 < got.size(); i++) {
    c.check(m->basis()[i]->deglex(*m->basis()[i + 1]) && !m->basis()[i + 1]->deglex(*m->basis()[i]), [&] { return str(what, ": the generators are not sorted: ", show(got)); });
    c.check(degree(got[i].e) <= degree(got[i + 1].e), [&] { return str(what, ": the generators are not sorted by degree: ", show(got)); });
  }
  auto a = got, b = gs;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  c.check(a == b, [&] { return str(what, " has the generators ", show(got), " instead of ", show(gs)); });
  c.check(same_ring(m->ring(), f), [&] { return str(what, " is over another ring"); });
}

template <typename R>
void unique(mc::Ctx& c) {
  const size_t MAX = c.thorough ? 5 : 4;
  for (const Field* f : Ringed<R>::over())
    for (auto& gs : sets(MAX))
      c.leaf([&] { return str(Ringed<R>::name(), f ? "=" + f->name : "", ": modules generated by ", show(gs)); }, [&] {
        Env env(3);
        auto m = env.module<R>(gs, f);
        check_module(c, env, m, gs, f, "the module");
        // any order gives the same
        std::vector<size_t> p(gs.size());
        std::iota(p.begin(), p.end(), 0);
        do {
          Gs o;
          for (auto i : p) o.push_back(gs[i]);
          auto n = env.module<R>(o, f);
          c.check(n == m && *n == *m && !(*n != *m), [&] { return str("another module from ", show(o)); });
          c.state(show(o) + (f ? f->name : ""));
        } while (std::next_permutation(p.begin(), p.end()));
        // without a ring, it is the trivial one
        std::vector<P> b;
        for (auto& g : gs) b.push_back(env.real(g));
        auto t = Module<R>::make(b);
        check_module(c, env, t, gs, nullptr, "the module without a ring");
        c.check((t == m) == same_ring(R(), f), "the module without a ring");
        // other rings
        for (const Field* o : Ringed<R>::over()) {
          auto n = env.module<R>(gs, o);
          c.check((n == m) == (o == f) && (*n == *m) == (o == f), "the module over another field");
        }
        // other generators
        for (auto& g : universe()) {
          auto at = std::find(gs.begin(), gs.end(), g);
          Gs o = gs;
          if (at != gs.end()) {
            o.erase(o.begin() + (at - gs.begin()));
            auto n = env.module<R>(o, f);
            c.check(n != m && *n != *m, [&] { return str("the same module from ", show(o)); });
            // twice the same
            for (size_t i = 0; i <= gs.size(); i++) {
              o = gs;
              o.insert(o.begin() + static_cast<long>(i), g);
              bool thrown = false;
              try {
                env.module<R>(o, f);
              } catch (const std::exception&) {
                thrown = true;
              }
              c.check(thrown, [&] { return str(show(o), " is accepted"); });
            }
          } else {
            for (size_t i = 0; i <= gs.size(); i++) {
              o = gs;
              o.insert(o.begin() + static_cast<long>(i), g);
              bool two = g.rational() && std::any_of(gs.begin(), gs.end(), [](auto& x) { return x.rational(); }), thrown = false;
              try {
                auto n = env.module<R>(o, f);
                c.check(n != m && *n != *m, [&] { return str("the same module from ", show(o)); });
                if (i == 0) check_module(c, env, n, o, f, "a bigger module");
              } catch (const std::exception&) {
                thrown = true;
              }
              c.check(thrown == two, [&] { return str(show(o), thrown ? " is refused" : " is accepted"); });
            }
            // a module of the same size
            for (size_t i = 0; i < gs.size(); i++) {
              o = gs;
              o[i] = g;
              if (std::count_if(o.begin(), o.end(), [](auto& x) { return x.rational(); }) > 1) continue;
              auto n = env.module<R>(o, f);
              c.check(n != m && *n != *m, [&] { return str("the same module from ", show(o)); });
            }
          }
        }
        c.check(env.module<R>(gs, f) == m, "another module in the end");
      });
}

template <typename R>
void special_elements(mc::Ctx& c) {
  for (const Field* f : Ringed<R>::over())
    for (auto& gs : sets(4))
      c.leaf([&] { return str(Ringed<R>::name(), f ? "=" + f->name : "", ": elements of the module ", show(gs)); }, [&] {
        Env env(3);
        auto m = env.module<R>(gs, f);
        for (size_t i = 0; i < gs.size(); i++) {
          auto g = m->gen(static_cast<long>(i));
          Gen want = env.gen(*m->basis()[i]);
          c.check(g.module() == m, "a generator is in another module");
          auto co = g.coefficients();
          for (size_t j = 0; j < co.size(); j++) c.check(Ringed<R>::from(co[j]) == K(i == j ? 1 : 0), "the coefficients of a generator");
          Poly p = env.read(g);
          c.check(p == Poly(want.e, K(want.r)), [&] { return str("gen(", i, ") is ", p.s()); });
        }
        auto z = m->zero();
        c.check(z.module() == m && env.read(z).zero(), "zero()");
        std::optional<Q> r;
        for (auto& g : gs)
          if (g.rational()) r = g.r;
        bool has = r && *r != 0 && (!std::is_same_v<R, IntegerRing> || Q(1 / *r).get_den() == 1);
        bool thrown = false;
        try {
          auto o = m->one();
          Poly p = env.read(o);
          c.check(p == Poly(K(1)) && o.module() == m, [&] { return str("one() is ", p.s()); });
        } catch (const std::exception& e) {
          thrown = true;
        }
        c.check(thrown == !has, [&] { return str("one() ", thrown ? "does not exist" : "exists"); });
        c.outcome(has ? "with one" : "without one");
        c.state(show(gs) + (f ? f->name : ""));
      });
}

template <typename R>
void spans(mc::Ctx& c) {
  const size_t MAX = c.thorough ? 3 : 2;
  std::vector<std::pair<Gs, const Field*>> all;
  for (const Field* f : Ringed<R>::over())
    for (auto& g : sets(f ? 2 : MAX + 1)) {
      // few of the rational generators
      if (std::any_of(g.begin(), g.end(), [&](auto& x) { return x.rational() && x.r != 1 && (f || x.r != Q(1, 3)); })) continue;
      if (f && f != &fields()[0] && g.size() > 1) continue;
      all.push_back({g, f});
    }
  for (auto& a : all)
    c.leaf([&] { return str(Ringed<R>::name(), a.second ? "=" + a.second->name : "", ": spans with ", show(a.first)); }, [&] {
      Env env(3);
      auto m = env.module<R>(a.first, a.second);
      for (auto& b : all) {
        auto n = env.module<R>(b.first, b.second);
        bool sub = std::all_of(a.first.begin(), a.first.end(), [&](auto& g) { return std::find(b.first.begin(), b.first.end(), g) != b.first.end(); });
        c.check(m->submodule(*n) == sub, [&] { return str("submodule of ", show(b.first), ": ", !sub); });
        Gs u = a.first;
        for (auto& g : b.first)
          if (std::find(u.begin(), u.end(), g) == u.end()) u.push_back(g);
        const bool trivial = a.first.empty() || b.first.empty();
        bool ok = trivial || (std::count_if(u.begin(), u.end(), [](auto& g) { return g.rational(); }) <= 1 && (!a.second || !b.second || a.second == b.second));
        const Field* f = a.second ? a.second : b.second;
        if (a.first.empty()) f = b.second;
        if (b.first.empty() && !a.first.empty()) f = a.second;
        bool thrown = false;
        try {
          auto s = Module<R>::span(m, n);
          if (ok) {
            // the ring of a trivial module does not count
            if (a.first.empty() && b.first.empty())
              c.check(s == m || s == n, "the span of trivial modules");
            else {
              check_module(c, env, s, u, f, "the span with " + show(b.first));
              c.check(s == env.module<R>(u, f), [&] { return str("the span with ", show(b.first), " is not unique"); });
              c.check(s->submodule(*s) && m->submodule(*s) && n->submodule(*s), "the span does not contain the modules");
              auto t = Module<R>::span(n, m);
              c.check(t == s, [&] { return str("the span with ", show(b.first), " depends on the order"); });
            }
          }
        } catch (const mc::Failure&) {
          throw;
        } catch (const std::exception&) {
          thrown = true;
        }
        c.check(thrown == !ok, [&] { return str("the span with ", show(b.first), thrown ? " throws" : " does not throw"); });
        c.outcome(ok ? "span" : "refused");
        c.state(show(a.first) + "|" + show(b.first) + (a.second ? a.second->name : "") + (b.second ? b.second->name : ""));
      }
    });
}

// Histories of making and dropping modules. The last 1024 modules are kept
// alive by the library, so flushing these is an operation as well.
template <typename R>
void module_histories(mc::Ctx& c) {
  static const char* names[] = {"make A", "make B", "make A reversed", "drop A", "drop B", "flush", "element of A", "drop the element", "renew the generators", "refine the field", "make A over the field written in another way", "make A over another field"};
  constexpr bool field = std::is_same_v<R, NumberField>;
  const int OPS = sizeof names / sizeof *names - (field ? 0 : 3), D = field ? (c.thorough ? 5 : 4) : c.thorough ? 6 : 5;
  for (int o1 = 0; o1 < OPS; o1++)
    for (int o2 = 0; o2 < OPS; o2++)
      for (int o3 = 0; o3 < OPS; o3++)
        c.leaf([&] { return str(Ringed<R>::name(), ": histories that start with ", names[o1], "; ", names[o2], "; ", names[o3]); }, [&] {
          std::vector<int> h;
          std::function<void()> go = [&] {
            if (h.size() == static_cast<size_t>(D)) {
              int flushes = 0;
              bool made = false;
              for (int o : h) {
                flushes += o == 5;
                made |= o < 3 || o == 10;
              }
              if (flushes > 1 || !made) return;
              // replay from the start, in fresh generators
              static unsigned seed = 1000;
              P x, y;
              auto fresh = [&] {
                x = RealNumber::random(Seed(++seed));
                y = RealNumber::random(Seed(++seed));
              };
              fresh();
              std::shared_ptr<const Module<R>> A, B;
              std::optional<Element<R>> e;
              std::string text;
              // a field that nothing has been computed in yet
              R ring{};
              std::string variable;
              if constexpr (field) {
                variable = str("x", seed);
                ring = NumberField(eantic::renf_class::make(variable + "^2 - 2", variable, "1.4 +/- 0.1"));
              }
              for (int o : h) {
                text += std::string(text.empty() ? "" : "; ") + names[o];
                auto made = [&](std::shared_ptr<const Module<R>>& m, std::vector<P> b, std::vector<P> sorted) {
                  auto n = Module<R>::make(b, ring);
                  c.check(n->ring() == ring, [&] { return "the wrong ring after " + text; });
                  c.check(!m || n == m, [&] { return "a second module for the same generators after " + text; });
                  if (e && &m == &A) c.check(e->module() == n, [&] { return "a second module while an element is alive after " + text; });
                  c.check(n->basis() == sorted, [&] { return "the wrong generators after " + text; });
                  m = n;
                };
                std::vector<P> ab{x, y};
                if (!x->deglex(*y)) std::swap(ab[0], ab[1]);
                switch (o) {
                  case 0: made(A, {x, y}, ab); break;
                  case 1: made(B, {x}, {x}); break;
                  case 2: made(A, {y, x}, ab); break;
                  case 3: A = nullptr; break;
                  case 4: B = nullptr; break;
                  case 5: {
                    std::vector<P> q;
                    for (int i = 0; i < 1100; i++) {
                      Module<R>::make({RealNumber::rational(Q(i + 2))});
                      if (i % 256 == 0) c.beat();
                    }
                    break;
                  }
                  case 6:
                    if (A) {
                      e = A->gen(0);
                      c.check(*e == *A->basis()[0], "an element");
                    }
                    break;
                  case 7: e = std::nullopt; break;
                  case 8:
                    A = B = nullptr;
                    e = std::nullopt;
                    fresh();
                    break;
                  case 9:
                  case 10:
                  case 11:
                    if constexpr (field) {
                      if (o == 9) {
                        Arb approximation(ring.parameters->gen(), 300);
                        c.check(approximation.is_finite(), "an approximation");
                      } else if (o == 10) {
                        ring = NumberField(eantic::renf_class::make(variable + "^2 - 2", variable, "1.41 +/- 0.02"));
                        made(A, {x, y}, ab);
                      } else {
                        auto n = Module<R>::make({x, y}, NumberField(eantic::renf_class::make(variable + "^2 - 2", variable, "-1.4 +/- 0.1")));
                        c.check(n != A && n->basis() == ab && n->ring() != ring, [&] { return "a module over another field after " + text; });
                      }
                    }
                    break;
                }
                c.trans();
                if (A && B) c.check(A != B && *A != *B && B->submodule(*A) && !A->submodule(*B) && Module<R>::span(A, B) == A, [&] { return "the modules after " + text; });
                if (e) c.check(e->module()->rank() == 2 && static_cast<bool>(*e), [&] { return "the element after " + text; });
              }
              c.state(text);
              return;
            }
            for (int o = 0; o < OPS; o++) {
              if (h.size() == 0 && o != o1) continue;
              if (h.size() == 1 && o != o2) continue;
              if (h.size() == 2 && o != o3) continue;
              h.push_back(o);
              go();
              h.pop_back();
            }
          };
          go();
        });
}

// Elements on the move
const std::vector<Gs>& targets() {
  static const std::vector<Gs> t{{}, {rat(1)}, {mono(1)}, {rat(1), mono(1)}, {mono(1), mono(0, 1)}, {rat(1), mono(0, 1)}, {rat(1), mono(1), mono(0, 1)}, {mono(1), mono(0, 1), mono(1, 1)}, {rat(1), mono(0, 0, 1), mono(1)}, {rat(1), mono(1), mono(0, 1), mono(0, 0, 1), mono(2), mono(1, 1), mono(0, 2)}};
  return t;
}
std::set<Gen> used(const Spec& s) {
  std::set<Gen> r;
  for (size_t i = 0; i < s.gens.size(); i++)
    if (!s.co[i].zero()) r.insert(s.gens[i]);
  return r;
}
template <typename R>
void moves(mc::Ctx& c) {
  std::vector<Spec> all;
  for (const Field* f : Ringed<R>::over()) {
    if (f && f != &fields()[0] && f != &fields()[1]) continue;
    std::vector<K> ks = std::is_same_v<R, IntegerRing> ? alphabet({0, 1, -3}) : f ? std::vector<K>{K(), K(1), K(f, {1, -2})} : alphabet({0, 1, Q(-2, 3)});
    std::vector<K> few = {K(), ks.back()};
    for (auto& g : targets()) tuples(all, g, g.size() <= 3u ? ks : few, f);
  }
  const int D = c.thorough ? 5 : 4;
  for (auto& s : all)
    c.leaf([&] { return str(Ringed<R>::name(), ": ", s.s()); }, [&] {
      Env env(3);
      const Poly p = s.poly();
      const auto u = used(s);
      std::string history;
      std::function<void(const Element<R>&, const Field*, int)> go = [&](const Element<R>& x0, const Field* f, int depth) {
        if (depth == D) return;
        const auto m0 = x0.module();
        auto step = [&](const std::string& name, const Element<R>& y, const Field* g) {
          auto h = history;
          history += "; " + name;
          Poly got = env.read(y);
          c.check(got == p, [&] { return str("it is ", got.s(), " after", history); });
          c.check(x0.module() == m0 && env.read(x0) == p, [&] { return str("the original has changed after", history); });
          c.check(static_cast<bool>(y) == !p.zero() && y == x0 && !(y != x0), [&] { return str("it is not equal to itself after", history); });
          c.state(show(env.gens_of(*y.module())) + p.s());
          go(y, g, depth + 1);
          history = h;
        };
        {
          auto y = x0;
          auto& r = y.simplify();
          c.check(&r == &y, "simplify returns something else");
          auto g = env.gens_of(*y.module());
          c.check(std::set<Gen>(g.begin(), g.end()) == u && g.size() == u.size(), [&] { return str("simplify gives ", show(g), " after", history); });
          c.check(y.module() == env.module<R>(g, f), [&] { return str("simplify changes the ring after", history); });
          step("simplify", y, f);
        }
        for (auto& t : targets()) {
          if (!std::all_of(u.begin(), u.end(), [&](auto& g) { return std::find(t.begin(), t.end(), g) != t.end(); })) continue;
          std::vector<const Field*> over{f};
          if (std::is_same_v<R, NumberField> && !f) over.push_back(&fields()[0]), over.push_back(&fields()[1]);
          for (auto* k : over) {
            auto m = env.module<R>(t, k);
            auto y = x0;
            auto& r = y.promote(m);
            c.check(&r == &y, "promote returns something else");
            c.check(y.module() == m, [&] { return str("it is in another module than ", show(t), " after", history); });
            step("promote to " + show(t) + (k != f ? " over " + k->name : ""), y, k);
          }
        }
      };
      auto x = s.template make<R>(env);
      go(x, s.f, 0);
      // bigger rings
      auto convert = [&](auto tag) {
        using T = decltype(tag);
        Element<T> y(x);
        Poly got = env.read(y);
        c.check(got == p, [&] { return str("it is ", got.s(), " over ", Ringed<T>::name()); });
        c.check(env.gens_of(*y.module()) == env.gens_of(*x.module()), "the generators have changed");
        c.check(y.module() == env.module<T>(s.gens), "it is in a module over another ring");
        c.check(env.read(x) == p, "the original has changed");
        y.simplify();
        c.check(env.read(y) == p, "simplify has changed the converted element");
        c.state(str("converted ", p.s(), Ringed<T>::name()));
        return y;
      };
      if constexpr (std::is_same_v<R, IntegerRing>) {
        auto q = convert(RationalField());
        convert(NumberField());
        Element<NumberField> k(q), l(x);
        l.simplify();
        c.check(k == l && env.read(k) == p, "the conversions do not commute");
      } else if constexpr (std::is_same_v<R, RationalField>)
        convert(NumberField());
    });
}
}  // namespace

MC_SUITE(unique_integers) { unique<IntegerRing>(c); }
MC_SUITE(unique_rationals) { unique<RationalField>(c); }
MC_SUITE(unique_number_fields) { unique<NumberField>(c); }
MC_SUITE(elements_integers) { special_elements<IntegerRing>(c); }
MC_SUITE(elements_rationals) { special_elements<RationalField>(c); }
MC_SUITE(elements_number_fields) { special_elements<NumberField>(c); }
MC_SUITE(spans_integers) { spans<IntegerRing>(c); }
MC_SUITE(spans_rationals) { spans<RationalField>(c); }
MC_SUITE(spans_number_fields) { spans<NumberField>(c); }
MC_SUITE(module_histories_number_fields) { module_histories<NumberField>(c); }
MC_SUITE(module_histories_rationals) { module_histories<RationalField>(c); }
MC_SUITE(moves_integers) { moves<IntegerRing>(c); }
MC_SUITE(moves_rationals) { moves<RationalField>(c); }
MC_SUITE(moves_number_fields) { moves<NumberField>(c); }

MC_MAIN
