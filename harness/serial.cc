// Serialization: what comes back, in this process and in another one.
#include "mc.hpp"
#include "elementmodel.hpp"
#include "reuse.hpp"

#include <e-antic/renfxx.h>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/vector.hpp>
#include <e-antic/cereal.hpp>

#include <exact-real/cereal.hpp>
#include <exact-real/yap/arb.hpp>

using namespace model;
using mc::str;

namespace {
struct Json {
  using Out = cereal::JSONOutputArchive;
  using In = cereal::JSONInputArchive;
  static const char* name() { return "JSON"; }
};
struct Portable {
  using Out = cereal::PortableBinaryOutputArchive;
  using In = cereal::PortableBinaryInputArchive;
  static const char* name() { return "portable binary"; }
};
template <typename A, typename... T>
std::string dump(const T&... x) {
  std::ostringstream s;
  {
    typename A::Out archive(s);
    archive(x...);
  }
  return s.str();
}
template <typename A, typename... T>
void restore(const std::string& text, T&... x) {
  std::istringstream s(text);
  typename A::In archive(s);
  archive(x...);
}

// Run something in a process of its own; it sends back a string.
template <typename F>
std::string elsewhere(F f) {
  int fd[2];
  if (pipe(fd)) throw std::runtime_error("no pipe");
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    std::string r;
    char ok = '+';
    try {
      r = f();
    } catch (const mc::Failure& e) {
      ok = '-';
      r = e.msg;
    } catch (const std::exception& e) {
      ok = '-';
      r = std::string("unexpected exception: ") + e.what();
    }
    r = ok + r;
    for (size_t at = 0; at < r.size();) {
      ssize_t n = write(fd[1], r.data() + at, r.size() - at);
      if (n <= 0) break;
      at += static_cast<size_t>(n);
    }
    _exit(0);
  }
  close(fd[1]);
  std::string r;
  char buf[4096];
  for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) r.append(buf, static_cast<size_t>(n));
  close(fd[0]);
  int status;
  waitpid(pid, &status, 0);
  if (!WIFEXITED(status) || r.empty()) throw mc::Failure{str("the process died with status ", status)};
  if (r[0] == '-') throw mc::Failure{r.substr(1)};
  return r.substr(1);
}

std::vector<ref::V> floats(bool thorough) {
  std::vector<ref::V> r;
  auto special = [&](auto set) {
    Arf x;
    set(x.arf_t());
    r.push_back(val(x));
  };
  special([](auto x) { arf_zero(x); });
  special([](auto x) { arf_pos_inf(x); });
  special([](auto x) { arf_neg_inf(x); });
  special([](auto x) { arf_nan(x); });
  std::vector<Z> ms;
  for (int m = 1; m < (thorough ? 70 : 20); m += 2) ms.push_back(m);
  for (long e : {31L, 32L, 63L, 64L, 65L, 128L, 200L, 1000L}) ms.push_back(ref::pow2z(e) - 1), ms.push_back(ref::pow2z(e) + 1);
  std::vector<Z> es;
  for (int e : {0, 1, -1, 5, -60, 63, 64, 1023, 1024, -1074, -1075, 5000, -5000}) es.push_back(e);
  for (long e : {61L, 62L, 63L, 64L, 90L}) es.push_back(ref::pow2z(e)), es.push_back(-ref::pow2z(e)), es.push_back(ref::pow2z(e) - 1);
  for (auto& m : ms)
    for (auto& e : es)
      for (int s : {1, -1}) {
        ref::V v;
        v = ref::of_q(Q(s * m));
        v.e += e;
        r.push_back(v);
      }
  return r;
}
bool identical(const ::arf_t a, const ::arf_t b) { return arf_equal(a, b); }

template <typename A>
void arfs(mc::Ctx& c) {
  for (auto& v : floats(c.thorough))
    c.leaf([&] { return str(A::name(), ": ", v.s()); }, [&] {
      Arf x, y(7), z;
      ref::to_arf(x.arf_t(), v);
      auto text = dump<A>(x);
      restore<A>(text, y);
      c.check(identical(x.arf_t(), y.arf_t()), [&] { return str("it comes back as ", val(y).s()); });
      std::vector<Arf> xs{x, Arf(-3), x}, ys;
      restore<A>(dump<A>(xs), ys);
      c.check(ys.size() == 3 && identical(ys[0].arf_t(), x.arf_t()) && identical(ys[1].arf_t(), xs[1].arf_t()) && identical(ys[2].arf_t(), x.arf_t()), "a vector");
      c.check(identical(x.arf_t(), xs[0].arf_t()) && dump<A>(x) == text, "serializing again");
      c.state(v.s());
    });
}
template <typename A>
void arbs(mc::Ctx& c) {
  auto fs = floats(false);
  std::vector<ref::V> mids;
  for (size_t i = 0; i < fs.size(); i += (c.thorough || i < 4 ? 1 : 5)) mids.push_back(fs[i]);
  for (auto& v : mids)
    c.leaf([&] { return str(A::name(), ": balls around ", v.s()); }, [&] {
      for (unsigned long m : {0ul, 1ul, 3ul, 0x20000001ul, 0x3ffffffful})
        for (long e : {0L, -1L, 1L, -100L, 70L, -5000L, 5000L, (1L << 62) - 1, -(1L << 62)}) {
          Arb x, y;
          ref::to_arf(arb_midref(x.arb_t()), v);
          mag_set_ui(arb_radref(x.arb_t()), m);
          mag_mul_2exp_si(arb_radref(x.arb_t()), arb_radref(x.arb_t()), e);
          auto text = dump<A>(x);
          restore<A>(text, y);
          c.check(arb_equal(x.arb_t(), y.arb_t()) || (arf_is_nan(arb_midref(x.arb_t())) && arf_is_nan(arb_midref(y.arb_t())) && mag_equal(arb_radref(x.arb_t()), arb_radref(y.arb_t()))), [&] { return str(ref::show(x.arb_t()), " comes back as ", ref::show(y.arb_t())); });
          std::vector<Arb> xs{x, Arb(2), x}, ys;
          restore<A>(dump<A>(xs), ys);
          c.check(ys.size() == 3 && mag_equal(arb_radref(ys[2].arb_t()), arb_radref(x.arb_t())) && identical(arb_midref(ys[0].arb_t()), arb_midref(x.arb_t())), "a vector");
          c.state(str(v.s(), m, "p", e));
        }
      Arb x, y;
      ref::to_arf(arb_midref(x.arb_t()), v);
      mag_inf(arb_radref(x.arb_t()));
      restore<A>(dump<A>(x), y);
      c.check(mag_is_inf(arb_radref(y.arb_t())) && identical(arb_midref(x.arb_t()), arb_midref(y.arb_t())), "an infinite radius");
    });
}

// A random number in [3·2^e, 5·2^e]
Num between_powers(long e, unsigned s) {
  Num n;
  n.name = "wide(" + std::to_string(e) + "; " + std::to_string(s) + ")";
  n.make = [e, s] { return RealNumber::random(Arf(mpz_class(3), e), Arf(mpz_class(5), e), Seed(s)); };
  return n;
}
// Real numbers of every kind
std::vector<Num> reals(bool thorough) {
  std::vector<Num> r;
  for (auto& q : {Q(0), Q(1), Q(-1), Q(1, 3), Q(-22, 7), ref::pow2(100), ref::pow2(-1100), Q(Z("123456789012345678901234567891"), Z("98765432109876543210"))}) r.push_back(rational(q));
  for (unsigned s : {0u, 1u, 7u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) r.push_back(random(s));
  for (unsigned s : {3u, 0xffffffffu}) {
    r.push_back(between(Q(-3), Q(5), s));
    r.push_back(between(ref::pow2(-200), ref::pow2(-199), s));
    r.push_back(between(Q(-1) - ref::pow2(100), -ref::pow2(100), s));
    r.push_back(between(Q(1, 4), Q(1, 2), s));
    r.push_back(near(-2.5, s));
    r.push_back(near(1e300, s));
    r.push_back(near(1e-300, s));
    r.push_back(near(5e-324, s));
  }
  size_t n = r.size();
  std::vector<size_t> some{8, 9, 14, 18, 22};
  if (thorough)
    for (size_t i = 8; i < n; i++)
      if (std::find(some.begin(), some.end(), i) == some.end()) some.push_back(i);
  for (auto i : some) {
    r.push_back(product({r[i], r[i]}));
    for (auto j : some)
      if (i < j) {
        r.push_back(product({r[i], r[j]}));
        r.push_back(product({r[j], r[i], r[j]}));
      }
  }
  r.push_back(product({r[8], r[9], r[14], r[18], r[18], r[18], r[22]}));
  // exponents that do not fit into 31, 32 bits and beyond
  for (long e : {1L << 30, (1L << 31) - 2, 1L << 31, 1L << 32, (1L << 32) + 1, 1L << 40, 1L << 60, 1L << 61})
    for (long f : {e, -e}) r.push_back(between_powers(f, 7));
  return r;
}
// Products may multiply and print their factors in another order when they are made again.
bool is_product(const Num& n) { return n.name.find('*') != std::string::npos; }
std::string digest(const Num& n, const RealNumber& x) {
  if (is_product(n)) {
    auto truth = n.truth(600);
    for (long p : {5L, 54L, 64L, 65L, 300L})
      if (off(val(x.arf(p)).q(), truth, ref::pow2(-p))) return str("another number: ", x);
    return "this product";
  }
  std::string r;
  for (long p : {5L, 54L, 64L, 65L, 300L}) {
    auto a = x.arf(p);
    char* s = arf_dump_str(a.arf_t());
    r += std::string(s) + "|";
    flint_free(s);
  }
  // Numbers of billions of digits are not printed.
  return n.name[0] == 'w' ? r : r + str(x);
}
template <typename A>
void real_numbers(mc::Ctx& c) {
  auto all = reals(c.thorough);
  for (size_t i = 0; i < all.size(); i++)
    c.leaf([&] { return str(A::name(), ": ", all[i].name); }, [&] {
      auto& n = all[i];
      auto x = n.make();
      auto text = dump<A>(x);
      std::string digits = digest(n, *x);
      auto same = [&](const P& y, const char* what) {
        c.check(y && digest(n, *y) == digits, [&] { return str(what, ": it comes back as ", y ? n.name[0] == 'w' ? "another number" : str(*y) : "null"); });
        auto q = static_cast<std::optional<mpq_class>>(*y);
        c.check(q.has_value() == n.rational && (!q || *q == n.q), [&] { return str(what, ": the rational value is wrong"); });
        auto z = n.make();
        c.check(z == y && *z == *y, [&] { return str(what, ": it is not the unique such number"); });
      };
      P y = RealNumber::rational(17);
      restore<A>(text, y);
      c.check(y == x, "it comes back as another number although it is alive");
      same(y, "alive");
      c.check(dump<A>(x) == text, "it serializes differently the second time");
      // destroyed in between
      x = y = nullptr;
      restore<A>(text, y);
      same(y, "destroyed");
      // destroyed, and made again
      y = nullptr;
      x = n.make();
      restore<A>(text, y);
      c.check(y == x, "it comes back as another number although it was made again");
      same(y, "made again");
      // shared, with null pointers, in a collection
      x = n.make();
      std::vector<P> xs{nullptr, x, x, nullptr, RealNumber::rational(Q(5, 9)), x, RealNumber::random(Seed(77)), *x * *x}, ys;
      auto list = dump<A>(xs);
      restore<A>(list, ys);
      c.check(ys == xs, "a vector of numbers that are alive");
      xs.clear();
      ys.clear();
      x = y = nullptr;
      restore<A>(list, ys);
      c.check(ys.size() == 8 && !ys[0] && !ys[3] && ys[1] == ys[2] && ys[1] == ys[5] && ys[1] && ys[4] && ys[6] && ys[7] && ys[1] != ys[6], "the sharing in a vector is lost");
      c.check(*ys[1] * *ys[1] == ys[7] && *ys[4] == *RealNumber::rational(Q(5, 9)) && ys[6] == RealNumber::random(Seed(77)), "the numbers in a vector");
      same(ys[1], "in a vector");
      ys.clear();
      // in another process
      elsewhere([&] {
        // numbers that were made in between
        auto a = RealNumber::random(Seed(1)), b = RealNumber::random();
        P z;
        restore<A>(text, z);
        c.check(z && digest(n, *z) == digits, "another process sees other digits");
        c.check(n.make() == z, "it is not unique in another process");
        return std::string();
      });
      // from another process
      auto theirs = elsewhere([&] { return dump<A>(n.make()); });
      restore<A>(theirs, y);
      same(y, "from another process");
      c.state(n.name);
    });
}

// Elements: saved by a process that made the generators in some order, loaded
// by one in which some of them exist already, made in some order.
const std::vector<std::vector<int>>& orders(bool all) {
  static const std::vector<std::vector<int>> full{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  static const std::vector<std::vector<int>> some{{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  return all ? full : some;
}
std::string show(const std::vector<int>& o) {
  std::string r;
  for (int i : o) r += static_cast<char>('a' + i);
  return r.empty() ? "none" : r;
}
template <typename R>
std::vector<Spec> objects(bool thorough) {
  std::vector<Spec> r;
  for (const Field* f : Ringed<R>::over()) {
    if (f && f != &fields()[0] && !(thorough && f == &fields()[1])) continue;
    K k = f ? K(f, {Q(1, 2), -3}) : std::is_same_v<R, IntegerRing> ? K(Q(-ref::pow2z(70) - 1)) : K(Q(-22, 7)), one(1), l(std::is_same_v<R, IntegerRing> ? Q(12) : Q(5, 3));
    auto add = [&](const Gs& g, std::vector<K> co) {
      Spec s;
      s.gens = g;
      s.f = f;
      for (auto& x : co) {
        x.f = f;
        s.co.push_back(x);
      }
      r.push_back(s);
    };
    add({}, {});
    add({rat(1)}, {k});
    add({rat(Q(1, 3))}, {l});
    add({mono(1)}, {k});
    add({mono(1), mono(0, 1)}, {k, l});
    add({rat(1), mono(0, 1), mono(0, 0, 1)}, {one, k, l});
    add({mono(1), mono(0, 1), mono(0, 0, 1)}, {k, K(0), l});
    add({mono(1), mono(0, 1), mono(0, 0, 1)}, {K(0), K(0), K(0)});
    add({mono(2), mono(1, 1), mono(0, 2)}, {one, l, k});
    add({rat(1), mono(0, 0, 1), mono(1, 1), mono(0, 1, 1)}, {one, l, k, K(2)});
    add({mono(1, 1, 1), mono(2, 0, 1)}, {l, k});
  }
  return r;
}
template <typename R, typename A>
void elements(mc::Ctx& c) {
  for (auto& s : objects<R>(c.thorough))
    for (auto& o : orders(true))
      for (auto& l : orders(false))
        c.leaf([&] { return str(A::name(), ", ", Ringed<R>::name(), ": ", s.s(), ", generators made in the order ", show(o), ", loaded when ", show(l), " exist"); }, [&] {
          const Poly p = s.poly();
          const bool zero = p.zero();
          auto make = [&](const std::vector<int>& order, std::vector<P>& keep) {
            for (int i : order) keep.push_back(generators()[static_cast<size_t>(i)].make());
          };
          auto text = elsewhere([&] {
            std::vector<P> keep;
            make(o, keep);
            Env env(3);
            auto x = s.template make<R>(env);
            auto m = x.module();
            // a collection that shares everything
            std::vector<Element<R>> v{x, m->zero(), x};
            for (long i = 0; i < m->rank(); i++) v.push_back(m->gen(i));
            std::shared_ptr<const Module<R>> null;
            auto text = dump<A>(x, m, v, null, m);
            c.check(env.read(x) == p && x.module() == m, "saving has changed the element");
            c.check(dump<A>(x, m, v, null, m) == text, "it is saved differently the second time");
            // in the same process
            Element<R> y;
            std::shared_ptr<const Module<R>> n, n2, no = m;
            std::vector<Element<R>> w;
            restore<A>(text, y, n, w, no, n2);
            c.check(y == x && y.module() == m && n == m && n2 == m && !no, "loading in the same process");
            c.check(w == v && w[0].module() == m, "a vector in the same process");
            return text;
          });
          elsewhere([&] {
            std::vector<P> keep;
            make(l, keep);
            Element<R> y;
            std::shared_ptr<const Module<R>> m, no, n;
            std::vector<Element<R>> w;
            restore<A>(text, y, m, w, no, n);
            Env env(3);
            Poly q = env.read(y);
            c.check(q == p, [&] { return str("it comes back as ", q.s()); });
            c.check(y.module() == m && n == m && !no, "the module is not shared");
            auto gs = env.gens_of(*m);
            c.check(std::set<Gen>(gs.begin(), gs.end()) == std::set<Gen>(s.gens.begin(), s.gens.end()) && gs.size() == s.gens.size(), "the generators are not the same");
            c.check(env.module<R>(s.gens, s.f) == m || s.f, "the module is not the unique one");
            for (size_t i = 0; i + 1 < gs.size(); i++) c.check(m->basis()[i]->deglex(*m->basis()[i + 1]), "the generators are not sorted");
            c.check(w.size() == s.gens.size() + 3 && env.read(w[0]) == p && env.read(w[1]).zero() && env.read(w[2]) == p, "a vector of elements");
            c.check((w[0] == y) && (w[1] == y) == zero, "the elements of a vector");
            std::set<Gen> seen;
            for (size_t i = 3; i < w.size(); i++) {
              Poly g = env.read(w[i]);
              bool found = false;
              for (auto& x : s.gens)
                if (g == Poly(x.e, K(x.r))) found = seen.insert(x).second;
              c.check(found && w[i].module() == m, [&] { return str("a generator comes back as ", g.s()); });
            }
            // and once more
            Element<R> z;
            restore<A>(dump<A>(y), z);
            c.check(z == y && z.module() == m, "saving and loading again");
            if constexpr (std::is_same_v<R, NumberField>)
              c.check(s.f ? *m->ring().parameters == *s.f->k : true, "the number field is not the same");
            return std::string();
          });
          c.state(str(s.s(), show(o), show(l)));
          c.outcome(zero ? "zero" : "element");
        });
}
// Two files of the same numbers, loaded one after the other in either order
template <typename R, typename A>
void files(mc::Ctx& c) {
  auto all = objects<R>(false);
  for (auto& s : all)
    for (auto& t : all)
      c.leaf([&] { return str(A::name(), ", ", Ringed<R>::name(), ": files with ", s.s(), " and ", t.s()); }, [&] {
        std::string one, two;
        auto make = [&](const Spec& x) {
          return elsewhere([&] {
            Env env(3);
            return dump<A>(x.template make<R>(env), env.gens);
          });
        };
        one = make(s);
        two = make(t);
        elsewhere([&] {
          Element<R> x, y;
          std::vector<P> g, h;
          restore<A>(two, y, h);
          restore<A>(one, x, g);
          Env env(3);
          c.check(g == h && g == env.gens, "the generators of the files differ");
          c.check(env.read(x) == s.poly(), [&] { return str("the first comes back as ", env.read(x).s()); });
          c.check(env.read(y) == t.poly(), [&] { return str("the second comes back as ", env.read(y).s()); });
          return std::string();
        });
        c.state(str(s.s(), t.s()));
      });
}
// Everything that can be done while an archive is open: numbers are made and
// dropped, and written alone, in modules and in elements.
// (Caches of the library keep numbers alive, so every session has its own.)
unsigned salt = 0;
const std::vector<std::pair<std::string, std::function<P()>>>& values() {
  static const std::vector<std::pair<std::string, std::function<P()>>> v{
      {"1/3", [] { return RealNumber::rational(Q(1 + 12 * salt, 3)); }},
      {"-5/7", [] { return RealNumber::rational(Q(-5 - 14 * static_cast<long>(salt), 7)); }},
      {"r5", [] { return RealNumber::random(Seed(5 + 10 * salt)); }},
      {"r6", [] { return RealNumber::random(Seed(6 + 10 * salt)); }},
      {"n7", [] { return RealNumber::random(0.3, Seed(7 + 10 * salt)); }},
      {"n8", [] { return RealNumber::random(0.3, Seed(8 + 10 * salt)); }},
      {"r5 r6", [] { return *RealNumber::random(Seed(5 + 10 * salt)) * *RealNumber::random(Seed(6 + 10 * salt)); }},
      {"n7^2", [] { return *RealNumber::random(0.3, Seed(7 + 10 * salt)) * *RealNumber::random(0.3, Seed(7 + 10 * salt)); }},
  };
  return v;
}
struct Written {
  int kind;  // 0: number, 1: module, 2: element
  int v;
};
template <typename A>
void session(mc::Ctx& c, const std::vector<int>& ops, const std::vector<int>& vs) {
  // operations: value number v into slot i, drop slot i, write slot i as number, module, or element
  using M = std::shared_ptr<const Module<RationalField>>;
  using E = Element<RationalField>;
  const int n = static_cast<int>(vs.size());
  salt++;
  std::vector<Written> written;
  std::ostringstream out;
  {
    typename A::Out archive(out);
    P slot[2];
    int held[2] = {-1, -1};
    for (int op : ops) {
      const int i = op % 2, o = op / 2;
      c.trans(1);
      if (o < n) {
        slot[i] = values()[static_cast<size_t>(vs[static_cast<size_t>(o)])].second();
        held[i] = vs[static_cast<size_t>(o)];
      } else if (o == n) {
        slot[i] = nullptr;
        held[i] = -1;
      } else if (o == n + 1) {
        archive(slot[i]);
        written.push_back({0, held[i]});
      } else if (o == n + 2) {
        archive(slot[i] ? Module<RationalField>::make({slot[i]}) : Module<RationalField>::make({}));
        written.push_back({1, held[i]});
      } else {
        archive(slot[i] ? E(Module<RationalField>::make({slot[i]}), {Q(2, 9)}) : E());
        written.push_back({2, held[i]});
      }
    }
  }
  for (bool keep : {true, false}) {
    std::istringstream in(out.str());
    typename A::In archive(in);
    std::vector<P> xs;
    std::vector<M> ms;
    std::vector<E> es;
    for (size_t k = 0; k < written.size(); k++) {
      auto& w = written[k];
      P expected = w.v < 0 ? nullptr : values()[static_cast<size_t>(w.v)].second();
      auto bad = [&](auto&& got) { c.fail(str("object number ", k, " should be ", w.v < 0 ? "nothing" : values()[static_cast<size_t>(w.v)].first, w.kind == 0 ? "" : w.kind == 1 ? " (module)" : " (element)", " but is ", got)); };
      if (w.kind == 0) {
        P x = RealNumber::rational(99);
        archive(x);
        if (x != expected) bad(x ? str(*x) : "null");
        if (keep) xs.push_back(x);
      } else if (w.kind == 1) {
        M m;
        archive(m);
        if (!m || m->rank() != (expected ? 1 : 0) || (expected && m->basis()[0] != expected)) bad(m ? str(*m) : "null");
        if (m != Module<RationalField>::make(expected ? std::vector<P>{expected} : std::vector<P>{})) bad("another module");
        if (keep) ms.push_back(m);
      } else {
        E x;
        archive(x);
        if (expected ? x.module()->rank() != 1 || x.module()->basis()[0] != expected || x.coefficients()[0] != Q(2, 9) : static_cast<bool>(x)) bad(str(x));
        if (keep) es.push_back(x);
      }
    }
  }
}
template <typename A>
void sessions(mc::Ctx& c) {
  const size_t depth = c.thorough ? 6 : 5;
  for (auto& vs : std::vector<std::vector<int>>{{0, 1}, {2, 3}, {4, 5}, {6, 7}, {0, 2}, {5, 7}, {2, 6}}) {
    const int n = static_cast<int>(vs.size()), count = 2 * (n + 4);
    auto show = [&](const std::vector<int>& ops) {
      std::string r;
      for (int op : ops) {
        const int o = op / 2;
        r += (r.empty() ? "" : "; ") + (o < n ? str("slot ", op % 2, " = ", values()[static_cast<size_t>(vs[static_cast<size_t>(o)])].first) : str(o == n ? "drop" : o == n + 1 ? "write" : o == n + 2 ? "write the module of" : "write the element of", " slot ", op % 2));
      }
      return r;
    };
    for (int first = 0; first < count; first++)
      for (int second = 0; second < count; second++) {
        // the slots are interchangeable
        if (first % 2) continue;
        if (first / 2 == n || second / 2 == (second % 2 == 0 && first / 2 < n ? first / 2 : n)) continue;
        c.leaf([&] { return str(A::name(), ": ", show({first, second}), " and then anything, values ", values()[static_cast<size_t>(vs[0])].first, " and ", values()[static_cast<size_t>(vs[1])].first); }, [&] {
          std::vector<int> ops{first, second};
          std::function<void()> go = [&] {
            // nothing new unless something was written
            if (ops.back() / 2 > n) {
              try {
                session<A>(c, ops, vs);
              } catch (const mc::Failure& e) {
                throw mc::Failure{show(ops) + ": " + e.msg};
              }
              c.state(str(show(ops)));
            }
            if (ops.size() == depth) return;
            for (int op = 0; op < count; op++) {
              // what the slot holds
              int held = n;
              for (int o : ops)
                if (o % 2 == op % 2 && o / 2 <= n) held = o / 2;
              if (op / 2 == held) continue;
              ops.push_back(op);
              go();
              ops.pop_back();
            }
          };
          go();
        });
      }
  }
}
}  // namespace

MC_SUITE(sessions_json) { sessions<Json>(c); }
MC_SUITE(sessions_binary) { sessions<Portable>(c); }
MC_SUITE(arf_json) { arfs<Json>(c); }
MC_SUITE(arf_binary) { arfs<Portable>(c); }
MC_SUITE(arb_json) { arbs<Json>(c); }
MC_SUITE(arb_binary) { arbs<Portable>(c); }
MC_SUITE(real_json) { real_numbers<Json>(c); }
MC_SUITE(real_binary) { real_numbers<Portable>(c); }
MC_SUITE(elements_integers_json) { elements<IntegerRing, Json>(c); }
MC_SUITE(elements_rationals_json) { elements<RationalField, Json>(c); }
MC_SUITE(elements_number_fields_json) { elements<NumberField, Json>(c); }
MC_SUITE(elements_integers_binary) { elements<IntegerRing, Portable>(c); }
MC_SUITE(elements_rationals_binary) { elements<RationalField, Portable>(c); }
MC_SUITE(elements_number_fields_binary) { elements<NumberField, Portable>(c); }
MC_SUITE(files_rationals) { files<RationalField, Json>(c); }
MC_SUITE(files_number_fields) { files<NumberField, Json>(c); }

MC_MAIN
