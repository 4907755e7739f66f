// Fresh seeds: sequentially, and under all interleavings of threads.
#include "mc.hpp"
#include "sched.hpp"

#include <exact-real/arf.hpp>
#include <exact-real/real_number.hpp>
#include <exact-real/seed.hpp>

#include <algorithm>

using exactreal::Arf;
using exactreal::RealNumber;
using exactreal::Seed;
using mc::str;

namespace {
std::string schedule(const std::vector<int>& s) {
  std::string r;
  for (int i : s) r += static_cast<char>('0' + i);
  return r.substr(0, 400);
}

// Run scenario(threads) under all schedules; the scenario returns one list of
// values per thread, which must all be different.
struct Scenario {
  std::string name;
  std::vector<int> ops;  // number of operations by thread
  int preemptions;
};
}  // namespace

// In a fresh process: the seeds count up from 1337.
MC_SUITE(count_up) {
  c.leaf([] { return "default seeds in sequence"; }, [&] {
    const uint64_t n = c.thorough ? (1ull << 32) : (1ull << 27);
    for (uint64_t i = 0; i < n; i++) {
      Seed s;
      if (s.value != static_cast<unsigned int>(1337 + i)) c.fail(str("seed number ", i, " has value ", s.value, ", expected ", 1337 + i));
      if ((i & 0xffffff) == 0) c.beat(), c.state(str(i));
    }
    c.trans(n);
  });
}

MC_SUITE(explicit_seeds) {
  std::vector<unsigned> vs{0, 1, 2, 1336, 1337, 1338, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff};
  for (int k = 0; k < 32; k++)
    for (int d = -2; d <= 2; d++) vs.push_back((1u << k) + static_cast<unsigned>(d));
  // in all interleavings of explicit and default seeds, up to a length
  for (unsigned v : vs)
    for (int len = 1; len <= 8; len++)
      for (int bits = 0; bits < (1 << len); bits++)
        c.leaf([&] { return str("Seed(", v, ") and Seed() in the pattern ", bits, " of length ", len); }, [&] {
          unsigned last = Seed().value;
          for (int i = 0; i < len; i++) {
            if (bits >> i & 1) {
              Seed s(v);
              Seed t = s, w(0);
              w = t;
              c.check(s.value == v && t.value == v && w.value == v, [&] { return str("Seed(", v, ") has value ", w.value); });
            } else {
              Seed s;
              c.check(s.value == last + 1, [&] { return str("Seed() is ", s.value, " after ", last); });
              Seed t(s);
              c.check(t.value == s.value, "a copy differs");
              last++;
            }
          }
          c.state(str(v, " ", len, " ", bits));
        });
}

MC_SUITE(concurrent_seeds) {
  std::vector<std::vector<int>> shapes{{1, 1}, {2, 1}, {2, 2}, {3, 2}, {3, 3}, {1, 1, 1}, {2, 1, 1}, {2, 2, 1}, {2, 2, 2}, {1, 1, 1, 1}, {4, 4}};
  if (c.thorough) shapes.insert(shapes.end(), {{5, 5}, {6, 6}, {3, 2, 2}, {3, 3, 2}, {2, 2, 1, 1}, {2, 1, 1, 1, 1}});
  for (auto& shape : shapes)
    c.leaf(
        [&] {
          std::string s = "default seeds created by threads:";
          for (int k : shape) s += str(" ", k);
          return s;
        },
        [&] {
          std::vector<std::vector<unsigned>> got;
          unsigned last = Seed().value;
          auto st = sched::explore(
              [&] {
                got.assign(shape.size(), {});
                std::vector<std::function<void()>> bodies;
                for (size_t t = 0; t < shape.size(); t++) {
                  got[t].reserve(16);
                  bodies.push_back([&, t] {
                    for (int i = 0; i < shape[t]; i++) {
                      Seed s;
                      got[t].push_back(s.value);
                    }
                  });
                }
                return bodies;
              },
              [&](const sched::Execution&) -> std::string {
                std::vector<unsigned> all;
                std::string vals;
                for (auto& g : got)
                  for (size_t i = 0; i < g.size(); i++) {
                    all.push_back(g[i]);
                    vals += str(g[i], " ");
                  }
                for (auto& g : got)
                  for (size_t i = 1; i < g.size(); i++)
                    if (g[i] <= g[i - 1]) return str("a thread sees ", g[i], " after ", g[i - 1]);
                std::sort(all.begin(), all.end());
                for (size_t i = 0; i < all.size(); i++)
                  if (all[i] != last + i + 1) return str("the seeds ", vals, "(after ", last, ") are not the next ones, each once");
                return "";
              },
              [&](const sched::Execution& e, const std::vector<int>& s) {
                c.beat();
                c.trans(s.size());
                // schedules are states of the exploration: every prefix of one is a node of the tree
                c.state(schedule(s) + str(shape.size()));
                if (!e.what.empty()) c.fail(str(e.what, ", schedule ", schedule(s)));
              },
              1 << 20, c.thorough ? 300000 : 20000);
          c.outcome(str(st.executions, " schedules of up to ", st.maxdepth, " points, ", st.complete ? "all" : "capped"));
        });
}

// Threads that create real numbers through different factories: the numbers are
// different, and their internal identifiers order them strictly.
MC_SUITE(concurrent_numbers) {
  const auto warm = RealNumber::random(Seed(5));
  const auto warm2 = RealNumber::random(Seed(6));
  (void)RealNumber::random(Arf(1), Arf(2), Seed(6));
  (void)(*warm * *warm2);
  (void)RealNumber::rational(3);
  using F = std::function<std::shared_ptr<const RealNumber>()>;
  struct Op {
    const char* name;
    F f;
  };
  std::vector<Op> ops{
      {"random()", [] { return RealNumber::random(); }},
      {"random(1, 2)", [] { return RealNumber::random(Arf(1), Arf(2)); }},
      {"random(.5)", [] { return RealNumber::random(.5); }},
      {"square", [&] { return *warm * *warm; }},
      {"product", [&] { return *warm * *warm2; }},
  };
  for (size_t a = 0; a < ops.size(); a++)
    for (size_t b = a; b < ops.size(); b++)
      c.leaf([&] { return str(ops[a].name, " || ", ops[b].name); }, [&] {
        std::vector<std::shared_ptr<const RealNumber>> got(2);
        auto st = sched::explore(
            [&] {
              got = {nullptr, nullptr};
              std::vector<std::function<void()>> bodies{[&] { got[0] = ops[a].f(); }, [&] { got[1] = ops[b].f(); }};
              return bodies;
            },
            [&](const sched::Execution&) -> std::string {
              bool same = a == b && a >= 3;
              if ((*got[0] == *got[1]) != same) return same ? "the same number was created twice" : "two calls returned the same number";
              if (!same && got[0]->deglex(*got[1]) == got[1]->deglex(*got[0])) return "the numbers share an identifier";
              return "";
            },
            [&](const sched::Execution& e, const std::vector<int>& s) {
              c.beat();
              c.trans(s.size());
              c.state(schedule(s));
              if (!e.what.empty()) c.fail(str(e.what, ", schedule ", schedule(s)));
            },
            c.thorough ? 2 : 1, c.thorough ? 60000 : 3000);
        c.outcome(str(ops[a].name, " || ", ops[b].name, ": ", st.executions, " schedules of up to ", st.maxdepth, " points, ", st.complete ? "all within the preemption bound" : "capped"));
      });
}

MC_MAIN
