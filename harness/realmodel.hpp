// What real numbers are, as far as the checks know: exact rationals, or
// transcendental numbers of which arbitrarily good enclosures are known.
#pragma once
#include "ref.hpp"

#include <exact-real/arb.hpp>
#include <exact-real/arf.hpp>
#include <exact-real/real_number.hpp>
#include <exact-real/seed.hpp>

#include <functional>
#include <map>
#include <memory>

namespace model {
using exactreal::Arb;
using exactreal::Arf;
using exactreal::RealNumber;
using exactreal::Seed;
using ref::I;
using ref::Q;
using ref::Z;
using P = std::shared_ptr<const RealNumber>;

inline ref::V val(const Arf& x) { return ref::of_arf(x.arf_t()); }
inline Arf arf(const Q& q) {
  Arf r;
  ref::to_arf(r.arf_t(), ref::of_q(q));
  return r;
}
inline bool dyadic(const Q& q) { return mpz_popcount(q.get_den_mpz_t()) == 1; }

// The binary digits behind the point of the random number with this seed: the
// top bits of the 48 bit linear congruential generator of POSIX.
inline Z digits(unsigned seed, long n) {
  uint64_t x = ((static_cast<uint64_t>(seed) << 16) | 0x330e) & 0xffffffffffffull;
  std::string s;
  for (long i = 0; i < n; i++) {
    x = (x * 0x5deece66dull + 0xb) & 0xffffffffffffull;
    s += static_cast<char>('0' + (x >> 47));
  }
  return Z("0" + s, 2);
}
inline I random(unsigned seed, long bits) {
  Z d = digits(seed, bits);
  return {ref::dy(d, -bits), ref::dy(d + 1, -bits)};
}
inline I mul(const I& a, const I& b) {
  Q t[] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
  I r{t[0], t[0]};
  for (auto& v : t) {
    if (v < r.lo) r.lo = v;
    if (v > r.hi) r.hi = v;
  }
  return r;
}
inline I add(const I& a, const I& b) { return {a.lo + b.lo, a.hi + b.hi}; }
// Outward rounding to a grid that is much finer than the enclosure's width.
inline I trim(const I& a) {
  Q w = a.hi - a.lo;
  if (w == 0) return a;
  long u = ref::ilog2(w) - 8;
  return {ref::dy(ref::floorq(a.lo / ref::pow2(u)), u), ref::dy(ref::ceilq(a.hi / ref::pow2(u)), u)};
}

// Seeds of numbers that begin with many equal digits (found by an exhaustive
// search of all 2^32 seeds): 32 zeros, 31 zeros, 32 ones, 31 ones, 1 and 30 zeros.
inline const std::vector<unsigned> EXTREME_SEEDS{1393134103u, 964208034u, 3540617751u, 955421873u, 4130334620u};

// Powers of random(seed) whose approximations to some precision have almost (or,
// with fewer guard digits, more than) the largest permitted error.
inline const std::vector<std::pair<unsigned, int>> CLOSE_POWERS{{27381u, 5}, {394553u, 5}, {526609u, 5}, {1428581u, 5}, {1449502u, 5}, {1612406u, 5}, {85266u, 21}, {678978u, 21}};

struct Num {
  std::string name;
  std::function<P()> make;
  bool rational = false;
  Q q;                       // the value of a rational
  std::function<I(long)> enclose;  // of a transcendental number, to a relative accuracy of about that many bits
  I truth(long bits) const {
    if (rational) return {q, q};
    return enclose(bits);
  }
};

inline Num rational(const Q& q) {
  Num n;
  n.name = q.get_str();
  n.rational = true;
  n.q = q;
  n.make = [q] { return RealNumber::rational(q); };
  return n;
}
inline Num random(unsigned seed) {
  Num n;
  n.name = "random(" + std::to_string(seed) + ")";
  n.make = [seed] { return RealNumber::random(Seed(seed)); };
  n.enclose = [seed](long bits) {
    auto i = random(seed, bits + 8);
    if (i.lo == 0) return random(seed, bits + 200);
    long z = -ref::ilog2(i.lo);
    return random(seed, bits + z + 8);
  };
  return n;
}
// A number that is approximated by itself, freshly made, to a high precision.
inline std::function<I(long)> self(std::function<P()> make) {
  struct Cache {
    long bits = 0;
    I i;
  };
  auto cache = std::make_shared<Cache>();
  return [make, cache](long bits) {
    if (cache->bits < bits) {
      Q v = val(make()->arf(bits + 8)).q();
      Q err = abs(v) * ref::pow2(-bits - 7);
      cache->i = trim({v - err, v + err});
      cache->bits = bits;
    }
    return cache->i;
  };
}
inline Num between(const Q& a, const Q& b, unsigned seed) {
  Num n;
  n.name = "random(" + a.get_str() + ", " + b.get_str() + "; " + std::to_string(seed) + ")";
  n.make = [a, b, seed] { return RealNumber::random(arf(a), arf(b), Seed(seed)); };
  n.enclose = self(n.make);
  return n;
}
inline Num near(double d, unsigned seed) {
  Num n;
  std::ostringstream s;
  s << std::hexfloat << d;
  n.name = "random(" + s.str() + "; " + std::to_string(seed) + ")";
  n.make = [d, seed] { return RealNumber::random(d, Seed(seed)); };
  n.enclose = self(n.make);
  return n;
}
inline Num product(std::vector<Num> f) {
  Num n;
  for (auto& x : f) n.name += (n.name.empty() ? "" : "*") + x.name;
  n.make = [f] {
    P p = f[0].make();
    for (size_t i = 1; i < f.size(); i++) p = *p * *f[i].make();
    return p;
  };
  n.enclose = [f](long bits) {
    long w = bits + 4 + 2 * static_cast<long>(f.size());
    I r{1, 1};
    for (auto& x : f) r = trim(mul(r, x.enclose(w)));
    return r;
  };
  return n;
}

// Definitely |v - x| > bound·|x| for every x in the enclosure
inline bool off(const Q& v, const I& x, const Q& bound) {
  // f(t) = |v - t| - bound·|t| for t in [lo, hi]; test the ends, and v itself if it is inside
  auto ok = [&](const Q& t) { return abs(v - t) <= bound * abs(t); };
  return !(ok(x.lo) || ok(x.hi) || (x.lo <= v && v <= x.hi));
}
// sign of (x - v): 0 if it is undecided
inline int side(const I& x, const Q& v) { return x.lo > v ? 1 : x.hi < v ? -1 : 0; }
}  // namespace model
