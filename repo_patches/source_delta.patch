From fe42defaae73630a01b89112aaaaca06abfb7a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 01/24] fix: logb of numbers whose logarithm is the largest
 long

---
 libexactreal/src/arf.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arf.cc b/libexactreal/src/arf.cc
index 8fadd33..a246a85 100644
--- a/libexactreal/src/arf.cc
+++ b/libexactreal/src/arf.cc
@@ -187,7 +187,8 @@ long Arf::logb() const noexcept {
   fmpz_t e;
   fmpz_init(e);
   arf_frexp(_.t, e, t);
-  long ret = fmpz_get_si(e) - 1;
+  fmpz_sub_ui(e, e, 1);
+  long ret = fmpz_get_si(e);
   fmpz_clear(e);
   return ret;
 }
-- 
2.43.0


From 2e762e3ea5f1af1f0a04bb60c2549bf60dbc16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 02/24] fix: shifting an Arf down by the smallest long

---
 libexactreal/src/arf.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arf.cc b/libexactreal/src/arf.cc
index a246a85..9eb4b10 100644
--- a/libexactreal/src/arf.cc
+++ b/libexactreal/src/arf.cc
@@ -130,7 +130,14 @@ Arf& Arf::operator<<=(const long rhs) noexcept {
   return *this;
 }
 
-Arf& Arf::operator>>=(const long rhs) noexcept { return this->operator<<=(-rhs); }
+Arf& Arf::operator>>=(const long rhs) noexcept {
+  fmpz_t e;
+  fmpz_init_set_si(e, rhs);
+  fmpz_neg(e, e);
+  arf_mul_2exp_fmpz(t, t, e);
+  fmpz_clear(e);
+  return *this;
+}
 
 bool Arf::operator<(const Arf& rhs) const noexcept { return arf_cmp(t, rhs.t) < 0; }
 
-- 
2.43.0


From 1e2dabc66cb79ef177f00de54a637d1da6c1493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/24] fix: print large integers exactly as documented

---
 libexactreal/src/arf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arf.cc b/libexactreal/src/arf.cc
index 9eb4b10..415d49b 100644
--- a/libexactreal/src/arf.cc
+++ b/libexactreal/src/arf.cc
@@ -215,7 +215,7 @@ ostream& operator<<(ostream& os, const Arf& self) {
     return os << "-∞";
   } else if (arf_is_nan(self.t)) {
     return os << "NaN";
-  } else if (self.exponent() >= 0) {
+  } else if (self.exponent() >= 0 && self == Arf(static_cast<double>(self))) {
     return os << static_cast<double>(self);
   }
 
-- 
2.43.0


From 7323686dacb539b98345cef117f3322adc7b9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 04/24] fix: Arb != rational is the negation of ==

---
 libexactreal/src/arb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 9495d5a..06b4d2b 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -258,7 +258,7 @@ std::optional<bool> Arb::operator==(const mpq_class& rhs) const noexcept {
 
 std::optional<bool> Arb::operator!=(const mpq_class& rhs) const noexcept {
   Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);
-  return lhs == Arb(rhs.get_num());
+  return lhs != Arb(rhs.get_num());
 }
 
 std::optional<bool> Arb::operator<(const mpq_class& rhs) const noexcept {
-- 
2.43.0


From 7af210b29bf1dbff0bce7f6b8792b0022d41db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 05/24] fix: bounds of balls that are too wide to have a
 relative accuracy

---
 libexactreal/src/arb.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 06b4d2b..7b54194 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -33,6 +33,7 @@
 #include <algorithm>
 #include <boost/lexical_cast.hpp>
 #include <boost/numeric/conversion/cast.hpp>
+#include <algorithm>
 #include <ostream>
 
 #include "../exact-real/arf.hpp"
@@ -314,7 +315,8 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
 
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
-  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), arb_rel_accuracy_bits(arb_t()));
+  // The relative accuracy of a wide ball is not a valid precision since it might be zero or negative.
+  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), std::max<prec>(arb_rel_accuracy_bits(arb_t()), MAG_BITS));
   return ret;
 }
 
-- 
2.43.0


From 05047f2b92d290fc61589092e07acd69807626fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 06/24] fix: seeds that are created by several threads at once
 are different

The counter behind Seed() was incremented non-atomically, so two threads
could get the same seed.
---
 libexactreal/src/seed.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/seed.cc b/libexactreal/src/seed.cc
index a7c192e..efa84d7 100644
--- a/libexactreal/src/seed.cc
+++ b/libexactreal/src/seed.cc
@@ -20,8 +20,10 @@
 
 #include "../exact-real/seed.hpp"
 
+#include <atomic>
+
 namespace exactreal {
-static unsigned int nextSeed = 1337;
+static std::atomic<unsigned int> nextSeed = 1337;
 
 Seed::Seed() : Seed(nextSeed++) {}
 
-- 
2.43.0


From e45c91e24bfd7983de50bfd7d1969280cd0f00e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 07/24] fix: balls of a real number contain that number

---
 libexactreal/exact-real/real_number.hpp | 8 ++++----
 libexactreal/src/real_number.cc         | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index d6db9f6..2d2a863 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -156,7 +156,7 @@ class LIBEXACTREAL_API RealNumber
   ///     #include <exact-real/arb.hpp>
   ///     const auto x = exactreal::RealNumber::rational(mpq_class{1, 3});
   ///     x->arb(3)
-  ///     // -> [0.312500 +/- 0.0157]
+  ///     // -> [0.328125 +/- 0.0157]
   ///
   /// Note that the printed output here for the radius can be misleading since
   /// printing via `std::cout` (which is used here) normally only requests a
@@ -167,7 +167,7 @@ class LIBEXACTREAL_API RealNumber
   ///     // -> [0.333333 +/- 3.34e-7]
   ///
   ///     std::cout << std::setprecision(32) << x->arb(64);
-  ///     // -> [0.33333333333333333334236835143738 +/- 6.78e-21]
+  ///     // -> [0.33333333333333333333559208785934 +/- 6.78e-21]
   ///
   Arb arb(long prec) const;
 
@@ -182,11 +182,11 @@ class LIBEXACTREAL_API RealNumber
   ///
   ///     x->refine(a, 2);
   ///     a
-  ///     // -> [0.375000 +/- 0.0313]
+  ///     // -> [0.343750 +/- 0.0313]
   ///
   ///     x->refine(a, 16);
   ///     a
-  ///     // -> [0.333336 +/- 2.04e-6]
+  ///     // -> [0.333334 +/- 1.94e-6]
   ///
   void refine(Arb& arb, long prec) const;
 
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index af8348b..c458a88 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -68,7 +68,8 @@ void RealNumber::refine(Arb& arb, const long prec) const {
     return;
   }
 
-  Arf midpoint = arf(prec);
+  // The radius below is a quarter of the error that arf(prec) is allowed to have.
+  Arf midpoint = arf(prec + 2);
   arb_set_arf(arb.arb_t(), midpoint.arf_t());
   arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
 
-- 
2.43.0


From f0fef35cb33128ea74060c026b83e29b05673fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 08/24] fix: compare real numbers with unsigned integers

---
 libexactreal/exact-real/real_number.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index 2d2a863..aa1803d 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -311,17 +311,17 @@ class LIBEXACTREAL_API RealNumber
 #ifndef DOXYGEN_DOCUMENTATION_BUILD
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator<(Integer rhs) const noexcept {
-  return this->operator<(Arf(rhs));
+  return this->operator<(mpz_class(rhs));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator>(Integer rhs) const noexcept {
-  return this->operator>(Arf(rhs));
+  return this->operator>(mpz_class(rhs));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator==(Integer rhs) const noexcept {
-  return this->operator==(Arf(rhs));
+  return this->operator==(mpz_class(rhs));
 }
 #endif
 
-- 
2.43.0


From 544a944219aefe571632016343e77419fad892a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 09/24] fix: RealNumber::cmp next to the end points of a ball

---
 libexactreal/src/real_number.cc | 54 ++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index c458a88..8b94386 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -20,6 +20,8 @@
 
 #include "../exact-real/real_number.hpp"
 
+#include <flint/fmpq.h>
+
 #include <cassert>
 
 #include "../exact-real/arb.hpp"
@@ -28,13 +30,26 @@
 #include "../exact-real/yap/arf.hpp"
 #include "impl/real_number_base.hpp"
 
-using std::max;
 using std::ostream;
 
 namespace exactreal {
 
 const long ARF_DOUBLE_PRECISION = 54;
 
+namespace {
+
+/// Return a ball with \p prec bits of relative accuracy that contains \p x.
+Arb approximation(const RealNumber& x, const long prec) {
+  // The radius below is a quarter of the error that arf(prec) is allowed to have.
+  const Arf midpoint = x.arf(prec + 2);
+
+  Arb ret(midpoint);
+  arb_add_error_2exp_si(ret.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  return ret;
+}
+
+}  // namespace
+
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
@@ -47,16 +62,28 @@ RealNumber::operator bool() const {
 }
 
 int RealNumber::cmp(const Arb& arb) const {
-  auto interval = static_cast<std::pair<Arf, Arf>>(arb);
-  auto a = interval.first, b = interval.second;
-
-  auto approx = arf(max(arf_bits(a.arf_t()), arf_bits(b.arf_t())) + 1);
-  if (approx < a) {
-    return -1;
-  } else if (approx > b) {
-    return 1;
-  } else {
-    return 0;
+  if (const auto rational = static_cast<std::optional<mpq_class>>(*this)) {
+    fmpq_t value;
+    fmpq_init(value);
+    fmpq_set_mpq(value, rational->get_mpq_t());
+    const bool contains = arb_contains_fmpq(arb.arb_t(), value);
+    fmpq_clear(value);
+
+    if (contains)
+      return 0;
+  }
+
+  // This number is not an end point of the ball so sufficient precision tells
+  // on which side of the end points it is.
+  for (long prec = 2;; prec *= 2) {
+    const Arb self = approximation(*this, prec);
+
+    if (arb_contains(arb.arb_t(), self.arb_t()))
+      return 0;
+    if (arb_lt(self.arb_t(), arb.arb_t()))
+      return -1;
+    if (arb_gt(self.arb_t(), arb.arb_t()))
+      return 1;
   }
 }
 
@@ -68,10 +95,7 @@ void RealNumber::refine(Arb& arb, const long prec) const {
     return;
   }
 
-  // The radius below is a quarter of the error that arf(prec) is allowed to have.
-  Arf midpoint = arf(prec + 2);
-  arb_set_arf(arb.arb_t(), midpoint.arf_t());
-  arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  arb = approximation(*this, prec);
 
   assert(this->cmp(arb) == 0);
   assert(!*this || arb_rel_accuracy_bits(arb.arb_t()) >= prec);
-- 
2.43.0


From b26d147238bf137d1738b3e3bd74653918818380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 10/24] fix: real numbers cast to the closest double

---
 libexactreal/src/real_number.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 8b94386..bed5260 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -53,7 +53,22 @@ Arb approximation(const RealNumber& x, const long prec) {
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
-  return static_cast<double>(arf(ARF_DOUBLE_PRECISION));
+  for (long prec = ARF_DOUBLE_PRECISION;; prec *= 2) {
+    const Arb self = approximation(*this, prec);
+
+    // Rounding is monotonic so we are done if the end points of an enclosure
+    // round to the same double.
+    const auto [lower, upper] = static_cast<std::pair<Arf, Arf>>(self);
+    const double ret = static_cast<double>(lower);
+    if (ret == static_cast<double>(upper))
+      return ret;
+
+    // The enclosures of a number that is half way between two doubles never
+    // round to the same double. Such numbers have an exact approximation.
+    const Arf midpoint = arf(prec);
+    if (*this == midpoint)
+      return static_cast<double>(midpoint);
+  }
 }
 
 RealNumber::operator bool() const {
-- 
2.43.0


From 9f005ab3c034d540eb73a5bd846035f88839a51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:59 +0000
Subject: [PATCH 11/24] fix: random numbers close to the largest doubles

---
 libexactreal/src/constrained_random_real_number.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index a05de35..7616e13 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -214,6 +214,13 @@ shared_ptr<const RealNumber> RealNumber::random(const double x, Seed seed) {
   Arf midpoint = Arf(x);
   Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));
 
+  // … which are not finite next to the doubles of largest absolute value; use
+  // the number where the double would be if the exponent could be larger…
+  if (arf_is_inf(lower.arf_t()))
+    lower = (2 * midpoint - upper)(64, Arf::Round::NEAR);
+  if (arf_is_inf(upper.arf_t()))
+    upper = (2 * midpoint - lower)(64, Arf::Round::NEAR);
+
   // … and shrink it so it only contains midpoint.
   // We use 64 bits of precision, more than a double can possibly have:
   lower = ((lower + 2 * midpoint) / 3)(64, Arf::Round::NEAR);
-- 
2.43.0


From f30de4c194044db348602a481d17666d6531c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 12/24] fix: floor of negative rationals

---
 libexactreal/src/rational_field.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/rational_field.cc b/libexactreal/src/rational_field.cc
index c081ef2..862b60c 100644
--- a/libexactreal/src/rational_field.cc
+++ b/libexactreal/src/rational_field.cc
@@ -47,7 +47,9 @@ std::optional<mpq_class> RationalField::rational(const ElementClass& x) {
 }
 
 mpz_class RationalField::floor(const ElementClass& x) {
-  return x.get_num() / x.get_den();
+  mpz_class floor;
+  mpz_fdiv_q(floor.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
+  return floor;
 }
 
 RationalField::ElementClass RationalField::coerce(const ElementClass& x) const {
-- 
2.43.0


From f70cf270aff43029cfcfd10fad61d550975b0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 13/24] fix: floor division of elements by zero

Element::floordiv() looped forever when the divisor was zero (and returned
zero for 0/0); throw as truediv() does.
---
 libexactreal/src/element.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 78131c2..09972ab 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -466,6 +466,8 @@ std::optional<Element<Ring>> Element<Ring>::truediv(const Element<Ring>& rhs) co
 
 template <typename Ring>
 mpz_class Element<Ring>::floordiv(const Element<Ring>& rhs) const {
+  LIBEXACTREAL_CHECK_ARGUMENT(rhs, "division by zero");
+
   if (!*this)
     return 0;
 
-- 
2.43.0


From 90bc4c4fbd94d663c54750c3cc8e9ec2a6998870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 14/24] fix: closest double of rational elements

The conversion rounded to 53 bits first and then again to the precision of
subnormal numbers. RealNumber::operator double gives the closest double.
---
 libexactreal/src/element.cc | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 09972ab..891c553 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -811,18 +811,8 @@ template <typename Ring>
 Element<Ring>::operator double() const {
   {
     auto rational = static_cast<std::optional<mpq_class>>(*this);
-    if (rational) {
-      Arf a;
-
-      fmpq_t q;
-      fmpq_init_set_readonly(q, rational->get_mpq_t());
-
-      arf_set_fmpq(a.arf_t(), q, DBL_MANT_DIG, ARF_RND_NEAR);
-
-      fmpq_clear_readonly(q);
-
-      return static_cast<double>(a);
-    }
+    if (rational)
+      return static_cast<double>(*RealNumber::rational(*rational));
   }
 
   // Since this is not a rational number, we can look at the approximate ball
-- 
2.43.0


From 985a0dccac8bb94585214c782e2316189d9a8712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:46 +0000
Subject: [PATCH 15/24] fix: units of integer modules with a rational generator
 other than 1

The inverse of an element of such a module has to be in the module, e.g. 1 is
a unit in the module generated by 1/3 but 3 is not in the one generated by 3.
The zero of a module generated by 0 is no unit.
---
 libexactreal/src/element.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 891c553..f109f03 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -530,10 +530,17 @@ bool Element<Ring>::unit() const {
     const auto& c = impl->coefficients[i];
     if (c == 0)
       continue;
-    if (!static_cast<std::optional<mpq_class>>(impl->parent->gen(i)))
-      return false;
-    if (!Ring::unit(impl->coefficients[i]))
+    const auto generator = static_cast<std::optional<mpq_class>>(*impl->parent->basis()[i]);
+    if (!generator || *generator == 0)
       return false;
+    if constexpr (std::is_same_v<Ring, IntegerRing>) {
+      // The inverse of c·g is d·g for an integer d.
+      if (mpq_class(1 / (c * *generator * *generator)).get_den() != 1)
+        return false;
+    } else {
+      if (!Ring::unit(c))
+        return false;
+    }
   }
 
   return true;
-- 
2.43.0


From b3bcb9dfcba91315ce84816214b67f586b51e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 16/24] fix: one of modules with a negative or zero rational
 generator

The inverse of a negative generator was a rational number with a negative
denominator which corrupts memory in GMP, the inverse of zero had a zero
denominator, and over the integers there was no one for a generator -1/n.
---
 libexactreal/src/module.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index ab98874..173b03d 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -200,13 +200,14 @@ template <typename Ring>
 Element<Ring> Module<Ring>::one() const {
   for (int g = 0; g < rank(); g++) {
     auto rational = static_cast<std::optional<mpq_class>>(*basis()[g]);
-    if (rational) {
+    if (rational && *rational != 0) {
+      const mpq_class inverse = 1 / *rational;
       if constexpr (std::is_same_v<Ring, IntegerRing>) {
-        if (rational->get_num() == 1) {
-          return rational->get_den() * gen(g);
+        if (inverse.get_den() == 1) {
+          return inverse.get_num() * gen(g);
         }
       } else {
-          return mpq_class(rational->get_den(), rational->get_num()) * gen(g);
+        return inverse * gen(g);
       }
     }
   }
-- 
2.43.0


From 0c89c1016ab2ed54b56eae1507c972093f3050f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 17/24] fix: deserialization permuted the coefficients of
 elements

The coefficients are serialized in the order of the generators in the module.
This order depends on identifiers that are not serialized, e.g., when one of
the generators is already alive while another one is created by the
deserialization then the order of the generators changes. Assign each
coefficient to the generator it had been serialized for.
---
 libexactreal/exact-real/cereal.hpp | 40 ++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 39ece2f..2402637 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -21,6 +21,7 @@
 #ifndef LIBEXACTREAL_CEREAL_HPP
 #define LIBEXACTREAL_CEREAL_HPP
 
+#include <algorithm>
 #include <cereal/archives/json.hpp>
 #include <cereal/cereal.hpp>
 #include <cereal/types/memory.hpp>
@@ -68,6 +69,15 @@ struct CerealWrap {
   operator T() const { return inner; }
 };
 
+// A deserialized module together with its generators in the order in which they
+// had been serialized. That order might be different from the order in the
+// module since generators are sorted by identifiers that are not serialized.
+template <typename Ring>
+struct CerealModule {
+  std::shared_ptr<const Module<Ring>> module;
+  typename Module<Ring>::Basis basis;
+};
+
 template <typename T>
 using MaybeWrap = std::conditional_t<CerealWrap<T>::needs_wrap(), CerealWrap<T>, T>;
 
@@ -196,17 +206,17 @@ void save(Archive& archive, const Element<Ring>& self) {
 
 template <typename Archive, typename Ring>
 void load(Archive& archive, Element<Ring>& self) {
-  std::shared_ptr<const Module<Ring>> module;
-  archive(cereal::make_nvp("parent", module));
+  CerealModule<Ring> parent;
+  archive(cereal::make_nvp("parent", parent));
 
   std::vector<MaybeWrap<typename Ring::ElementClass>> coefficients;
   archive(cereal::make_nvp("coefficients", coefficients));
 
   std::vector<typename Ring::ElementClass> coeffs;
-  for (auto& c : coefficients)
-    coeffs.push_back(c);
+  for (const auto& generator : parent.module->basis())
+    coeffs.push_back(coefficients.at(std::find(begin(parent.basis), end(parent.basis), generator) - begin(parent.basis)));
 
-  self = Element<Ring>(module, coeffs);
+  self = Element<Ring>(parent.module, coeffs);
 }
 
 template <typename Archive>
@@ -296,7 +306,7 @@ void save(Archive& archive, const std::shared_ptr<const exactreal::Module<Ring>>
 }
 
 template <typename Archive, typename Ring>
-void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
+void load(Archive& archive, exactreal::CerealModule<Ring>& self) {
   // cereal insists on creating a new instance of T when deserializing a
   // shared_ptr<T>. However this is not compatible with our uniqueness of
   // modules (if the module already exists, we do not create a new one but just
@@ -307,16 +317,24 @@ void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self
   archive(cereal::make_nvp("shared", id));
 
   if (id & cereal::detail::msb_32bit) {
-    typename exactreal::Module<Ring>::Basis basis;
-    archive(cereal::make_nvp("basis", basis));
+    archive(cereal::make_nvp("basis", self.basis));
     Ring ring;
     archive(cereal::make_nvp("ring", ring));
-    self = exactreal::Module<Ring>::make(basis, ring);
-    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::const_pointer_cast<exactreal::Module<Ring>>(self)));
+    self.module = exactreal::Module<Ring>::make(self.basis, ring);
+    archive.registerSharedPointer(id, std::make_shared<exactreal::CerealModule<Ring>>(self));
+  } else if (auto shared = std::static_pointer_cast<exactreal::CerealModule<Ring>>(archive.getSharedPointer(id))) {
+    self = *shared;
   } else {
-    self = std::static_pointer_cast<exactreal::Module<Ring>>(archive.getSharedPointer(id));
+    self = {};
   }
 }
+
+template <typename Archive, typename Ring>
+void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
+  exactreal::CerealModule<Ring> module;
+  load(archive, module);
+  self = module.module;
+}
 }  // namespace cereal
 
 #endif
-- 
2.43.0


From f6b0505c046b806ba7f4d598733b684db6017249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 18/24] fix: doubles assigned to an Arb or in Arb expressions
 were truncated to integers

---
 libexactreal/exact-real/arb.hpp | 1 +
 libexactreal/src/arb.cc         | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/libexactreal/exact-real/arb.hpp b/libexactreal/exact-real/arb.hpp
index 9eafa98..121e487 100644
--- a/libexactreal/exact-real/arb.hpp
+++ b/libexactreal/exact-real/arb.hpp
@@ -270,6 +270,7 @@ class LIBEXACTREAL_API Arb
   template <typename Integer, typename = std::enable_if_t<std::is_integral_v<Integer>>>
   Arb& operator=(Integer) noexcept;
   Arb& operator=(const mpz_class&) noexcept;
+  Arb& operator=(double) noexcept;
   ///@}
 
   /// Return the negative of this element.
diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 7b54194..5badd86 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -313,6 +313,11 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
   return *this;
 }
 
+Arb& Arb::operator=(double rhs) noexcept {
+  arb_set_d(arb_t(), rhs);
+  return *this;
+}
+
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
   // The relative accuracy of a wide ball is not a valid precision since it might be zero or negative.
-- 
2.43.0


From 014498ed376b739052a1e5b9be3e524c8d724253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 19/24] fix: a random number in an interval that equals a
 random number was another object

Comparing the two did not terminate, for example
RealNumber::random(Arf(-4), Arf(2), Seed(1)) and RealNumber::random(Seed(1)).
---
 libexactreal/src/constrained_random_real_number.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index 7616e13..2c656c0 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -124,7 +124,15 @@ class ConstrainedRandomRealNumber final : public RealNumberBase {
     archive.load("e", e);
     archive.load("inner", inner);
 
-    self = factory().get(std::tuple{initial, e, inner}, [&]() { return new ConstrainedRandomRealNumber(initial, e, inner); });
+    self = make(initial, e, inner);
+  }
+
+  static shared_ptr<const RealNumber> make(const Arf& initial, long e, const shared_ptr<const RealNumber>& inner) {
+    // Real numbers are unique, so 0 + inner·2^0 must be inner itself.
+    if (initial == 0 && e == 1)
+      return inner;
+
+    return factory().get(std::tuple{initial, e, inner}, [&]() { return new ConstrainedRandomRealNumber(initial, e, inner); });
   }
 
  private:
@@ -191,9 +199,7 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     Arf initial = Arf(mantissa, e);
     auto inner = RealNumber::random(seed);
 
-    return factory().get(std::tuple{initial, e, inner}, [&]() {
-      return new ConstrainedRandomRealNumber(initial, e, inner);
-    });
+    return ConstrainedRandomRealNumber::make(initial, e, inner);
   }
 }
 
-- 
2.43.0


From 1501849d2bf5919803c4b4b94327f4cd6c583526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:25 +0000
Subject: [PATCH 20/24] fix: products of too high a degree had wrong exponents

---
 libexactreal/src/real_number_product.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index 2d4953a..44ae322 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -20,8 +20,10 @@
 
 #include <cassert>
 #include <cmath>
+#include <limits>
 #include <memory>
 #include <set>
+#include <stdexcept>
 #include <vector>
 #include <boost/variant2/variant.hpp>
 
@@ -596,6 +598,13 @@ std::shared_ptr<const RealNumber> RealNumber::operator*(const RealNumber& rhs) c
     // Call RationalRealNumber::operator* instead.
     return rhs * *this;
 
+  const auto degree = [](const RealNumber& x) {
+    return typeid(x) == typeid(const RealNumberProduct&) ? static_cast<const RealNumberProduct&>(x).totalDegree() : 1;
+  };
+
+  if (degree(*this) > std::numeric_limits<int>::max() - degree(rhs))
+    throw std::overflow_error("not implemented: exponents in product do not fit into an int");
+
   return factory().get({*this, rhs}, [&](const auto& key) {
     return key.persist();
   });
-- 
2.43.0


From 8a6f97926b4d2edd8de8f19b5deadeaf57228aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:59 +0000
Subject: [PATCH 21/24] fix: approximations of products were less accurate than
 promised

---
 libexactreal/src/real_number_product.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index 44ae322..61ab44c 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -529,9 +529,11 @@ Arf RealNumberProduct::arf_(long prec) const {
   // These errors essentially sum (plus the product of the errors.)
   // Additionally, each multiplication introduces a rounding error of 1
   // ulp.
+  // Finally, dropping the extra digits below introduces an error of half the
+  // size that is permitted.
   long nfactors = totalDegree();
 
-  long workingPrec = prec + static_cast<long>(ceil(log2(static_cast<double>(nfactors * 2 + (nfactors - 1)) + 1)));
+  long workingPrec = prec + 1 + static_cast<long>(ceil(log2(static_cast<double>(nfactors * 2 + (nfactors - 1)) + 1)));
 
   Arf ret(1);
   for (size_t i = 0; i < monomials.size(); i++)
-- 
2.43.0


From 828f1e4e370e12345ef59bd88c6b25c270cf6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:59 +0000
Subject: [PATCH 22/24] fix: comparing a real number with NaN did not terminate

---
 libexactreal/src/real_number.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index bed5260..783d94b 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -170,6 +170,8 @@ bool RealNumber::operator==(const mpz_class& rhs) const noexcept {
 }
 
 bool RealNumber::operator<(const Arf& rhs) const {
+  if (arf_is_nan(rhs.arf_t()))
+    return false;
   if (this->operator==(rhs)) {
     return false;
   }
@@ -185,6 +187,8 @@ bool RealNumber::operator<(const Arf& rhs) const {
 }
 
 bool RealNumber::operator>(const Arf& rhs) const {
+  if (arf_is_nan(rhs.arf_t()))
+    return false;
   if (this->operator==(rhs)) {
     return false;
   }
-- 
2.43.0


From 826ac6e64a594d0ee5ca3f0a6a7b9477c8b67d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:59 +0000
Subject: [PATCH 23/24] fix: approximations of real numbers with huge exponents
 overflowed

---
 libexactreal/src/constrained_random_real_number.cc | 3 ++-
 libexactreal/src/real_number.cc                    | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index 2c656c0..b81a861 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -90,7 +90,8 @@ class ConstrainedRandomRealNumber final : public RealNumberBase {
       // digits too many, but it does not matter in practice. (And we round
       // them away below anyway.)
       Arf additional(inner->arf(missing_digits - 1));
-      additional <<= (e - 1);
+      additional <<= e;
+      additional >>= 1;
       ret += additional(prec + 1)(Arf::Round::NEAR);
     }
 
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 783d94b..fa2a558 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -44,7 +44,11 @@ Arb approximation(const RealNumber& x, const long prec) {
   const Arf midpoint = x.arf(prec + 2);
 
   Arb ret(midpoint);
-  arb_add_error_2exp_si(ret.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  fmpz_t error;
+  fmpz_init(error);
+  fmpz_sub_si(error, ARF_EXPREF(midpoint.arf_t()), prec + 2);
+  arb_add_error_2exp_fmpz(ret.arb_t(), error);
+  fmpz_clear(error);
   return ret;
 }
 
-- 
2.43.0


From ca8a7b4a3218d699152634fbc7b8bc4b6b54dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:59 +0000
Subject: [PATCH 24/24] fix: random numbers in unbounded intervals crashed

---
 libexactreal/src/constrained_random_real_number.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index b81a861..e7fc9e5 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -156,6 +156,9 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
     if (lower >= upper) {
       throw std::logic_error("interval must have an interior");
     }
+    if (!arf_is_finite(lower.arf_t()) || !arf_is_finite(upper.arf_t())) {
+      throw std::logic_error("not implemented - random number in unbounded interval");
+    }
 
     // We first rewrite a and b as mantissa + 2^exponent with the same exponent
     // and then select a random mantissa. Our random number is then going to be
@@ -183,6 +186,9 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
       lower_exponent = upper_exponent;
     }
 
+    if (!lower_exponent.fits_slong_p())
+      throw std::logic_error("not implemented - random number with an exponent that does not fit into a machine word");
+
     mpz_class length = upper_mantissa - lower_mantissa;
     assert(length > 0);
 
-- 
2.43.0

