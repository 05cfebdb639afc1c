From 7f3f83cbbcc508e5bdf47ac743fe3c54729293aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:08 +0000
Subject: [PATCH 01/49] fix: compare rationals by value

operator== reduced the right operand by gcd(den, den) and the two operator!=
compared unreduced fractions, so 2/4 was neither equal nor unequal to 1/2.
---
 public/gal/numeric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 525f700..c6fb102 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -374,18 +374,18 @@ namespace detail
 [[nodiscard]] constexpr bool operator==(rat lhs, rat rhs) noexcept
 {
     auto gcd1 = std::gcd(lhs.num, lhs.den);
-    auto gcd2 = std::gcd(rhs.den, rhs.den);
+    auto gcd2 = std::gcd(rhs.num, rhs.den);
     return lhs.num / gcd1 == rhs.num / gcd2 && lhs.den / gcd1 == rhs.den / gcd2;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, int rhs) noexcept
 {
-    return lhs.den != 1 || lhs.num != rhs;
+    return lhs.num != rhs * lhs.den;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
 {
-    return lhs.num != rhs.num || lhs.den != rhs.den;
+    return !(lhs == rhs);
 }
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
-- 
2.43.0


From b4c48c4777a9c0086bb4b6bfe3285e8aebef7719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:14 +0000
Subject: [PATCH 02/49] fix: keep rationals reduced with a positive denominator

The reciprocal of a negative rational and division of an expression by a
negative integer produced a negative denominator, which the reduction step and
the final evaluation do not expect; scaling by an integer did not reduce.
---
 public/gal/expr.hpp    | 4 ++--
 public/gal/numeric.hpp | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..e4da875 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -731,7 +731,7 @@ constexpr auto operator*(detail::rpne_constant c, int n) noexcept
 
 constexpr auto operator/(detail::rpne_constant c, int d) noexcept
 {
-    c.q *= rat{1, d};
+    c.q = c.q / d;
     return c;
 }
 
@@ -756,7 +756,7 @@ constexpr auto operator/(detail::rpne<A, S> lhs, int d)
 {
     if (lhs.count > 0)
     {
-        lhs.q *= rat{1, d};
+        lhs.q = lhs.q / d;
     }
     return lhs;
 }
diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index c6fb102..db4933b 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -185,7 +185,8 @@ struct rat
 
     [[nodiscard]] constexpr rat reciprocal() const noexcept
     {
-        return {den, num};
+        // The denominator is positive by invariant, so the sign moves to the numerator
+        return num < 0 ? rat{-den, -num} : rat{den, num};
     }
 
     [[nodiscard]] constexpr rat negation() const noexcept
@@ -411,7 +412,7 @@ namespace detail
     }
     else
     {
-        return {rhs.num * lhs, rhs.den};
+        return detail::overflow_gate(rat{rhs.num * lhs, rhs.den});
     }
 }
 
-- 
2.43.0


From 1595b44ce092b9378a3a137ec53500472cbc36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:37 +0000
Subject: [PATCH 03/49] fix: bound the error of rational overflow control

The perturbation was accepted when p/q^2 was below 1e-7, but for odd numerators
its error is of the order of 1/q: 1/4096 became 0. Negative odd numerators took
the branch for even ones. Accept the perturbed fraction only if it is within 1e-7.
---
 public/gal/numeric.hpp | 50 +++++++++++-------------------------------
 1 file changed, 13 insertions(+), 37 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index db4933b..1a201bb 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -319,49 +319,25 @@ namespace detail
             }
             else
             {
-                double n_d     = static_cast<double>(in.num);
-                double d_d     = static_cast<double>(in.den);
-                double epsilon = abs(n_d / d_d / d_d);
-                double frac    = n_d / d_d;
+                double frac = static_cast<double>(in.num) / static_cast<double>(in.den);
 
                 if (abs(frac) < 1e-7)
                 {
                     return zero;
                 }
-                else if (epsilon < 1e-7)
+
+                // The rational is the mediant of two fractions with smaller denominators. Pick
+                // one of them based on the parity, perturbing to the left-side of the mediant for
+                // an odd numerator and to the right-side otherwise.
+                bool odd = in.num % 2 != 0;
+                num_t n2 = (odd ? in.num - 1 : in.num) / 2;
+                den_t d2 = (odd ? in.den : in.den - 1) / 2;
+
+                // Only accept the perturbation if the error it introduces is small enough.
+                if (abs(frac - static_cast<double>(n2) / static_cast<double>(d2)) < 1e-7)
                 {
-                    // The rational is the mediant of two fractions with smaller denominators. Pick
-                    // one of them based on the parity.
-                    if (in.num % 2 == 1)
-                    {
-                        // Perturb to the left-side of the mediant
-                        auto n2  = (in.num - 1) / 2;
-                        auto d2  = in.den / 2;
-                        auto gcd = std::gcd(n2, d2);
-                        if (gcd > 1)
-                        {
-                            return {n2 / gcd, d2 / gcd};
-                        }
-                        else
-                        {
-                            return {n2, d2};
-                        }
-                    }
-                    else
-                    {
-                        // Perturb to the right-side of the mediant
-                        auto n2  = in.num / 2;
-                        auto d2  = (in.den - 1) / 2;
-                        auto gcd = std::gcd(n2, d2);
-                        if (gcd > 1)
-                        {
-                            return {n2 / gcd, d2 / gcd};
-                        }
-                        else
-                        {
-                            return {n2, d2};
-                        }
-                    }
+                    auto gcd2 = std::gcd(n2, d2);
+                    return {n2 / gcd2, d2 / gcd2};
                 }
                 else
                 {
-- 
2.43.0


From 8dd7e69868953629d08066c7c04b102fb10fdee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:43 +0000
Subject: [PATCH 04/49] fix: raising to the power zero yields one

---
 public/gal/numeric.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 1a201bb..411ffae 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -23,6 +23,10 @@ pow(T s, std::integral_constant<int, N>, std::integral_constant<int, D>) noexcep
     {
         return std::pow(s, T{N} / T{D});
     }
+    else if constexpr (N == 0)
+    {
+        return T{1};
+    }
     else if constexpr (N == 1)
     {
         return s;
-- 
2.43.0


From 05d39782a8b065292322b49d5f696dda018a0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:49 +0000
Subject: [PATCH 05/49] fix: generic bivector contains grade 2 blades only

From dimension 5 on, grade 4 blades were included.
---
 public/gal/geometric_algebra.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public/gal/geometric_algebra.hpp b/public/gal/geometric_algebra.hpp
index 6f9534b..73d2e8c 100644
--- a/public/gal/geometric_algebra.hpp
+++ b/public/gal/geometric_algebra.hpp
@@ -127,6 +127,10 @@ struct algebra
             out.mons[i]  = mon{one, one, 1, i};
             out.terms[i] = term{1, i, e};
             e            = next_even(e);
+            while (pop_count(e) != 2)
+            {
+                e = next_even(e);
+            }
         }
         return out;
     }
-- 
2.43.0


From 35c461348693468008ec4454824f540d6d549b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 06/49] fix: stack pop returns the popped element

It returned the slot above the top.
---
 public/gal/expr.hpp  | 2 +-
 public/gal/stack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e4da875..19c74bc 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -181,7 +181,7 @@ namespace detail
 
         constexpr node pop() noexcept
         {
-            return nodes[count--];
+            return nodes[--count];
         }
 
         constexpr void pop(width_t n) noexcept
diff --git a/public/gal/stack.hpp b/public/gal/stack.hpp
index 6403d1c..72da829 100644
--- a/public/gal/stack.hpp
+++ b/public/gal/stack.hpp
@@ -41,7 +41,7 @@ namespace detail
 
         constexpr T pop() noexcept
         {
-            return data[count--];
+            return data[--count];
         }
 
         constexpr T pop(size_t n) noexcept
-- 
2.43.0


From bbfe38fbd7fefa7462826e3e5cc4091813c68bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:19 +0000
Subject: [PATCH 07/49] fix: division by a single variable

The cancellation test was inverted, the variable count was off by one when the
variable occurred in the dividend, the degree was increased instead of
decreased, and the monomial offset of the dividend was kept.
---
 public/gal/algebra.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 9ef4bf6..d2c8ed2 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -1012,7 +1012,6 @@ namespace detail
                 for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
                 {
                     width_t ind_offset = out_inds_it - out.inds.begin();
-                    bool canceled      = false;
                     bool written       = false;
                     for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                     {
@@ -1022,10 +1021,6 @@ namespace detail
                             {
                                 rat deg = d.degree + ind_it->degree;
                                 if (!deg.is_zero())
-                                {
-                                    canceled = true;
-                                }
-                                else
                                 {
                                     *out_inds_it++ = ind{d.id, deg};
                                 }
@@ -1053,12 +1048,15 @@ namespace detail
                         *out_inds_it++ = d;
                     }
 
-                    rat deg        = mon_it->degree - d.degree;
-                    width_t count  = canceled ? mon_it->count - 1 : mon_it->count + 1;
+                    // NOTE: the degree of d was negated above
+                    rat deg        = mon_it->degree + d.degree;
+                    width_t count  = out_inds_it - out.inds.begin() - ind_offset;
                     *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
                 }
 
-                *out_terms_it++ = *it;
+                *out_terms_it            = *it;
+                out_terms_it->mon_offset = out_mons_it - out.mons.begin() - it->count;
+                ++out_terms_it;
             }
 
             out.size.term = out_terms_it - out.terms.begin();
-- 
2.43.0


From 8f7ef5d0732147cc2579c54ab655d12b2d347526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:24 +0000
Subject: [PATCH 08/49] fix: grade selection visits every blade

Blades are ordered by bitmask, not by grade, so stopping at the first higher
grade dropped components (e.g. e2 after e01).
---
 public/gal/algebra.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index d2c8ed2..622a5ed 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -577,12 +577,9 @@ struct mv
         for (auto it = cbegin(); it != cend(); ++it)
         {
             auto g = pop_count(it->element);
-            if (g > grade)
-            {
-                break;
-            }
-            else if (g < grade)
+            if (g != grade)
             {
+                // Blades are not ordered by grade (e.g. e01 precedes e2)
                 continue;
             }
             else
-- 
2.43.0


From 6022e3061d3d030f1066ec964015705fa5b1066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:31 +0000
Subject: [PATCH 09/49] fix: references to temporaries cover the evaluated
 terms only

A multivector may hold fewer terms than its capacity; the remaining slots were
referenced as if they had been evaluated.
---
 public/gal/algebra.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 622a5ed..75417cb 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -501,8 +501,8 @@ struct mv
     constexpr mv<A, T, T, T> create_ref(uint32_t id) const noexcept
     {
         mv<A, T, T, T> out{};
-        out.size = mv_size{T, T, T};
-        for (width_t i = 0; i != T; ++i)
+        out.size = mv_size{size.term, size.term, size.term};
+        for (width_t i = 0; i != size.term; ++i)
         {
             out.inds[i]  = ind{id + i, one};
             out.mons[i]  = mon{one, one, 1, i};
-- 
2.43.0


From 1719d072f3c9b2de1bf73cad550aa60f64620f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:01 +0000
Subject: [PATCH 10/49] fix: division keeps monomials in canonical order

Introducing a negative power changes the lexicographic order of the monomials,
on which the merging sum relies.
---
 public/gal/algebra.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 75417cb..cffcf36 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -1051,6 +1051,12 @@ namespace detail
                     *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
                 }
 
+                // Introducing a negative power does not preserve the monomial order
+                sort(out_mons_it - it->count, out_mons_it, [&out](auto&& lhs, auto&& rhs) {
+                    return mon_view{lhs, out.inds.begin() + lhs.ind_offset}
+                           < mon_view{rhs, out.inds.begin() + rhs.ind_offset};
+                });
+
                 *out_terms_it            = *it;
                 out_terms_it->mon_offset = out_mons_it - out.mons.begin() - it->count;
                 ++out_terms_it;
-- 
2.43.0


From 1dcf0c3e3bbf6563ce323f23af697a51c568acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:08 +0000
Subject: [PATCH 11/49] fix: adding zero keeps the scale of the other operand

The scale was dropped when one operand was empty, and an operand with scale
zero (x + 0, 0_e1) was added as if it were unscaled.
---
 public/gal/expr.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 19c74bc..fde2ff3 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -386,16 +386,16 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
     rpne<A, S1 + S2 + 3> out;
 
     // Early out if either the lhs or the rhs is exactly zero
-    if (lhs.count == 0 || rhs.count == 0)
+    if (lhs.count == 0 || lhs.q.is_zero())
     {
-        if (lhs.count == 0)
-        {
-            out.append(rhs);
-        }
-        else
-        {
-            out.append(lhs);
-        }
+        out.append(rhs);
+        out.q = rhs.q;
+        return out;
+    }
+    else if (rhs.count == 0 || rhs.q.is_zero())
+    {
+        out.append(lhs);
+        out.q = lhs.q;
         return out;
     }
 
-- 
2.43.0


From bd5289469898ae3ae149686a670832bfdff4df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:14 +0000
Subject: [PATCH 12/49] fix: scale trailing summands of the left sum by its own
 factor

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index fde2ff3..c3bc007 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -443,7 +443,7 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
                 {
                     auto lhs_summand = lhs.nodes[lhs_index++];
                     ++summand_count;
-                    lhs_summand.q *= rhs.q;
+                    lhs_summand.q *= lhs.q;
                     out.nodes[out.count++] = lhs_summand;
                     for (width_t i = 0; i != lhs_summand.ex; ++i)
                     {
-- 
2.43.0


From 39420fe3bfc735751508020aa321cf74af282964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 13/49] fix: sums whose summands all cancel are zero

A sum operator without operands was emitted, which does not compile.
---
 public/gal/expr.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index c3bc007..1971f95 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -668,8 +668,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         summand_count = 2;
     }
 
-    // Do a final pass to see if the sum has been collapsed to a single term
-    if (summand_count == 1)
+    // Do a final pass to see if the sum has vanished or collapsed to a single term
+    if (summand_count == 0)
+    {
+        return out;
+    }
+    else if (summand_count == 1)
     {
         // Copy-erase the initial subexpression op
         out.q = out.nodes[0].q;
-- 
2.43.0


From 8aaeb24f5f08dc7c30d312b395961d84c72fa8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:51 +0000
Subject: [PATCH 14/49] fix: products with zero are zero

The geometric, contraction, inner and scalar products returned the other
operand when one operand was exactly zero.
---
 public/gal/expr.hpp | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 1971f95..9e75450 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -937,14 +937,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator*(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1064,14 +1058,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator>>(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1094,14 +1082,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1138,14 +1120,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 2> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
-- 
2.43.0


From 85e7190e3b663898154d57fd5fb80d37f06ca689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:57 +0000
Subject: [PATCH 15/49] fix: reversion and dual keep the scale of their operand

---
 public/gal/expr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 9e75450..d03b1dd 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -835,6 +835,7 @@ constexpr auto operator~(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
 
     if (in.back().o == detail::op_rev)
     {
@@ -857,6 +858,7 @@ constexpr auto operator!(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
     out.append(detail::op_pd);
     return out;
 }
-- 
2.43.0


From c583d308508c092f4b48ce2ca4ba84da641916eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:04 +0000
Subject: [PATCH 16/49] fix: exterior products with three or more factors keep
 their scale

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index d03b1dd..cd799ef 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1029,9 +1029,10 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
         out.append(lhs);
         out.nodes[out.count++] = detail::node{detail::op_se, rhs_checksum, rhs.count, zero};
         out.append(rhs);
-        out.q = lhs.q * rhs.q;
     }
 
+    out.q = lhs.q * rhs.q;
+
     // Loop through all ep factors to compute the bloom filter
     width_t i       = 1;
     detail::crc_t c = 0;
-- 
2.43.0


From 0b49559e98c0d1ea77e19d54193dfdffbc46b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:10 +0000
Subject: [PATCH 17/49] fix: the inner product does not reorder its operands

e0 | e01 = -(e01 | e0), so ordering the operands by checksum flipped the sign.
---
 public/gal/expr.hpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index cd799ef..bc8bb28 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1097,19 +1097,11 @@ constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    out.append(lhs);
+    out.append(rhs);
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
     return out;
 }
 
-- 
2.43.0


From 25d8efd2c856f953e897730fd443aa034eb9058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:16 +0000
Subject: [PATCH 18/49] fix: the scalar product includes the product of the
 scalar parts

The symmetric inner product is zero whenever an operand is a scalar.
---
 public/gal/expr.hpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index bc8bb28..cc6e8e2 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1127,22 +1127,15 @@ constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    out.append(lhs);
+    out.append(rhs);
 
-    // Implement the scalar product as the scalar component of the symmetric inner product
+    // Implement the scalar product as the scalar component of the geometric product (the symmetric
+    // inner product vanishes for scalar operands)
 
-    out.append(detail::op_sip);
+    out.append(detail::op_gp);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_gp << 8));
 
     out.append(detail::op_comp);
     out.nodes[out.count - 1].ex       = 0;
-- 
2.43.0


From c42238103e0e27f61f23c7ab2c1ed1f00a8d2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:43 +0000
Subject: [PATCH 19/49] fix: the constant E denotes e

Every named constant was converted to pi.
---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index cc6e8e2..d3ac650 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -368,7 +368,8 @@ namespace detail
         template <typename A>
         constexpr rpne<A, 1> convert() const noexcept
         {
-            return {{node{c_pi, c_pi}}, 1, q};
+            uint32_t op = c_const_start + static_cast<uint32_t>(id - ind_constant_start);
+            return {{node{op, op}}, 1, q};
         }
     };
 } // namespace detail
-- 
2.43.0


From ce8d9246425ae390bcfd284055c4576572607c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:50 +0000
Subject: [PATCH 20/49] fix: reads, scalar functions and quotients of an
 exactly zero operand

They read the node before the first one of an empty expression, which does not
compile.
---
 public/gal/expr.hpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index d3ac650..0253c5e 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -142,6 +142,10 @@ namespace detail
         constexpr auto operator[](elem_t e) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             // Using operator[] successfully is not expected behavior, so we don't bother computing
             // the checksum in a fancy manner.
@@ -153,6 +157,10 @@ namespace detail
         constexpr auto select_grade(elem_t g) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             out.nodes[out.count++] = node{op_grd, back().checksum + ~g, g};
             out.q                  = q;
@@ -770,6 +778,10 @@ template <typename A, width_t S>
 constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
 {
     detail::rpne<A, S + 2> out;
+    if (lhs == 0)
+    {
+        return out;
+    }
     out.append(detail::rpne_from_constant<A>(lhs, 1));
     out.append(rhs);
     out.append(detail::op_div);
@@ -782,6 +794,10 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator/(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
+    if (lhs.count == 0 || lhs.q.is_zero())
+    {
+        return out;
+    }
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_div);
@@ -868,6 +884,10 @@ template <typename A, width_t S>
 constexpr auto sqrt(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sqrt);
     out.back().q = in.q;
@@ -879,6 +899,10 @@ template <typename A, width_t S>
 constexpr auto sin(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sin);
     out.back().q = in.q;
@@ -890,6 +914,12 @@ template <typename A, width_t S>
 constexpr auto cos(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        // The cosine of exactly zero
+        out.append(detail::rpne_from_constant<A>(1, 1));
+        return out;
+    }
     out.append(in);
     out.append(detail::op_cos);
     out.back().q = in.q;
@@ -901,6 +931,10 @@ template <typename A, width_t S>
 constexpr auto tan(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_tan);
     out.back().q = in.q;
-- 
2.43.0


From 2211b66ceda2716564be2c1a52dee293dea66c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:55 +0000
Subject: [PATCH 21/49] fix: an integer numerator takes part in the quotient

2 / x evaluated to 1 / x.
---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 0253c5e..83683dd 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -785,7 +785,7 @@ constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
     out.append(detail::rpne_from_constant<A>(lhs, 1));
     out.append(rhs);
     out.append(detail::op_div);
-    out.back().q = rhs.q.reciprocal();
+    out.back().q = rat{lhs, 1} / rhs.q;
     out.q        = one;
     return out;
 }
-- 
2.43.0


From 0cf35d25fa63b8f0995a4f240124701e1057094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:14 +0000
Subject: [PATCH 22/49] fix: expressions differing in a scale factor are not
 the same expression

Node comparison ignored the factor, so (a + 2 * b) * (a + 3 * b) or
sin(x) + sin(2 * x) shared a single subexpression.
---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 83683dd..7c2cf1c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -114,7 +114,8 @@ namespace detail
 
         constexpr bool operator==(node const& other) const
         {
-            return o == other.o && checksum == other.checksum && ex == other.ex;
+            return o == other.o && checksum == other.checksum && ex == other.ex
+                   && q.num == other.q.num && q.den == other.q.den;
         }
 
         constexpr bool operator!=(node const& other) const
-- 
2.43.0


From c7474448770948ddd7b1c6944168291fce2a41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:20 +0000
Subject: [PATCH 23/49] fix: splitting a tuple at the front keeps its elements

---
 public/gal/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 5a05971..851e30c 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -206,7 +206,7 @@ private:
     {
         if constexpr (sizeof...(I1) == 0)
         {
-            if constexpr (sizeof...(I1) == 0)
+            if constexpr (sizeof...(I2) == 0)
             {
                 return make_pair(tuple<>{}, tuple<>{});
             }
-- 
2.43.0


From f212348a74c57436470650f95617b95e97c08f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:27 +0000
Subject: [PATCH 24/49] fix: split_drop omits the requested element

It dropped the last element instead.
---
 public/gal/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 851e30c..6a952e2 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -128,8 +128,8 @@ struct tuple : public tuple_impl<std::make_index_sequence<sizeof...(T)>, T...>
     template <size_t I>
     constexpr auto split_drop() const
     {
-        return split_n(
-            std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I - 1>{});
+        auto [first, second] = split<I>();
+        return make_pair(first, second.pop().second);
     }
 
     // This is a somewhat specialized operation that splits the tuple on the first occurence of the
-- 
2.43.0


From 92a631640c1d4df16d9fbd1c593952fae94364cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:33 +0000
Subject: [PATCH 25/49] fix: divisors and function arguments are always
 evaluated as temporaries

---
 public/gal/dfa.hpp | 74 ++++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d5abb9e..918f252 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -232,6 +232,46 @@ namespace detail
         return 0;
     }
 
+    // Ensure that the argument spanning nodes [offset, end) is evaluated as a temporary before it is
+    // used (divisors and arguments of scalar functions are referred to by a single indeterminate).
+    template <typename A, width_t C>
+    constexpr void
+    require_se(rpne<A, C>& exp, cses<C>& known, width_t offset, width_t end) noexcept
+    {
+        if (end - offset < 2)
+        {
+            // A lone input or constant
+            return;
+        }
+
+        node& first      = exp.nodes[offset];
+        node const& last = exp.nodes[end - 1];
+
+        if (first.o == op_cse && first.checksum == end)
+        {
+            known.ses[first.ex].required = true;
+        }
+        else if (is_read_op(last.o))
+        {
+            width_t se_i = register_se(exp, known, last.checksum, offset, end - offset, true);
+            if (se_i > 0)
+            {
+                if (first.o == op_cse)
+                {
+                    --known.ses[first.ex].refs;
+                }
+                first.o        = op_cse;
+                first.checksum = end;
+                first.ex       = se_i - 1;
+            }
+        }
+        else
+        {
+            // The last operation of the argument was the last one to be registered
+            known.ses[known.count - 1].required = true;
+        }
+    }
+
     template <typename A, width_t C>
     constexpr static auto rpn_reshape(rpne<A, C> expr) noexcept
     {
@@ -294,26 +334,7 @@ namespace detail
             }
             case op_div: {
                 // Division requires its second operand to be extracted.
-
-                // Mark the last known se as required IF
-                // 1. The prior se is not a constant AND
-                // 2. The prior se is not a cse
-
-                if (i > 2)
-                {
-                    width_t last_offset = offsets.peek();
-                    node const& prev    = expr.nodes[last_offset];
-                    if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (last_offset < i - 2 && prev.o != op_cse && prev.checksum != i)
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
-
-                offsets.pop();
+                require_se(expr, known, offsets.pop(), i);
                 width_t offset = offsets.peek();
                 width_t se_i   = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
@@ -339,18 +360,7 @@ namespace detail
                 width_t offset = offsets.peek();
 
                 // Check if the argument has been extracted. If not, mark it as required.
-                if (i > 2)
-                {
-                    node const& prev = expr.nodes[offset];
-                    if (offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
+                require_se(expr, known, offset, i);
 
                 width_t se_i = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
-- 
2.43.0


From 39ac1bc9055e29d63a354749e909b2621d695957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:51 +0000
Subject: [PATCH 26/49] fix: members of a returned tuple shrink with the
 subexpressions they share

---
 public/gal/dfa.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 918f252..123ef33 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -591,6 +591,14 @@ namespace detail
             }
         }
 
+        // Any subexpressions left on the stack are the members of a returned tuple
+        for (width_t k = 0; k != se_stack.count; ++k)
+        {
+            auto [se, offset]   = se_stack[k];
+            width_t next_offset = k + 1 == se_stack.count ? out.count + 1 : se_stack[k + 1].second;
+            se->ex              = next_offset - offset - 1;
+        }
+
         out.q = expr.q;
         return out;
     }
-- 
2.43.0


From 8009cd5b39d3059f007a8b14b50237439fd7a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:58 +0000
Subject: [PATCH 27/49] fix: a returned tuple may contain zero

---
 public/gal/expr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 7c2cf1c..3861e0f 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -236,6 +236,14 @@ namespace detail
         template <width_t S1>
         constexpr void append_as_se(rpne<A, S1> const& src) noexcept
         {
+            if (src.count == 0 || src.q.is_zero())
+            {
+                // The capacity of an expression is always at least one
+                nodes[count++] = node{op_se, 0, 1, one};
+                nodes[count++] = node{c_zero, c_zero};
+                return;
+            }
+
             nodes[count++] = node{op_se, 0, src.count, src.q};
             for (width_t i = 0; i != src.count; ++i)
             {
-- 
2.43.0


From 9683db487954afc9fb4ed9e54692856ffbdea0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:04 +0000
Subject: [PATCH 28/49] fix: a result scaled by zero is zero

---
 public/gal/engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 1d4b46e..84098b8 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -493,7 +493,7 @@ namespace detail
         // Evaluate temporaries which will be appended to the data array as value types
         detail::finalize_temps<A, V, temps>(data, std::integral_constant<size_t, 0>{});
 
-        if constexpr (decltype(processed.args)::size() == 0)
+        if constexpr (decltype(processed.args)::size() == 0 || scale_factor.num == 0)
         {
             return entity<A, V>{};
         }
-- 
2.43.0


From 6148cf923b50705a0db2ad65021e245c61838672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:52 +0000
Subject: [PATCH 29/49] fix: the cosine of an identically vanishing argument is
 one

---
 public/gal/dfa.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 123ef33..1853aca 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -796,10 +796,26 @@ namespace detail
             }
             else if constexpr (n.o == op_cos)
             {
-                auto args                    = State.args;
-                args.template get<0>().first = n.checksum;
-                args.template get<0>().second.cos(n.q);
-                return rpn_state{State.inputs, State.temps, args, State.id_count};
+                constexpr auto pop = State.args.pop();
+                if constexpr (pop.first.second.size.term == 0)
+                {
+                    // The cosine of an argument which vanishes identically is one
+                    mv<algebra_t, 0, 1, 1> c{
+                        mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
+                else
+                {
+                    auto arg = pop.first.second;
+                    arg.cos(n.q);
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, arg)),
+                                     State.id_count};
+                }
             }
             else if constexpr (n.o == op_tan)
             {
-- 
2.43.0


From 926c096d97f7963a88902ceec6448a358257bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:58 +0000
Subject: [PATCH 30/49] fix: conformal constants are given in the null basis

---
 public/gal/dfa.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 1853aca..af8eea4 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -868,13 +868,28 @@ namespace detail
             }
             else
             {
-                auto g = n.o - c_scalar;
-                mv<algebra_t, 0, 1, 1> c{
+                constexpr elem_t g = n.o - c_scalar;
+                constexpr mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, c)),
-                                 State.id_count};
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    // Constants are expressed in the null basis like the inputs are
+                    constexpr auto nat = to_natural_basis(c);
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        State.args.push(make_pair(
+                            n.checksum,
+                            nat.template resize<nat.size.ind, nat.size.mon, nat.size.term>())),
+                        State.id_count};
+                }
+                else
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
             }
         }
 
-- 
2.43.0


From 42a3a9e66e795e1e162e9749ad16ecf40386e871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:21 +0000
Subject: [PATCH 31/49] fix: conformal scalar inputs may be used as divisors

---
 public/gal/dfa.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index af8eea4..ae604ac 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -634,14 +634,17 @@ namespace detail
         {
             if constexpr (n.o == op_id)
             {
-                auto pop = State.inputs.pop();
+                constexpr auto pop = State.inputs.pop();
 
                 if constexpr (uses_null_basis<algebra_t>)
                 {
+                    constexpr auto nat = to_natural_basis(pop.first);
                     return rpn_state{
                         pop.second,
                         State.temps,
-                        State.args.push(make_pair(n.checksum, to_natural_basis(pop.first))),
+                        State.args.push(make_pair(
+                            n.checksum,
+                            nat.template resize<nat.size.ind, nat.size.mon, nat.size.term>())),
                         State.id_count};
                 }
                 else
-- 
2.43.0


From ee523939868246e3bdea51af8acf824a3bd464a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 32/49] fix: conformal component reads name null basis elements

---
 public/gal/dfa.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index ae604ac..cbd29f6 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -829,15 +829,30 @@ namespace detail
             }
             else if constexpr (n.o == op_comp)
             {
-                constexpr auto pop  = State.args.pop();
-                constexpr auto comp = pop.first.second[n.ex];
-                return rpn_state{
-                    State.inputs,
-                    State.temps,
-                    pop.second.push(make_pair(
-                        pop.first.first,
-                        comp.template resize<comp.size.ind, comp.size.mon, comp.size.term>())),
-                    State.id_count};
+                constexpr auto pop = State.args.pop();
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    // Components are named in the null basis
+                    constexpr auto comp = to_null_basis(pop.first.second)[n.ex];
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        pop.second.push(make_pair(
+                            pop.first.first,
+                            comp.template resize<comp.size.ind, comp.size.mon, comp.size.term>())),
+                        State.id_count};
+                }
+                else
+                {
+                    constexpr auto comp = pop.first.second[n.ex];
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        pop.second.push(make_pair(
+                            pop.first.first,
+                            comp.template resize<comp.size.ind, comp.size.mon, comp.size.term>())),
+                        State.id_count};
+                }
             }
             else if constexpr (n.o == op_grd)
             {
-- 
2.43.0


From 78ddcb2966b11bbfe69c5aa90030986746787000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:35 +0000
Subject: [PATCH 33/49] fix: conformal temporaries stay in the natural basis

---
 public/gal/engine.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 84098b8..d37b431 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -265,16 +265,8 @@ namespace detail
             constexpr static auto ie = temps.template get<I>().ie;
             constexpr static auto o  = temps.template get<I>().o;
             constexpr static auto id = temps.template get<I>().id;
-            if constexpr (detail::uses_null_basis<A>)
-            {
-                constexpr static auto null_conversion = detail::to_null_basis(ie);
-                compute_temp<null_conversion, o, V, A>(
-                    data, std::make_index_sequence<null_conversion.size.term>{}, id);
-            }
-            else
-            {
-                compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
-            }
+            // Temporaries are referred to in the natural basis, even by algebras with a null basis
+            compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
 
             if constexpr (I + 1 != std::decay_t<decltype(temps)>::size())
             {
-- 
2.43.0


From c6e22c9567a53ffd497d1c65ce5e495d47af9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:49 +0000
Subject: [PATCH 34/49] fix: floating point inputs are accepted in any position

---
 public/gal/engine.hpp | 15 ++++++++++++++-
 public/gal/expr.hpp   |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index d37b431..4f83b32 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -334,10 +334,23 @@ namespace detail
     struct infer_field
     {};
 
+    // Inputs are either entities or plain floating point values
+    template <typename D, bool = std::is_floating_point_v<D>>
+    struct field_of
+    {
+        using value_t = typename D::value_t;
+    };
+
+    template <typename D>
+    struct field_of<D, true>
+    {
+        using value_t = D;
+    };
+
     template <typename D, typename... Ds>
     struct infer_field<D, Ds...>
     {
-        using value_t = typename D::value_t;
+        using value_t = typename field_of<D>::value_t;
     };
 
     template <>
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 3861e0f..17215cf 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -299,7 +299,7 @@ namespace detail
 
         if constexpr (sizeof...(Ds) > 0)
         {
-            if (std::is_floating_point_v<D>)
+            if constexpr (std::is_floating_point_v<D>)
             {
                 return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);
             }
-- 
2.43.0


From e2e2f96ba6b050786e2ed01840d8a9ed5276e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:23 +0000
Subject: [PATCH 35/49] fix: projective rotors denote the documented
 multivector

---
 public/gal/pga.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index fd96af8..a5dfe20 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -175,9 +175,9 @@ namespace pga
                      ind{id + 1, one}, // x * sin(t/2)
                      ind{id + 2, one}},
                     {mon{one, one, 1, 0},
-                     mon{one, one, 1, 1},
-                     mon{minus_one, rat{2}, 2, 2},
-                     mon{one, rat{2}, 2, 3}},
+                     mon{one, rat{2}, 2, 1},
+                     mon{minus_one, rat{2}, 2, 3},
+                     mon{one, rat{2}, 2, 5}},
                     {term{1, 0, 0b0}, term{1, 1, 0b110}, term{1, 2, 0b1010}, term{1, 3, 0b1100}}};
         }
 
-- 
2.43.0


From 17d1ee735a39e62219286dd154455ca5843ac9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:29 +0000
Subject: [PATCH 36/49] fix: projective translators denote the documented
 multivector

---
 public/gal/pga.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index a5dfe20..8748888 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -236,14 +236,14 @@ namespace pga
                     {ind{id, one}, // d * l_x
                      ind{id + 1, one},
                      ind{id, one}, // d * l_y
-                     ind{id + 1, one},
+                     ind{id + 2, one},
                      ind{id, one}, // d * l_z
-                     ind{id + 2, one}},
+                     ind{id + 3, one}},
                     {
                         mon{one, zero, 0, 0},              // 1
-                        mon{minus_one_half, rat{2}, 2, 1}, // -1/2 * l_x
+                        mon{minus_one_half, rat{2}, 2, 0}, // -1/2 * l_x
                         mon{minus_one_half, rat{2}, 2, 2}, // -1/2 * l_y
-                        mon{minus_one_half, rat{2}, 2, 3}  // -1/2 * l_z
+                        mon{minus_one_half, rat{2}, 2, 4}  // -1/2 * l_z
                     },
                     {term{1, 0, 0b0}, term{1, 1, 0b11}, term{1, 2, 0b101}, term{1, 3, 0b1001}}};
         }
-- 
2.43.0


From 312bcf6d91118a08042457bbe2da90964d3289d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:35 +0000
Subject: [PATCH 37/49] fix: projective vectors have three terms

---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 8748888..bfd5d9f 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -403,7 +403,7 @@ namespace pga
         // Like planes, points are represented dually as the intersection of three planes
         GAL_NODISCARD constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{3, 3, 3},
                     {
                         ind{id + 2, one}, // -z
                         ind{id + 1, one}, // y
-- 
2.43.0


From dfa4720a6ad84e431ca386638eaa555a215e4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:41 +0000
Subject: [PATCH 38/49] fix: the logarithm of a half turn

---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index bfd5d9f..1237a76 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -558,7 +558,7 @@ namespace pga
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
         bool s1_zero = std::abs(s1) < T{1e-6};
-        scalar<pga_algebra, T> u{s1_zero ? ::std::atan2(-p1, p2) : ::std::atan2(s2, s1)};
+        scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
         return compute(
-- 
2.43.0


From bb0a9d75188f8de6fa9d2c6d9bd1e3c1f7411d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:12 +0000
Subject: [PATCH 39/49] fix: planar projective points denote their coordinates

---
 public/gal/pga2.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index bdaada1..7061cd2 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,10 +148,10 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, one}, // -y
+                        ind{id, one}      // x
                     },
-                    {mon{minus_one, one, 0, 1}, // -y
+                    {mon{minus_one, one, 1, 0}, // -y
                      mon{one, one, 1, 1},       // x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x          = w_inv;
-            y          = -w_inv;
+            x *= w_inv;
+            y *= -w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From a210cd4f42f156f5d9b1495edca99da837325a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:13 +0000
Subject: [PATCH 40/49] fix: planar projective vectors have two coordinates

---
 public/gal/pga2.hpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 7061cd2..829b495 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -199,52 +199,46 @@ namespace pga2
         using value_t                 = T;
         constexpr static bool is_dual = true;
 
-        std::array<T, 3> data;
+        std::array<T, 2> data;
         struct
         {
             T x;
             T y;
-            T z;
         };
 
-        // Like planes, points are represented dually as the intersection of three planes
-        [[nodiscard]] constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
+        // A vector is an ideal point
+        [[nodiscard]] constexpr static mv<algebra_t, 2, 2, 2> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{2, 2, 2},
                     {
-                        ind{id + 2, 1}, // -z
-                        ind{id + 1, 1}, // y
-                        ind{id, 1}      // -x
+                        ind{id + 1, one}, // -y
+                        ind{id, one}      // x
                     },
                     {
-                        mon{minus_one, one, 0, 1}, // -z
-                        mon{one, one, 1, 1},       // y
-                        mon{minus_one, one, 2, 1}  // -x
+                        mon{minus_one, one, 1, 0}, // -y
+                        mon{one, one, 1, 1}        // x
                     },
                     {
-                        term{1, 0, 0b111},  // -z * e012
-                        term{1, 1, 0b1011}, // y * e013
-                        term{1, 2, 0b1101}  // x * e023
+                        term{1, 0, 0b11}, // -y * e01
+                        term{1, 1, 0b101} // x * e02
                     }};
         }
 
         [[nodiscard]] constexpr static size_t size() noexcept
         {
-            return 3;
+            return 2;
         }
 
-        constexpr vector(T x, T y, T z) noexcept
+        constexpr vector(T x, T y) noexcept
             : x{x}
             , y{y}
-            , z{z}
         {}
 
         template <elem_t... E>
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
-            : data{in.template select<0b1101, 0b1011, 0b111>()}
+            : data{in.template select<0b101, 0b11>()}
         {
-            z = -z;
-            x = -x;
+            y = -y;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 341ec4df9b542338570d6b8ff6153c7bddf07032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 41/49] fix: the zero entity may be indexed

---
 public/gal/entity.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index f8a6015..7e3b131 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -183,10 +183,6 @@ struct entity<A, T>
         return {0};
     }
 
-    GAL_NODISCARD constexpr T& operator[](size_t index) noexcept
-    {
-        return {0};
-    }
 };
 
 template <typename A, typename T>
-- 
2.43.0


From b62ceb80882749858909116a0bffc7c94cc21fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:25 +0000
Subject: [PATCH 42/49] fix: points may be used as vectors in their own algebra

---
 public/gal/vga.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/vga.hpp b/public/gal/vga.hpp
index d8f7ace..4211399 100644
--- a/public/gal/vga.hpp
+++ b/public/gal/vga.hpp
@@ -153,6 +153,14 @@ namespace vga
         using algebra_t = vga_algebra;
         using value_t   = T;
 
+        GAL_NODISCARD constexpr static auto ie(uint32_t id) noexcept
+        {
+            return ::gal::detail::construct_ie<algebra_t>(
+                id,
+                std::make_integer_sequence<width_t, 3>{},
+                std::integer_sequence<elem_t, 0b1, 0b10, 0b100>{});
+        }
+
         constexpr static mv<gal::pga::pga_algebra, 3, 4, 4>
         ie(gal::pga::pga_algebra, uint32_t id) noexcept
         {
-- 
2.43.0


From 0d8c0cf3eaec4118a2a30c6acc91abb1b8192eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:45 +0000
Subject: [PATCH 43/49] fix: the planar conformal algebra compiles

---
 public/gal/cga2.hpp | 125 ++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 81 deletions(-)

diff --git a/public/gal/cga2.hpp b/public/gal/cga2.hpp
index f62a8e0..98adf55 100644
--- a/public/gal/cga2.hpp
+++ b/public/gal/cga2.hpp
@@ -19,92 +19,55 @@ namespace cga2
     // The CRA is a graded algebra with 16 basis elements
     using cga2_algebra = gal::algebra<cga2_metric>;
 
-    // 0b1 => e+ extension
-    // 0b1000 => e- extension
-    namespace detail
+    // Before change-of-basis:
+    // 0b100 => no
+    // 0b1000 => ni
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _e1(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _e2(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b10;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _no(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b100;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ni(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1000;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ps(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1111;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ips(unsigned long long n)
     {
-        // These tags are needed to provide unique specializations for the expressions for n_o and
-        // n_i
-        template <typename T>
-        struct n_o_tag
-        {};
-
-        template <typename T>
-        struct n_i_tag
-        {};
-
-        template <typename T>
-        struct pseudoscalar_tag
-        {};
-
-        template <typename T>
-        struct pseudoscalar_inv_tag
-        {};
-    } // namespace detail
+        uint32_t op = detail::c_scalar + 0b1111;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(-n), 1}};
+    }
 } // namespace cga2
 
 namespace detail
 {
     template <>
-    constexpr inline bool uses_null_basis<::gal::cga::cga2_algebra> = true;
+    constexpr inline bool uses_null_basis<::gal::cga2::cga2_algebra> = true;
 }
 
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::n_o_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static mv<cga2::cga2_algebra, 0, 1, 1> lhs{mv_size{0, 1, 1},
-                                                         {},
-                                                         {mon{one, zero, 0, 0}},
-                                                         {term{1, 0, 0b1000}}};
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::n_i_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static mv<cga2::cga2_algebra, 0, 1, 1> lhs{mv_size{0, 1, 1},
-                                                         {},
-                                                         {mon{one, zero, 0, 0}},
-                                                         {term{1, 1, 0b1000}}};
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::pseudoscalar_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static auto lhs   = cga2::cga2_algebra::pseudoscalar;
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga::cga2_algebra, 0, 1, 1>, cga2::detail::pseudoscalar_inv_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static auto lhs   = cga2::cga2_algebra::pseudoscalar_inv;
-};
-
 namespace cga2
 {
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::n_o_tag<T>> n_o;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::e_inf_tag<T>> n_i;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::pseudoscalar_tag<T>> ps;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::pseudoscalar_inv_tag<T>> ips;
-
     template <typename T = float>
     union point
     {
@@ -141,15 +104,15 @@ namespace cga2
         {
             return {mv_size{4, 5, 4},
                     {
-                        ind{0, one},    // ind0 = p_x
-                        ind{1, one},    // ind1 = p_y
-                        ind{0, rat{2}}  // ind3 = p_x^2
-                        ind{1, rat{2}}, // ind3 = p_y^2
+                        ind{id, one},        // ind0 = p_x
+                        ind{id + 1, one},    // ind1 = p_y
+                        ind{id, rat{2}},     // ind2 = p_x^2
+                        ind{id + 1, rat{2}}, // ind3 = p_y^2
                     },
                     {
                         mon{one, one, 1, 0},         // p_x
                         mon{one, one, 1, 1},         // p_y
-                        mon{one, zero, 0, 0, 0},     // n_o
+                        mon{one, zero, 0, 0},        // n_o
                         mon{one_half, rat{2}, 1, 2}, // 1/2 p_x^2
                         mon{one_half, rat{2}, 1, 3}  // 1/2 p_y^2
                     },
-- 
2.43.0


From 4f2ee0ab001a3286a97b2b2cea38dfe679ddef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:08 +0000
Subject: [PATCH 44/49] fix: the moment of a projective line is a vector

The y component of the moment was stored with the opposite sign of the x and
z components, so a line built from Pluecker coordinates did not pass through
its points and a line joined from two points read back a wrong moment.
---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 1237a76..d8afb52 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -487,7 +487,7 @@ namespace pga
                     },
                     {
                         mon{minus_one, one, 1, 0}, // mx
-                        mon{one, one, 1, 1},       // my
+                        mon{minus_one, one, 1, 1}, // my
                         mon{minus_one, one, 1, 2}, // dz
                         mon{minus_one, one, 1, 3}, // mz
                         mon{one, one, 1, 4},       // dy
@@ -522,6 +522,7 @@ namespace pga
             : data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}
         {
             mx = -mx;
+            my = -my;
             mz = -mz;
             dx = -dx;
             dz = -dz;
-- 
2.43.0


From 4182cb907811cfd00075203c357572c04fd13aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:54 +0000
Subject: [PATCH 45/49] fix: planar points lie on the lines whose equation they
 satisfy

A planar line (d, x, y) documents the equation x X + y Y + d = 0, but points
were stored with both ideal coordinates negated, so that two lines met in the
mirror image of their common point and joins were mirrored likewise.
---
 public/gal/pga2.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 829b495..5b280e0 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,15 +148,15 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, one}, // -y
-                        ind{id, one}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
-                    {mon{minus_one, one, 1, 0}, // -y
-                     mon{one, one, 1, 1},       // x
+                    {mon{one, one, 1, 0},       // y
+                     mon{minus_one, one, 1, 1}, // -x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
-                        term{1, 0, 0b11},  // -y * e01
-                        term{1, 1, 0b101}, // x * e02
+                        term{1, 0, 0b11},  // y * e01
+                        term{1, 1, 0b101}, // -x * e02
                         term{1, 2, 0b110}  // e12
                     }};
         }
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x *= w_inv;
-            y *= -w_inv;
+            x *= -w_inv;
+            y *= w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
@@ -211,16 +211,16 @@ namespace pga2
         {
             return {mv_size{2, 2, 2},
                     {
-                        ind{id + 1, one}, // -y
-                        ind{id, one}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
                     {
-                        mon{minus_one, one, 1, 0}, // -y
-                        mon{one, one, 1, 1}        // x
+                        mon{one, one, 1, 0},      // y
+                        mon{minus_one, one, 1, 1} // -x
                     },
                     {
-                        term{1, 0, 0b11}, // -y * e01
-                        term{1, 1, 0b101} // x * e02
+                        term{1, 0, 0b11}, // y * e01
+                        term{1, 1, 0b101} // -x * e02
                     }};
         }
 
@@ -238,7 +238,7 @@ namespace pga2
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
             : data{in.template select<0b101, 0b11>()}
         {
-            y = -y;
+            x = -x;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 0f2d61215c9c6d199b730bbc6815512a859acf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:55 +0000
Subject: [PATCH 46/49] fix: the logarithm of nearly half a turn keeps its
 precision

---
 public/gal/pga.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index d8afb52..28f39d2 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -558,9 +558,10 @@ namespace pga
 
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
-        bool s1_zero = std::abs(s1) < T{1e-6};
+        // Both quotients are equal, divide by the larger of sine and cosine
+        bool s1_small = std::abs(s1) < s2;
         scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
-        scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
+        scalar<pga_algebra, T> v{s1_small ? -p1 / s2 : p2 / s1};
 
         return compute(
             [](auto u, auto v, auto l, auto inv_norm) { return (u + v * 1_ps) * l * inv_norm; },
-- 
2.43.0


From ce002d687f8c0d437ca5d92d96177d16ce7cbf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:10 +0000
Subject: [PATCH 47/49] fix: reading several blades of a result that is exactly
 zero yields one value per blade

---
 public/gal/entity.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index 7e3b131..eac777b 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -148,9 +148,16 @@ struct entity<A, T>
     }
 
     template <elem_t... S>
-    GAL_NODISCARD constexpr T select() const noexcept
+    GAL_NODISCARD constexpr auto select() const noexcept
     {
-        return {0};
+        if constexpr (sizeof...(S) == 1)
+        {
+            return T{0};
+        }
+        else
+        {
+            return std::array<T, sizeof...(S)>{};
+        }
     }
 
     GAL_NODISCARD constexpr T select(elem_t e) const noexcept
-- 
2.43.0


From 82e5f85d166779741d8365117e9d6d1cf554f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:58 +0000
Subject: [PATCH 48/49] fix: named constants have the precision of the value
 type

---
 public/gal/algebra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index cffcf36..7c934e5 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -20,7 +20,7 @@ namespace detail
     };
 
     template <typename T>
-    constexpr inline T ind_constants[] = {M_PI, 2.71828182845904523536};
+    constexpr inline T ind_constants[] = {static_cast<T>(3.14159265358979323846L), static_cast<T>(2.71828182845904523536L)};
 } // namespace detail
 
 // Although the multivector space will ultimately be defined over a field, we decompose the
-- 
2.43.0


From c29c7b8c203e3afefd186bbc526d880d4d22166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:48 +0000
Subject: [PATCH 49/49] fix: components and grades of constant expressions can
 be read

---
 public/gal/expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 17215cf..a66fecf 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -140,7 +140,7 @@ namespace detail
         width_t count = 0;
         rat q{1, 1};
 
-        constexpr auto operator[](elem_t e) noexcept
+        constexpr auto operator[](elem_t e) const noexcept
         {
             rpne<A, S + 1> out;
             if (count == 0)
@@ -155,7 +155,7 @@ namespace detail
             return out;
         }
 
-        constexpr auto select_grade(elem_t g) noexcept
+        constexpr auto select_grade(elem_t g) const noexcept
         {
             rpne<A, S + 1> out;
             if (count == 0)
-- 
2.43.0

