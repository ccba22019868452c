From 2afcc10dbf72265f14f4fabcf3c890dcf1d9229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:54 +0000
Subject: [PATCH 01/84] fix: binomial coefficients overflowed above order 12
 (int) / 20 (size_t)

---
 gbs/math.ixx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 4bd6a00..82c0769 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -66,7 +66,14 @@
         }
         else
         {
-            return T(factorial(n)) / T(factorial(k) * factorial(n - k));
+            // Multiplicative form: factorials overflow the integer type L as soon
+            // as n > 12 (int) or n > 20 (size_t).
+            T result{1};
+            for (L i{1}; i <= k; ++i)
+            {
+                result = result * T(n - k + i) / T(i);
+            }
+            return result;
         }
     }
 
-- 
2.43.0


From 3795caa56db066428b4189ac811562ace115aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:43 +0000
Subject: [PATCH 02/84] fix: trimming with swapped parameters left reversed
 bounds

---
 gbs/bscurve.h | 3 ++-
 gbs/bssurf.h  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index 465bdce..f2991c4 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -539,7 +539,8 @@ namespace gbs
          */
         auto trim(T u1, T u2, bool permanently=true) -> void
         {
-            m_bounds = {u1,u2};
+            // the geometric trim is order independent, so must be the bounds
+            m_bounds = {std::min(u1,u2),std::max(u1,u2)};
             if (permanently)
             {
                 gbs::trim(m_deg, m_knotsFlats, m_poles, u1, u2);
diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 36ea035..dab6849 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -980,8 +980,9 @@ namespace gbs
             std::swap(m_knotsFlatsU, new_knotsUFlats);
             std::swap(m_poles, new_poles);
 
-            m_bounds[0] = u1; 
-            m_bounds[1] = u2;
+            // the geometric trim is order independent, so must be the bounds
+            m_bounds[0] = std::min(u1, u2);
+            m_bounds[1] = std::max(u1, u2);
         }
 
         /**
-- 
2.43.0


From 5c077a18b622b5e2fd3b3e2da0c36f207efd649b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:43 +0000
Subject: [PATCH 03/84] fix: reversing or converting a non-permanently trimmed
 curve lost its bounds

---
 gbs/bscurve.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gbs/bscurve.h b/gbs/bscurve.h
index f2991c4..92e4f14 100644
--- a/gbs/bscurve.h
+++ b/gbs/bscurve.h
@@ -517,6 +517,7 @@ namespace gbs
                            [&](const auto k_) {
                                return k1 + k2 - k_;
                            });
+            m_bounds = {k1 + k2 - m_bounds[1], k1 + k2 - m_bounds[0]};
         }
 
         /**
@@ -587,7 +588,7 @@ namespace gbs
     {
         using BSCurveGeneral<T, dim, false>::BSCurveGeneral;
     public:
-        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurve(const BSCurveGeneral<T, dim, false> &bsc) : BSCurveGeneral<T, dim, false>(bsc) {}
         virtual auto value(T u, size_t d = 0) const -> std::array<T, dim> override
         {
             if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)
@@ -622,7 +623,7 @@ namespace gbs
     {
         using  BSCurveGeneral<T, dim, true>::BSCurveGeneral;
     public:
-        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc.poles(), bsc.knotsFlats(), bsc.degree()) {}
+        BSCurveRational(const BSCurveGeneral<T, dim, true> &bsc) : BSCurveGeneral<T, dim, true>(bsc) {}
         BSCurveRational(const std::vector<std::array<T, dim>> &poles,
                         const std::vector<T> &knots_flats,
                         size_t deg) : BSCurveGeneral<T, dim, true>(add_weights_coord(poles), knots_flats, deg) {}
-- 
2.43.0


From 5f9774d3d4b3c5a919f00257f4ca4793c7e4d172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:31 +0000
Subject: [PATCH 04/84] fix: refining approximation stopped at once on negative
 parameters

---
 gbs/bscapprox.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5c35a6d..5daeab5 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -206,7 +206,8 @@ namespace gbs
             // C2: d_max_ used to ignore points near a knot, masking unmet tolerance).
             T d_avg_{}, d_max_{};
             // Knot-insertion candidate: the worst point that is well inside a span.
-            T d_insert{}, u_max{-1};
+            T d_insert{}, u_max{};
+            bool insertable{false};
             std::vector<T> knots{crv_refined.knotsFlats()};
 
             for(size_t j {} ; j < n_pts ; j++)
@@ -235,6 +236,7 @@ namespace gbs
                     {
                         d_insert = d;
                         u_max = u_;
+                        insertable = true;
                     }
                 }
             }
@@ -244,7 +246,7 @@ namespace gbs
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
-            if (u_max < 0)
+            if (!insertable)
                 break;
 
             auto it = std::lower_bound(knots.begin(), knots.end(), u_max);
-- 
2.43.0


From 66a47e31b925ea7658871b4c185dc62bcb4996d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:31 +0000
Subject: [PATCH 05/84] fix: refining approximation of a small point set asked
 for more poles than points

---
 gbs/bscapprox.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 5daeab5..782b1fa 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -246,7 +246,8 @@ namespace gbs
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
-            if (!insertable)
+            // Neither can an approximation have more poles than points.
+            if (!insertable || n_poles >= n_pts)
                 break;
 
             auto it = std::lower_bound(knots.begin(), knots.end(), u_max);
@@ -262,7 +263,7 @@ namespace gbs
             }
             if (
                 (d_max_ < d_max && d_avg_ < d_avg)
-                || n_poles>= pts.size() - 5 // The idea of approximation id to get less pole tha  interpolation
+                || n_poles + 5 >= pts.size() // The idea of approximation id to get less pole tha  interpolation
                 )
                 break;
         }
-- 
2.43.0


From 68c5379b7c74538c29dff25a4d4265c01c95e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:31 +0000
Subject: [PATCH 06/84] fix: approximation of a curve between two parameters
 ignored them

---
 gbs/bscapprox.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 782b1fa..66b5d50 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -468,9 +468,9 @@ namespace gbs
     template <typename T, size_t dim>
     auto approx(const Curve<T,dim> &crv, T u1, T u2, T deviation,T tol, size_t p, size_t np = approx_sample_count) -> BSCurve<T, dim>
     {
-        // NB: u1/u2 are currently not applied (the whole curve is sampled), matching
-        // the pre-existing behaviour; left as-is to keep this a pure refactor.
-        auto [pts, u] = sample_by_deviation(crv, np, deviation);
+        auto u_lst = deviation_based_params<T, dim>(crv, u1, u2, np, deviation);
+        points_vector<T, dim> pts = make_points(crv, u_lst);
+        std::vector<T> u{std::begin(u_lst), std::end(u_lst)};
         return refine_from_points(pts, u, p, default_n_poles(p), tol);
     }
 
-- 
2.43.0


From cfbc2a8c948c696e356f3a764614d7f7ed90252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:17 +0000
Subject: [PATCH 07/84] fix: refining approximation refitted once more after
 meeting the deviation, and could lose it

---
 gbs/bscapprox.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gbs/bscapprox.h b/gbs/bscapprox.h
index 66b5d50..314eb59 100644
--- a/gbs/bscapprox.h
+++ b/gbs/bscapprox.h
@@ -243,6 +243,10 @@ namespace gbs
 
             d_avg_ /= pts.size();
 
+            // The deviation asked for is met: one more fit could lose it.
+            if (d_max_ < d_max && d_avg_ < d_avg)
+                break;
+
             // No span is "open enough" for a new knot: we cannot refine further,
             // regardless of whether the tolerance is met -> do not claim convergence,
             // just stop (the returned curve reflects the best we can place).
@@ -261,10 +265,7 @@ namespace gbs
             {
                 crv_refined = approx(pts, p, n_poles, u, knots);
             }
-            if (
-                (d_max_ < d_max && d_avg_ < d_avg)
-                || n_poles + 5 >= pts.size() // The idea of approximation id to get less pole tha  interpolation
-                )
+            if (n_poles + 5 >= pts.size()) // The idea of approximation id to get less pole tha  interpolation
                 break;
         }
         return crv_refined;
-- 
2.43.0


From ac3a7f27ad674493327d63189b2479098b136c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:00 +0000
Subject: [PATCH 08/84] fix: connection on the backward side of a curve had the
 opposite curvature

---
 gbs/bsctools.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 5c14fdd..afdec1a 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -611,8 +611,9 @@ namespace gbs
         auto p2 = crv2(u2);
         auto t1 = s1*crv1(u1,1);
         auto t2 = s2*crv2(u2,1);
-        auto c1 = s1*crv1(u1,2);
-        auto c2 = s2*crv2(u2,2);
+        // following a curve backwards flips its tangent, not its second derivative
+        auto c1 = crv1(u1,2);
+        auto c2 = crv2(u2,2);
 
         return c2_connect(p1,p2,t1,t2,c1,c2,e);
     }
-- 
2.43.0


From 7354b99d26b361bb4d33dee24e4c81772aaf84e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:45 +0000
Subject: [PATCH 09/84] fix: adding a dimension to a rational curve or surface
 used the weight as a coordinate

---
 gbs/bsctools.h | 5 ++++-
 gbs/bsstools.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index afdec1a..661ff14 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -754,7 +754,10 @@ namespace gbs
             crv.poles().end(),
             poles.begin(),
             [&val](const auto &p_){
-                return add_dimension(p_,val);
+                if constexpr (rational)
+                    return add_weight(add_dimension(weight_projection(p_),val),p_.back());
+                else
+                    return add_dimension(p_,val);
             }
         );
         using bs_type = typename std::conditional<rational,BSCurveRational<T, dim+1>,BSCurve<T, dim+1>>::type;
diff --git a/gbs/bsstools.h b/gbs/bsstools.h
index b3aaf47..b0e5d49 100644
--- a/gbs/bsstools.h
+++ b/gbs/bsstools.h
@@ -101,7 +101,10 @@ namespace gbs
             poles.begin(),
             [&val](const auto &p_)
             {
-                return add_dimension<T,dim+rational>(p_, val);
+                if constexpr (rational)
+                    return add_weight(add_dimension(weight_projection(p_), val), p_.back());
+                else
+                    return add_dimension<T,dim>(p_, val);
             });
         using bs_type = typename std::conditional<rational, BSSurfaceRational<T, dim + 1>, BSSurface<T, dim + 1>>::type;
         return bs_type(poles, srf.knotsFlatsU(), srf.knotsFlatsV(), srf.degreeU(), srf.degreeV());
-- 
2.43.0


From fbc70f268f10b14494701c8d5b6a8ee0ccdbe04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:46 +0000
Subject: [PATCH 10/84] fix: inserting a knot zero times rewrote the poles

---
 gbs/knotsfunctions.ixx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index a25b01c..1c0c6db 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -375,8 +375,8 @@
         auto k    = std::distance(UP.begin(), k_it) - 1;
         // Checking the multiplicity
         auto s    = std::distance(std::lower_bound(UP.begin(), UP.end(), u), k_it);
-        // Check if there is room for insertion
-        if(s>=p) // No room
+        // Check if there is room for insertion and something to insert
+        if(s>=p || r==0)
         {
             auto at_end = k_it == UP.end() ? 1 : 0;
             return k-p-at_end;
-- 
2.43.0


From 8ac7120f33c10986312de7ade30eada618a5b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:46 +0000
Subject: [PATCH 11/84] fix: unifying knots equal to rounding left two distinct
 knots

---
 gbs/bsctools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bsctools.h b/gbs/bsctools.h
index 661ff14..2fb9189 100644
--- a/gbs/bsctools.h
+++ b/gbs/bsctools.h
@@ -193,7 +193,8 @@ namespace gbs
             {
                 if(m>it->second)
                 {
-                    insert_knots(u, degree, m - it->second, k_out, poles_out);
+                    // repeat the value already there: u may differ from it by rounding
+                    insert_knots(it->first, degree, m - it->second, k_out, poles_out);
                     it->second = m;
                 }
             }
-- 
2.43.0


From 949ef716a73da3eac6e0c4e1e84c2ada19bdbdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:46 +0000
Subject: [PATCH 12/84] fix: adimension did not bring values not starting at 0
 to [0,1]

---
 gbs/knotsfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 1c0c6db..f79cab9 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -288,7 +288,7 @@
         auto d = k.back() - k.front();
         if(fabs(d)>knot_eps<T>)
         {
-            std::transform(k.begin(),k.end(),k.begin(),[&d](auto const &k_){return k_/d;});
+            std::transform(k.begin(),k.end(),k.begin(),[d, k0 = k.front()](auto const &k_){return (k_-k0)/d;});
         }
     }
 
-- 
2.43.0


From 3e42a147357afaf4cdd863baa632a70ad9b0cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:02 +0000
Subject: [PATCH 13/84] fix: curves not touching terminated the Gordon
 construction instead of being refused

---
 gbs/bssbuild.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/gbs/bssbuild.h b/gbs/bssbuild.h
index 1a57cbe..89d3a72 100644
--- a/gbs/bssbuild.h
+++ b/gbs/bssbuild.h
@@ -482,9 +482,6 @@ namespace gbs
     template <typename T, size_t dim, typename InputIt>
     auto build_intersections(InputIt first_curve, InputIt last_curve, const Curve<T, dim> &crv, T tol = extrema_tol<T>) -> std::vector<T>
     {
-        auto nu = std::distance(first_curve, last_curve);
-        std::vector<T> u(nu);
-
         // Compute intersections
         auto f_intersection = [tol, &crv](const auto &crv_) {
             auto [u_, v_, d] = extrema_curve_curve( crv, conditional_dereference(crv_), tol);
@@ -494,14 +491,11 @@ namespace gbs
             return u_;
         };
 
-        std::transform(
-            GBS_PAR_EXEC
-            first_curve, last_curve,
-            u.begin(),
-            f_intersection
-        );
+        // f_intersection may throw, which must not escape a parallel algorithm
+        const std::ranges::subrange<InputIt, InputIt, std::ranges::subrange_kind::sized> curves(
+            first_curve, last_curve, std::distance(first_curve, last_curve));
 
-        return u;
+        return build_batch(curves, f_intersection);
     }
 
     /**
-- 
2.43.0


From 47bb9286277b7d8b91f393df9339727ebf91e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:50 +0000
Subject: [PATCH 14/84] fix: shaping a curve to constraints added the targets
 instead of the differences

---
 gbs/bscshaping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscshaping.h b/gbs/bscshaping.h
index 81af81d..c66ba2c 100644
--- a/gbs/bscshaping.h
+++ b/gbs/bscshaping.h
@@ -143,7 +143,7 @@ namespace gbs
             i2 = std::min<size_t>(n-2,i2);
         }
 
-        return moved_to_constraints_delta(crv, constraints, i1, i2);
+        return moved_to_constraints_delta(crv, constraints_delta, i1, i2);
     }
 
     template<typename T, size_t dim>
-- 
2.43.0


From f5299c26cb513be5548fef327210d429e95100d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:50 +0000
Subject: [PATCH 15/84] fix: shaping a surface ignored the derivative order of
 its constraints

---
 gbs/bssshaping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssshaping.h b/gbs/bssshaping.h
index 5cb75ce..532cfec 100644
--- a/gbs/bssshaping.h
+++ b/gbs/bssshaping.h
@@ -42,10 +42,10 @@ namespace gbs
 
             for (size_t j{j1}; j <= j2; j++)
             {
-                Nv = basis_function(v, j, q, 0, kv);
+                Nv = basis_function(v, j, q, dv, kv);
                 for (size_t i{i1}; i <= i2; i++)
                 {
-                    Nu = basis_function(u, i, p, 0, ku);
+                    Nu = basis_function(u, i, p, du, ku);
                     B(r, i - i1 + nu * ( j - j1) ) = Nu * Nv;
                 }
             }
-- 
2.43.0


From 1edc281d85ae501f70213c24d8a8a494069d7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 16/84] fix: an evaluation error in a large batch terminated
 the program instead of being thrown

---
 gbs/execution.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/gbs/execution.h b/gbs/execution.h
index 68b5a5a..1e498f0 100644
--- a/gbs/execution.h
+++ b/gbs/execution.h
@@ -3,6 +3,7 @@
 // Apple libc++ does not ship parallel execution policies.
 // Fall back to sequential algorithms on that platform.
 #include <version>
+#include <atomic>     // std::atomic (transform_threshold error propagation)
 #include <numeric>  // std::reduce, std::transform_reduce (previously transitive via <execution>)
 #include <algorithm>  // std::transform, std::for_each
 #include <iterator>   // std::distance, std::begin/end/size/next
@@ -63,13 +64,26 @@ namespace gbs
     // Portability: on platforms without parallel policies (Apple libc++)
     // GBS_PAR_EXEC is empty, so both branches are serial and the gate is a
     // correctness-preserving no-op.
+    //
+    // Exceptions: one escaping a parallel element-access function would call
+    // std::terminate, so the parallel branch traps them and the failing call is
+    // replayed serially: catchable, and the same one on either side of the gate.
 
     /// Size-gated unary std::transform (single input range).
     template <class InputIt, class OutputIt, class UnaryOp>
     OutputIt transform_threshold(InputIt first, InputIt last, OutputIt out, UnaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first, last)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first, last, out, op);
+        {
+            std::atomic<bool> failed{false};
+            const auto res = std::transform(GBS_PAR_EXEC first, last, out,
+                [&](const auto &x) -> std::decay_t<decltype(op(x))>
+                {
+                    try { return op(x); }
+                    catch (...) { failed = true; return {}; }
+                });
+            if (!failed) return res; // else let the serial loop below throw, as it does under the gate
+        }
         return std::transform(first, last, out, op);
     }
 
@@ -78,7 +92,16 @@ namespace gbs
     OutputIt transform_threshold(InputIt1 first1, InputIt1 last1, InputIt2 first2, OutputIt out, BinaryOp op)
     {
         if (static_cast<std::size_t>(std::distance(first1, last1)) >= parallel_min_size)
-            return std::transform(GBS_PAR_EXEC first1, last1, first2, out, op);
+        {
+            std::atomic<bool> failed{false};
+            const auto res = std::transform(GBS_PAR_EXEC first1, last1, first2, out,
+                [&](const auto &x, const auto &y) -> std::decay_t<decltype(op(x, y))>
+                {
+                    try { return op(x, y); }
+                    catch (...) { failed = true; return {}; }
+                });
+            if (!failed) return res; // else let the serial loop below throw, as it does under the gate
+        }
         return std::transform(first1, last1, first2, out, op);
     }
 
-- 
2.43.0


From 0b5cb09aacce7e29bb9c0bf42e489c08fee46469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 17/84] fix: make_points terminated the program on a parameter
 out of the curve's bounds

---
 gbs/bscanalysis.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 15c73a6..bb67937 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -506,8 +506,7 @@ namespace gbs
     {
         points_vector<T,dim> points(u_lst.size());
 
-        std::transform(
-            GBS_PAR_EXEC
+        transform_threshold(
             u_lst.begin(),u_lst.end(),points.begin(),
             [d,&crv](T u_){return crv(u_,d);}
         );
-- 
2.43.0


From aae2df817a8d32fde4e050b49a976a2926eb3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 18/84] fix: adaptive curvilinear abscissa walked invalidated
 iterators after a refinement

---
 gbs/bscanalysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index bb67937..6bdd55f 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -200,7 +200,7 @@ namespace gbs
                 if (curv_diff > tolerance)
                 {
                     inserted = true;
-                    u.insert(it_u3, mid_u);
+                    it_u3 = std::next(u.insert(it_u3, mid_u)); // insert invalidates the iterators
                 }
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
-- 
2.43.0


From 7c82a0a27382341cc1a795f06f9f4a7ba81ab662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:29 +0000
Subject: [PATCH 19/84] fix: wrong gradients of the curve/curve and
 surface/curve distances

---
 gbs/extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 02d30d0..7677dc2 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -158,7 +158,7 @@ namespace gbs
         {
             auto f_ = crv1(x[0])-crv2(x[1]);
             auto dfdu = 2.*crv1(x[0],1)* f_;
-            auto dfdv = 2.*crv2(x[1],1)* f_;
+            auto dfdv =-2.*crv2(x[1],1)* f_;
             return std::vector<double>{2. * r[0] * dfdu,2. * r[0] * dfdv};
         };
 
@@ -262,8 +262,8 @@ namespace gbs
         {
             auto f_ = crv(x[0])-srf(x[1],x[2]);
             auto dfduc = 2.*crv(x[0],1)  * f_;
-            auto dfdus =-2.*srf(x[1],1,0)* f_;
-            auto dfdvs =-2.*srf(x[2],0,1)* f_;
+            auto dfdus =-2.*srf(x[1],x[2],1,0)* f_;
+            auto dfdvs =-2.*srf(x[1],x[2],0,1)* f_;
             return std::vector<double>{2. * r[0] * dfduc,2. * r[0] * dfdus,2. * r[0] * dfdvs};
         };
 
-- 
2.43.0


From 155a3ac019729c92b327959d71b8801122e30265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:29 +0000
Subject: [PATCH 20/84] fix: surface/curve intersection started from permuted
 parameters

---
 gbs/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/extrema.h b/gbs/extrema.h
index 7677dc2..056b804 100644
--- a/gbs/extrema.h
+++ b/gbs/extrema.h
@@ -291,7 +291,7 @@ namespace gbs
             return sq_norm(srf(u1, v1)-crv(w1)) < sq_norm(srf(u2, v2)-crv(w2));
         };
         auto [u0, v0, w0 ] = *std::min_element(GBS_PAR_EXEC uvw.begin(), uvw.end(), comp);
-        return extrema_surf_curve(srf, crv, u0, v0, w0, tol_x, solver);
+        return extrema_surf_curve(srf, crv, w0, u0, v0, tol_x, solver);
     }
 
     template <typename T, size_t dim>
-- 
2.43.0


From c2ddb12da78d1a362b42a3a3d1430fc506bbbf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:29 +0000
Subject: [PATCH 21/84] fix: closest_curve and closest_p_curve did not compile

---
 gbs/bscanalysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 6bdd55f..91c57f4 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -661,7 +661,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(c1, pt, c1.midPoint(), tol)[1] < extrema_curve_point(c2, pt, c2.midPoint(), tol)[1];
+                return extrema_curve_point(c1, pt, tol)[1] < extrema_curve_point(c2, pt, tol)[1];
             });
     }
 /**
@@ -683,7 +683,7 @@ namespace gbs
             curve_begin, curve_end,
             [&pt, tol](const auto &c1, const auto &c2)
             {
-                return extrema_curve_point(*c1, pt, c1->midPoint(), tol)[1] < extrema_curve_point(*c2, pt, c2->midPoint(), tol)[1];
+                return extrema_curve_point(*c1, pt, tol)[1] < extrema_curve_point(*c2, pt, tol)[1];
             });
     }
 
-- 
2.43.0


From 1fa16edd07bc34a0dc60a00bf14f4151ed5a82f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 22/84] fix: deviation based discretisation ignored the maximum
 number of points

---
 gbs/bscanalysis.h | 11 ++++++-----
 gbs/bssanalysis.h | 22 ++++++++++++----------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index 91c57f4..a15ce3d 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -391,14 +391,15 @@ namespace gbs
  * @param it_u1 Iterator pointing to the start of the range in the parameter list
  * @param it_u2 Iterator pointing to the end of the range in the parameter list
  * @param u_lst The list of curve parameters
+ * @param n_max_pts Maximum number of parameters allowed
  */
     template <typename T, size_t dim>
-    void refine_params_recursive(const Curve<T, dim> &crv, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u2, std::list<T> &u_lst)
+    void refine_params_recursive(const Curve<T, dim> &crv, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u2, std::list<T> &u_lst, size_t n_max_pts = approx_max_sample_points)
     {
         auto u1 = *it_u1;
         auto u2 = *it_u2;
 
-        if (std::abs(u2 - u1) > knot_eps<T>)
+        if (u_lst.size() < n_max_pts && std::abs(u2 - u1) > knot_eps<T>)
         {
             auto um = static_cast<T>(0.5) * (u1 + u2);
             auto v1 = crv(um) - crv(u1);
@@ -408,8 +409,8 @@ namespace gbs
             if (dev > dev_max)
             {
                 auto it_um = u_lst.insert(it_u2, um);
-                refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst);
-                refine_params_recursive(crv, dev_max, it_um, it_u2, u_lst);
+                refine_params_recursive(crv, dev_max, it_u1, it_um, u_lst, n_max_pts);
+                refine_params_recursive(crv, dev_max, it_um, it_u2, u_lst, n_max_pts);
             }
         }
     }
@@ -464,7 +465,7 @@ namespace gbs
             auto it_u3 = std::next(it_u1);
             while (it_u3 != u_lst.end())
             {
-                refine_params_recursive(crv, dev_max, it_u1, it_u3, u_lst);
+                refine_params_recursive(crv, dev_max, it_u1, it_u3, u_lst, n_max_pts);
 
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index f089110..9e7e583 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -40,20 +40,21 @@ namespace gbs
  * @param it_u1 Iterator pointing to the start of the range in the parameter list
  * @param it_u3 Iterator pointing to the end of the range in the parameter list
  * @param u_lst The list of curve parameters
+ * @param n_max_pts Maximum number of parameters allowed
  */
     template <typename T, size_t dim>
-    void refine_params_u_recursive(const Surface<T, dim> &srf, T v, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u3, std::list<T> &u_lst)
+    void refine_params_u_recursive(const Surface<T, dim> &srf, T v, T dev_max, typename std::list<T>::iterator it_u1, typename std::list<T>::iterator it_u3, std::list<T> &u_lst, size_t n_max_pts = approx_max_sample_points)
     {
         auto u_ = 0.5 * (*it_u1 + *it_u3);
         auto v1 = srf(u_, v) - srf(*it_u1, v);
         auto v2 = srf(*it_u3, v) - srf(*it_u1, v);
         auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
 
-        if (dev_ > dev_max)
+        if (u_lst.size() < n_max_pts && dev_ > dev_max)
         {
             auto it_u2 = u_lst.insert(it_u3, u_);
-            refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst);
-            refine_params_u_recursive(srf, v, dev_max, it_u2, it_u3, u_lst);
+            refine_params_u_recursive(srf, v, dev_max, it_u1, it_u2, u_lst, n_max_pts);
+            refine_params_u_recursive(srf, v, dev_max, it_u2, it_u3, u_lst, n_max_pts);
         }
     }
 
@@ -86,7 +87,7 @@ namespace gbs
             auto it_u3 = std::next(it_u1);
             while (it_u3 != u_lst.end())
             {
-                refine_params_u_recursive(srf, v, dev_max, it_u1, it_u3, u_lst);
+                refine_params_u_recursive(srf, v, dev_max, it_u1, it_u3, u_lst, n_max_pts);
 
                 it_u1 = it_u3;
                 it_u3 = std::next(it_u1);
@@ -106,20 +107,21 @@ namespace gbs
  * @param it_v1 Iterator pointing to the start of the range in the parameter list
  * @param it_v3 Iterator pointing to the end of the range in the parameter list
  * @param v_lst The list of curve parameters
+ * @param n_max_pts Maximum number of parameters allowed
  */
     template <typename T, size_t dim>
-    void refine_params_v_recursive(const Surface<T, dim> &srf, T u, T dev_max, typename std::list<T>::iterator it_v1, typename std::list<T>::iterator it_v3, std::list<T> &v_lst)
+    void refine_params_v_recursive(const Surface<T, dim> &srf, T u, T dev_max, typename std::list<T>::iterator it_v1, typename std::list<T>::iterator it_v3, std::list<T> &v_lst, size_t n_max_pts = approx_max_sample_points)
     {
         auto u_ = 0.5 * (*it_v1 + *it_v3);
         auto v1 = srf(u, u_) - srf(u, *it_v1);
         auto v2 = srf(u, *it_v3) - srf(u, *it_v1);
         auto dev_ = norm(cross(v1, v2)) / (norm(v1) * norm(v2));
 
-        if (dev_ > dev_max)
+        if (v_lst.size() < n_max_pts && dev_ > dev_max)
         {
             auto it_u2 = v_lst.insert(it_v3, u_);
-            refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst);
-            refine_params_v_recursive(srf, u, dev_max, it_u2, it_v3, v_lst);
+            refine_params_v_recursive(srf, u, dev_max, it_v1, it_u2, v_lst, n_max_pts);
+            refine_params_v_recursive(srf, u, dev_max, it_u2, it_v3, v_lst, n_max_pts);
         }
     }
 
@@ -153,7 +155,7 @@ namespace gbs
             auto it_v3 = std::next(it_v1);
             while (it_v3 != v_lst.end())
             {
-                refine_params_v_recursive(srf, u, dev_max, it_v1, it_v3, v_lst);
+                refine_params_v_recursive(srf, u, dev_max, it_v1, it_v3, v_lst, n_max_pts);
 
                 it_v1 = it_v3;
                 it_v3 = std::next(it_v1);
-- 
2.43.0


From bb2c7d9991c236e8a019af19e2a895fa3817e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:18 +0000
Subject: [PATCH 23/84] fix: 2D and 3D ranges could end past their bounds,
 which the solvers started from them refuse

---
 gbs/math.ixx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/math.ixx b/gbs/math.ixx
index 82c0769..43db381 100644
--- a/gbs/math.ixx
+++ b/gbs/math.ixx
@@ -118,7 +118,7 @@
         {
             for(size_t j{}; j < nv; j++)
             {
-                v[j + nv * i] = std::make_pair<T,T>( u1 + (u2-u1) * i / lu, v1 + (v2-v1) * j / lv  );
+                v[j + nv * i] = std::make_pair<T,T>( i + 1 == nu ? u2 : u1 + (u2-u1) * i / lu, j + 1 == nv ? v2 : v1 + (v2-v1) * j / lv  );
             }
         }
 
@@ -143,7 +143,7 @@
             {
                 for(size_t k{}; k < nw; k++)
                 {
-                    v[k + nw * ( j + nv * i )] = std::tuple<T,T,T>( u1 + (u2-u1) * i / lu, v1 + (v2-v1) * j / lv, w1 + (w2-w1) * k / lw  );
+                    v[k + nw * ( j + nv * i )] = std::tuple<T,T,T>( i + 1 == nu ? u2 : u1 + (u2-u1) * i / lu, j + 1 == nv ? v2 : v1 + (v2-v1) * j / lv, k + 1 == nw ? w2 : w1 + (w2-w1) * k / lw  );
                 }
             }
         }
-- 
2.43.0


From fbabf0d24d0fcd490d7c8021866cf5f5874225f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:18 +0000
Subject: [PATCH 24/84] fix: near tangent intersections iterated for minutes

---
 gbs/gbsconstants.h | 4 ++++
 gbs/solvers.h      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gbs/gbsconstants.h b/gbs/gbsconstants.h
index 35d8ff4..b7c0960 100644
--- a/gbs/gbsconstants.h
+++ b/gbs/gbsconstants.h
@@ -92,6 +92,10 @@ namespace gbs
     template <typename T>
     inline constexpr T extrema_tol = T(1e-6);
 
+    // Largest number of evaluations of the distance by one projection or intersection:
+    // near tangency the solvers creep along the valley and would go on for minutes.
+    inline constexpr int solver_max_eval = 10000;
+
     // ---- Delaunay / Boyer-Watson mesh tolerance ----------------------------
     // Default tolerance for the in-circle / orientation predicates and the
     // mesh-editing geometry tests (Boyer-Watson, edge recovery, point-in-face).
diff --git a/gbs/solvers.h b/gbs/solvers.h
index 70195d5..e9d54d0 100644
--- a/gbs/solvers.h
+++ b/gbs/solvers.h
@@ -5,6 +5,8 @@
 
 #include <algorithm>
 
+#include "gbsconstants.h"
+
 #ifdef GBS_USE_MODULES
     import vecop;
 #else
@@ -44,6 +46,7 @@ namespace gbs
         opt.set_upper_bounds(hb_d);
         opt.set_min_objective(eq_, &data);
         opt.set_xtol_rel(tol_x);
+        opt.set_maxeval(solver_max_eval);
 
         double minf;
 
@@ -89,6 +92,7 @@ namespace gbs
         opt.set_upper_bounds(hb_d);
         opt.set_min_objective(eq_, &data);
         opt.set_xtol_rel(tol_x);
+        opt.set_maxeval(solver_max_eval);
 
         double minf;
 
-- 
2.43.0


From 2f4d173d3d3e8f2a740b675bdadb3513927c20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:31 +0000
Subject: [PATCH 25/84] fix: adaptive curvilinear abscissa never ended on a
 curve with a stationary piece

---
 gbs/bscanalysis.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gbs/bscanalysis.h b/gbs/bscanalysis.h
index a15ce3d..166c71c 100644
--- a/gbs/bscanalysis.h
+++ b/gbs/bscanalysis.h
@@ -184,6 +184,7 @@ namespace gbs
         u = make_range(u1, u2, n);
 
         // Adaptive refinement based on local curvature
+        const T l_min = knot_eps<T> * length<T, dim, N>(crv, u1, u2); // stationary pieces hold only rounding, they cannot be refined
         bool inserted = true;
         while (inserted)
         {
@@ -197,7 +198,7 @@ namespace gbs
                 T l23 = length<T, dim, N>(crv, mid_u, (*it_u3));
                 T l13 = length<T, dim, N>(crv, (*it_u1), (*it_u3));
                 T curv_diff = std::abs( l12 + l23 - l13) / l13;
-                if (curv_diff > tolerance)
+                if (l13 > l_min && curv_diff > tolerance)
                 {
                     inserted = true;
                     it_u3 = std::next(u.insert(it_u3, mid_u)); // insert invalidates the iterators
-- 
2.43.0


From 207a099e599e31f92aa328872513daa973223aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 26/84] fix: second derivative of a curve on a surface used u''
 for v''

The chain rule gives u'' Su + v'' Sv; both terms were weighted by u''.
---
 gbs/curveonsurface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveonsurface.h b/gbs/curveonsurface.h
index 503eeae..14ee3ea 100644
--- a/gbs/curveonsurface.h
+++ b/gbs/curveonsurface.h
@@ -53,7 +53,7 @@ namespace gbs
                     auto D2U = p_srf_->value(u_,v_,2,0);
                     auto D2V = p_srf_->value(u_,v_,0,2);
                     auto D2UV = p_srf_->value(u_,v_,1,1);
-                    auto V2 = d2u_ * D1U + d2u_ * D1V + 2 * du_ * dv_ * D2UV;
+                    auto V2 = d2u_ * D1U + d2v_ * D1V + 2 * du_ * dv_ * D2UV;
                     return du_ * du_ * D2U + dv_ * dv_ * D2V + V2;
                 }
                 break;
-- 
2.43.0


From 1526bd906453e1fc217846e63e9e171e349e9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 27/84] fix: the bounds of a line excluded its negative
 parameters

numeric_limits<T>::min() is the smallest positive number, lowest() was meant.
---
 gbs/curveline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curveline.h b/gbs/curveline.h
index 905aca5..fb526b7 100644
--- a/gbs/curveline.h
+++ b/gbs/curveline.h
@@ -43,7 +43,7 @@ namespace gbs
         }
         virtual auto bounds() const -> std::array<T, 2> override
         {
-            return {std::numeric_limits<T>::min(),std::numeric_limits<T>::max()};
+            return {std::numeric_limits<T>::lowest(),std::numeric_limits<T>::max()};
         }
 
         auto getAx() const noexcept -> const ax1<T,dim>&
-- 
2.43.0


From 4198849fb99fac281e464cdbaf525c6c959f9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 28/84] fix: a composite curve evaluated before its start read
 before its parameters

The position before begin() was dereferenced; the first curve now gets the
parameter and refuses it when it is out of its bounds.
---
 gbs/curvecomposite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecomposite.h b/gbs/curvecomposite.h
index fd12436..85d583e 100644
--- a/gbs/curvecomposite.h
+++ b/gbs/curvecomposite.h
@@ -33,7 +33,7 @@ namespace gbs
             {
                 pos = std::next(pos, -2);
             }
-            else
+            else if (pos != u_.begin()) // before the first knot the first curve decides
             {
                 pos = std::next(pos, -1);
             }
-- 
2.43.0


From 5270756875b7a40368f2e700344414bb5f8efce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 29/84] fix: a circle built from an axis was not in the plane
 normal to it

The starting direction was the coordinate axis of smallest signed coordinate,
neither orthogonal to the axis nor, for a negative coordinate, distinct from
it: the circle around (-1,0,0) was reduced to a point.
---
 gbs/curvecircle.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 43c7875..b5a2aae 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -16,10 +16,11 @@ namespace gbs
         Circle(T r, const ax2<T, dim> &ax) : r{r}, ax_{{ax[0], ax[1], r / norm(ax[2]) * ax[2] }} {} 
         Circle(T r, const ax1<T, dim> &ax) : r{r} {
             auto z = ax[1];
-            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end()));
+            auto i_min_coord_mag = std::distance(z.begin(), std::min_element(z.begin(), z.end(), [](T a, T b){ return std::abs(a) < std::abs(b); }));
             point<T,dim> x{};
-            x[i_min_coord_mag] = r;
-            ax_ = { ax[0], ax[1], x };
+            x[i_min_coord_mag] = 1;
+            x = x - z * ((x * z) / (z * z)); // in the plane of the circle
+            ax_ = { ax[0], ax[1], r / norm(x) * x };
         }
 
         virtual auto bounds() const -> std::array<T, 2> override
-- 
2.43.0


From 7429e87d172037cb30594d7219681bbd2751d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 30/84] fix: setting the radius of a circle did not change the
 circle

The points are computed from the starting vector, whose length is the radius;
only the stored radius was updated.
---
 gbs/curvecircle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index b5a2aae..79f4053 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -34,7 +34,7 @@ namespace gbs
         }
 
         auto getR() const noexcept -> T { return r; }
-        auto setR(T r_){r=r_;}
+        auto setR(T r_){ ax_[2] = r_ / norm(ax_[2]) * ax_[2]; r=r_; }
         /**
          * @brief Circle starting direction
          * 
-- 
2.43.0


From 1570797aa80f98bb0f179265686aeb69b2ba6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 31/84] fix: surface of revolution around an axis which does
 not hold the origin

The rotation was done around the parallel axis through the origin, and the
derivatives along the curve were translated by the position of the axis.
---
 gbs/surfaceofrevolution.h | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index 0d51f90..2934e80 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -57,27 +57,18 @@ namespace gbs
         {
             point<T,3> pt;
             v = fmod(v,2*std::numbers::pi_v<T>);
-            if(dv==0)
+            auto pt2d = p_crv_->value(u, du);
+            pt = add_dimension<T, 2>(pt2d, 0.);
+            transform(pt,M_);
+            pt = pt - ax_[0]; // the axis holds ax_[0], and derivatives are not translated
+            if(dv!=0)
             {
-                auto pt2d = p_crv_->value(u,du) ;
-                pt = add_dimension<T,2>(pt2d,0.);
-                transform(pt,M_);
-            }
-            else
-            {
-                auto pt2d = p_crv_->value(u, du);
-                pt = add_dimension<T, 2>(pt2d, 0.);
-                transform(pt,M_);
-                if (du == 0)
-                {
-                    pt = pt - ax_[0];
-                }
-
                 pt = cross( ax_[1], pt);
                 rotate<T>(pt,(dv-1)*std::numbers::pi_v<T>/2.,ax_[1]);
 
             }
-            return rotated<T>( pt , v, ax_[1]);
+            pt = rotated<T>( pt , v, ax_[1]);
+            return du == 0 && dv == 0 ? pt + ax_[0] : pt;
             
         }
         /**
-- 
2.43.0


From b6ed3ce12cc55a3d68f0fac9715621b5de02e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 32/84] fix: derivatives of a 3D offset curve

They were not the derivatives of the value: the normal was normalized again
after differentiation and the terms of the product rule were mixed up.
---
 gbs/curveoffset.h | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/gbs/curveoffset.h b/gbs/curveoffset.h
index 9c2dc66..09973d7 100644
--- a/gbs/curveoffset.h
+++ b/gbs/curveoffset.h
@@ -196,31 +196,29 @@ namespace gbs
         case 1:
             {
                 auto crv_d1 = crv.value(u, 1);
-                auto crv_d2 = crv.value(u, 2);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-                auto off_d1 = off(u, 1);
-                return crv_d1 + normal_derivative * off_d1;
+                // normal n = w / r
+                auto w  = cross(direction_, crv_d1);
+                auto w1 = cross(direction_, crv.value(u, 2));
+                auto r  = norm(w);
+                auto r1 = (w * w1) / r;
+                auto n1 = (w1 - w * (r1 / r)) / r;
+                return crv_d1 + n1 * off(u, 0) + w / r * off(u, 1);
             }
             break;
         case 2:
             {
-                auto crv_d1 = crv.value(u, 1);
                 auto crv_d2 = crv.value(u, 2);
-                auto crv_d3 = crv.value(u, 3);
-                auto tangent = normalized(crv_d1);
-                auto normal = normalized(cross(direction_, tangent));
-                auto curvature = cross(crv_d1, crv_d2) / (std::pow(norm(crv_d1), 3));
-                auto normal_derivative = normalized(curvature * off(u, 0));
-
-                auto d2t = (crv_d2 - ( crv_d2 * tangent) * tangent) / norm(crv_d1);
-                auto d2n = cross(d2t, direction_) + cross(tangent, cross(crv_d2, direction_));
-                auto off_d1 = off(u, 1);
-                auto off_d2 = off(u, 2);
-
-                return crv_d2 + d2n * off_d1 + normal_derivative * off_d2;
+                // normal n = w / r
+                auto w  = cross(direction_, crv.value(u, 1));
+                auto w1 = cross(direction_, crv_d2);
+                auto w2 = cross(direction_, crv.value(u, 3));
+                auto r  = norm(w);
+                auto r1 = (w * w1) / r;
+                auto r2 = (w1 * w1 + w * w2 - r1 * r1) / r;
+                auto n1 = (w1 - w * (r1 / r)) / r;
+                auto n2 = (w2 - n1 * (T(2) * r1) - w * (r2 / r)) / r;
+
+                return crv_d2 + n2 * off(u, 0) + n1 * (T(2) * off(u, 1)) + w / r * off(u, 2);
             }
             break;
         default:
-- 
2.43.0


From 4ea39396d2226abae965ed65dbcf8bd80d13e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:24 +0000
Subject: [PATCH 33/84] fix: the transformation from a frame to another did not
 map the first on the second

It composed the two rotations instead of inverting the first, and moved the
origin with the second one only. The surface of revolution gets the same
matrix as before, from the frame it means: axis along x, radius along y.
---
 gbs/surfaceofrevolution.h | 4 ++--
 gbs/transformpoints.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gbs/surfaceofrevolution.h b/gbs/surfaceofrevolution.h
index 2934e80..7952932 100644
--- a/gbs/surfaceofrevolution.h
+++ b/gbs/surfaceofrevolution.h
@@ -31,8 +31,8 @@ namespace gbs
             M_ = build_trf_matrix<T>(
                 {{
                     {o,o,o},
-                    {o,i,o},
-                    {o,o,i}
+                    {i,o,o},
+                    {o,i,o}
                 }}
                     ,
                 ax
diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index a24845f..640814e 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -197,8 +197,8 @@ namespace gbs
         auto [Loc_from, P_from] = build_trf_loc_and_matrix(R_from);
 
         //Explicit types to force convertion
-        Matrix3<T> P          = P_to*P_from;
-        Vector3<T> Loc        = Loc_to - P_to * Loc_from;
+        Matrix3<T> P          = P_to*P_from.transpose();
+        Vector3<T> Loc        = Loc_to - P * Loc_from;
         return std::make_pair(Loc, P);
     }
 
-- 
2.43.0


From e191b391901809c7614f56747a5fd4abf16b0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:56 +0000
Subject: [PATCH 34/84] fix: blending wrote one value too many and adim left
 the last vector unscaled

---
 gbs/vecop.ixx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/vecop.ixx b/gbs/vecop.ixx
index c5d9396..390169f 100644
--- a/gbs/vecop.ixx
+++ b/gbs/vecop.ixx
@@ -255,7 +255,7 @@
     {
         std::transform(
             GBS_SEQ_EXEC
-            v.begin(), std::next(v.end(), -1),
+            v.begin(), v.end(),
             v.begin(),
             [](const auto &v_) {
                 return v_ / norm(v_);
@@ -305,7 +305,7 @@
     template <typename T,typename L,typename It_v,typename It_b,typename It_r>
     auto blend(const std::vector<T> &v,const std::vector<L> &b,std::vector<T> &r,It_v v_start,It_v v_end,It_b b_start,It_r r_start) -> void
     {
-        std::vector<T> v1(v_end-v_start+1);
+        std::vector<T> v1(v_end-v_start);
         std::transform(
             GBS_SEQ_EXEC
             v_start,v_end,
@@ -314,7 +314,7 @@
             [](const auto &v_,const auto &b_){return (1-b_)*v_;}
         );
 
-        std::vector<T> v2(v_end-v_start+1);
+        std::vector<T> v2(v_end-v_start);
         std::transform(
             GBS_SEQ_EXEC
             std::next(v_start),std::next(v_end),
-- 
2.43.0


From 0242942494866e2bef29783fbad084c530c9b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:56 +0000
Subject: [PATCH 35/84] fix: tangents at the ends of a point set by Bessel's
 method

---
 gbs/bscinterp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs/bscinterp.h b/gbs/bscinterp.h
index efd36b2..f94cf2b 100644
--- a/gbs/bscinterp.h
+++ b/gbs/bscinterp.h
@@ -80,8 +80,8 @@ auto build_3pt_tg_vec(const std::vector<std::array<T, dim>> &pts,const std::vect
         std::next(D.begin())
         );
 
-    D.front() = T(2.)*q.front() - *std::next(D.begin());
-    D.back()  = T(2.)*q.back()  - *std::next(D.end(),-1);
+    D.front() = T(2.)*d.front() - *std::next(D.begin());
+    D.back()  = T(2.)*d.back()  - *std::next(D.end(),-2);
 
     return D;
 }
@@ -114,7 +114,7 @@ auto build_3pt_tg_dir(const std::vector<std::array<T, dim>> &pts,const std::vect
         );
 
     D.front() = 2.*q.front() - *std::next(D.begin());
-    D.back()  = 2.*q.back()  - *std::next(D.end(),-1);
+    D.back()  = 2.*q.back()  - *std::next(D.end(),-2);
 
     adim(D);
 
-- 
2.43.0


From 565216c49a4a2da1ce946a2d1d492c9021ecd48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:56 +0000
Subject: [PATCH 36/84] fix: scaled_weights ignored the mean value asked for

---
 gbs/basisfunctions.ixx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/basisfunctions.ixx b/gbs/basisfunctions.ixx
index d859dfa..169f1d9 100644
--- a/gbs/basisfunctions.ixx
+++ b/gbs/basisfunctions.ixx
@@ -1069,7 +1069,7 @@
     auto scaled_weights(const std::vector<std::array<T, dim>> &poles, T mean_value = T(1.0)) -> std::vector<std::array<T, dim>>
     {
         std::vector<std::array<T, dim>> new_poles(poles);
-        scale_weights(new_poles);
+        scale_weights(new_poles, mean_value);
         return new_poles;
     }
     /**
-- 
2.43.0


From a279fab38844bbf700740683aba29dd61b52bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 37/84] fix: center of the sphere through three points

---
 inc/topology/baseGeom.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/inc/topology/baseGeom.h b/inc/topology/baseGeom.h
index c8c7927..a1d5bc3 100644
--- a/inc/topology/baseGeom.h
+++ b/inc/topology/baseGeom.h
@@ -156,24 +156,20 @@ namespace gbs
     template <std::floating_point T>
     std::array<T, 3> sphere_center(const std::array<T, 3>& a, const std::array<T, 3>& b, const std::array<T, 3>& c)
     {
-        // Calculate some intermediate values
-        T A = b[0] - a[0], B = b[1] - a[1], C = b[2] - a[2];
-        T D = c[0] - a[0], E = c[1] - a[1], F = c[2] - a[2];
-        T G = A * (E * F - B * F) + B * (D * F - C * F) + C * (B * D - E * D);
-        T H = (A * A + B * B + C * C) * (E * F - D * F) + (D * D + E * E + F * F) * (B * F - C * E) + (A * A + C * C + B * B) * (D * E - B * C);
+        // Center of the smallest sphere passing through the points, i.e. of their circumscribed circle
+        auto u = b - a;
+        auto v = c - a;
+        auto n = cross(u, v);
+        T n2 = sq_norm(n);
+        T u2 = sq_norm(u);
+        T v2 = sq_norm(v);
 
-        if (std::abs(G) < std::numeric_limits<T>::epsilon()) {
+        if (n2 <= std::numeric_limits<T>::epsilon() * std::numeric_limits<T>::epsilon() * u2 * v2) {
             // Points are collinear, no unique solution exists
             return {{std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::quiet_NaN()}};
         }
 
-        // Calculate the x, y, and z coordinates of the sphere's center
-        T center_x = H / (2 * G);
-        T center_y = ((A * A + B * B + C * C) * (D * F - E * F) + (D * D + E * E + F * F) * (C * A - D * B) + (A * A + C * C + B * B) * (E * D - C * B)) / (2 * G);
-        T center_z = ((A * A + B * B + C * C) * (B * E - C * D) + (D * D + E * E + F * F) * (A * C - B * B) + (A * A + C * C + B * B) * (B * D - A * E)) / (2 * G);
-
-        // Return the result as a 3D array
-        return {{center_x, center_y, center_z}};
+        return a + ( v2 * cross(n, u) + u2 * cross(v, n) ) / ( 2 * n2 );
     }
 
     template <typename T>
-- 
2.43.0


From 8c04bd3954624a8bbc5cc60d9350f790a040eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:08 +0000
Subject: [PATCH 38/84] fix: is_boundary was true for the inner vertices and
 false for those of the boundary

---
 inc/topology/halfEdgeMeshGeomTests.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGeomTests.h b/inc/topology/halfEdgeMeshGeomTests.h
index 96aedbb..1c36afa 100644
--- a/inc/topology/halfEdgeMeshGeomTests.h
+++ b/inc/topology/halfEdgeMeshGeomTests.h
@@ -274,11 +274,11 @@ namespace gbs
         {
             if(!current->opposite)
             {
-                return false;
+                return true;
             }
             current = current->opposite->previous;
         }while (current!=start);
 
-        return true;  
+        return false;  
     }
 } // namespace gbs
\ No newline at end of file
-- 
2.43.0


From f9fb0a9196fdbd783ecdc99fa44ba57727f46d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 39/84] fix: neighbours of a vertex of a half-edge mesh were
 the vertex itself

---
 inc/topology/halfEdgeMeshGetters.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 9b82670..363e2ff 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -419,32 +419,29 @@ namespace gbs
     auto getNeighboringVertices(const HalfEdgeVertex<T, dim> &h_v)
     {
         std::list< std::shared_ptr<HalfEdgeVertex<T, dim>> > neighbors;
-        auto start {h_v.edge};
+        auto start {h_v.edge}; // half-edges ending at h_v come from its neighbors
         auto current {start};
         bool open = false;
         do
         {
+            neighbors.push_front(current->previous->vertex);
             if(!current->opposite)
             {
                 open = true;
                 break;
             }
             current = current->opposite->previous;
-            neighbors.push_front(current->vertex);
         }while (current!=start);
 
         if(open)
         {
             current = start;
-            do
+            while (current->next->opposite)
             {
-                if(!current->next->opposite)
-                {
-                    break;
-                }
                 current = current->next->opposite;
-                neighbors.push_back(current->vertex);
-            }while (current!=start); 
+                neighbors.push_back(current->previous->vertex);
+            }
+            neighbors.push_back(current->next->vertex); // last one of the open fan
         }
 
         return neighbors;
-- 
2.43.0


From 50e52df10b72c343444b5e8b0980c2fa7b4a3f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 40/84] fix: triangulations kept references to the faces they
 had dropped

---
 inc/topology/halfEdgeMeshEditors.h | 11 +++++++++--
 inc/topology/tessellations.h       | 12 ++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index b9acf5e..730e128 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -276,6 +276,7 @@ namespace gbs
 
             auto new_face = make_shared_h_face<T, dim>(lst);
             assert(is_ccw(new_face));
+            h_e->vertex->edge = h_e; // the previous one may belong to a removed face
             h_f_lst.push_back(new_face);
         });
 
@@ -470,7 +471,10 @@ namespace gbs
                 it = eraseFace(faces_lst,it);
             }
         }
-        
+
+        // vertices may still refer to half-edges of the faces taken
+        repairVertexEdges<T, 2>(faces_lst);
+
         return external_faces;
     }
 
@@ -503,7 +507,10 @@ namespace gbs
                 it = eraseFace(faces_lst,it);
             }
         }
-        
+
+        // vertices may still refer to half-edges of the faces taken
+        repairVertexEdges<T, 2>(faces_lst);
+
         return internal_faces;
     }
 
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 470588b..6a809eb 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -272,6 +272,7 @@ namespace bw_detail
         {
             remove_faces(faces_lst, vtx);
         }
+        repairVertexEdges<T, 2>(faces_lst);
 
         return faces_lst;
     }
@@ -433,6 +434,16 @@ namespace bw_detail
         faces_lst.remove_if([&interior](const auto &f) {
             return interior.find(f.get()) == interior.end();
         });
+        // Nothing left may refer to a dropped face.
+        for (const auto &f : faces_lst)
+        {
+            for (const auto &ee : getTriangleEdges(f))
+            {
+                if (ee->opposite && !interior.count(ee->opposite->face.get()))
+                    ee->opposite = nullptr;
+            }
+        }
+        repairVertexEdges<T, 2>(faces_lst);
 
         return faces_lst;
     }
@@ -604,6 +615,7 @@ namespace bw_detail
         {
             remove_faces(faces_lst, vtx);
         }
+        repairVertexEdges<T, 2>(faces_lst);
         return faces_lst;
     }
 /**
-- 
2.43.0


From 9a4c89c7518cadeb82274fd1d32f1baa9105dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:08 +0000
Subject: [PATCH 41/84] fix: splitting an edge left its second half unlinked

---
 inc/topology/halfEdgeMeshEditors.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/halfEdgeMeshEditors.h b/inc/topology/halfEdgeMeshEditors.h
index 730e128..ea23c98 100644
--- a/inc/topology/halfEdgeMeshEditors.h
+++ b/inc/topology/halfEdgeMeshEditors.h
@@ -568,7 +568,6 @@ namespace gbs
         //     new_pt = ( a +b + c + d) / static_cast<T>(4);
         // }
         auto new_vertex = make_shared_h_vertex( new_pt );
-        new_vertex->edge = he;
         auto new_he1    = make_shared_h_edge(new_vertex, hf);
         hf->edge=new_he1;
         chain_edges(new_he1,he);
@@ -599,6 +598,7 @@ namespace gbs
             auto new_he2_opp    = make_shared_h_edge(new_vertex);
             auto new_he3_opp    = make_shared_h_edge(he_prev->vertex);
             link_edges(new_he1_opp, new_he2_opp);
+            link_edges(new_he2, new_he3_opp);
             auto new_hf1_opp_ed_lst = {new_he2_opp,new_he3_opp, he_opp_next};
             auto new_hf1_opp = make_shared_h_face<T,dim>(new_hf1_opp_ed_lst);
 
-- 
2.43.0


From 2cecffd7881c24d7ee55c0d3503205d1560dbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:58 +0000
Subject: [PATCH 42/84] fix: refining a triangulation flipped no edge, smoothed
 into folds and followed null vertices

---
 inc/topology/tessellations.h | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 6a809eb..03ac426 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -552,6 +552,12 @@ namespace bw_detail
 
             auto [vtx, deleted_faces_list, new_faces_list] = boyerWatson(faces_lst, d_G_UV.second, tol);
 
+            if (!vtx) // the point can't be inserted, refine elsewhere
+            {
+                face_quality[*it] = T{};
+                continue;
+            }
+
             for (const auto &face : deleted_faces_list)
             {
                 face_quality.erase(face);
@@ -562,15 +568,36 @@ namespace bw_detail
                 update_face_quality(face);
             }
 
-            // Smooth mesh
+            // Smooth mesh, provided that it stays valid
+            const auto coords = vtx->coords;
             laplacian_smoothing(faces_lst, *vtx);
+            const auto attached_faces = getFacesAttachedToVertex(vtx);
+            if (!are_face_ccw(attached_faces))
+            {
+                vtx->coords = coords;
+            }
+            for (const auto &face : attached_faces)
+            {
+                update_face_quality(face);
+            }
             // Restore Delaunay condition
             auto edges = getEdgesMap<T,dim>(faces_lst);
             for(auto & [ed,i] : edges)
             {
-                if(ed->opposite && !is_locally_delaunay(ed))
+                if(ed->opposite && is_locally_delaunay(ed) > T{})
                 {
-                    flip(ed->face,ed->opposite->face);
+                    const auto &a = ed->previous->vertex->coords;
+                    const auto &b = ed->vertex->coords;
+                    const auto &c = ed->next->vertex->coords;
+                    const auto &d = ed->opposite->next->vertex->coords;
+                    if (orient2d(a, d, c) > T{} && orient2d(d, b, c) > T{})
+                    {
+                        auto f1 = ed->face;
+                        auto f2 = ed->opposite->face;
+                        flip(f1, f2);
+                        update_face_quality(f1);
+                        update_face_quality(f2);
+                    }
                 }
             }
         }
-- 
2.43.0


From ec1fdfbb7f683809a7d1d18f9a34f33dc04cf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 43/84] fix: recovering an edge of a triangulation refused to
 flip the convex quadrilaterals

---
 inc/topology/edgeRecovery.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/edgeRecovery.h b/inc/topology/edgeRecovery.h
index 9411b36..596ec69 100644
--- a/inc/topology/edgeRecovery.h
+++ b/inc/topology/edgeRecovery.h
@@ -144,7 +144,7 @@ namespace gbs
                 const auto& B = v_b->coords;
                 const auto& C = v_apex1->coords;
                 const auto& D = v_apex2->coords;
-                if (orient_2d(C, B, D) <= tol || orient_2d(D, A, C) <= tol)
+                if (orient_2d(C, D, B) <= tol || orient_2d(D, C, A) <= tol)
                 {
                     ++it;
                     continue; // non-convex or degenerate, defer
-- 
2.43.0


From a2e34699e5d7c317c50043481a1439bf05f0c8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:13 +0000
Subject: [PATCH 44/84] fix: triangulations of points missed faces along their
 convex hull

---
 inc/topology/tessellations.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 03ac426..01df992 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -65,6 +65,13 @@ namespace gbs
 
 namespace bw_detail
 {
+    /// Offset of the encompassing mesh (percents of the extent of the points).
+    /// Its vertices have to be far from the points, otherwise they enter the
+    /// circumcircles of the flat triangles along the convex hull, which are then
+    /// missing once the faces attached to them are removed.
+    template <std::floating_point T>
+    inline constexpr T encompassing_pc_offset = static_cast<T>(1e6);
+
     /// The three vertex coordinates of a triangular face in CCW (face) order.
     template <std::floating_point T>
     inline std::array<std::array<T, 2>, 3>
@@ -259,7 +266,7 @@ namespace bw_detail
     template < std::floating_point T>
     auto delaunay2DBoyerWatson(const auto &coords, T tol)
     {
-        auto faces_lst = getEncompassingMesh(coords);
+        auto faces_lst = getEncompassingMesh(coords, bw_detail::encompassing_pc_offset<T>);
         auto vertices = getVerticesVectorFromFaces<T,2>(faces_lst);
         // insert points
         for(const auto &xy : coords)
@@ -358,7 +365,7 @@ namespace bw_detail
         for (const auto &r : rings)
             all_coords.insert(all_coords.end(), r.begin(), r.end());
 
-        auto faces_lst = getEncompassingMesh(all_coords);
+        auto faces_lst = getEncompassingMesh(all_coords, bw_detail::encompassing_pc_offset<T>);
         auto super_vertices = getVerticesVectorFromFaces<T, 2>(faces_lst);
 
         std::vector<std::vector<std::shared_ptr<HalfEdgeVertex<T, 2>>>> ring_vtx(rings.size());
@@ -629,7 +636,7 @@ namespace bw_detail
     {
     
         auto coords = meshSurfaceBoundary(srf, nu ,nv, deviation);
-        auto faces_lst = getEncompassingMesh(coords);
+        auto faces_lst = getEncompassingMesh(coords, bw_detail::encompassing_pc_offset<T>);
         auto vertices = getVerticesVectorFromFaces<T,2>(faces_lst);
         // insert boundary points
         for(const auto &xy : coords)
-- 
2.43.0


From 8b21f42a99229f857173eda3328fe8e732c83f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:28 +0000
Subject: [PATCH 45/84] fix: the encompassing mesh was not centered on its
 points

---
 inc/topology/halfEdgeMeshGetters.h | 6 ++++--
 inc/topology/tessellations.h       | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 363e2ff..287a5de 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -627,8 +627,10 @@ namespace gbs
 
         // Calculate the percentage offsets for the encompassing mesh
         auto pc = pc_offset / 100;
-        Xmax = Xmax + pc * (Xmax - Xmin);
-        Xmin = Xmin - pc * (Xmax - Xmin);
+        // same offset in both directions, for the mesh to remain away from elongated or aligned points
+        auto offset = pc * std::max(Xmax[0] - Xmin[0], Xmax[1] - Xmin[1]) * std::array<T, 2>{T(1), T(1)};
+        Xmax = Xmax + offset;
+        Xmin = Xmin - offset;
 
         // Create half-edges for the encompassing mesh
         auto he1 = make_shared_h_edge<T, 2>({Xmax[0], Xmin[1]});
diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 01df992..a9029a4 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -70,7 +70,7 @@ namespace bw_detail
     /// circumcircles of the flat triangles along the convex hull, which are then
     /// missing once the faces attached to them are removed.
     template <std::floating_point T>
-    inline constexpr T encompassing_pc_offset = static_cast<T>(1e6);
+    inline constexpr T encompassing_pc_offset = static_cast<T>(1e8);
 
     /// The three vertex coordinates of a triangular face in CCW (face) order.
     template <std::floating_point T>
-- 
2.43.0


From a5fe98f3982c160fbf2a33592a5c66acc7a8000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 46/84] fix: refining a triangulation inserted one more point
 once the criterion was met

---
 inc/topology/tessellations.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index a9029a4..9e57742 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -554,6 +554,10 @@ namespace bw_detail
 
             auto d_G_UV = dist_mesh(*it);
             crit = d_G_UV.first;
+            if (crit < crit_max)
+            {
+                break; // inserting one more point could spoil it
+            }
 
             // std::cout << crit << " inserting: " << d_G_UV.second[0] << " " << d_G_UV.second[1] << std::endl;
 
-- 
2.43.0


From da1103452f83fae22be50437353e904867dca7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:57 +0000
Subject: [PATCH 47/84] fix: the boundary of the mesh of a surface ended with
 two points at the origin

---
 inc/topology/tessellations.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index 9e57742..cde0b9a 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -51,7 +51,7 @@ namespace gbs
         std::reverse(begin(v1), end(v1));
         auto v2 = deviation_based_v_params(srf, v1_, v2_, u2_, nv, deviation);
 
-        auto n = u1.size() + u2.size() + v1.size() + v2.size();
+        auto n = u1.size() + u2.size() + v1.size() + v2.size() - 2; // v sides are without their first point
         std::vector<std::array<T, 2>> coords(n);
 
         auto coords_begin = coords.begin();
-- 
2.43.0


From 322c36396a6abb5331d9c9a4149b46d58ff64574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 48/84] fix: deviation based parameters of a surface could end
 beside its bounds

---
 gbs/bssanalysis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssanalysis.h b/gbs/bssanalysis.h
index 9e7e583..3870815 100644
--- a/gbs/bssanalysis.h
+++ b/gbs/bssanalysis.h
@@ -78,7 +78,7 @@ namespace gbs
         // Create initial list of parameters
         std::list<T> u_lst;
         for (size_t i{}; i < n; i++)
-            u_lst.push_back(u1 + (u2 - u1) * i / (n - 1.0));
+            u_lst.push_back(i + 1 < n ? u1 + (u2 - u1) * i / (n - 1.0) : u2);
 
         // Refine the list recursively if the maximum number of points is not reached
         if (u_lst.size() < n_max_pts)
@@ -146,7 +146,7 @@ namespace gbs
         // Create initial list of parameters
         std::list<T> v_lst;
         for (size_t i{}; i < n; i++)
-            v_lst.push_back(v1 + (v2 - v1) * i / (n - 1.0));
+            v_lst.push_back(i + 1 < n ? v1 + (v2 - v1) * i / (n - 1.0) : v2);
 
         // Refine the list recursively if the maximum number of points is not reached
         if (v_lst.size() < n_max_pts)
-- 
2.43.0


From 9934a42ae6b529f7bf72e50f322a7e3ffa96f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 49/84] fix: refining the mesh of a surface inserted one more
 point once the criterion was met

---
 inc/topology/tessellations.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/inc/topology/tessellations.h b/inc/topology/tessellations.h
index cde0b9a..913058d 100644
--- a/inc/topology/tessellations.h
+++ b/inc/topology/tessellations.h
@@ -506,9 +506,20 @@ namespace bw_detail
 
             auto d_G_UV = dist_mesh_srf(*it);
             crit = d_G_UV.first;
+            if (crit <= crit_max)
+            {
+                break; // inserting one more point could spoil it
+            }
 
             auto [vtx, deleted_faces_list, new_faces_list] = boyerWatson(faces_lst, d_G_UV.second, tol);
 
+            if (!vtx) // the point can't be inserted, refine elsewhere
+            {
+                crit = std::numeric_limits<T>::max();
+                face_quality[*it] = T{};
+                continue;
+            }
+
             for (const auto &face : deleted_faces_list)
             {
                 face_quality.erase(face);
-- 
2.43.0


From f54e92e702385b04fec46a6c5b42eff44c60cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 50/84] fix: orientation of a small loop of edges was lost in
 rounding far from the origin

---
 inc/topology/halfEdgeMeshGeomTests.h | 42 ++++++++++------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGeomTests.h b/inc/topology/halfEdgeMeshGeomTests.h
index 1c36afa..1a407fc 100644
--- a/inc/topology/halfEdgeMeshGeomTests.h
+++ b/inc/topology/halfEdgeMeshGeomTests.h
@@ -176,34 +176,22 @@ namespace gbs
     template <std::floating_point T, typename HalfEdgeContainer>
     bool are_edges_2d_ccw(const HalfEdgeContainer &edges_lst)
     {
-        struct EdgeCrossProductSum {
-            T operator()(T t, const std::shared_ptr<HalfEdge<T, 2>>& he) const {
-                auto [x2, y2] = he->vertex->coords;
-                auto [x1, y1] = he->previous->vertex->coords;
-                return t + (x2 - x1) * (y2 + y1);
-            }
-            T operator()(T t1, T t2) const {
-                return t1+t2;
-            }
-            T operator()(const std::shared_ptr<HalfEdge<T, 2>>& he, T t) const {
-                auto [x2, y2] = he->vertex->coords;
-                auto [x1, y1] = he->previous->vertex->coords;
-                return t + (x2 - x1) * (y2 + y1);
-            }
-            T operator()(const std::shared_ptr<HalfEdge<T, 2>>& he1, const std::shared_ptr<HalfEdge<T, 2>>& he2) const {
-                auto [x21, y21] = he1->vertex->coords;
-                auto [x11, y11] = he1->previous->vertex->coords;
-                auto [x22, y22] = he2->vertex->coords;
-                auto [x12, y12] = he2->previous->vertex->coords;
-                return (x22 - x12) * (y22 + y12) + (x21 - x11) * (y21 + y11);
+        // Sum of edge cross-products, relative to a vertex of the loop: the coordinates
+        // themselves would drown the area of a small loop far from the origin
+        T sum{};
+        T y0{};
+        bool first{true};
+        for (const auto &he : edges_lst)
+        {
+            auto [x2, y2] = he->vertex->coords;
+            auto [x1, y1] = he->previous->vertex->coords;
+            if (first)
+            {
+                y0 = y1;
+                first = false;
             }
-        };
-        // Calculate the sum of edge cross-products, considering the vertices' coordinates
-        auto sum = std::reduce(
-            edges_lst.begin(), edges_lst.end(),
-            T{},
-            EdgeCrossProductSum()
-        );
+            sum += (x2 - x1) * ((y2 - y0) + (y1 - y0));
+        }
 
         // Check if the sum is negative, indicating that the edges are in counter-clockwise order
         return sum < 0.;
-- 
2.43.0


From 3862c130ed859fad482eb4fc5595d7ec180b37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 51/84] fix: sections shorter than half a mesh step got a
 single point

---
 gbs-mesh/tfi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index e429696..5f1493d 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -185,7 +185,7 @@ namespace gbs
                     }
                 );
                 l /= crv_lst.size();
-                auto n = static_cast<size_t>( round(l / dm)) + 1; 
+                auto n = std::max<size_t>(1, static_cast<size_t>( round(l / dm))) + 1; 
                 return n;
             }
         );
@@ -244,7 +244,7 @@ namespace gbs
                 l += length(crv, u1, u2);
             }
             l /= crv_lst.size();
-            nui[i_ui] = static_cast<size_t>( round(l / dm)) + 1; 
+            nui[i_ui] = std::max<size_t>(1, static_cast<size_t>( round(l / dm))) + 1; 
         }
         return nui;
     }
-- 
2.43.0


From fc7b76416cda6a7c4f3a4ace0e5f64640745a80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 52/84] fix: transfinite mesh of a surface was wrong unless its
 parameters start at 0

---
 gbs-mesh/tfi.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gbs-mesh/tfi.h b/gbs-mesh/tfi.h
index 5f1493d..c56a7b7 100644
--- a/gbs-mesh/tfi.h
+++ b/gbs-mesh/tfi.h
@@ -792,11 +792,13 @@ namespace gbs
         for( auto eth : eth_j)
         {
             auto p_uv_crv = std::make_shared<BSCurve<T,2>>( build_segment(point<T,2>{ksi_i.front(), eth}, point<T,2>{ksi_i.back(), eth}) );
+            p_uv_crv->changeBounds(ksi_i.front(), ksi_i.back());
             iso_eth.push_back( std::make_shared<CurveOnSurface<T,dim>>(p_uv_crv, p_srf) );
         }
         for( auto ksi : ksi_i)
         {
             auto p_uv_crv = std::make_shared<BSCurve<T,2>>( build_segment(point<T,2>{ksi,eth_j.front()},point<T,2>{ksi,eth_j.back()}) );
+            p_uv_crv->changeBounds(eth_j.front(), eth_j.back());
             iso_ksi.push_back( std::make_shared<CurveOnSurface<T,dim>>(p_uv_crv, p_srf) );
         }
         return tfi_mesh_2d<T, dim, P, Q, slope_ctrl>(iso_ksi, iso_eth, ksi_i, eth_j, n_ksi, n_eth, p_srf);
-- 
2.43.0


From 4332a2f63cf01e5b748a574963153c012aa59330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 53/84] fix: closing a wire did not compile

---
 inc/topology/wire.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index 8843379..1518196 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -230,9 +230,13 @@ namespace gbs
     template <std::floating_point T, size_t dim>
     void Wire<T, dim>::close()
     {
+        if (isClosed())
+        {
+            return;
+        }
         addEdge(Edge<T, dim>{
-            end()->vertex2(),
-            begin()->vertex1()});
+            back()->vertex2(),
+            front()->vertex1()});
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From 1d1df708e608f285e078f81f4253bfdeb7461b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 54/84] fix: edges accepted vertices off their curve

---
 inc/topology/edge.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/topology/edge.h b/inc/topology/edge.h
index 17ff152..f515931 100644
--- a/inc/topology/edge.h
+++ b/inc/topology/edge.h
@@ -138,9 +138,9 @@ namespace gbs
     template <typename T, size_t dim>
     bool Edge<T, dim>::setVertex1(const std::shared_ptr<Vertex<T, dim>> &vtx)
     {
-        auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
+        auto u = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>)[0];
 
-        if (d > this->approximationTolerance())
+        if (distance((*m_curve)(u), vtx->point()) > this->approximationTolerance())
         {
             return false;
         }
@@ -154,9 +154,9 @@ namespace gbs
     template <typename T, size_t dim>
     bool Edge<T, dim>::setVertex2(const std::shared_ptr<Vertex<T, dim>> &vtx)
     {
-        auto [u, d] = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>);
+        auto u = extrema_curve_point(*m_curve, vtx->point(), knot_eps<T>)[0];
 
-        if (d > this->approximationTolerance())
+        if (distance((*m_curve)(u), vtx->point()) > this->approximationTolerance())
         {
             return false;
         }
-- 
2.43.0


From 4b5cfd0b88d324c8082b8b6ace807e7b22822408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 55/84] fix: wires stayed open when their last edge shared a
 vertex at one end only

---
 inc/topology/wire.h | 38 +++++++++++++-------------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/inc/topology/wire.h b/inc/topology/wire.h
index 1518196..073aaa9 100644
--- a/inc/topology/wire.h
+++ b/inc/topology/wire.h
@@ -134,37 +134,25 @@ namespace gbs
             {
                 return false;
             }
-            if (m_edges.front()->vertex1() == ed->vertex2())
+            auto in_contact = [this](const auto &vtx, const auto &ed_vtx)
             {
-                m_edges.push_front(ed);
-            }
-            else if (m_edges.back()->vertex2() == ed->vertex1())
+                return vtx == ed_vtx || distance(vtx->point(), ed_vtx->point()) < this->approximationTolerance();
+            };
+            auto vtx1 = vertex1();
+            auto vtx2 = vertex2();
+            bool at_back = in_contact(vtx2, ed->vertex1()) && (vtx2 == ed->vertex1() || ed->setVertex1(vtx2));
+            bool at_front = in_contact(vtx1, ed->vertex2()) && (vtx1 == ed->vertex2() || ed->setVertex2(vtx1));
+            if (at_back)
             {
                 m_edges.push_back(ed);
             }
+            else if (at_front)
+            {
+                m_edges.push_front(ed);
+            }
             else
             {
-                bool added = false;
-                if (distance(
-                        m_edges.back()->vertex2()->point(),
-                        ed->vertex1()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex1(m_edges.back()->vertex2());
-                    m_edges.push_back(ed);
-                    added = true;
-                }
-                if (distance(
-                        m_edges.front()->vertex1()->point(),
-                        ed->vertex2()->point()) < this->approximationTolerance())
-                {
-                    ed->setVertex2(m_edges.front()->vertex1());
-                    if (!added)
-                    {
-                        m_edges.push_front(ed);
-                        added = true;
-                    }
-                }
-                return added;
+                return false;
             }
         }
 
-- 
2.43.0


From 1cdf6e4f775bb043d2673567f483fe822fbed5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 56/84] fix: explode<T> did not compile for the shape types

---
 gbs-occt/brepbuilders.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gbs-occt/brepbuilders.h b/gbs-occt/brepbuilders.h
index a03c04d..ac054ab 100644
--- a/gbs-occt/brepbuilders.h
+++ b/gbs-occt/brepbuilders.h
@@ -144,7 +144,12 @@ namespace occt_utils
     template <typename T>
     auto explode(const TopoDS_Shape &sh, std::list<T> &sh_lst) -> void
     {
-        explode(sh,sh_lst,get_type<T>());
+        for(const auto &sub_sh : explode(sh,get_type<T>()))
+        {
+            T t;
+            static_cast<TopoDS_Shape &>(t) = sub_sh; // TopoDS types only differ by their shape type
+            sh_lst.push_back(t);
+        }
     }
 
     template <typename T>
-- 
2.43.0


From 05e91cd9d3670d885e0dde64eec575f9bf6e5bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 57/84] fix: lengths were integrated across the knots and the
 edges

---
 gbs-occt/measure.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gbs-occt/measure.cpp b/gbs-occt/measure.cpp
index 86ff070..d816196 100644
--- a/gbs-occt/measure.cpp
+++ b/gbs-occt/measure.cpp
@@ -5,7 +5,7 @@
 #include <TopAbs_ShapeEnum.hxx>
 #include <BRepAdaptor_Curve.hxx>
 #include <BRepAdaptor_CompCurve.hxx>
-#include <CPnts_AbscissaPoint.hxx>
+#include <GCPnts_AbscissaPoint.hxx>
 #include <TopoDS.hxx>
 #include <gp_Pnt.hxx>
 namespace occt_utils
@@ -21,10 +21,10 @@ namespace occt_utils
         switch (sh.ShapeType())
         {
         case TopAbs_EDGE:
-            return CPnts_AbscissaPoint::Length(BRepAdaptor_Curve(TopoDS::Edge(sh)));
+            return GCPnts_AbscissaPoint::Length(BRepAdaptor_Curve(TopoDS::Edge(sh)));
             break;
         case TopAbs_WIRE:
-            return CPnts_AbscissaPoint::Length(BRepAdaptor_CompCurve(TopoDS::Wire(sh)));
+            return GCPnts_AbscissaPoint::Length(BRepAdaptor_CompCurve(TopoDS::Wire(sh)));
             break;
         default:
             throw Standard_Failure("Not implemented.");
@@ -35,11 +35,11 @@ namespace occt_utils
 
     auto length(const Adaptor3d_Curve &c) -> double
     {
-        return CPnts_AbscissaPoint::Length(c);
+        return GCPnts_AbscissaPoint::Length(c);
     }
     auto length(const Adaptor2d_Curve2d &c) -> double
     {
-        return CPnts_AbscissaPoint::Length(c);
+        return GCPnts_AbscissaPoint::Length(c);
     }
     auto cg_lineical(const TopoDS_Shape &sh) -> gp_Pnt
     {
-- 
2.43.0


From 246408e81f3bde79f4d0c80581e4b45ec76601e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 58/84] fix: nearest points ignored the ends of the curves, and
 were read from an empty list

---
 gbs-occt/intersections.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/gbs-occt/intersections.cpp b/gbs-occt/intersections.cpp
index 59e65b3..32212fc 100644
--- a/gbs-occt/intersections.cpp
+++ b/gbs-occt/intersections.cpp
@@ -3,6 +3,8 @@
 #include <Extrema_ExtPC.hxx>
 #include <Adaptor3d_Curve.hxx>
 #include <Adaptor3d_Surface.hxx>
+#include <Precision.hxx>
+#include <Standard_Failure.hxx>
 #include <algorithm> 
 namespace occt_utils
 {
@@ -25,6 +27,10 @@ namespace occt_utils
     {
         
         auto lst = etrema_CS(C,S,tol);
+        if(lst.empty())
+        {
+            throw Standard_Failure("No extremum found.");
+        }
         auto compare = [&](const res_CS &res1,const res_CS &res2)
         {
             auto d1 = res1.first.Value().Distance(res1.second.Value());
@@ -51,6 +57,18 @@ namespace occt_utils
     auto nearest_PC(const gp_Pnt &pt, const Adaptor3d_Curve & C,double tol)  -> res_PC
     {
         auto lst = etrema_PC(pt,C,tol);
+        // extrema are orthogonal projections, a bounded curve can be nearer at one of its ends
+        for(auto u : {C.FirstParameter(), C.LastParameter()})
+        {
+            if(!Precision::IsInfinite(u))
+            {
+                lst.push_back(res_PC{pt, Extrema_POnCurv(u, C.Value(u))});
+            }
+        }
+        if(lst.empty())
+        {
+            throw Standard_Failure("No extremum found.");
+        }
         auto compare = [&](const res_PC &res1,const res_PC &res2)
         {
             auto d1 = res1.first.Distance(res1.second.Value());
-- 
2.43.0


From 352abfd981e9765db84bb2cf8acca2bccb328dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:21 +0000
Subject: [PATCH 59/84] fix: to_shell returned an empty shape, the sewing was
 not performed

---
 gbs-occt/brepbuilders.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gbs-occt/brepbuilders.h b/gbs-occt/brepbuilders.h
index ac054ab..cc19c8e 100644
--- a/gbs-occt/brepbuilders.h
+++ b/gbs-occt/brepbuilders.h
@@ -67,6 +67,7 @@ namespace occt_utils
     {
         BRepBuilderAPI_Sewing Sewing(tol);
         std::for_each(_First,_Last,[&](const auto &sh){Sewing.Add(sh);});
+        Sewing.Perform();
         return Sewing.SewedShape();
     }
 
-- 
2.43.0


From 036f3cdec4e57caa20c4cc6551caea4ab9e926d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 60/84] fix: actors of control polygons and nets did not
 compile

---
 gbs-render/vtkSurfaceRender.h |  2 +-
 gbs-render/vtkcurvesrender.h  | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/gbs-render/vtkSurfaceRender.h b/gbs-render/vtkSurfaceRender.h
index 8be0df9..50ad1af 100644
--- a/gbs-render/vtkSurfaceRender.h
+++ b/gbs-render/vtkSurfaceRender.h
@@ -87,7 +87,7 @@ namespace gbs
         auto srf_actor = vtkSmartPointer<vtkAssembly>::New();
 
         double Peacock[3] = { 51./255.,  161./255.,  201./255.};
-        double Red[3] = { 1.,  0.,  0.};
+        std::array<double,3> Red{ 1.,  0.,  0.};
         double Black[3] = { 0.,  0.,  0.};
 
         auto srf_msh_actor = make_actor(points_msh, pts_tri, Peacock);
diff --git a/gbs-render/vtkcurvesrender.h b/gbs-render/vtkcurvesrender.h
index 9bed0a7..d8a86f4 100644
--- a/gbs-render/vtkcurvesrender.h
+++ b/gbs-render/vtkcurvesrender.h
@@ -153,10 +153,11 @@ namespace gbs
     {
         auto lines = vtkSmartPointer<vtkAssembly>::New();
         auto nV = points_msh.size() / nU;
+        std::array<double,3> color{col[0],col[1],col[2]};
         for (auto iv = 0; iv < nU; iv++)
         {
             auto pt_iso = extract_V(iv, points_msh, nU);
-            auto actor = make_polyline(pt_iso,col);
+            auto actor = make_polyline(pt_iso,color);
             actor->GetProperty()->SetLineWidth(lineWidth);
             actor->GetProperty()->SetOpacity(opacity);
             lines->AddPart(actor);
@@ -164,7 +165,7 @@ namespace gbs
         for (auto iu = 0; iu < nV; iu++)
         {
             auto poles_iso = extract_U(iu, points_msh, nU);
-            auto actor = make_polyline(poles_iso, col);
+            auto actor = make_polyline(poles_iso, color);
             actor->GetProperty()->SetLineWidth(lineWidth);
             actor->GetProperty()->SetOpacity(opacity);
             lines->AddPart(actor);
@@ -324,9 +325,9 @@ namespace gbs
     auto make_actor(const points_vector<T,dim> &pts,const points_vector<T,dim> &poles) -> vtkSmartPointer<vtkAssembly>
     {
  
-        double Tomato[3] = {255./255.,   99./255.,   71./255};
-        double Black[3] = {0.,0.,0.} ;
-        double Red[3] = {1.,0.,0.} ;
+        std::array<double,3> Tomato{255./255.,   99./255.,   71./255};
+        std::array<double,3> Black{0.,0.,0.} ;
+        std::array<double,3> Red{1.,0.,0.} ;
         auto actor_crv = make_polyline(pts,Tomato);
         actor_crv->GetProperty()->SetLineWidth(3.f);
         // actor_crv->SetPickable(false);
-- 
2.43.0


From d93f44a42bc45a5e9366c181300db4f8023e4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 61/84] fix: scale_parts ignored its factor

---
 gbs-render/vtkcurvesrender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs-render/vtkcurvesrender.cpp b/gbs-render/vtkcurvesrender.cpp
index ea4af64..86b4e1f 100644
--- a/gbs-render/vtkcurvesrender.cpp
+++ b/gbs-render/vtkcurvesrender.cpp
@@ -153,7 +153,7 @@ namespace gbs
         {
             auto actor_ = vtkActor::SafeDownCast(it->GetCurrentObject());
             if (actor_)
-                actor_->SetScale(0.05);
+                actor_->SetScale(s);
         }
 
         col->Delete();
-- 
2.43.0


From ab8092eded18fe2dd9083a1f7aad8f26c302de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:18 +0000
Subject: [PATCH 62/84] fix: the array of default values of a structured grid
 was empty

---
 gbs-render/vtkgridrender.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs-render/vtkgridrender.h b/gbs-render/vtkgridrender.h
index ceb8172..e270c89 100644
--- a/gbs-render/vtkgridrender.h
+++ b/gbs-render/vtkgridrender.h
@@ -20,7 +20,7 @@ namespace gbs
         int dims[3];
         structuredGrid->GetDimensions(dims);
         vtkIdType n = dims[0] * dims[1] * dims[2];
-        doubleArray->Allocate(n);
+        doubleArray->SetNumberOfTuples(n);
         doubleArray->FillValue(default_value);
 
         structuredGrid->GetPointData()->AddArray(doubleArray);
-- 
2.43.0


From efc6727916bfd59de13803c12577b546f5747736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 63/84] fix: control polygons of rational curves were drawn
 with homogeneous poles

---
 gbs-render/vtkcurvesrender.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gbs-render/vtkcurvesrender.h b/gbs-render/vtkcurvesrender.h
index d8a86f4..d67ebda 100644
--- a/gbs-render/vtkcurvesrender.h
+++ b/gbs-render/vtkcurvesrender.h
@@ -414,7 +414,14 @@ namespace gbs
         crv_actor->AddPart(actor_crv);
         if(cd.poles_on)
         {
-            crv_actor->AddPart(make_ctrl_polygon(cd.c->poles(),col_ctrl,col_poles));
+            if constexpr (rational)
+            {
+                crv_actor->AddPart(make_ctrl_polygon(poles_projected<T,dim>(cd.c->poles()),col_ctrl,col_poles));
+            }
+            else
+            {
+                crv_actor->AddPart(make_ctrl_polygon(cd.c->poles(),col_ctrl,col_poles));
+            }
         }
         if(cd.show_curvature)
         {
-- 
2.43.0


From 3a48475ba0561de7cff5bf7b6d65b86b880fa8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 64/84] fix: open boundaries were drawn with a wrong or
 undefined first vertex

---
 inc/topology/halfEdgeMeshRender.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/inc/topology/halfEdgeMeshRender.h b/inc/topology/halfEdgeMeshRender.h
index 482ad20..a7c301c 100644
--- a/inc/topology/halfEdgeMeshRender.h
+++ b/inc/topology/halfEdgeMeshRender.h
@@ -255,12 +255,22 @@ namespace gbs
     requires (dim < 4)
     auto make_polydata_from_edges_loop(const auto &edges_lst)
     {
+        // vertices in their order along the line, the first edge starts from its previous' one
+        std::vector<std::shared_ptr<HalfEdgeVertex<T, dim>>> line_vertices;
+        if (edges_lst.front()->previous)
+        {
+            line_vertices.push_back(edges_lst.front()->previous->vertex);
+        }
+        for (const auto &e : edges_lst)
+        {
+            line_vertices.push_back(e->vertex);
+        }
+
         // build vertices map
         std::map<std::shared_ptr<HalfEdgeVertex<T, dim>>, size_t> vertices_map;
         size_t index{};
-        for (const auto &e : edges_lst)
+        for (const auto &vtx : line_vertices)
         {
-            auto vtx = e->vertex;
             if (vertices_map.find(vtx) == vertices_map.end())
             {
                 vertices_map[vtx] = index++;
@@ -272,16 +282,11 @@ namespace gbs
 
         // make polyline
         vtkNew<vtkPolyLine> polyLine;
-        auto n = edges_lst.size();
-        polyLine->GetPointIds()->SetNumberOfIds(n + 1);
+        polyLine->GetPointIds()->SetNumberOfIds(line_vertices.size());
         size_t i{};
-        if (edges_lst.front()->previous)
-        {
-            polyLine->GetPointIds()->SetId(i++, vertices_map[edges_lst.front()->previous->vertex]);
-        }
-        for (const auto &e : edges_lst)
+        for (const auto &vtx : line_vertices)
         {
-            polyLine->GetPointIds()->SetId(i++, vertices_map[e->vertex]);
+            polyLine->GetPointIds()->SetId(i++, vertices_map.at(vtx));
         }
 
         // Store cells
-- 
2.43.0


From 7c18c75be535d1d7d3fdb121c6e535bd699bf83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:19 +0000
Subject: [PATCH 65/84] fix: BSSurfaceGeneral::pole(i, j) took i as the V index
 and j as the U index

---
 gbs/bssurf.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index dab6849..169c229 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -672,12 +672,11 @@ namespace gbs
         auto pole(size_t i, size_t j) -> point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
-            return m_poles[id];
+            return m_poles[i + j * n];
         }
 
         /**
@@ -691,12 +690,11 @@ namespace gbs
         auto pole(size_t i, size_t j) const -> const point<T, dim + rational> &
         {
             auto n = nPolesU();
-            auto id = j + i * n;
-            if(id>=m_poles.size())
+            if(i>=n || j>=nPolesV())
             {
                 throw std::out_of_range("BSSurfaceGeneral::pole(size_t i, size_t j) out of bounds index.");
             }
-            return m_poles[id];
+            return m_poles[i + j * n];
         }
 
         /**
-- 
2.43.0


From 104c437e061353dffe5a684f9f80a3849417629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 66/84] fix: Python reverseV reversed the U direction

---
 python/gbsBindSurfaces.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gbsBindSurfaces.h b/python/gbsBindSurfaces.h
index 10dbe0d..1b465a8 100644
--- a/python/gbsBindSurfaces.h
+++ b/python/gbsBindSurfaces.h
@@ -84,7 +84,7 @@ inline auto declare_bssurface(py::module_ &m)
         .def("isoV", &Class::isoV,"Isoparametric curve v constant",py::arg("v"))
         .def("invertUV",&Class::invertUV,"Invert U, V parametrization")
         .def("reverseU",&Class::reverseU,"Invert U parametrization")
-        .def("reverseV",&Class::reverseU,"Invert V parametrization")
+        .def("reverseV",&Class::reverseV,"Invert V parametrization")
         .def("trimU",&Class::trimU,"Permanently trim surface between u1 and u2 along V direction",py::arg("u1"),py::arg("u2"))
         .def("trimV",&Class::trimV,"Permanently trim surface between v1 and v2 along U direction",py::arg("v1"),py::arg("v2"))
         .def("changeUBounds",&Class::changeUBounds,"Change u bounds", py::arg("u1"), py::arg("u2"))
-- 
2.43.0


From 46c9a912a40dd94fe6d5d38864077c3b25b4d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 67/84] fix: Python ignored the maximum number of points of a
 discretization

---
 python/gbsBindDiscretize.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/gbsBindDiscretize.h b/python/gbsBindDiscretize.h
index 91da979..a9d6009 100644
--- a/python/gbsBindDiscretize.h
+++ b/python/gbsBindDiscretize.h
@@ -34,7 +34,7 @@ inline void gbs_bind_discretize(py::module &m)
         "discretize_curve",
         [](const Curve<T, dim> &crv, size_t np, T dev, size_t n_max_pts)
         {
-            py::array points = py::cast(discretize(crv, np, dev));
+            py::array points = py::cast(discretize(crv, np, dev, n_max_pts));
             return points;
         },
         "Curve discretization based on deviation",
@@ -44,7 +44,7 @@ inline void gbs_bind_discretize(py::module &m)
         "deviation_based_params",
         [](const gbs::Curve<T, dim> &crv, size_t np, T dev, size_t n_max_pts)
         {
-            py::array u_arr = py::cast(deviation_based_params(crv, np, dev));
+            py::array u_arr = py::cast(deviation_based_params(crv, np, dev, n_max_pts));
             return u_arr;
         },
         "Curve discretization parameters based on deviation",
@@ -54,7 +54,7 @@ inline void gbs_bind_discretize(py::module &m)
         "deviation_based_params",
         [](const gbs::Curve<T, dim> &crv, T u1, T u2, size_t np, T dev, size_t n_max_pts)
         {
-            py::array u_arr = py::cast(deviation_based_params(crv, u1, u2, np, dev));
+            py::array u_arr = py::cast(deviation_based_params(crv, u1, u2, np, dev, n_max_pts));
             return u_arr;
         },
         "Curve discretization based on deviation",
-- 
2.43.0


From d53979735af9f45fbdb75d2b4f3b9de357047e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:38 +0000
Subject: [PATCH 68/84] fix: Python elliptic smoothing dropped n_it and took
 the tolerance for it

---
 python/gbsbindmesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/gbsbindmesh.cpp b/python/gbsbindmesh.cpp
index 0935519..99b4d5e 100644
--- a/python/gbsbindmesh.cpp
+++ b/python/gbsbindmesh.cpp
@@ -192,7 +192,7 @@ void gbs_bind_mesh(py::module &m)
       m.def("elliptic_structured_smoothing",
             [](gbs::points_vector<double,2> &pts, size_t nj, size_t i1, size_t i2, size_t j1, size_t j2, size_t n_it, double tol)
             {
-                  gbs::elliptic_structured_smoothing<double>(pts, nj, i1, i2, j1, j2, tol);
+                  gbs::elliptic_structured_smoothing<double>(pts, nj, i1, i2, j1, j2, n_it, tol);
                   return pts;
             },
             "Mesh Smoothing between indices i1, i2, j1, j2",
-- 
2.43.0


From a0c420b145950ecbfb018835990fc97e1da5fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 69/84] fix: Python intersection of two 2D lines was hidden by
 the general search, endless on lines

---
 python/gbsbind.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/gbsbind.cpp b/python/gbsbind.cpp
index a08c4a9..ad5fa83 100644
--- a/python/gbsbind.cpp
+++ b/python/gbsbind.cpp
@@ -748,13 +748,14 @@ PYBIND11_MODULE(gbs, m) {
         py::enum_<nlopt::algorithm>(m, "nlopt_algorithm", py::arithmetic())
             .value("LN_PRAXIS", nlopt::algorithm::LN_PRAXIS)
             .value("LN_COBYLA", nlopt::algorithm::LN_COBYLA);
-        gbs_bind_extrema<double,1>(m);
-        gbs_bind_extrema<double,2>(m);
-        gbs_bind_extrema<double,3>(m);
+        // Before the general case, which accepts lines too
         m.def("extrema_curve_curve",
                 py::overload_cast<const gbs::Line<double, 2>&, const gbs::Line<double, 2>&>(&gbs::extrema_curve_curve<double>),
                 py::arg("crv1"),  py::arg("crv2")
         );
+        gbs_bind_extrema<double,1>(m);
+        gbs_bind_extrema<double,2>(m);
+        gbs_bind_extrema<double,3>(m);
 
         gbs_bind_discretize(m);
 
-- 
2.43.0


From afb60b46ecd66f3c84be1d6494c8c18e1da15ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:36 +0000
Subject: [PATCH 70/84] fix: Python approximation of a transformed curve could
 not be called

---
 python/gbsbindapprox.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/gbsbindapprox.h b/python/gbsbindapprox.h
index 2895f14..785c9ad 100644
--- a/python/gbsbindapprox.h
+++ b/python/gbsbindapprox.h
@@ -1,6 +1,7 @@
 #pragma once
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
+#include <pybind11/functional.h>
 namespace py = pybind11;
 
 #include <gbs/bscapprox.h>
-- 
2.43.0


From 50f1381f42e6958b30dc55277a69b76abaee344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 71/84] fix: the Python accessors of circles refused circles

---
 python/gbsBindCurves.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/gbsBindCurves.cpp b/python/gbsBindCurves.cpp
index 9617e05..da76aa3 100644
--- a/python/gbsBindCurves.cpp
+++ b/python/gbsBindCurves.cpp
@@ -144,8 +144,8 @@ void gbs_bind_curves(py::module &m)
         .def(py::init<double, const point<double, 2> &>(), py::arg("r") = 1., py::arg("C") = point<double,2>{0.,0.})
         .def("value",&Circle2d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         // .def("r", &Circle2d<double>::getR)
-        .def_property("r", &Circle2d<double>::getR, &Circle2d<double>::setR, "Cicle radius")
-        .def("c", &Circle2d<double>::getC, "Get circle center")
+        .def_property("r", [](const Circle2d<double> &self) { return self.getR(); }, [](Circle2d<double> &self, double r) { self.setR(r); }, "Cicle radius")
+        .def("c", [](const Circle2d<double> &self) { return self.getC(); }, "Get circle center")
         .def("value",&Circle2d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def("__call__",&Circle2d<double>::operator(),"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def(py::pickle(
@@ -171,9 +171,9 @@ void gbs_bind_curves(py::module &m)
         .def("value",&Circle3d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def("value",&Circle3d<double>::value,"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
         .def("__call__",&Circle3d<double>::operator(),"Circle evaluation at given angle",py::arg("u"),py::arg("d") = 0)
-        .def("r", &Circle3d<double>::getR)
-        .def("c", &Circle3d<double>::getC)
-        .def("z", &Circle3d<double>::getZ)
+        .def("r", [](const Circle3d<double> &self) { return self.getR(); })
+        .def("c", [](const Circle3d<double> &self) { return self.getC(); })
+        .def("z", [](const Circle3d<double> &self) { return self.getZ(); })
         .def(py::pickle(
                 // __getstate__: encode the circle's state as a tuple (radius and axis)
                 [](const Circle3d<double>& self) -> py::tuple {
-- 
2.43.0


From a3266f075576429767f27fd7d6f4410eb337429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 72/84] fix: Python approximation of a transformed curve waited
 for itself

---
 python/gbsbindapprox.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/gbsbindapprox.h b/python/gbsbindapprox.h
index 785c9ad..586c033 100644
--- a/python/gbsbindapprox.h
+++ b/python/gbsbindapprox.h
@@ -105,7 +105,8 @@ inline void gbs_bind_approx(py::module &m)
         py::arg("deviation"), 
         py::arg("tol"),
         py::arg("p"),
-        py::arg("bp") = 30
+        py::arg("bp") = 30,
+        py::call_guard<py::gil_scoped_release>() // trf_func is called from several threads, each of them taking the GIL
     );
 
     m.def(
-- 
2.43.0


From d1051de6fc268d56c2d57b7d0d521090f414f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:19 +0000
Subject: [PATCH 73/84] fix: the default axis of a circle in space did not
 compile

---
 gbs/curvecircle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/curvecircle.h b/gbs/curvecircle.h
index 79f4053..06cd3f8 100644
--- a/gbs/curvecircle.h
+++ b/gbs/curvecircle.h
@@ -83,7 +83,7 @@ namespace gbs
     public:
         Circle3d(const Circle3d<T> &c) = default;
         Circle3d(T r, const ax2<T, 3> &ax) : Circle<T,3>{r, ax} { }
-        Circle3d(T r=1, const ax1<T, 3> &ax={{0,0,0},{0,0,1}}) : Circle<T,3>{r, ax} { }
+        Circle3d(T r=1, const ax1<T, 3> &ax={{{0,0,0},{0,0,1}}}) : Circle<T,3>{r, ax} { }
         virtual auto value(T u, size_t d = 0) const -> std::array<T, 3> override
         {
 
-- 
2.43.0


From 9c737975ba7d79c13303ec1eb5e4423c9c85a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:36 +0000
Subject: [PATCH 74/84] fix: a document with parameters or tangents missing was
 read out of bounds

---
 gbs-io/fromjson.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gbs-io/fromjson.h b/gbs-io/fromjson.h
index ae2e737..bd40e64 100644
--- a/gbs-io/fromjson.h
+++ b/gbs-io/fromjson.h
@@ -163,6 +163,11 @@ namespace gbs
             throw std::invalid_argument("auto make_point_vec(const rapidjson::Value &a) -> std::vector< std::array<T,dim> > not and array");
         }
         auto n = a.GetArray()[0].GetArray().Size();
+        for (auto i = 1; i < nc; i++)
+        {
+            if (!a.GetArray()[i].IsArray() || a.GetArray()[i].GetArray().Size() != n)
+                throw std::invalid_argument("auto make_constraints_vec(const rapidjson::Value &a) as many constraints of each order are required");
+        }
 
         std::vector<constrType<T, dim, nc>> v_(n);
         for (auto j = 0; j < n; j++)
@@ -232,6 +237,8 @@ namespace gbs
             auto u = make_vec<T>(a["params"]);
             auto deg = get_val<size_t>(a["deg"]);
             auto points = make_point_vec<T, dim>(a["points"]);
+            if (u.size() != points.size())
+                throw std::invalid_argument("auto bscurve_interp_cn(const rapidjson::Value &a) -> BSCurve<T, dim> as many params as points are required");
             return interpolate(points, u, deg);
         }
         else if (a.HasMember("param_calc_mode"))
@@ -275,6 +282,8 @@ namespace gbs
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
         if (!a["constraints"].GetArray()[0].IsArray())
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
+        if (!u.empty() && u.size() != a["constraints"].GetArray()[0].Size())
+            throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> as many params as points are required");
         if (nc == 1)
         {
             auto Q = make_constraints_vec<T, dim, 1>(a["constraints"]);
@@ -361,6 +370,8 @@ namespace gbs
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
         if (!a["constraints"].GetArray()[0].IsArray())
             throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> constraints not defined");
+        if (u.size() != a["constraints"].GetArray()[0].Size())
+            throw std::invalid_argument("auto bscurve_interp(const rapidjson::Value &a) -> BSCurve<T, dim> as many params as points are required");
         if (nc == 1)
         {
             auto Q = make_constraints_vec<T, dim, 1>(a["constraints"]);
-- 
2.43.0


From c7ee1b9d24688be8a6206a394dfd14b95b221cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 75/84] fix: info of a rational surface did not compile

---
 gbs/bssurf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs/bssurf.h b/gbs/bssurf.h
index 169c229..f7ab961 100644
--- a/gbs/bssurf.h
+++ b/gbs/bssurf.h
@@ -447,7 +447,7 @@ namespace gbs
                          const std::vector<size_t> &multsV,
                          size_t degU,
                          size_t degV) : BSSurfaceGeneral{poles, flat_knots(knotsU, multsU), flat_knots(knotsV, multsV), degU, degV} {}
-        BSSurfaceGeneral(const BSSurfaceInfo<T, dim> &srf_info) : BSSurfaceGeneral{
+        BSSurfaceGeneral(const BSSurfaceInfo<T, dim+rational> &srf_info) : BSSurfaceGeneral{
                                                                       flatten_poles(std::get<0>(srf_info)),
                                                                       std::get<1>(srf_info),
                                                                       std::get<2>(srf_info),
@@ -469,7 +469,7 @@ namespace gbs
          */
         auto info() const -> BSSurfaceInfo<T, dim+rational>
         {
-            std::vector< std::vector< std::array<T, dim> > > polesUV(this->nPolesV());
+            std::vector< std::vector< std::array<T, dim+rational> > > polesUV(this->nPolesV());
             for(size_t j{}; j < this->nPolesV(); j++)
             {
                 polesUV[j] = this->polesU(j);
-- 
2.43.0


From 891c573304545942af31fc00aaffb02733cd971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 76/84] fix: the direction and the points of a half-edge did
 not compile

---
 inc/topology/halfEdgeMeshGetters.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/topology/halfEdgeMeshGetters.h b/inc/topology/halfEdgeMeshGetters.h
index 287a5de..f9de1dd 100644
--- a/inc/topology/halfEdgeMeshGetters.h
+++ b/inc/topology/halfEdgeMeshGetters.h
@@ -606,8 +606,8 @@ namespace gbs
     auto getEdgePoint(const std::shared_ptr<HalfEdge<T,dim>> &he, T pos = 0.5)
     {
         assert(he && he->vertex && he->previous && he->previous->vertex);
-        const auto &p1 = he->previous->vertex->coord;
-        const auto &p2 = he->vertex->coord;
+        const auto &p1 = he->previous->vertex->coords;
+        const auto &p2 = he->vertex->coords;
         return p1 + pos *(p2-p1);
     }
 
@@ -661,7 +661,7 @@ namespace gbs
     {
         assert(he->previous && he->previous->vertex);
 
-        return  normalized( he->vertex->coords - he->vertex->coords->previous);
+        return  normalized( he->vertex->coords - he->previous->vertex->coords);
     }
 
     template <std::floating_point T, size_t dim>
-- 
2.43.0


From 62388deb771e591fee17db3c353345b5c74aa5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 77/84] fix: insert_unique_ordered repeated a value just above
 one already there

---
 gbs/knotsfunctions.ixx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index f79cab9..51b898a 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -1078,7 +1078,9 @@
     template <typename T>
     void insert_unique_ordered(std::vector<T>& vec, T value, T tolerance = knot_eps<T>) {
         auto iter = std::lower_bound(vec.begin(), vec.end(), value);
-        if (iter == vec.end() || std::abs(value - *iter) > tolerance) {
+        const bool after  = iter == vec.end() || std::abs(value - *iter) > tolerance;
+        const bool before = iter == vec.begin() || std::abs(value - *std::prev(iter)) > tolerance;
+        if (after && before) {
             vec.insert(iter, value);
         } // else the value is already in the vector or close enough
     }
-- 
2.43.0


From ac7ed5eba58988be913ef22ca356e86e49f218f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:09 +0000
Subject: [PATCH 78/84] fix: inserting or trimming a rounding away from a knot
 left two knots side by side

---
 gbs/knotsfunctions.ixx | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/gbs/knotsfunctions.ixx b/gbs/knotsfunctions.ixx
index 51b898a..5188910 100644
--- a/gbs/knotsfunctions.ixx
+++ b/gbs/knotsfunctions.ixx
@@ -339,6 +339,22 @@
 
         return k;
     }
+/**
+ * @brief Returns the knot equal to u within the knot tolerance if there is one, u otherwise
+ * 
+ * @tparam T 
+ * @param u The parameter
+ * @param knots_flats Flat knots vector
+ * @return T 
+ */
+    template <typename T>
+    auto existing_knot_or(T u, const std::vector<T> &knots_flats) -> T
+    {
+        auto it = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
+        if(it != knots_flats.end() && *it - u < knot_eps<T>) return *it;
+        if(it != knots_flats.begin() && u - *std::prev(it) < knot_eps<T>) return *std::prev(it);
+        return u;
+    }
     /**
      * Inserts new knots, if possible, into a B-spline or NURBS knot vector and updates the control points.
      *
@@ -366,6 +382,7 @@
     template <typename T, size_t dim>
     auto insert_knots(T u, size_t p, size_t r, std::vector<T> &UP, std::vector<std::array<T, dim>> &P)
     {
+        u = existing_knot_or(u, UP);
 
         auto np   = P.size()-1;
         auto mp   = np + p + 1;
@@ -1014,6 +1031,7 @@
     {
         if(u-knots_flats.front()<knot_eps<T>) return;
         
+        u = existing_knot_or(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_l = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
@@ -1038,6 +1056,7 @@
     {
         if(knots_flats.back()-u<knot_eps<T>) return;
         
+        u = existing_knot_or(u, knots_flats);
         insert_knots(u, p, p, knots_flats, poles);
 
         auto it_h = std::lower_bound(knots_flats.begin(), knots_flats.end(), u);
-- 
2.43.0


From fbe25a901577f9c1c875d8d745c76cac8c7a83da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:47 +0000
Subject: [PATCH 79/84] fix: the distance criterion of the mesh of a surface
 did not compile

---
 inc/topology/halfEdgeMeshQuality.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/inc/topology/halfEdgeMeshQuality.h b/inc/topology/halfEdgeMeshQuality.h
index d25b4ab..40fbd25 100644
--- a/inc/topology/halfEdgeMeshQuality.h
+++ b/inc/topology/halfEdgeMeshQuality.h
@@ -95,7 +95,8 @@ namespace gbs
         auto operator()(const std::shared_ptr<HalfEdgeFace<T, 2>> &hf) const
         {
             // Get the face coordinates in UV space
-            auto coordsUV = getFaceCoords(hf);
+            auto [a_UV, b_UV, c_UV] = getTriangleCoords(hf);
+            std::array<std::array<T, 2>, 3> coordsUV{a_UV, b_UV, c_UV};
 
             // Get the bounds of the surface in UV space
             auto [u1, u2, v1, v2] = srf.bounds();
@@ -106,12 +107,12 @@ namespace gbs
                 if (u1 > u || u2 < u || v1 > v || v2 < v)
                 {
                     // Return a zero distance and a dummy UV point for out-of-bounds coordinates
-                    return std::make_pair(0., std::array<T, 2>{0., 0.});
+                    return std::make_pair(T(0), std::array<T, 2>{0, 0});
                 }
             }
 
             // Transform the face coordinates from UV space to 3D space
-            std::vector<std::array<T, 3>> coords(coordsUV.size());
+            std::array<std::array<T, dim>, 3> coords;
             std::transform(
                 coordsUV.begin(), coordsUV.end(),
                 coords.begin(),
@@ -121,8 +122,9 @@ namespace gbs
                 });
 
             // Compute the centroid (G) and midpoints (A, B, C) in both UV and 3D space
-            auto G_UV = average(coordsUV.begin(), coordsUV.end());
-            auto G = average(coords.begin(), coords.end());
+            auto midpoint = [](const auto &X1, const auto &X2) { return static_cast<T>(0.5) * (X1 + X2); };
+            auto G_UV = (coordsUV[0] + coordsUV[1] + coordsUV[2]) / static_cast<T>(3);
+            auto G = (coords[0] + coords[1] + coords[2]) / static_cast<T>(3);
             auto A_UV = midpoint(coordsUV[0], coordsUV[1]);
             auto A = midpoint(coords[0], coords[1]);
             auto B_UV = midpoint(coordsUV[1], coordsUV[2]);
-- 
2.43.0


From e7d4a6ea018ad2b6216ed2edab46cc985a440f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:47 +0000
Subject: [PATCH 80/84] fix: the edge iterators of a face compared equal at the
 beginning and at the end

---
 inc/topology/halfEdgeMeshData.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/topology/halfEdgeMeshData.h b/inc/topology/halfEdgeMeshData.h
index da8cc19..f3b6677 100644
--- a/inc/topology/halfEdgeMeshData.h
+++ b/inc/topology/halfEdgeMeshData.h
@@ -327,13 +327,14 @@ namespace gbs
 
         bool operator==(const HalfEdgeFaceEdgeIterator &other) const
         {
-            return (is_end && other.is_end) || (current_edge == other.current_edge);
+            // without any edge the beginning is the end
+            return current_edge == other.current_edge && (is_end == other.is_end || !current_edge);
         }
 
         /// Inequality operator
         bool operator!=(const HalfEdgeFaceEdgeIterator &other) const
         {
-            return (current_edge != other.current_edge) || (is_end != other.is_end);
+            return !(*this == other);
         }
 
     private:
-- 
2.43.0


From 5dfe390b46e5be31c26a6e834aa2ee37f0af20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 81/84] fix: translated of a point with weight did not compile

---
 gbs/transformpoints.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gbs/transformpoints.h b/gbs/transformpoints.h
index 640814e..dd80538 100644
--- a/gbs/transformpoints.h
+++ b/gbs/transformpoints.h
@@ -48,7 +48,7 @@ namespace gbs
     }
 
     template <typename T, size_t dim>
-    auto translated(const std::array<T, dim + 1> &x, const std::array<T, dim> &v) -> std::array<T, dim>
+    auto translated(const std::array<T, dim + 1> &x, const std::array<T, dim> &v) -> std::array<T, dim + 1>
     {
         std::array<T, dim + 1> res{x};
         translate(res, v);
-- 
2.43.0


From 0990c6c3f5e7128d919188ba0cc9e4af5b8bb107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:05 +0000
Subject: [PATCH 82/84] fix: the half plane along Y was cut along Z

---
 gbs-occt/surfacesbuild.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gbs-occt/surfacesbuild.cpp b/gbs-occt/surfacesbuild.cpp
index 9bd408a..971f410 100644
--- a/gbs-occt/surfacesbuild.cpp
+++ b/gbs-occt/surfacesbuild.cpp
@@ -28,9 +28,9 @@ namespace occt_utils
         double U1, U2, V1, V2;
         pln->Bounds(U1, U2, V1, V2);
         if (y_positive)
-            return new Geom_RectangularTrimmedSurface(pln, U1, U2, 0., V2);
+            return new Geom_RectangularTrimmedSurface(pln, 0., U2, V1, V2);
         else
-            return new Geom_RectangularTrimmedSurface(pln, U1, U2, V1, 0.);
+            return new Geom_RectangularTrimmedSurface(pln, U1, 0., V1, V2);
     }
 
     auto loft_occ(const std::list<Handle(Geom_Curve)> &lst) -> Handle(Geom_Surface)
-- 
2.43.0


From 96d7f9a8dcf14bddc11558fc29cb652fd732e966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:48 +0000
Subject: [PATCH 83/84] fix: a shape could not be written to IGES with a scale

---
 gbs-occt/export.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gbs-occt/export.h b/gbs-occt/export.h
index 9cd061c..c641fe0 100644
--- a/gbs-occt/export.h
+++ b/gbs-occt/export.h
@@ -7,7 +7,7 @@
 #include <GeomAPI.hxx>
 #include <gp_Pln.hxx>
 #include <TopoDS_Shape.hxx>
-#include <TopLoc_Location.hxx>
+#include <BRepBuilderAPI_Transform.hxx>
 #include <algorithm>
 
 namespace occt_utils
@@ -27,8 +27,8 @@ namespace occt_utils
     {
         gp_Trsf Trsf;
         Trsf.SetScaleFactor(scale);
-        TopLoc_Location loc(Trsf);
-        return writer.AddShape(sh.Moved(loc));
+        // a scaled location is refused
+        return writer.AddShape(BRepBuilderAPI_Transform(sh, Trsf, true).Shape());
     }
 
     template <typename _InIt>
-- 
2.43.0


From 010e7e34001b480d8b91511601af462861350fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:43 +0000
Subject: [PATCH 84/84] fix: meshes of a surface carried more normals than
 points

---
 inc/topology/halfEdgeMeshRender.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/topology/halfEdgeMeshRender.h b/inc/topology/halfEdgeMeshRender.h
index a7c301c..e7422dc 100644
--- a/inc/topology/halfEdgeMeshRender.h
+++ b/inc/topology/halfEdgeMeshRender.h
@@ -147,6 +147,7 @@ namespace gbs
             normalGenerator->SetInputData(polyData);
             normalGenerator->ComputePointNormalsOn();
             normalGenerator->ComputeCellNormalsOff();
+            normalGenerator->SplittingOff(); // one normal per point of the mesh
             normalGenerator->Update();
 
             polyData->GetPointData()->SetNormals(normalGenerator->GetOutput()->GetPointData()->GetNormals());
-- 
2.43.0

