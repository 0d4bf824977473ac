From dee2860eb3206c058d3cdec45288c7ca177cefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 01/15] fix: restore the missing 20-point orbit of the order-39
 Ahrens-Beylkin grid

The order-39 table held 552 points: the 12 icosahedron vertices and nine
60-point orbits, but not the 20 dodecahedron vertices of the 572-point rule.
Its weights summed to 12.104 instead of 4*pi and it failed to integrate
spherical harmonics from l=0 on. Add the missing orbit (its weight follows
from the sum rule) and advertise the grid under its real size, 572.
---
 .../quadratures/s2/ahrens_beylkin.hpp         |  8 ++--
 ...beylkin_552.hpp => ahrens_beylkin_572.hpp} | 48 +++++++++++++++++--
 .../ahrens_beylkin/ahrens_beylkin_grids.hpp   |  2 +-
 3 files changed, 49 insertions(+), 9 deletions(-)
 rename include/integratorxx/quadratures/s2/ahrens_beylkin/{ahrens_beylkin_552.hpp => ahrens_beylkin_572.hpp} (96%)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index bf83484..509d0f2 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -64,8 +64,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_432<RealType>>(points, weights);
     else if (npts == 492)
       detail::copy_grid<ahrens_beylkin_492<RealType>>(points, weights);
-    else if (npts == 552)
-      detail::copy_grid<ahrens_beylkin_552<RealType>>(points, weights);
+    else if (npts == 572)
+      detail::copy_grid<ahrens_beylkin_572<RealType>>(points, weights);
     else if (npts == 612)
       detail::copy_grid<ahrens_beylkin_612<RealType>>(points, weights);
     else if (npts == 672)
@@ -183,7 +183,7 @@ inline static int64_t npts_by_algebraic_order(int64_t order) {
   case 37:
     return 492;
   case 39:
-    return 552;
+    return 572;
   case 41:
     return 612;
   case 44:
@@ -301,7 +301,7 @@ inline static int64_t algebraic_order_by_npts(int64_t npts) {
     return 35;
   case 492:
     return 37;
-  case 552:
+  case 572:
     return 39;
   case 612:
     return 41;
diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_552.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_572.hpp
similarity index 96%
rename from include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_552.hpp
rename to include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_572.hpp
index fb94c85..cc8e84d 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_552.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_572.hpp
@@ -4,13 +4,13 @@ namespace IntegratorXX {
 namespace AhrensBeylkinGrids {
 
 /**
- *  \brief Ahrens-Beylkin Quadrature specification for order 39 grid with 552 points
+ *  \brief Ahrens-Beylkin Quadrature specification for order 39 grid with 572 points
  * 
  */
 template <typename T>
-struct ahrens_beylkin_552 {
+struct ahrens_beylkin_572 {
 
-  static constexpr std::array<cartesian_pt_t<T>,552> points = {
+  static constexpr std::array<cartesian_pt_t<T>,572> points = {
       0.000000000000000E+00,         -0.5257311121191336,          0.8506508083520399,
       0.000000000000000E+00,         -0.5257311121191336,         -0.8506508083520399,
          0.8506508083520399,       0.000000000000000E+00,         -0.5257311121191336,
@@ -23,6 +23,26 @@ struct ahrens_beylkin_552 {
         -0.8506508083520399,       0.000000000000000E+00,         -0.5257311121191336,
          0.5257311121191336,         -0.8506508083520399,       0.000000000000000E+00,
          0.5257311121191336,          0.8506508083520399,       0.000000000000000E+00,
+         0.5773502691896258,         0.5773502691896258,         0.5773502691896258,
+         0.5773502691896258,         0.5773502691896258,        -0.5773502691896258,
+         0.5773502691896258,        -0.5773502691896258,         0.5773502691896258,
+         0.5773502691896258,        -0.5773502691896258,        -0.5773502691896258,
+        -0.5773502691896258,         0.5773502691896258,         0.5773502691896258,
+        -0.5773502691896258,         0.5773502691896258,        -0.5773502691896258,
+        -0.5773502691896258,        -0.5773502691896258,         0.5773502691896258,
+        -0.5773502691896258,        -0.5773502691896258,        -0.5773502691896258,
+        -0.9341723589627157,        -0.3568220897730899,      0.000000000000000E+00,
+        -0.9341723589627157,         0.3568220897730899,      0.000000000000000E+00,
+        -0.3568220897730899,      0.000000000000000E+00,        -0.9341723589627157,
+        -0.3568220897730899,      0.000000000000000E+00,         0.9341723589627157,
+      0.000000000000000E+00,        -0.9341723589627157,        -0.3568220897730899,
+      0.000000000000000E+00,        -0.9341723589627157,         0.3568220897730899,
+      0.000000000000000E+00,         0.9341723589627157,        -0.3568220897730899,
+      0.000000000000000E+00,         0.9341723589627157,         0.3568220897730899,
+         0.3568220897730899,      0.000000000000000E+00,        -0.9341723589627157,
+         0.3568220897730899,      0.000000000000000E+00,         0.9341723589627157,
+         0.9341723589627157,        -0.3568220897730899,      0.000000000000000E+00,
+         0.9341723589627157,         0.3568220897730899,      0.000000000000000E+00,
         -0.2562213369191851,         -0.9307043572416419,          0.2610364455756468,
         -0.9307043572416419,         -0.2610364455756468,          0.2562213369191851,
          0.5432606715299797,          0.7533042923440167,         -0.3706757152888163,
@@ -566,7 +586,7 @@ struct ahrens_beylkin_552 {
 };
 
 
-static constexpr std::array<T,552> weights = {      2.127696997824436E-02,
+static constexpr std::array<T,572> weights = {      2.127696997824436E-02,
       2.127696997824436E-02,
       2.127696997824436E-02,
       2.127696997824436E-02,
@@ -578,6 +598,26 @@ static constexpr std::array<T,552> weights = {      2.127696997824436E-02,
       2.127696997824436E-02,
       2.127696997824436E-02,
       2.127696997824436E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
+      2.309487232281995E-02,
       2.195218817219723E-02,
       2.195218817219723E-02,
       2.195218817219723E-02,
diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp
index a08b39a..e487a87 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp
@@ -9,7 +9,7 @@
 #include "ahrens_beylkin_372.hpp"
 #include "ahrens_beylkin_432.hpp"
 #include "ahrens_beylkin_492.hpp"
-#include "ahrens_beylkin_552.hpp"
+#include "ahrens_beylkin_572.hpp"
 #include "ahrens_beylkin_612.hpp"
 #include "ahrens_beylkin_672.hpp"
 #include "ahrens_beylkin_732.hpp"
-- 
2.43.0


From 225ab94ece57cbc15b0779b1fe9eb94cfa45a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 02/15] fix: reject unsupported angular grid sizes

Requesting a size for which no table exists returned a grid of that many
zero-initialised points and weights instead of failing as documented.
---
 include/integratorxx/quadratures/s2/ahrens_beylkin.hpp | 3 +++
 include/integratorxx/quadratures/s2/delley.hpp         | 3 +++
 include/integratorxx/quadratures/s2/lebedev_laikov.hpp | 3 +++
 include/integratorxx/quadratures/s2/womersley.hpp      | 5 +++++
 4 files changed, 14 insertions(+)

diff --git a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
index 509d0f2..006e6d1 100644
--- a/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
+++ b/include/integratorxx/quadratures/s2/ahrens_beylkin.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/ahrens_beylkin/ahrens_beylkin_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -162,6 +163,8 @@ template <typename RealType> struct quadrature_traits<AhrensBeylkin<RealType>> {
       detail::copy_grid<ahrens_beylkin_7512<RealType>>(points, weights);
     else if (npts == 15012)
       detail::copy_grid<ahrens_beylkin_15012<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Ahrens-Beylkin Grid Size");
 
     return std::make_tuple(points, weights);
   }
diff --git a/include/integratorxx/quadratures/s2/delley.hpp b/include/integratorxx/quadratures/s2/delley.hpp
index bbb58e8..29b1d6e 100644
--- a/include/integratorxx/quadratures/s2/delley.hpp
+++ b/include/integratorxx/quadratures/s2/delley.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/quadratures/s2/delley/delley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -85,6 +86,8 @@ struct quadrature_traits<Delley<RealType>> {
       detail::copy_grid<delley_3074<RealType>>(points, weights);
     else if(npts == 3470)
       detail::copy_grid<delley_3470<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Delley Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(auto i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
index 6d5adb6..21da1c1 100644
--- a/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
+++ b/include/integratorxx/quadratures/s2/lebedev_laikov.hpp
@@ -3,6 +3,7 @@
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/quadratures/s2/lebedev_laikov/lebedev_laikov_grids.hpp>
 #include <integratorxx/util/copy_grid.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -107,6 +108,8 @@ struct quadrature_traits< LebedevLaikov<RealType> > {
       detail::copy_grid<lebedev_laikov_4802<RealType>>( points, weights );
     else if( npts == 5810 ) 
       detail::copy_grid<lebedev_laikov_5810<RealType>>( points, weights );
+    else
+      throw std::runtime_error("Unsupported Lebedev-Laikov Grid Size");
 
     // Pretabulated weights are missing 4 pi
     for(size_t i=0; i < npts; i++)
diff --git a/include/integratorxx/quadratures/s2/womersley.hpp b/include/integratorxx/quadratures/s2/womersley.hpp
index 6394f9d..a1e73a0 100644
--- a/include/integratorxx/quadratures/s2/womersley.hpp
+++ b/include/integratorxx/quadratures/s2/womersley.hpp
@@ -4,6 +4,7 @@
 #include <integratorxx/util/copy_grid.hpp>
 #include <integratorxx/util/create_array.hpp>
 #include <integratorxx/quadratures/s2/womersley/womersley_grids.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -184,6 +185,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_7814<RealType>>(points, weights);
     else if(npts == 7939)
       detail::copy_grid<womersley_7939<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
   }
 
   inline static std::tuple<point_container, weight_container> generate(
@@ -319,6 +322,8 @@ struct quadrature_traits<Womersley<RealType>> {
       detail::copy_grid<womersley_1923<RealType>>(points, weights);
     else if(npts == 1986)
       detail::copy_grid<womersley_1986<RealType>>(points, weights);
+    else
+      throw std::runtime_error("Unsupported Womersley Grid Size");
     return std::make_tuple(points, weights);
   }
 
-- 
2.43.0


From ef75eeb76d7f8d4dce31cf91f1f92777671bf681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 03/15] fix: positive Jacobian when mapping (-1,1) to (-inf,up)

x' = up - (1-x)/(1+x) increases with x, so dx'/dx = 2/(1+x)^2. The extra sign
negated every integral over a half line extending to -infinity.
---
 include/integratorxx/util/bound_transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/util/bound_transform.hpp b/include/integratorxx/util/bound_transform.hpp
index dcf4ecd..ce4053c 100644
--- a/include/integratorxx/util/bound_transform.hpp
+++ b/include/integratorxx/util/bound_transform.hpp
@@ -42,8 +42,8 @@ constexpr inline auto transform_minus_one_to_one(
   } else if( !up_is_inf ) {
 
     // Factor jacobian into the weights
-    // dx' = - \frac{2}{(1+x)^2} dx
-    wgt *= -2.0  / ( (1 + pt) * (1 + pt) );
+    // dx' = \frac{2}{(1+x)^2} dx
+    wgt *= 2.0  / ( (1 + pt) * (1 + pt) );
 
     // Perform the coordinate shift
     // x' = b - \frac{(1-x)}{(1+x)}
-- 
2.43.0


From 2dcd74adacdb28fe14d29bd186f3cda04bdb820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 04/15] fix: reject trapezoid and Gauss-Lobatto rules with
 fewer than 2 points

Both rules include the two end points. With 0 points they wrote out of
bounds, with 1 point they divided by zero.
---
 include/integratorxx/quadratures/primitive/gausslobatto.hpp | 4 ++++
 include/integratorxx/quadratures/primitive/uniform.hpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index 49a510d..da8bd48 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -2,6 +2,7 @@
 
 #include <integratorxx/quadrature.hpp>
 #include <integratorxx/util/legendre.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -32,6 +33,9 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
 
   inline static std::tuple<point_container, weight_container> generate(
       size_t npts) {
+    if(npts < 2)
+      throw std::runtime_error("Gauss-Lobatto Rule Requires At Least 2 Points");
+
     point_container points(npts);
     weight_container weights(npts);
 
diff --git a/include/integratorxx/quadratures/primitive/uniform.hpp b/include/integratorxx/quadratures/primitive/uniform.hpp
index 30c3372..a1d38e3 100644
--- a/include/integratorxx/quadratures/primitive/uniform.hpp
+++ b/include/integratorxx/quadratures/primitive/uniform.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <integratorxx/quadrature.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace IntegratorXX {
@@ -48,6 +49,9 @@ struct quadrature_traits<
   inline static std::tuple<point_container,weight_container>
     generate( size_t npts, point_type lo, point_type up ) {
 
+    if( npts < 2 )
+      throw std::runtime_error("Trapezoid Rule Requires At Least 2 Points");
+
     const auto npts_use = npts - 1;
     const auto delta_x  = (up - lo) / npts_use;
     point_container  points( npts );
-- 
2.43.0


From 97110fdfd053a80d1fbb27c9f92ccb273a04299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 05/15] fix: pruning schemes on small radial grids

With fewer than 3 (Robust) or 4 (Treutler) radial points some regions are
empty. They were passed on to the partition, whose iteration then ran past its
end, and a last region of a single radial point tripped an assertion. Drop the
empty regions and accept every radial index as the start of a region.
---
 .../pruned_spherical_quadrature.hpp                 |  2 +-
 .../integratorxx/generators/impl/robust_pruning.hpp | 13 +++++++++++--
 .../generators/impl/treutler_pruning.hpp            | 13 +++++++++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index d90305f..7fcdc06 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -35,7 +35,7 @@ public:
   void add_quad( const RadialQuad& rq, size_t idx, 
 		  const Quadrature<AngularQuad>& q ) { 
     assert(partition_idx_.size() ?
-      (idx > partition_idx_.back() && idx < (rq.npts()-1)) : (idx == 0));
+      (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
     partition_idx_.emplace_back(idx);
diff --git a/include/integratorxx/generators/impl/robust_pruning.hpp b/include/integratorxx/generators/impl/robust_pruning.hpp
index f397fea..2ec8b06 100644
--- a/include/integratorxx/generators/impl/robust_pruning.hpp
+++ b/include/integratorxx/generators/impl/robust_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -29,14 +31,21 @@ PrunedSphericalGridSpecification robust_psi4_pruning_scheme_impl(
   UnprunedSphericalGridSpecification unp ) {
 
   const size_t rsz = unp.radial_traits->npts();
-  const size_t r_div_4 = rsz / 4ul + 1ul;
-  const size_t r_div_2 = rsz / 2ul + 1ul;
+  const size_t r_div_4 = std::min(rsz / 4ul + 1ul, rsz);
+  const size_t r_div_2 = std::min(rsz / 2ul + 1ul, rsz);
   std::vector<PruningRegion> pruning_regions = {
     {0ul,     r_div_4, angular_quad, low_sz},
     {r_div_4, r_div_2, angular_quad, med_sz},
     {r_div_2,     rsz, angular_quad, unp.angular_size}
   };
 
+  // Small radial grids do not have points in every region
+  pruning_regions.erase(
+    std::remove_if(pruning_regions.begin(), pruning_regions.end(),
+      [](const auto& r) { return r.idx_st >= r.idx_en; }),
+    pruning_regions.end()
+  );
+
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
   );
diff --git a/include/integratorxx/generators/impl/treutler_pruning.hpp b/include/integratorxx/generators/impl/treutler_pruning.hpp
index d59a107..54ea5ea 100644
--- a/include/integratorxx/generators/impl/treutler_pruning.hpp
+++ b/include/integratorxx/generators/impl/treutler_pruning.hpp
@@ -3,6 +3,8 @@
 
 #include <integratorxx/generators/impl/s2_types.hpp>
 
+#include <algorithm>
+
 namespace IntegratorXX {
 
 namespace detail {
@@ -21,14 +23,21 @@ PrunedSphericalGridSpecification treutler_pruning_scheme_impl(
   UnprunedSphericalGridSpecification unp ) {
 
   const size_t rsz = unp.radial_traits->npts();
-  const size_t r_div_3 = rsz / 3ul + 1ul;
-  const size_t r_div_2 = rsz / 2ul + 1ul;
+  const size_t r_div_3 = std::min(rsz / 3ul + 1ul, rsz);
+  const size_t r_div_2 = std::min(rsz / 2ul + 1ul, rsz);
   std::vector<PruningRegion> pruning_regions = {
     {0ul,     r_div_3, angular_quad, low_sz},
     {r_div_3, r_div_2, angular_quad, med_sz},
     {r_div_2, rsz,     angular_quad, unp.angular_size}
   };
 
+  // Small radial grids do not have points in every region
+  pruning_regions.erase(
+    std::remove_if(pruning_regions.begin(), pruning_regions.end(),
+      [](const auto& r) { return r.idx_st >= r.idx_en; }),
+    pruning_regions.end()
+  );
+
   return PrunedSphericalGridSpecification(
     unp.radial_quad, unp.radial_traits->clone(), pruning_regions
   );
-- 
2.43.0


From bf88a4be1b194d63593018b894c1c2d8a26c7667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 06/15] fix: reject pruning regions that do not tile the radial
 quadrature

The end index of a region was never read: gaps and overlaps between regions
were silently filled from the next region's start, and an out of range start
index was undefined behaviour with assertions disabled.
---
 include/integratorxx/generators/impl/pruned_grid.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/integratorxx/generators/impl/pruned_grid.hpp b/include/integratorxx/generators/impl/pruned_grid.hpp
index c69e036..23576ba 100644
--- a/include/integratorxx/generators/impl/pruned_grid.hpp
+++ b/include/integratorxx/generators/impl/pruned_grid.hpp
@@ -34,10 +34,16 @@ auto make_pruned_grid(const RadialQuadType& rq,
     throw std::runtime_error("No Pruning Regions");
 
   auto angular_quad = pruning_regions[0].angular_quad;
+  size_t idx_next = 0;
   for(auto r : pruning_regions) {
     if(r.angular_quad != angular_quad)
       throw std::runtime_error("Mixed Angular Pruning Not Supported");
+    if(r.idx_st != idx_next || r.idx_en <= r.idx_st)
+      throw std::runtime_error("Pruning Regions Are Not Contiguous");
+    idx_next = r.idx_en;
   }
+  if(idx_next != rq.npts())
+    throw std::runtime_error("Pruning Regions Do Not Cover Radial Quadrature");
 
   switch(angular_quad) {
     case AngularQuad::AhrensBeylkin:
-- 
2.43.0


From 7251deda2c79cc7ab925ade95250842d0dfd0b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 07/15] fix: batch generation for coincident points and
 degenerate requests

Refining a box never separates coincident points, so more than max_batch_size
of them (e.g. the innermost shells of a recentered grid, which round to the
center) looped forever, as did a maximum batch size of 0. An empty quadrature
dereferenced the end iterator.
---
 .../integratorxx/batch/spherical_micro_batcher.hpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index 03c848b..e9ab5fb 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -5,6 +5,7 @@
 #include <chrono>
 #include <iostream>
 #include <iomanip>
+#include <stdexcept>
 #include <vector>
 #include <array>
 
@@ -515,7 +516,11 @@ public:
 template <typename PointContainer, typename WeightContainer>
 std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::generate_batches() {
 
+  if( max_batch_sz_ == 0 )
+    throw std::runtime_error("Maximum Batch Size Must Be Positive");
 
+  // No batches to generate for an empty quadrature
+  if( quad_->npts() == 0 ) return { 0 };
 
   std::vector<std::pair<point_type, weight_type>> q( quad_->npts() );
   for( size_t i = 0; i < quad_->npts(); ++i ) {
@@ -564,6 +569,13 @@ std::vector<size_t> SphericalMicroBatcher<PointContainer,WeightContainer>::gener
       auto batch_part_its = 
         detail::partition_box( npart_batch, bbox_lo, bbox_up, batch_st, batch_en );
 
+      // (Nearly) coincident points cannot be separated by refining the box,
+      // divide the batch itself
+      if( batch_part_its.size() == 2 ) {
+        for( auto i = max_batch_sz_; i < part_counts[ip]; i += max_batch_sz_ )
+          batch_part_its.insert( batch_part_its.end()-1, batch_st + i );
+      }
+
       new_part_its.insert( new_part_its.end(), batch_part_its.begin(), 
         batch_part_its.end() );
     } 
-- 
2.43.0


From 9d56b8faa9b136d911188d07abaaa1e1fb76893b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 08/15] fix: SubQuadrature stores weights in its weight
 container

Subsets of quadratures whose point and weight containers differ (e.g. angular
quadratures) did not compile.
---
 include/integratorxx/composite_quadratures/sub_quadrature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/sub_quadrature.hpp b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
index 15809a4..448db4e 100644
--- a/include/integratorxx/composite_quadratures/sub_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/sub_quadrature.hpp
@@ -55,8 +55,8 @@ struct quadrature_traits<
 
       point_container points( quad.points().begin() + begin_idx,
                               quad.points().begin() + end_idx );
-      point_container weights( quad.weights().begin() + begin_idx,
-                              quad.weights().begin() + end_idx );
+      weight_container weights( quad.weights().begin() + begin_idx,
+                                  quad.weights().begin() + end_idx );
 
       return std::make_tuple( points, weights );
     }
-- 
2.43.0


From 06f7b22c5ca6d4aa720510f80cf6771c9e9bcecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:35 +0000
Subject: [PATCH 09/15] fix: iterators of batches and radial partitions

Const iterators could not be compared or post-incremented, and iterator + n
advanced the iterator itself.
---
 .../batch/spherical_micro_batcher.hpp          | 18 ++++++++++--------
 .../pruned_spherical_quadrature.hpp            | 11 ++++++-----
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/integratorxx/batch/spherical_micro_batcher.hpp b/include/integratorxx/batch/spherical_micro_batcher.hpp
index e9ab5fb..e05f592 100644
--- a/include/integratorxx/batch/spherical_micro_batcher.hpp
+++ b/include/integratorxx/batch/spherical_micro_batcher.hpp
@@ -276,9 +276,10 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    iterator operator+(int i) const {
+      iterator retval = *this;
+      retval.idx_it += i;
+      return retval;
     } 
 
     bool operator==( iterator other ){ return idx_it == other.idx_it; }
@@ -347,13 +348,14 @@ class SphericalMicroBatcher {
       return retval;
     }
 
-    const_iterator& operator+(int i) {
-      idx_it += i;
-      return *this;
+    const_iterator operator+(int i) const {
+      const_iterator retval = *this;
+      retval.idx_it += i;
+      return retval;
     } 
 
-    bool operator==( iterator other ){ return idx_it == other.idx_it; }
-    bool operator!=( iterator other ){ return !(*this == other);   }
+    bool operator==( const_iterator other ){ return idx_it == other.idx_it; }
+    bool operator!=( const_iterator other ){ return !(*this == other);   }
 
 
 
diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index 7fcdc06..b89c4b2 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -98,15 +98,16 @@ public:
 
     rgp_iterator& operator++(){ idx_it++; quad_it++; return *this; }
     rgp_iterator  operator++(int) {
-      iterator retval = *this;
+      rgp_iterator retval = *this;
       ++(*this);
       return retval;
     }
 
-    rgp_iterator& operator+(int i) {
-      idx_it  += i;
-      quad_it += i;
-      return (*this);
+    rgp_iterator operator+(int i) const {
+      rgp_iterator retval = *this;
+      retval.idx_it  += i;
+      retval.quad_it += i;
+      return retval;
     }
 
     bool operator==(rgp_iterator other) const { 
-- 
2.43.0


From 4df0f726391f356ab4c30e9b91e705e911b0cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 10/15] fix: Gauss-Legendre and Gauss-Lobatto convergence in
 other precisions

The Newton iterations compared against the epsilon of double whatever the
point type, which single precision iterates only meet by chance: most float
rules threw instead of being generated.
---
 include/integratorxx/quadratures/primitive/gausslegendre.hpp | 2 +-
 include/integratorxx/quadratures/primitive/gausslobatto.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/integratorxx/quadratures/primitive/gausslegendre.hpp b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
index a5ea0d0..91bde30 100644
--- a/include/integratorxx/quadratures/primitive/gausslegendre.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslegendre.hpp
@@ -46,7 +46,7 @@ struct quadrature_traits<
     weight_container weights( npts );
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const auto eps = std::numeric_limits<point_type>::epsilon();
 
     // Since the rules are symmetric around the origin, we only need
     // to compute one half of the points
diff --git a/include/integratorxx/quadratures/primitive/gausslobatto.hpp b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
index da8bd48..4504e94 100644
--- a/include/integratorxx/quadratures/primitive/gausslobatto.hpp
+++ b/include/integratorxx/quadratures/primitive/gausslobatto.hpp
@@ -40,7 +40,7 @@ struct quadrature_traits<GaussLobatto<PointType, WeightType>> {
     weight_container weights(npts);
 
     // Absolute precision for the nodes
-    const auto eps = std::numeric_limits<double>::epsilon();
+    const auto eps = std::numeric_limits<point_type>::epsilon();
 
     // 2/(n(n-1)) appears in many expressions
     weight_type two_ov_nnm1 = 2.0 / (npts * (npts - 1.0));
-- 
2.43.0


From 8a791f5b9222c5ae184ecf47c30598d92b2b9f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 11/15] fix: copy assignment of RadialGridPartition

Quadrature is copy constructible but not assignable, the element-wise vector
assignment could not be instantiated.
---
 .../composite_quadratures/pruned_spherical_quadrature.hpp    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index b89c4b2..f8c8acd 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -60,9 +60,8 @@ public:
     quads_(std::move(other.quads_)){ };
 
   RadialGridPartition& operator=(const RadialGridPartition& other) {
-    partition_idx_ = other.partition_idx_;
-    quads_ = other.quads_;
-    return *this;
+    // Quadratures are copy constructible but not assignable
+    return *this = RadialGridPartition(other);
   }
   RadialGridPartition& operator=(RadialGridPartition&& other) {
     partition_idx_ = std::move(other.partition_idx_);
-- 
2.43.0


From fa2f516b3c87190c19190cddd555764b3ba32f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 12/15] fix: keep RadialGridPartition consistent when add_quad
 fails

---
 .../composite_quadratures/pruned_spherical_quadrature.hpp  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
index f8c8acd..a261ead 100644
--- a/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/pruned_spherical_quadrature.hpp
@@ -38,8 +38,13 @@ public:
       (idx > partition_idx_.back() && idx < rq.npts()) : (idx == 0));
     (void)(rq);
 
-    partition_idx_.emplace_back(idx);
     quads_.emplace_back(q);
+    try {
+      partition_idx_.emplace_back(idx);
+    } catch(...) {
+      quads_.pop_back(); // Keep indices and quadratures consistent
+      throw;
+    }
   }
 
 
-- 
2.43.0


From 11dd809b087d9d94c09959d0128e8c88e12abcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 13/15] fix: moving a ProductQuadrature no longer allocates in
 a noexcept function

---
 .../integratorxx/composite_quadratures/product_quadrature.hpp  | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/integratorxx/composite_quadratures/product_quadrature.hpp b/include/integratorxx/composite_quadratures/product_quadrature.hpp
index 4268570..29fe8ee 100644
--- a/include/integratorxx/composite_quadratures/product_quadrature.hpp
+++ b/include/integratorxx/composite_quadratures/product_quadrature.hpp
@@ -34,8 +34,7 @@ public:
 
   ProductQuadrature( const ProductQuadrature& other ) :
     ProductQuadrature( *other.quad1_, *other.quad2_ ) { }
-  ProductQuadrature( ProductQuadrature&& other ) noexcept :
-    ProductQuadrature( std::move(*other.quad1_), std::move(*other.quad2_) ) { }
+  ProductQuadrature( ProductQuadrature&& ) noexcept = default;
 
 };
 
-- 
2.43.0


From 088585624ad3c9b6676c3d9870ed6dbdbed7b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 14/15] fix: failed assignment no longer leaves a half-assigned
 grid specification

---
 include/integratorxx/generators/spherical_factory.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/integratorxx/generators/spherical_factory.hpp b/include/integratorxx/generators/spherical_factory.hpp
index 4937503..26b440d 100644
--- a/include/integratorxx/generators/spherical_factory.hpp
+++ b/include/integratorxx/generators/spherical_factory.hpp
@@ -79,9 +79,11 @@ struct PrunedSphericalGridSpecification {
       other.pruning_regions) { }
 
   PrunedSphericalGridSpecification& operator=(const PrunedSphericalGridSpecification& other) {
-    radial_quad = other.radial_quad;
-    radial_traits = other.radial_traits ? other.radial_traits->clone() : nullptr;
-    pruning_regions = other.pruning_regions;
+    // Copy first: a failed assignment leaves the specification as it was
+    PrunedSphericalGridSpecification tmp(other);
+    radial_quad = tmp.radial_quad;
+    radial_traits = std::move(tmp.radial_traits);
+    pruning_regions = std::move(tmp.pruning_regions);
     return *this;
   }
 
-- 
2.43.0


From dc2df909cd70015397d2b9f394fcfec41b78af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:33 +0000
Subject: [PATCH 15/15] fix: Mura-Knowles radii next to the nucleus rounded to
 zero

---
 include/integratorxx/quadratures/radial/muraknowles.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/integratorxx/quadratures/radial/muraknowles.hpp b/include/integratorxx/quadratures/radial/muraknowles.hpp
index 883ccb2..7d5a8da 100644
--- a/include/integratorxx/quadratures/radial/muraknowles.hpp
+++ b/include/integratorxx/quadratures/radial/muraknowles.hpp
@@ -162,6 +162,8 @@ public:
 
   template <typename PointType>
   inline auto radial_transform(PointType x) const noexcept {
+    // Close to the nucleus 1 - x^3 rounds away the digits of x^3
+    if( x*x*x < 1e-8 ) return -R_ * std::log1p(-1.0*x*x*x);
     return -R_ * std::log(1.0 - x*x*x);
   }
 
-- 
2.43.0

