From 2a03bdbe51ad05ef7311a3935bbd9ae19f9ad633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 01/56] fix: boolean ray/segment test reported parallel,
 non-collinear pairs as overlapping

---
 geometrix/algorithm/intersection/ray_segment_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From 76d84510e825feb50b7b90229efab0464e01610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 02/56] fix: ray/line intersection rejected half of the line
 and took parallel for overlapping

---
 geometrix/algorithm/intersection/ray_line_intersection.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..273c038 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -82,7 +82,7 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            if (get_orientation(A, A + v2, O, cmp) != oriented_collinear)
             return false;
 
             return ray_line_intersection_result(true,true);
@@ -92,10 +92,6 @@ namespace geometrix {
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
         
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
-
         assign(xPoint, O + t * v);
 
         return true;
-- 
2.43.0


From 382666e619dea0cb0a721a9b262d9b73a19ba4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 03/56] fix: 3d segment intersection forgot the first segment's
 end point touch

---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..b74a3b2 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !cmp.greater_than( t, zero ) || !cmp.less_than( t, one ) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From 5221e3c33c3ca71990cc527d781038c740814c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 04/56] fix: lexicographical segment comparison took the end of
 the other segment

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From edd844fc5a9c15d12a26fd7b2d40544922297083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 05/56] fix: closest point of a degenerate segment was not a
 number

---
 .../algorithm/distance/point_segment_closest_point.hpp   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geometrix/algorithm/distance/point_segment_closest_point.hpp b/geometrix/algorithm/distance/point_segment_closest_point.hpp
index 197a32b..82b17ab 100644
--- a/geometrix/algorithm/distance/point_segment_closest_point.hpp
+++ b/geometrix/algorithm/distance/point_segment_closest_point.hpp
@@ -70,6 +70,9 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= constants::zero<decltype(l2)>())
+			return construct<point_t>(A);
+
 		auto t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<dimensionless_t>())
             return construct<point_t>(A);
@@ -87,6 +90,12 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= constants::zero<decltype(l2)>())
+		{
+			t = constants::zero<Dimensionless>();
+			return construct<point_t>(A);
+		}
+
 		t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<Dimensionless>())
             return construct<point_t>(A);
-- 
2.43.0


From 9e46f17eb9f8a0055c6048b96aca67a180776fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 06/56] fix: segment/obb distance used a diagonal instead of
 the last edge

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..2c5b599 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
 		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From d052f164d009dbda3a4ac379de04b857975c5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 07/56] fix: segment/segment distance after Eberly handled one
 region out of nine correctly

---
 .../eberly_segment_segment_distance.hpp       | 270 +-----------------
 1 file changed, 11 insertions(+), 259 deletions(-)

diff --git a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
index 0487dea..b13d788 100644
--- a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
+++ b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
@@ -10,6 +10,9 @@
 #define GEOMETRIX_EBERLY_SEGMENT_SEGMENT_DISTANCE_HPP
 
 #include <geometrix/algorithm/distance/point_point_distance.hpp>
+#include <geometrix/algorithm/distance/point_segment_distance.hpp>
+
+#include <algorithm>
 
 namespace geometrix {
 
@@ -54,269 +57,18 @@ namespace geometrix {
         auto vd = p1 - p3;
         auto d = dot_product(v1, vd);
         auto e = dot_product(-v2, vd);
-        auto det = exterior_product_area(v1, v2);
+        auto det = a*c - b*b;
         auto s = b*e - c*d;
         auto t = b*d - a*e;
 
-        if (det == 0)
-        {
-            if (b > 0)
-            {
-                if (d >= 0)
-                {
-                    s = 0;
-                    t = 0;
-                }
-                else if (-d <= a)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 1;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
-            else
-            {
-                if (-d >= a)
-                {
-                    s = 1;
-                    t = 0;
-                }
-                else if (d <= 0)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 0;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
-        }
-        else
-        {
-            if (s >= 0)
-            {
-                if (s <= det)
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //! Region 0
-                            auto invDet= 1.0 / det;
-                            s *= invDet;
-                            t *= invDet;
-                        }
-                        else
-                        {
-                            //Region 3
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                    }
-                    else
-                    {
-                        //Region 7
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                }
-                else
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //Region 1
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                        else
-                        {
-                            //Region 2
-                            auto tmp= b + d;
-                            if (-tmp < a)
-                            {
-                                t = 1;
-                                if (tmp > 0)
-                                    s = 0;
-                                else
-                                    s = -tmp / a;
-                            }
-                            else
-                            {
-                                s = 1;
-                                auto tmp2= b + e;
-                                if (-tmp2 < c)
-                                {
-                                    if (tmp2 > 0)
-                                        t = 0;
-                                    else
-                                        t = -tmp2 / c;
-                                }
-                                else
-                                    t = 1;
-                            }
-                        }
-                    }
-                    else
-                    {
-                        //Region 8
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-            }
-            else
-            {
-                if (t >= 0)
-                {
-                    if (t <= det)
-                    {
-                        //Region 5
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                    else
-                    {
-                        //Region 4
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-                else
-                {
-                    //Region 6
-                    auto tmp = b + d;
-                    if (-tmp < a)
-                    {
-                        t = 1;
-                        if (tmp > 0)
-                            s = 0;
-                        else
-                            s = -tmp / a;
-                    }
-                    else
-                    {
-                        s = 1;
-                        auto tmp2 = b + e;
-                        if (-tmp2 < c)
-                        {
-                            if (tmp2 > 0)
-                                t = 0;
-                            else
-                                t = -tmp2 / c;
-                        }
-                        else
-                            t = 1;
-                    }
-                }
-            }
-        }
+        //! The distance between the points p1 + s * v1 and p3 + t * v2 is least inside of both segments.
+        if (det > 0 && s >= 0 && s <= det && t >= 0 && t <= det)
+            return magnitude_sqrd((p1 + (s / det) * v1) - (p3 + (t / det) * v2));
 
-        if (s == 0)
-        {
-            if (t == 0)
-                return magnitude_sqrd(p1 - p3);
-            else if (t == 1)
-                return magnitude_sqrd(p1 - p4);
-            else
-                return magnitude_sqrd(p1 - (p3 + t * v2));
-        }
-        else if (s == 1)
-        {
-            if (t == 0)
-                return magnitude_sqrd(p2 - p3);
-            else if (t == 1)
-                return magnitude_sqrd(p2 - p4);
-            else
-                return magnitude_sqrd(p2 - (p3 + t * v2));
-        }
-        else if (t == 0)
-            return magnitude_sqrd(p3 - (p1 + s * v1));
-        else if (t == 1)
-            return magnitude_sqrd(p4 - (p1 + s * v1));
-        else
-            return magnitude_sqrd((p1 + s * v1) - (p3 + t * v2));
+        //! Otherwise it is least at one of the end points.
+        auto dist1 = (std::min)(point_segment_distance_sqrd(p1, s2), point_segment_distance_sqrd(p2, s2));
+        auto dist2 = (std::min)(point_segment_distance_sqrd(p3, s1), point_segment_distance_sqrd(p4, s1));
+        return (std::min)(dist1, dist2);
     }
 }//namespace geometrix;
 
-- 
2.43.0


From 599483d50337cc342b121c099adbc5b42c9f7061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 08/56] fix: polygon/polygon distance ignored the closing
 segments

---
 geometrix/algorithm/distance/polygon_polygon_distance.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..ef5eae6 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -95,7 +95,9 @@ namespace geometrix {
 		using point_t = typename point_sequence_traits<Polygon1>::point_type;
 		using length_t = typename geometric_traits<point_t>::arithmetic_type;
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+		//! The sub-ranges below do not include the closing segments.
+		area_t minDist2 = segment_polygon_distance_sqrd(access1::get_point(p1, access1::size(p1) - 1), access1::get_point(p1, 0), p2, cmp);
+		minDist2 = (std::min)(minDist2, segment_polygon_distance_sqrd(access2::get_point(p2, access2::size(p2) - 1), access2::get_point(p2, 0), p1, cmp));
 
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 976f8c9f1390e7bcf17a3de1fa0b58518a297a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 09/56] fix: polygon/polygon closest points ignored the closing
 segments and vertex 0

---
 .../polygon_polygon_closest_point.hpp         | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..6665f0e 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -103,7 +103,26 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polygon1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        //! The sub-ranges below do not include the closing segments.
+        i1 = access1::size(p1) - 1;
+        area_t minDist2 = segment_polygon_closest_point(access1::get_point(p1, i1), access1::get_point(p1, 0), p2, i2, s, t, c1, c2, cmp);
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t i1l, i2l = access2::size(p2) - 1;
+            auto dl = segment_polygon_closest_point(access2::get_point(p2, i2l), access2::get_point(p2, 0), p1, i1l, tl, sl, c2l, c1l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = i1l;
+                i2 = i2l;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From b9f73b0e9775f8a409c6625e27bb13c2fc1733ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 10/56] fix: polyline/polyline closest points were not set when
 nearest at the first vertices

---
 .../algorithm/distance/polyline_polyline_closest_point.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..041135a 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -102,7 +102,7 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polyline1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        area_t minDist2 = constants::infinity<area_t>();
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 6833f44254dc0159198455f58b055251f901d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 11/56] fix: bresenham traversal named a namespace that does
 not exist

---
 geometrix/algorithm/bresenham_grid_traversal.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geometrix/algorithm/bresenham_grid_traversal.hpp b/geometrix/algorithm/bresenham_grid_traversal.hpp
index 3c8366a..4185517 100644
--- a/geometrix/algorithm/bresenham_grid_traversal.hpp
+++ b/geometrix/algorithm/bresenham_grid_traversal.hpp
@@ -12,6 +12,7 @@
 
 #include <geometrix/primitive/segment_traits.hpp>
 #include <geometrix/arithmetic/arithmetic.hpp>
+#include <cstdlib>
 
 namespace geometrix
 {
@@ -38,7 +39,7 @@ namespace geometrix
         }
         else if (dy == 0) // have a horizontal line
         {
-            xsign = dx / math::abs(dx);
+            xsign = dx / std::abs(dx);
 
             visitor(bx, by);
             while (bx != x2)
@@ -49,7 +50,7 @@ namespace geometrix
         }
         else if (dx == 0) // have vertical line
         {
-            ysign = dy / math::abs(dy);
+            ysign = dy / std::abs(dy);
             visitor(bx, by);
             while (by != y2)
             {
@@ -59,10 +60,10 @@ namespace geometrix
         }
         else // use Bresenham algorithm
         {
-            xsign = dx / math::abs(dx);
-            ysign = dy / math::abs(dy);
-            dx = math::abs(dx);
-            dy = math::abs(dy);
+            xsign = dx / std::abs(dx);
+            ysign = dy / std::abs(dy);
+            dx = std::abs(dx);
+            dy = std::abs(dy);
             // set initial point on line
             visitor(bx, by);
 
-- 
2.43.0


From 27bb0cf508ca33ae1e906e7a208127dd734c8e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 12/56] fix: voxel traversal stepped past the end cell when the
 segment ends on a cell corner

---
 geometrix/algorithm/fast_voxel_grid_traversal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/fast_voxel_grid_traversal.hpp b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
index 0681423..c7439d2 100644
--- a/geometrix/algorithm/fast_voxel_grid_traversal.hpp
+++ b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
@@ -144,7 +144,7 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			if( j == j_end || (i != i_end && tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
@@ -291,7 +291,7 @@ namespace geometrix
         
         while(true)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			if( j == j_end || (i != i_end && tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
                 if (i == static_cast<std::uint32_t>(outI))
-- 
2.43.0


From 0e2b71baa7f1e06838dbafe1448f7558cdd01385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 13/56] fix: orientation traversal ran away on a descending
 segment within one column

---
 geometrix/algorithm/orientation_grid_traversal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index ac34cdc..fb65cd4 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -84,7 +84,10 @@ namespace geometrix
 
             while (j != j_end)
             {
-                ++j;
+                if (j < j_end)
+                    ++j;
+                else
+                    --j;
                 visitor(i, j);
             }
             return;
-- 
2.43.0


From 1eb95416499bab8abf4a5e26ff06a26b8dc07b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 14/56] fix: hole intervals overlapping an earlier one stopped
 the column scan from skipping later holes

---
 geometrix/algorithm/floodfill_grid_traversal.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/floodfill_grid_traversal.hpp b/geometrix/algorithm/floodfill_grid_traversal.hpp
index 58aa61d..fd3e2f1 100644
--- a/geometrix/algorithm/floodfill_grid_traversal.hpp
+++ b/geometrix/algorithm/floodfill_grid_traversal.hpp
@@ -212,6 +212,8 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
 						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
 						{
 							k = bit->second + 1;
@@ -250,6 +252,8 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
 						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
 						{
 							k = bit->second + 1;
-- 
2.43.0


From 1a11342853f120329179f738598a0856f7886885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 15/56] fix: k-d tree range search reported leaves outside the
 range

---
 geometrix/algorithm/kd_tree.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 7d23cfe..e48b150 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -66,10 +66,7 @@ namespace geometrix {
         template <typename T, typename Visitor, typename NumberComparisonPolicy>
         void search( const axis_aligned_bounding_box<T>& range, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
         {
-            if( m_pLeaf )
-                visitor( *m_pLeaf );
-            else
-                search<0>( range, visitor, compare );
+            search<0>( range, visitor, compare );
         }
 
     private:
@@ -163,7 +160,8 @@ namespace geometrix {
         {
             if( m_pLeaf )
             {
-                visitor( *m_pLeaf );
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
                 return;
             }
 
-- 
2.43.0


From e2ef66cf96407a71b99b9d6bb9ac9babde0fa9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 16/56] fix: painters traversal of the BSP tree could not be
 instantiated with any visitor; a point of the boundary touching a cutting
 line from behind was not located on it

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 8726e01..d98ce64 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -545,7 +545,11 @@ namespace geometrix {
 
             if( m_positiveChild != 0 )
             {
-                return m_positiveChild->locate_point( point, compare );
+                //! The boundary may touch the cutting line from the negative side only.
+                point_location_classification location = m_positiveChild->locate_point( point, compare );
+                if( m_negativeChild != 0 && m_negativeChild->locate_point( point, compare ) == e_boundary )
+                    return e_boundary;
+                return location;
             }
             else if( m_negativeChild != 0 )
             {
@@ -578,7 +582,7 @@ namespace geometrix {
     template <typename Point, typename Visitor, typename NumberComparisonPolicy>
     inline void node_bsp_tree_2d< Segment >::painters_traversal( const Point& point, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
     {
-        BOOST_CONCEPT_ASSERT((VisitorConcept<Visitor,Segment>));
+        BOOST_CONCEPT_ASSERT((VisitorConcept<typename std::remove_reference<Visitor>::type,Segment>));
         typedef Segment segment_type;
 
         if( m_negativeChild == 0 && m_positiveChild == 0 )
-- 
2.43.0


From 906d752db5d455c957ff8549edcc6dca863ea7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 17/56] fix: solid-leaf BSP tree: points level with collinear
 walls were called boundary, rays starting on a splitting plane took the wrong
 side, border rays inside a solid stopped at inner planes

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index d564fff..8d15594 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -458,6 +458,8 @@ namespace geometrix {
                     //! side, by falling through to the next case
 
                     coplanarIndices.push_back(sIndices[i]);
+                    //! Splitting by the same plane again would create a solid of no extent on it.
+                    usedBits.set(i);
 
                     //! Attempt to push according to the normal of the smplex.
                     auto smplxPlane = m_planes[sIndices[i]];
@@ -656,13 +658,16 @@ namespace geometrix {
                     auto denom = scalar_projection(d, get_normal_vector(node));
                     //! Compute distance from dividing plane to p.
                     auto dist = get_distance_to_origin(node) - scalar_projection(as_vector(p), get_normal_vector(node));
-                    auto nearIndex = dist > constants::zero<length_t>();
+                    //! When p is on the plane the ray stays on the side it is heading to.
+                    auto nearIndex = dist > constants::zero<length_t>() || (dist == constants::zero<length_t>() && denom < constants::zero<decltype(denom)>());
+                    if (dist == constants::zero<length_t>() && tmin == constants::zero<length_t>())
+                        minIndices.insert(m_indices[node].begin(), m_indices[node].end());
                     //! If denom is zero, ray runs parallel to plane. In this case,
                     //! just fall through to visit the near side (the one p lies on)
                     if (denom != constants::zero<decltype(denom)>())
                     {
                         auto t = dist / denom;
-                        if (constants::zero<length_t>() <= t && t <= tmax)
+                        if (constants::zero<length_t>() < t && t <= tmax)
                         {
                             if (t >= tmin)
                             {
@@ -687,14 +692,14 @@ namespace geometrix {
                     if (is_solid(node))
                     {
                         //! Look at geometry in sIndices and find the closest hit.
-						if (!minIndices.empty() || !onlyBorder)
-						{
-							auto sIndex = find_closest_hit(p, d, minIndices, cmp);
+						auto sIndex = find_closest_hit(p, d, minIndices, cmp);
+						if (!onlyBorder || sIndex != undefined_index::value)
 							return solid_bsp_ray_tracing_result<length_t>(true, tmin, sIndex);
-						}
 
-						auto sIndex = find_closest_hit(p, d, maxIndices, cmp);
-						return solid_bsp_ray_tracing_result<length_t>(true, tmax, sIndex);
+						//! The solid may continue beyond this leaf.
+						sIndex = find_closest_hit(p, d, maxIndices, cmp);
+						if (sIndex != undefined_index::value)
+							return solid_bsp_ray_tracing_result<length_t>(true, tmax, sIndex);
                     }
 
                     //! Exit if no more subtrees to visit, else pop off a node and continue
-- 
2.43.0


From e6fdd9f3cdf874329222490207282f02ab16af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 18/56] fix: copies of the doubly connected edge list lost the
 component graph

---
 geometrix/algorithm/doubly_connected_edge_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/doubly_connected_edge_list.hpp b/geometrix/algorithm/doubly_connected_edge_list.hpp
index 37ce2f1..6550b54 100644
--- a/geometrix/algorithm/doubly_connected_edge_list.hpp
+++ b/geometrix/algorithm/doubly_connected_edge_list.hpp
@@ -79,6 +79,7 @@ namespace geometrix
 		doubly_connected_edge_list(const doubly_connected_edge_list& other)
 			: m_pointVertexMap(other.m_pointVertexMap)
 			, m_halfEdgeList(other.m_halfEdgeList)
+			, m_componentGraph(other.m_componentGraph)
 			, m_polygons(other.m_polygons)
 			, m_polylines(other.m_polylines)
 			, m_compare(other.m_compare)
@@ -87,6 +88,7 @@ namespace geometrix
 		doubly_connected_edge_list(doubly_connected_edge_list&& other)
 			: m_pointVertexMap(std::move(other.m_pointVertexMap))
 			, m_halfEdgeList(std::move(other.m_halfEdgeList))
+			, m_componentGraph(std::move(other.m_componentGraph))
 			, m_polygons(std::move(other.m_polygons))
 			, m_polylines(std::move(other.m_polylines))
 			, m_compare( other.m_compare)
@@ -226,6 +228,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = std::move(other.m_pointVertexMap);
 			m_halfEdgeList = std::move(other.m_halfEdgeList);
+			m_componentGraph = std::move(other.m_componentGraph);
 			m_polygons = std::move(other.m_polygons);
 			m_polylines = std::move(other.m_polylines);
 			m_compare = other.m_compare;
@@ -236,6 +239,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = other.m_pointVertexMap;
 			m_halfEdgeList = other.m_halfEdgeList;
+			m_componentGraph = other.m_componentGraph;
 			m_polygons = other.m_polygons;
 			m_polylines = other.m_polylines;
 			m_compare = other.m_compare;
-- 
2.43.0


From 62fad0849b446dcbdd26eb934840d060435b314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 19/56] fix: polyline split at or beyond the end dropped the
 last segment

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..f7ffe73 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,9 @@ namespace geometrix {
             }
         }
 
+		if (j == size)//! the position is at or beyond the end.
+			a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


From 532122403da60b66bab656892860145265e35f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 20/56] fix: Ramer-Douglas-Peucker measured the first half
 against the wrong chord and lost closed polylines

---
 .../point_sequence/ramer_douglas_peucker_algorithm.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index d21f22f..be96444 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -15,6 +15,7 @@
 #include <geometrix/tensor/vector.hpp>
 #include <geometrix/primitive/line.hpp>
 #include <geometrix/algorithm/distance/point_line_distance.hpp>
+#include <geometrix/algorithm/distance/point_point_distance.hpp>
 
 #include <boost/range/join.hpp>
 
@@ -36,10 +37,13 @@ namespace geometrix {
 			auto index = std::size_t{};
 			if ((start + 2) < end)
 			{
-				line_t l(access::get_point(poly, start), access::get_point(poly, end - 1));
+				const auto& A = access::get_point(poly, start);
+				const auto& B = access::get_point(poly, end - 1);
+				bool isClosed = point_point_distance_sqrd(A, B) == constants::zero<decltype(point_point_distance_sqrd(A, B))>();//! There is no line through coincident points.
+				line_t l(A, isClosed ? access::get_point(poly, start + 1) : B);
 				for (std::size_t i = start + 1; (i + 1) < end; ++i)
 				{
-					auto d = point_line_distance(access::get_point(poly, i), l);
+					length_t d = isClosed ? point_point_distance(access::get_point(poly, i), A) : point_line_distance(access::get_point(poly, i), l);
 					if (d > dmax)
 					{
 						index = i;
@@ -51,7 +55,7 @@ namespace geometrix {
 			// If max distance is greater than epsilon, recursively simplify
 			if (dmax > epsilon)
 			{
-				ramer_douglas_peucker_algorithm(poly, nPoly, start, index, epsilon);
+				ramer_douglas_peucker_algorithm(poly, nPoly, start, index + 1, epsilon);
 				access::pop_back(nPoly);
 				ramer_douglas_peucker_algorithm(poly, nPoly, index, end, epsilon);
 			}
-- 
2.43.0


From 3dac1ffe0dc693acaf5c2d121a512f767dc488ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 21/56] fix: side of a polyline was judged at the far end for
 points before a segment

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..3b06504 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (t <= constants::zero<dimensionless_t>())
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From cc09235a3efe2c688ea30e1c7679dd9cbe6475e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 22/56] fix: collinear and repeated polygon points: wrong
 indices reported, last points kept next to the first

---
 .../remove_collinear_points.hpp               | 58 +++++++++++--------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 9d06796..4a13da7 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -28,25 +28,25 @@ namespace geometrix {
             return cPoints;
 
         Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
+        std::size_t bIndex = 1;//! index of the point at the back of newPoly.
         for (std::size_t i = 2; i < size; ++i)
         {
             const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
             auto& b = access::back(newPoly);
             const auto& c = poly[i];
             if (!is_collinear(a, b, c, cmp))
-            {
-                if (i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
-                {
-                    newPoly.push_back(c);
-                    continue;
-                }
-            }
+                newPoly.push_back(c);
             else
+            {
+                cPoints.insert(bIndex);
                 assign(b, c);//! replace b with c.      
-
-            cPoints.insert(i);
+            }
+            bIndex = i;
         }
 
+        if (access::size(newPoly) > 2 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(poly), cmp))
+            cPoints.insert(bIndex);
+
         return cPoints;
     }
 
@@ -67,14 +67,15 @@ namespace geometrix {
             auto& b = access::back(newPoly);
             const auto& c = poly[i];
             if (!is_collinear(a, b, c, cmp))
-            {
-                if( i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
-                    newPoly.push_back(c);               
-            }
+                newPoly.push_back(c);
             else
                 assign(b, c);//! replace b with c.      
         }
 
+        //! The last point may be collinear with the first.
+        if (access::size(newPoly) > 2 && is_collinear(access::get_point(newPoly, access::size(newPoly) - 2), access::back(newPoly), access::front(poly), cmp))
+            access::pop_back(newPoly);
+
         return newPoly;
     }
 
@@ -120,10 +121,15 @@ namespace geometrix {
             const auto& b = poly[i];
             auto distanceSqrd = point_point_distance_sqrd(a, b);
             if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
-            {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                    newPoly.push_back(b);
-            }
+                newPoly.push_back(b);
+        }
+
+        //! The last point may be adjacent to the first.
+        if (access::size(newPoly) > 1)
+        {
+            auto distanceSqrd = point_point_distance_sqrd(access::back(newPoly), access::front(poly));
+            if (!cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
+                access::pop_back(newPoly);
         }
 
         return newPoly;
@@ -140,6 +146,7 @@ namespace geometrix {
 
         //! TODO: need to generically construct polygons.
         Polygon newPoly{ poly.front() };
+        std::size_t backIndex = 0;//! index of the point at the back of newPoly.
         for (std::size_t i = 1; i < size; ++i)
         {
             auto& a = access::back(newPoly);
@@ -147,14 +154,19 @@ namespace geometrix {
             auto distanceSqrd = point_point_distance_sqrd(a, b);
             if (cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
             {
-                if (i + 1 < size || cmp.greater_than(point_point_distance_sqrd(b, access::front(poly)), constants::zero<decltype(distanceSqrd)>()))
-                {
-                    newPoly.push_back(b);
-                    continue;
-                }
+                newPoly.push_back(b);
+                backIndex = i;
             }
+            else
+                cIndex.insert(i);
+        }
 
-            cIndex.insert(i);
+        //! The last point may be adjacent to the first.
+        if (access::size(newPoly) > 1)
+        {
+            auto distanceSqrd = point_point_distance_sqrd(access::back(newPoly), access::front(poly));
+            if (!cmp.greater_than(distanceSqrd, constants::zero<decltype(distanceSqrd)>()))
+                cIndex.insert(backIndex);
         }
 
         return cIndex;
-- 
2.43.0


From 0a883bb29e839e3519c0b3cf1700c20ba2b286f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 23/56] fix: segment_polygon_intersection compares the
 containment result instead of converting it to bool

---
 .../algorithm/intersection/segment_polygon_intersection.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
index 1da3270..41702b3 100644
--- a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
@@ -57,14 +57,14 @@ namespace geometrix {
                 if (nextIT != intersections.end())
                 {
                     auto test = construct<Segment>(*it, *nextIT);
-                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp))
+                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp) != polygon_containment::exterior)
                         visitor(test);
                 }
             }
 
             return true;
         }
-        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp))
+        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp) != polygon_containment::exterior)
         {
             visitor(seg);
             return true;
-- 
2.43.0


From c1b35a9dedae7157bc8b2eccd93a9564f2a67dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 24/56] fix: polyline_polyline_intersect goes on after the
 first meeting segment unless the visitor stops it

---
 .../intersection/polyline_polyline_intersection.hpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..3ed52b2 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -36,7 +36,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using length_t = typename select_arithmetic_type_from_sequences<typename access1::point_type, typename access2::point_type>::type;
 	using point_type = point<length_t, 2>;
 	
-	bool intersected = false;
+	bool intersected = false, stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +46,10 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			return stop = visitor(iType, i1, j1, i, j, x1, x2);
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From 31720b3033295bd3531d0fd225354186f7b45341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 25/56] fix: a straight vertex is not a self-intersection of a
 polyline

---
 geometrix/algorithm/point_sequence/self_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/self_intersection.hpp b/geometrix/algorithm/point_sequence/self_intersection.hpp
index b664591..242d59d 100644
--- a/geometrix/algorithm/point_sequence/self_intersection.hpp
+++ b/geometrix/algorithm/point_sequence/self_intersection.hpp
@@ -40,7 +40,7 @@ namespace geometrix {
 		{
 			for (std::size_t j = i + 1; (j + 1) < size; ++j)
 			{
-				if (is_intersecting(i, j) && (!adjacent(i, j) || iType == e_overlapping))
+				if (is_intersecting(i, j) && (!adjacent(i, j) || (iType == e_overlapping && !numeric_sequence_equals(xPoints[0], xPoints[1], cmp))))
 				{
 					isIntersecting = true;
 					visit(i, j, iType, xPoints[0], xPoints[1]);
-- 
2.43.0


From f2ac6b79fba90a43fe4d601315aa9c54b64bf01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 26/56] fix: a flat triangle is not a simple polygon

---
 geometrix/algorithm/point_sequence/is_polygon_simple.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/is_polygon_simple.hpp b/geometrix/algorithm/point_sequence/is_polygon_simple.hpp
index 0d35897..22be886 100644
--- a/geometrix/algorithm/point_sequence/is_polygon_simple.hpp
+++ b/geometrix/algorithm/point_sequence/is_polygon_simple.hpp
@@ -12,6 +12,7 @@
 
 #include <geometrix/primitive/point_sequence_traits.hpp>
 #include <geometrix/algorithm/segment_intersection.hpp>
+#include <geometrix/algorithm/orientation.hpp>
 #include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
 #include <geometrix/utility/memoize.hpp>
 #include <geometrix/primitive/polyline.hpp>
@@ -56,6 +57,8 @@ namespace geometrix {
 			return iType != e_non_crossing;
 		} );
 		std::size_t size = access::size( poly );
+		if( size == 3 )//! The edges of a triangle are all adjacent: it folds back on itself only when it is flat.
+			return get_orientation( access::get_point( poly, 0 ), access::get_point( poly, 1 ), access::get_point( poly, 2 ), cmp ) != oriented_collinear;
 		auto next = [size]( std::size_t i ){ return (i + 1) % size; };
 		for( std::size_t i = size - 1, j = 0; j < size; i = j++ ){
 			for( std::size_t k = next( j ), l = next( k ); l != i; k = l, l = next( l ) ){
@@ -75,6 +78,8 @@ namespace geometrix {
 		typedef typename access::point_type point_type;
 		std::size_t size = access::size( poly );
 		GEOMETRIX_ASSERT( size > 2 );
+		if( size == 3 )//! The edges of a triangle are all adjacent: it folds back on itself only when it is flat.
+			return get_orientation( access::get_point( poly, 0 ), access::get_point( poly, 1 ), access::get_point( poly, 2 ), cmp ) != oriented_collinear;
 
 		auto next = [size]( std::size_t i ){ return (i + 1) % size; };
 		auto adjacent = [&next](std::size_t i, std::size_t j) { return next(i) == j || next(j) == i; };
-- 
2.43.0


From 9b1724776c7a1892d4f52cfd53b3e7b53fc4da51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 27/56] fix: visible_vertices_mesh_search drops empty view
 cones and keeps vertices on the rim of a cone

---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index 2f9751f..bb72dbd 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -152,11 +152,11 @@ namespace geometrix
 				
 				if (!allAround)
 				{
-					vecLo = is_vector_between(item.lo, item.hi, vecLo, false, cmp) ? vecLo : item.lo;
-					vecHi = is_vector_between(item.lo, item.hi, vecHi, false, cmp) ? vecHi : item.hi;
+					vecLo = is_vector_between(item.lo, item.hi, vecLo, true, cmp) ? vecLo : item.lo;
+					vecHi = is_vector_between(item.lo, item.hi, vecHi, true, cmp) ? vecHi : item.hi;
 				}
 
-				if (get_orientation(vecHi, vecLo, cmp) == geometrix::oriented_left)
+				if (get_orientation(vecHi, vecLo, cmp) != geometrix::oriented_right)//! Nothing is visible through an empty cone.
 					return boost::none;
 			}
 			else
-- 
2.43.0


From fb8126630922ff72acd3816fc1bf724c292ff93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:14 +0000
Subject: [PATCH 28/56] fix: the cumulative triangle weights of mesh_2d end at
 one

---
 geometrix/algorithm/mesh_2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/mesh_2d.hpp b/geometrix/algorithm/mesh_2d.hpp
index bf3743d..0af8a1c 100644
--- a/geometrix/algorithm/mesh_2d.hpp
+++ b/geometrix/algorithm/mesh_2d.hpp
@@ -198,6 +198,10 @@ namespace geometrix
                 last += r;
                 m_integral.push_back(last);
             }
+
+            //! The sum may round to less than the whole.
+            if (!m_integral.empty())
+                m_integral.back() = 1.0;
         }
 
         //! Calculate a random interior position. Parameters rT, r1, and r2 should be uniformly distributed random numbers in the range of [0., 1.].
-- 
2.43.0


From 9a4d9de8a37724fc292babfe223845c591d3292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 29/56] fix: slerp names its dependent type so that it compiles

---
 geometrix/arithmetic/vector/slerp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/arithmetic/vector/slerp.hpp b/geometrix/arithmetic/vector/slerp.hpp
index 6f4292b..4d0d68a 100644
--- a/geometrix/arithmetic/vector/slerp.hpp
+++ b/geometrix/arithmetic/vector/slerp.hpp
@@ -20,7 +20,7 @@ namespace geometrix {
         template <typename Vector1, typename Vector2, typename Scalar, typename EnableIf = void>
         struct slerp
         {
-            using dimensionless_t = dimensionless_type_of<Vector1>::type;
+            using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
             using type = vector<dimensionless_t, dimension_of<Vector1>::value>;
         };
     }//namespace result_of;
-- 
2.43.0


From 88695ed4518421272c4fd3bbfba753447478ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 30/56] fix: pseudo_angle stays in range for a negative zero
 ordinate

---
 geometrix/utility/vector_angle_compare.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geometrix/utility/vector_angle_compare.hpp b/geometrix/utility/vector_angle_compare.hpp
index 7c555cb..8ed2db5 100644
--- a/geometrix/utility/vector_angle_compare.hpp
+++ b/geometrix/utility/vector_angle_compare.hpp
@@ -26,9 +26,8 @@ namespace geometrix {
     {
         GEOMETRIX_ASSERT(!is_null(v));
         using std::abs;
-        using std::copysign;
-        auto result = copysign(1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v))), get<1>(v));
-        return (get<1>(v) < 0) ? 4 + result : result;
+        auto result = 1.0 - get<0>(v) / (abs(get<0>(v))+abs(get<1>(v)));
+        return (get<1>(v) < 0) ? 4 - result : result;
     }
 
     template <typename NumberComparisonPolicy>
-- 
2.43.0


From 51b59fffa52e9c9ec87ff44646ed3a456a5dffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 31/56] fix: bisect halves the angle for vectors of different
 lengths and for every antiparallel pair

---
 geometrix/arithmetic/vector/bisect.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..f619a0b 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -34,19 +34,20 @@ namespace geometrix {
         using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
 		auto nlo = normalize(lo);
 		auto nhi = normalize(hi);
-		auto dp = dot_product(nlo, nhi);
-		if (dp > constants::negative_one<decltype(dp)>() && dp < constants::one<decltype(dp)>()) 
+		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
+		if(orientation != oriented_collinear)
 		{
 			auto one_half = constants::one_half<dimensionless_t>();
-			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
+				return normalize(one_half * (nlo + nhi));
+			return normalize(one_half * (-nlo - nhi));
 		}
-		else if (dp == constants::negative_one<decltype(dp)>())
+
+		auto dp = dot_product(nlo, nhi);
+		if (dp < constants::zero<decltype(dp)>())
 			return right_normal(nhi);
 
-		return -hi;
+		return -nhi;
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -58,10 +59,12 @@ namespace geometrix {
         using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
         auto one_half = constants::one_half<dimensionless_t>();
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
+		auto nlo = normalize(lo);
+		auto nhi = normalize(hi);
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(one_half * (nlo + nhi));
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(one_half * (-nlo - nhi));
     }
 
 }//! namespace geometrix;
-- 
2.43.0


From caa122ed1cacc571b91022cd673ee30cfab48722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:38 +0000
Subject: [PATCH 32/56] fix: is_segment_in_range_2d misses no segment across
 wide ranges, takes none behind the origin, and reports the part in range

---
 geometrix/algorithm/is_segment_in_range.hpp | 116 +++++++-------------
 1 file changed, 42 insertions(+), 74 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index e01b34b..7c64fda 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -16,6 +16,7 @@
 #include <geometrix/algebra/exterior_product.hpp>
 #include <geometrix/algebra/dot_product.hpp>
 #include <geometrix/algebra/expression.hpp>
+#include <geometrix/algorithm/distance/point_point_distance.hpp>
 #include <geometrix/algorithm/line_intersection.hpp>
 #include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
 
@@ -72,13 +73,13 @@ namespace geometrix {
 */
 
 		direct_comparison_policy directCmp;
-		//! Special case where both segment endpoints lay on a range vector.
-		//! In that case the segment either is inside the range or outside.
+		//! Special case where both segment endpoints lay on the lines of the range vectors.
+		//! Neither is inside the range, so both are behind the origin and the segment falls outside.
 		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_left;
+			return false;
 		
 		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>())
-			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_right;
+			return false;
 		
 		//! Test the intersections		
 		return ray_segment_intersection(origin, normalize(lo), segment, directCmp) != e_non_crossing || ray_segment_intersection(origin, normalize(hi), segment, directCmp) != e_non_crossing;
@@ -118,83 +119,50 @@ namespace geometrix {
 			return true;
 		}
 
-		if( startIn != endIn )
-		{
-			Point xPointLo, xPointHi;
-			intersection_type loIType = line_segment_intersect( origin, origin + lo, segment, xPointLo, cmp );			
-			if( loIType == e_crossing )
-			{
-				xPoints[0] = xPointLo;
-				xPoints[1] = startIn ? get_start( segment ) : get_end( segment );
-				return true;
-			}
-			else if( loIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
-
-			intersection_type hiIType = line_segment_intersect( origin, origin + hi, segment, xPointHi, cmp );
-			if( (hiIType == e_crossing || hiIType == e_endpoint) )
-			{
-				if( loIType == e_endpoint )
-					xPoints[0] = xPointLo;
-				else
-					xPoints[0] = startIn ? get_start( segment ) : get_end( segment );
-				xPoints[1] = xPointHi;				
-				return true;
-			}
-			else if( hiIType == e_overlapping )
-			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
-
+		//! If both ends of the segment are left of the hi or right of the lo then it falls outside the range.
+		if ((detHiSegStart > constants::zero<area_t>() && detHiSegEnd > constants::zero<area_t>()) || (detLoSegStart < constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>()))
 			return false;
-		}
 
-		//! Are both points outside the range?
-		const auto dotHiSegStart = dot_product( hi, vSegStart );
-		const auto dotLoSegEnd = dot_product( lo, vSegEnd );
-		const auto dotLoSegStart = dot_product( lo, vSegStart );
-		const auto dotHiSegEnd = dot_product( hi, vSegEnd );
+		//! The segment enters and leaves the range through its rays.
+		Point xPointLo[2], xPointHi[2];
+		length_t t;
+		intersection_type loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
+		intersection_type hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
 
-		//! Check if start is outside of the hi end and end is outside the lo end.
-		//! or check if end is outside the hi end and start is outside the lo end.
-		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() && dotHiSegStart > constants::zero<area_t>() && dotLoSegEnd > constants::zero<area_t>() ) ||
-			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() && dotHiSegEnd > constants::zero<area_t>() && dotLoSegStart > constants::zero<area_t>() ) )
+		if( startIn != endIn )
 		{
-			//! Crosses both in this case.
-			Point xPointLo[2], xPointHi[2];
-			length_t t;
-			intersection_type loIType = ray_segment_intersection( origin, normalize(lo), segment, t, xPointLo, cmp );
-			intersection_type hiIType = ray_segment_intersection( origin, normalize(hi), segment, t, xPointHi, cmp );
-			if( (loIType == e_crossing || loIType == e_endpoint) && (hiIType == e_crossing || hiIType == e_endpoint) )
-			{
-				xPoints[0] = xPointLo[0];
-				xPoints[1] = xPointHi[0];
-				return true;
-			}
-			else if( loIType == e_overlapping || hiIType == e_overlapping )
+			//! The part inside goes from the contained end to the farthest contact with a ray.
+			Point inside = startIn ? get_start( segment ) : get_end( segment );
+			xPoints[0] = inside;
+			xPoints[1] = inside;
+			auto dist = constants::zero<area_t>();
+			auto extend = [&]( const Point& x, std::size_t to )
 			{
-				xPoints[0] = get_start( segment );
-				xPoints[1] = get_start( segment );
-				return true;
-			}
+				auto d = point_point_distance_sqrd( inside, x );
+				if( d > dist )
+				{
+					dist = d;
+					xPoints[to] = x;
+					xPoints[1 - to] = inside;
+				}
+			};
+			if( loIType != e_non_crossing )
+				extend( xPointLo[0], 0 );
+			if( loIType == e_overlapping )
+				extend( xPointLo[1], 0 );
+			if( hiIType != e_non_crossing )
+				extend( xPointHi[0], 1 );
+			if( hiIType == e_overlapping )
+				extend( xPointHi[1], 1 );
+			return true;
 		}
-		else 
+
+		//! Both ends are outside the range: crosses both rays or neither.
+		if( loIType != e_non_crossing && hiIType != e_non_crossing )
 		{
-			//! Special case where both segment endpoints lay on a range vector.
-			//! In that case the segment either is inside the range or outside.
-			if ((detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_left) ||
-				(detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_right))
-			{
-				xPoints[0] = get_start(segment);
-				xPoints[1] = get_start(segment);
-				return true;
-			}
+			xPoints[0] = xPointLo[0];
+			xPoints[1] = xPointHi[0];
+			return true;
 		}
 
 		//! The segment falls outside of the range.
-- 
2.43.0


From ed2bd5d0984f20812531152847a78669a36482b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 33/56] fix: tangential rays and segments no longer take the
 square root of a rounding error; the contact of a degenerate segment is
 reported

---
 geometrix/algorithm/intersection/ray_sphere_intersection.hpp | 4 +++-
 .../algorithm/intersection/segment_sphere_intersection.hpp   | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
index 5f830b4..16db439 100644
--- a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
@@ -39,7 +39,9 @@ namespace geometrix {
 
 		// Ray now found to intersect sphere, compute smallest t value of intersection 
 		using std::sqrt;
-		t = -b - sqrt(discr);
+		t = -b;
+		if (discr > 0)//! A tangential ray may have a discriminant which is negative by rounding.
+			t -= sqrt(discr);
 
 		// If t is negative, ray started inside sphere so clamp t to zero 
 		if (cmp.less_than(t, 0))
diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 1fc54c8..51f02ab 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -94,6 +94,7 @@ namespace geometrix {
         if (cmp.equals(length, 0))
         {
             t = 0;
+            assign(q, sa);
             return cmp.less_than_or_equal(c, 0);
         }
 
@@ -112,7 +113,9 @@ namespace geometrix {
 
         // segment now found to intersect sphere, compute smallest t value of intersection 
         using std::sqrt;
-        t = -b - sqrt(discr);
+        t = -b;
+        if (discr > 0)//! A tangential segment may have a discriminant which is negative by rounding.
+            t -= sqrt(discr);
         if (cmp.greater_than(t, length))
             return false;
 
-- 
2.43.0


From 5b35a77afa523e466e2e673aa066e0e712ea3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 34/56] fix: tangent circles have one common point whatever the
 rounding

---
 .../algorithm/intersection/circle_circle_intersection.hpp     | 4 +++-
 .../algorithm/intersection/sphere_sphere_intersection.hpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 0f78e45..cd52317 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -74,7 +74,9 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+        bool isTangent = cmp.equals(d, get_radius(A) + get_radius(B)) || cmp.equals(d, abs(get_radius(A) - get_radius(B)));
+        auto h = !isTangent && h2 > constants::zero<decltype(h2)>() ? sqrt(h2) : constants::zero<length_t>();
 
         vector_t v = get_center(B) - get_center(A);
 
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 80ae0cf..4b07b99 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -74,7 +74,9 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+        bool isTangent = cmp.equals(d, get_radius(A) + get_radius(B)) || cmp.equals(d, abs(get_radius(A) - get_radius(B)));
+        auto h = !isTangent && h2 > constants::zero<decltype(h2)>() ? sqrt(h2) : constants::zero<length_t>();
 
         vector_t v = get_center(B) - get_center(A);
 
-- 
2.43.0


From d74b9e6d8316b353cf734a88330c1d2f3e23d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 35/56] fix: segments which start inside a capsule, or run
 parallel to its axis, are classified

---
 .../segment_capsule_intersection.hpp            | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 15532e3..3bbe042 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -14,6 +14,7 @@
 #include <geometrix/algebra/algebra.hpp>
 #include <geometrix/tensor/vector.hpp>
 #include <geometrix/primitive/sphere.hpp>
+#include <geometrix/algorithm/distance/point_segment_distance.hpp>
 #include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
 
 namespace geometrix {
@@ -43,11 +44,19 @@ namespace geometrix {
 		if (md > dd && md + nd > dd)
 			return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(q, r), t, xPoint, cmp); // Segment outside 'q' side of capsule 
 				
+		// Test if the segment starts inside the capsule
+		if (cmp.less_than_or_equal(point_segment_distance_sqrd(sa, p, q), r * r))
+		{
+			t = 0;
+			assign(xPoint, sa);
+			return true;
+		}
+
 		ArithmeticType mn = dot_product(m, n);
 		ArithmeticType a = dd * nn - nd * nd; 
 		ArithmeticType k = dot_product(m, m) - r * r; 
 		ArithmeticType c = dd * k - md * md; 
-		if (cmp.less_than(abs(a), 0))
+		if (cmp.equals(a, 0))
 		{
 			// Segment runs parallel to capsule axis
 			if (c > 0)
@@ -57,12 +66,12 @@ namespace geometrix {
 			if (md < 0)
 			{
 				//t = -mn / nn;// Intersect segment against 'p' endcap 
-				segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp); // Segment outside 'p' side of capsule
+				return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(p, r), t, xPoint, cmp); // Segment outside 'p' side of capsule
 			}
 			else if (md > dd)
 			{
 				//t = (nd - mn) / nn;// Intersect segment against 'q' endcap 
-				segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(q, r), t, xPoint, cmp);
+				return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(q, r), t, xPoint, cmp);
 			}
 			else
 			{
@@ -79,6 +88,8 @@ namespace geometrix {
 			return false; // No real roots; no intersection
 		
 		ArithmeticType t0 = t = (-b - sqrt(discr)) / a;
+		if (t < 0)
+			t = 0;//! The segment starts inside the slab of the capsule, but beyond one of its ends.
 		if (md + t * nd < 0) 
 		{
 			// Intersection outside capsule on 'p' side
-- 
2.43.0


From fdc9f4ea35271fa19d92d33be435f5951b725cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 36/56] fix: a sphere which starts near a box is located where
 it is, not where its ray leaves the expanded box

---
 .../moving_sphere_aabb_intersection.hpp           | 11 ++++++++++-
 .../moving_sphere_obb_intersection.hpp            | 15 ++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..64fccb5 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -13,6 +13,7 @@
 #include <geometrix/primitive/axis_aligned_bounding_box.hpp>
 #include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
 #include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
+#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
 #include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
 
 /////////////////////////////////////////////////////////////////////////////
@@ -82,8 +83,16 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray 
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
+        auto rayResult = ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp);
+        if (!rayResult)
             return moving_sphere_aabb_intersection_result();
+        if (rayResult.is_origin_inside())
+        {
+            // The ray enters e nowhere: p must be where the sphere is, and not where the ray leaves e.
+            if (sphere_aabb_intersection(s, a, q))
+                return moving_sphere_aabb_intersection_result(true, false, false, true, false);
+            assign(p, get_center(s));
+        }
 
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..a918aaf 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -14,6 +14,8 @@
 #include <geometrix/primitive/oriented_bounding_box.hpp>
 #include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
 #include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
+#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
+#include <geometrix/algorithm/distance/point_obb_distance.hpp>
 #include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
 #include <geometrix/algorithm/rotation.hpp>
 
@@ -94,8 +96,19 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
+        auto rayResult = ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp);
+        if (!rayResult)
             return moving_sphere_obb_intersection_result();
+        if (rayResult.is_origin_inside())
+        {
+            // The ray enters e nowhere: p must be where the sphere is, and not where the ray leaves e.
+            if (sphere_aabb_intersection(rs, a))
+            {
+                assign(q, point_obb_closest_point(get_center(s), obb));
+                return moving_sphere_obb_intersection_result(true, false, false, true, false);
+            }
+            assign(p, get_center(rs));
+        }
 
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
-- 
2.43.0


From 3364e047427765d2543a2e0f8793b625bf3e9492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 37/56] fix: the extreme vertex of any convex polygon is found

---
 .../detail/separating_axis_common.hpp         | 29 +++++--------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
index d32c109..e7ac9f9 100644
--- a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
+++ b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
@@ -37,32 +37,17 @@ namespace geometrix {
 			using length_t = typename arithmetic_type_of<point_type>::type;
 			using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
-			std::size_t i0 = 0;
-			std::size_t i1 = 0;
-			while(true)
+			//! The edges which ascend along d are a contiguous run, but nothing is known of where it begins or how long it is:
+			//! the ascent at a vertex doesn't tell on which side of it a bisection would have to search.
+			std::size_t index = 0;
+			for(std::size_t i = 1; i < access::size(c); ++i)
 			{
-				std::size_t mid = get_middle_index(i0, i1, access::size(c));
-				std::size_t next = (mid + 1) % access::size(c);
-				vector_t e = access::get_point(c, next) - access::get_point(c, mid);
+				vector_t e = access::get_point(c, i) - access::get_point(c, index);
 				auto de = dot_product(d, e);
 				if(cmp.greater_than(de, constants::zero<decltype(de)>()))
-				{
-					if(mid != i0)
-						i0 = mid;
-					else
-						return i1;
-				}
-				else
-				{
-					std::size_t prev = (mid + access::size(c) - 1) % access::size(c);
-					e = access::get_point(c, mid) - access::get_point(c, prev);
-					de = dot_product(d, e);
-					if(cmp.less_than(de, constants::zero<decltype(de)>()))
-						i1 = mid;
-					else
-						return mid;
-				}
+					index = i;
 			}
+			return index;
 		}
 
 		template <typename Polygon, typename Vector, typename Length, typename NumberComparisonPolicy>
-- 
2.43.0


From a1aff30ca4f736e3c67485d24093d5a2991dd957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 38/56] fix: convex polygons are separated by their projections
 whatever their winding

---
 .../separating_axis_convex_polygons.hpp       | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
index 3bee8fc..93834a3 100644
--- a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
+++ b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
@@ -22,24 +22,29 @@ namespace geometrix {
 		using point_type = typename access1::point_type;
         using length_t = typename arithmetic_type_of<point_type>::type;
 		using vector_t = vector<length_t, dimension_of<point_type>::value>;
+		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
+
+		//! The projections are compared in full: which side of an edge is the outside depends on the winding of its polygon.
+		auto min1 = area_t{};
+		auto max1 = area_t{};
+		auto min2 = area_t{};
+		auto max2 = area_t{};
 
 		for(std::size_t i0 = 0, i1 = access1::size(p1) - 1; i0 < access1::size(p1); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
-			std::size_t min = get_extreme_index(p2, -d, cmp);
-			vector_t diff = access2::get_point(p2, min) - access1::get_point(p1, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.greater_than_or_equal(min2, max1) || cmp.greater_than_or_equal(min1, max2))
 				return false;
 		}
 
 		for(std::size_t i0 = 0, i1 = access2::size(p2) - 1; i0 < access2::size(p2); i1 = i0, ++i0)
 		{
 			auto d = left_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
-			std::size_t min = get_extreme_index(p1, -d, cmp);
-			vector_t diff = access1::get_point(p1, min) - access2::get_point(p2, i0);
-			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			compute_interval(p1, d, min1, max1, cmp);
+			compute_interval(p2, d, min2, max2, cmp);
+			if(cmp.greater_than_or_equal(min2, max1) || cmp.greater_than_or_equal(min1, max2))
 				return false;
 		}
 
-- 
2.43.0


From 2a7ca666c0cb58adcbd20563d7424b007a9fac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 39/56] fix: convex intersection of contained, vertex-touching
 and vertex-sharing polygons

---
 .../convex_polygon_polygon_intersection.hpp        | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index ded477f..619ee1c 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -81,17 +81,22 @@ namespace geometrix {
 
             point_t xpoints[2];
             auto iType = segment_segment_intersection(get_point1(a1), get_point1(a), get_point2(b1), get_point2(b), xpoints, cmp);
+            //! Collinear segments which only share an endpoint meet in a point, not in a face.
+            if (iType == e_overlapping && numeric_sequence_equals_2d(xpoints[0], xpoints[1], cmp))
+                iType = e_endpoint;
             if (iType == e_crossing || iType == e_endpoint)
             {
                 visitor(xpoints[0]);
                 ++nVisited;
 
-                if (inflag == unknown && nVisited == 1)
-                    aa = ba = 0;
+                bool wasUnknown = inflag == unknown;
                 if (aHB == oriented_left)
                     inflag = pgon1_in;
                 else if (bHA == oriented_left)
                     inflag = pgon2_in;
+                //! A full turn is due from the point where it becomes known which polygon is inside: the first may not tell.
+                if (wasUnknown && (nVisited == 1 || inflag != unknown))
+                    aa = ba = 0;
             } 
             else if (iType == e_overlapping && dot_product(A, B) < area_t {})
             {
@@ -154,13 +159,12 @@ namespace geometrix {
             }
         } while((aa < n || ba < m) && aa < n2 && ba < m2);
 
-        if (inflag == unknown) 
+        if (inflag == unknown && nVisited == 0)
         {
-            GEOMETRIX_ASSERT(nVisited == 0);
             //! Check if one vertex of either is inside.
             if (point_in_polygon(get_point1(0), pgon2)) 
             {
-                for (auto i = 0ULL; i < m; ++i)
+                for (auto i = 0ULL; i < n; ++i)
                     visitor(get_point1(i));
                 return polygon_intersection_type::overlapping;
             }
-- 
2.43.0


From 0f95818dc58321d64110a2cbc91ba38186923db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 40/56] fix: evaluate vector and point expressions completely
 before overwriting their operands

---
 geometrix/tensor/detail/numeric_sequence_n.hpp | 12 +++++++++---
 geometrix/tensor/detail/point_n.hpp            |  8 ++++++--
 geometrix/tensor/detail/vector_n.hpp           |  8 ++++++--
 geometrix/tensor/numeric_sequence.hpp          |  8 ++++++--
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/geometrix/tensor/detail/numeric_sequence_n.hpp b/geometrix/tensor/detail/numeric_sequence_n.hpp
index 66f56ce..d4985d7 100644
--- a/geometrix/tensor/detail/numeric_sequence_n.hpp
+++ b/geometrix/tensor/detail/numeric_sequence_n.hpp
@@ -137,9 +137,11 @@ public:
     {
         //! Helper macro to build access traits code.
         #define GEOMETRIX_ASSIGN_ACCESS_EXPR_( z, i, e ) \
-            (*this)[i] = geometrix::get<i>( e );         \
+            r[i] = geometrix::get<i>( e );               \
         /***/
+        numeric_array r = m_sequence;//! The expression may refer to this sequence.
         BOOST_PP_REPEAT( DIMENSION, GEOMETRIX_ASSIGN_ACCESS_EXPR_, e )
+        m_sequence = r;
         return *this;
         #undef GEOMETRIX_ASSIGN_ACCESS_EXPR
     }
@@ -151,7 +153,9 @@ protected:
     numeric_sequence& operator+= ( const Expr& p )
     {
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        numeric_array r = m_sequence;//! The expression may refer to this sequence.
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( r, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        m_sequence = r;
         return *this;
     }
 
@@ -161,7 +165,9 @@ protected:
     numeric_sequence& operator-= ( const Expr& p )
     {
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        numeric_array r = m_sequence;//! The expression may refer to this sequence.
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( r, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        m_sequence = r;
         return *this;
     }
     // numeric_sequence operator-(numeric_sequence, const numeric_sequence&) automatically
diff --git a/geometrix/tensor/detail/point_n.hpp b/geometrix/tensor/detail/point_n.hpp
index cb42877..a6713bb 100644
--- a/geometrix/tensor/detail/point_n.hpp
+++ b/geometrix/tensor/detail/point_n.hpp
@@ -99,15 +99,19 @@ struct construction_policy< point<N, DIMENSION> >
 template <typename T>
 struct assignment_policy < point< T, DIMENSION> >
 {
-    static void assign(point<T, DIMENSION>& v, BOOST_PP_ENUM_PARAMS(DIMENSION, const T& a))
+    static void assign(point<T, DIMENSION>& u, BOOST_PP_ENUM_PARAMS(DIMENSION, const T& a))
     {
+        point<T, DIMENSION> v(u);//! The arguments may refer to u.
         BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_ARG_VALUE_AT_INDEX_, _);
+        u = v;
     }
 
     template <typename NumericSequence>
-    static void assign(point<T, DIMENSION>& v, const NumericSequence& args)
+    static void assign(point<T, DIMENSION>& u, const NumericSequence& args)
     {
+        point<T, DIMENSION> v(u);//! The arguments may refer to u.
         BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_VALUE_AT_INDEX_, args);
+        u = v;
     }
 };
 
diff --git a/geometrix/tensor/detail/vector_n.hpp b/geometrix/tensor/detail/vector_n.hpp
index 5665397..c3ed4f9 100644
--- a/geometrix/tensor/detail/vector_n.hpp
+++ b/geometrix/tensor/detail/vector_n.hpp
@@ -117,15 +117,19 @@ struct construction_policy< vector< T, DIMENSION> >
 template <typename T>
 struct assignment_policy < vector< T, DIMENSION> >
 {
-    static void assign(vector<T, DIMENSION>& v, BOOST_PP_ENUM_PARAMS(DIMENSION, const T& a))
+    static void assign(vector<T, DIMENSION>& u, BOOST_PP_ENUM_PARAMS(DIMENSION, const T& a))
     {
+        vector<T, DIMENSION> v(u);//! The arguments may refer to u.
         BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_ARG_VALUE_AT_INDEX_, _);
+        u = v;
     }
 
     template <typename NumericSequence>
-    static void assign(vector<T, DIMENSION>& v, const NumericSequence& args)
+    static void assign(vector<T, DIMENSION>& u, const NumericSequence& args)
     {
+        vector<T, DIMENSION> v(u);//! The arguments may refer to u.
         BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_VALUE_AT_INDEX_, args);
+        u = v;
     }
 };
 
diff --git a/geometrix/tensor/numeric_sequence.hpp b/geometrix/tensor/numeric_sequence.hpp
index 4ce8d91..c5068dc 100644
--- a/geometrix/tensor/numeric_sequence.hpp
+++ b/geometrix/tensor/numeric_sequence.hpp
@@ -124,15 +124,19 @@ template <>
 struct assignment_policy< Sequence >                                                            \
 {                                                                                               \
     template < BOOST_PP_ENUM_PARAMS( Dimension,typename A) >                                    \
-    static void assign(Sequence& v, BOOST_PP_ENUM( Dimension, GEOMETRIX_PARAM_ARG_, Sequence ) )\
+    static void assign(Sequence& u, BOOST_PP_ENUM( Dimension, GEOMETRIX_PARAM_ARG_, Sequence ) )\
     {                                                                                           \
+        Sequence v = u;                                                                         \
         BOOST_PP_REPEAT(Dimension, GEOMETRIX_SET_ARG_VALUE_AT_INDEX_, _);                       \
+        u = v;                                                                                  \
     }                                                                                           \
                                                                                                 \
     template <typename NumericSequence>                                                         \
-    static void assign(Sequence& v, const NumericSequence& args)                                \
+    static void assign(Sequence& u, const NumericSequence& args)                                \
     {                                                                                           \
+        Sequence v = u;                                                                         \
         BOOST_PP_REPEAT(Dimension, GEOMETRIX_SET_VALUE_AT_INDEX_, args);                        \
+        u = v;                                                                                  \
     }                                                                                           \
 };                                                                                              \
 }                                                                                               \
-- 
2.43.0


From 5d45837fcd1ed2acb07c9a22509d7bc18bc5086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 41/56] fix: keep the fraction when a fixed-point number is
 converted to a floating type

---
 geometrix/numeric/fixed_point_traits.hpp | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 52f30ab..d33dc8a 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -19,6 +19,7 @@
 #include <boost/static_assert.hpp>
 #include <boost/concept_check.hpp>
 #include <boost/numeric/conversion/cast.hpp>
+#include <boost/mpl/if.hpp>
 #include <boost/mpl/int.hpp>
 #include <boost/mpl/greater.hpp>
 #include <boost/utility/enable_if.hpp>
@@ -33,6 +34,15 @@
 
 namespace geometrix {
 
+    namespace detail
+    {
+        //! The type a scaled value is divided in: a floating target must not lose the fraction.
+        template <typename T, typename B>
+        struct scale_quotient
+            : boost::mpl::if_<boost::is_float<T>, T, typename widen<B>::type>
+        {};
+    }//! namespace detail;
+
     template <int Radix, int Exp>
     struct generic_compile_time_scale_policy
     {
@@ -52,7 +62,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<Radix, Exp>::value );
+            return boost::numeric_cast<T>( static_cast<typename detail::scale_quotient<T, B>::type>( v ) / power_c<Radix, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -66,7 +76,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( static_cast<typename detail::scale_quotient<T, B>::type>( v ) / integral_pow( Radix, Exp ) );
         }
     };
 
@@ -92,7 +102,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, m_scale ) );
+            return boost::numeric_cast<T>( static_cast<typename detail::scale_quotient<T, B>::type>( v ) / integral_pow( Radix, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -106,7 +116,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( static_cast<typename detail::scale_quotient<T, B>::type>( v ) / integral_pow( Radix, Exp ) );
         }
 
         int m_scale;
@@ -142,7 +152,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( static_cast<T>( v ) / power_c<2, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -168,7 +178,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( static_cast<T>( v ) / power_c<2, Exp>::value );
         }
     };
 
@@ -205,7 +215,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / m_scale );
+            return boost::numeric_cast<T>( static_cast<T>( v ) / integral_pow( 2, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -232,7 +242,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / Exp );
+            return boost::numeric_cast<T>( static_cast<T>( v ) / integral_pow( 2, Exp ) );
         }
 
         int m_scale;
-- 
2.43.0


From 0508d1f0e081681601e21429fa51e1723eaba74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 42/56] fix: give the left operand of - and / the run-time
 scale of the fixed-point right operand

---
 geometrix/numeric/fixed_point.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 02dafe6..8b020f2 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -398,7 +398,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator -(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) -= rhs;
+        return fixed_point<Traits>(lhs, rhs) -= rhs;
     }
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(fixed_point<Traits> lhs, const U& rhs)
@@ -409,7 +409,7 @@ namespace geometrix {
     template<typename Traits, typename U, typename std::enable_if<std::is_arithmetic<U>::value, int>::type = 0>
     inline fixed_point<Traits> operator /(const U& lhs, const fixed_point<Traits>& rhs)
     {
-        return fixed_point<Traits>(lhs) /= rhs;
+        return fixed_point<Traits>(lhs, rhs) /= rhs;
     }
 
     template<typename Traits>
-- 
2.43.0


From a65a897435434f900576fa94f72aa40d642c0e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 43/56] fix: straight corners of polyline_offset kept an unset
 point

---
 geometrix/algorithm/point_sequence/polyline_offset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/polyline_offset.hpp b/geometrix/algorithm/point_sequence/polyline_offset.hpp
index 070a599..b6bded5 100644
--- a/geometrix/algorithm/point_sequence/polyline_offset.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_offset.hpp
@@ -326,8 +326,10 @@ namespace geometrix {
 					auto pOffsetD = construct<point_type>(D + vNormalCD);
 
 					point_type xPoint;
-					line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
-					result.push_back(xPoint);
+					if (line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp) == e_crossing)
+						result.push_back(xPoint);
+					else //! the segments run along one line and so do their offsets.
+						result.push_back(pOffsetB);
 
 					A = C;
 					B = D;
-- 
2.43.0


From e1d734a62e9dfba4829206a0f9d6f902b5b1a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 44/56] fix: set_outer and add_hole of polygon_with_holes
 emptied a named polygon

---
 geometrix/primitive/polygon_with_holes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/polygon_with_holes.hpp b/geometrix/primitive/polygon_with_holes.hpp
index a69bb53..4c75387 100644
--- a/geometrix/primitive/polygon_with_holes.hpp
+++ b/geometrix/primitive/polygon_with_holes.hpp
@@ -94,7 +94,7 @@ namespace geometrix {
         template <typename OuterPolygon>
         void set_outer(OuterPolygon&& outer)
         {
-            m_outer = std::move(outer);
+            m_outer = std::forward<OuterPolygon>(outer);
         }
 
         template <typename OuterPolygon>
@@ -116,7 +116,7 @@ namespace geometrix {
         template <typename HolePolygon>
         void add_hole(HolePolygon&& outer)
         {
-            m_holes.emplace_back(std::move(outer));
+            m_holes.emplace_back(std::forward<HolePolygon>(outer));
         }
 
         template <typename HolePolygon>
-- 
2.43.0


From 58760102aa792d805e84404db4b847701b73a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 45/56] fix: distance between points of more than four
 dimensions uses every coordinate

---
 geometrix/algorithm/distance/point_point_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_point_distance.hpp b/geometrix/algorithm/distance/point_point_distance.hpp
index f738efa..c3ddf69 100644
--- a/geometrix/algorithm/distance/point_point_distance.hpp
+++ b/geometrix/algorithm/distance/point_point_distance.hpp
@@ -53,7 +53,7 @@ namespace geometrix {
 
             static result_type eval(const Point1& v1, const Point2& v2)
             {
-                BOOST_AUTO(a, get<Index - 1>(v2) - get<Index - 1>(v1));
+                BOOST_AUTO(a, get<Index>(v2) - get<Index>(v1));
                 return a * a + distance_sqrd<Point1, Point2, Index - 1>::eval(v1, v2);
             }
         };
-- 
2.43.0


From 5f20377fe0a1ee57c6524ad105f36c1e06681d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 46/56] fix: distance between boxes in space

---
 geometrix/algorithm/distance/aabb_aabb_distance.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/distance/aabb_aabb_distance.hpp b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
index d3edb1f..fecc647 100644
--- a/geometrix/algorithm/distance/aabb_aabb_distance.hpp
+++ b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
@@ -66,8 +66,8 @@ namespace geometrix {
             return sqDist;
 		}
 
-		template <typename Point, typename NumericSequence>
-		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<2> )
+		template <typename NumericSequence>
+		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<3> )
 		{
 			using result_type = typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type;
 
@@ -96,7 +96,7 @@ namespace geometrix {
             //! z
             {
                 if(get<2>(ub2) < get<2>(lb1))
-                    sqDist += square(get<2>(ub2) - get<1>(lb1));
+                    sqDist += square(get<2>(ub2) - get<2>(lb1));
                 else if(get<2>(lb2) > get<2>(ub1))
                     sqDist += square(get<2>(lb2) - get<2>(ub1));
             }
-- 
2.43.0


From b26f6794fa37f4141d83b8cb1fd90b04df549700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 47/56] fix: points and triangles in space

---
 geometrix/algorithm/point_in_polygon.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/point_in_polygon.hpp b/geometrix/algorithm/point_in_polygon.hpp
index 76889d3..981ad78 100644
--- a/geometrix/algorithm/point_in_polygon.hpp
+++ b/geometrix/algorithm/point_in_polygon.hpp
@@ -208,20 +208,24 @@ namespace geometrix {
             vector<arithmetic_type, 3> c = C - p;
 
             // Compute normal vectors for triangles pab and pbc
-            auto u = cross_product( b, c );
-            auto v = cross_product( c, a );
+            vector<decltype(std::declval<arithmetic_type>() * std::declval<arithmetic_type>()), 3> u = b ^ c;
+            vector<decltype(std::declval<arithmetic_type>() * std::declval<arithmetic_type>()), 3> v = c ^ a;
 
             // Make sure they are both pointing in the same direction
             if( cmp.less_than(dot_product(u, v), constants::zero<decltype(dot_product(u,v))>() ) )
                 return false;
 
             // Compute normal vector for triangle pca
-            auto w = cross_product(a, b);
+            vector<decltype(std::declval<arithmetic_type>() * std::declval<arithmetic_type>()), 3> w = a ^ b;
 
             // Make sure it points in the same direction as the first two
             if( cmp.less_than(dot_product(u, w), constants::zero<decltype(dot_product(u,w))>() ) )
                 return false;
 
+            // On the line through B and C there is no direction u to compare with
+            if( cmp.less_than(dot_product(v, w), constants::zero<decltype(dot_product(v,w))>() ) )
+                return false;
+
             // Otherwise P must be in (or on) the triangle
             return true;
         }
-- 
2.43.0


From 1c01c6dbf8efc9abf8205ec1217f84955e2023a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 48/56] fix: overlap of the bounding boxes of two segments

---
 geometrix/algorithm/bounding_box_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/bounding_box_intersection.hpp b/geometrix/algorithm/bounding_box_intersection.hpp
index 486326b..4b9d62b 100644
--- a/geometrix/algorithm/bounding_box_intersection.hpp
+++ b/geometrix/algorithm/bounding_box_intersection.hpp
@@ -22,7 +22,7 @@ namespace geometrix {
     template <typename NumberComparisonPolicy, typename Point>
     inline bool bounding_box_intersection( const Point& p1, const Point& p2, const Point& p3, const Point& p4, const NumberComparisonPolicy& compare ) 
     {
-        typedef typename geometric_traits<Point>::coordinate_type coordinate_type;
+        typedef typename geometric_traits<Point>::arithmetic_type coordinate_type;
         BOOST_CONCEPT_ASSERT((Point2DConcept<Point>));
 
         coordinate_type xmax1, xmax2, ymax1, ymax2, xmin1, xmin2, ymin1, ymin2;
-- 
2.43.0


From 88bfbd2745b53fc29657448e6e79142ab1f06962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 49/56] fix: crossings of a sphere and a polyline

---
 .../algorithm/intersection/sphere_polyline_intersection.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
index fd5a134..b465321 100644
--- a/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_polyline_intersection.hpp
@@ -26,7 +26,7 @@ inline bool sphere_polyline_intersect( const Sphere& s, const Polyline& pline, V
     BOOST_CONCEPT_ASSERT((PointSequenceConcept<Polyline>));
     BOOST_CONCEPT_ASSERT((NumberComparisonPolicyConcept<NumberComparisonPolicy>));
     using access = point_sequence_traits<Polyline>;
-    using length_t = arithmetic_type_of<typename access::point_type>::type;
+    using length_t = typename arithmetic_type_of<typename access::point_type>::type;
     using dimensionless_t = decltype(std::declval<length_t>() / std::declval<length_t>());
     using point_type = point<length_t, 2>;
 
-- 
2.43.0


From b452abbe5000550ae40a7c8ba9134cf64e5495aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 50/56] fix: point against the circle through three points

---
 geometrix/algorithm/point_in_circumcircle.hpp | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/geometrix/algorithm/point_in_circumcircle.hpp b/geometrix/algorithm/point_in_circumcircle.hpp
index ddbbe60..da94fcc 100644
--- a/geometrix/algorithm/point_in_circumcircle.hpp
+++ b/geometrix/algorithm/point_in_circumcircle.hpp
@@ -16,8 +16,8 @@ namespace geometrix {
 
     enum class point_circle_orientation
     {
-        outside = -1
-        cocircular = 0
+        outside = -1,
+        cocircular = 0,
         inside = 1
     };
 
@@ -35,14 +35,14 @@ namespace geometrix {
         static_assert(dimension_of<Point4>::value == 2, "point_in_cicumcircle is 2D only.");
 
         using length_t = typename arithmetic_type_of<Point1>::type;
-        using area_t = decltype(std::declval<length_t>()*std::declval<length_t>);
+        using area_t = decltype(std::declval<length_t>()*std::declval<length_t>());
 
-        length_t apx = get<0>(a) - get<0>(p);
-        length_t apy = get<1>(a) - get<1>(p);
-        length_t bpx = get<0>(b) - get<0>(p);
-        length_t bpy = get<1>(b) - get<1>(p);
-        length_t cpx = get<0>(c) - get<0>(p);
-        length_t cpy = get<1>(c) - get<1>(p);
+        length_t adx = get<0>(a) - get<0>(p);
+        length_t ady = get<1>(a) - get<1>(p);
+        length_t bdx = get<0>(b) - get<0>(p);
+        length_t bdy = get<1>(b) - get<1>(p);
+        length_t cdx = get<0>(c) - get<0>(p);
+        length_t cdy = get<1>(c) - get<1>(p);
 
         area_t abdet = adx * bdy - bdx * ady;
         area_t bcdet = bdx * cdy - cdx * bdy;
@@ -51,11 +51,11 @@ namespace geometrix {
         area_t blift = bdx * bdx + bdy * bdy;
         area_t clift = cdx * cdx + cdy * cdy;
 
-        area_t r = alift * bcdet + blift * cadet + clift * abdet;
-        if(cmp.greater_than(r, constants::zero<area_t>())
+        auto r = alift * bcdet + blift * cadet + clift * abdet;
+        if(cmp.greater_than(r, constants::zero<decltype(r)>()))
             return point_circle_orientation::inside;
 
-        if(cmp.less_than(r, constants::zero<area_t>())
+        if(cmp.less_than(r, constants::zero<decltype(r)>()))
             return point_circle_orientation::outside;
          
         return point_circle_orientation::cocircular;
-- 
2.43.0


From b4b2ae8b3ed79fc7a1baebdf2132274f2e9249b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:30 +0000
Subject: [PATCH 51/56] fix: planes through three points or along two
 directions

---
 geometrix/primitive/plane.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/plane.hpp b/geometrix/primitive/plane.hpp
index 3381c57..803b0f3 100644
--- a/geometrix/primitive/plane.hpp
+++ b/geometrix/primitive/plane.hpp
@@ -37,7 +37,7 @@ public:
         : m_a( a )
         , m_u( normalize(u) )
         , m_v( normalize(v) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
@@ -45,7 +45,7 @@ public:
         : m_a( a )
         , m_u( normalize(b-a) )
         , m_v( normalize(c-a) )
-        , m_n( normalize( cross_product( m_u, m_v ) ) )
+        , m_n( normalize( m_u ^ m_v ) )
         , m_d( scalar_projection( as_vector(m_a), m_n ) )
     {}
 
-- 
2.43.0


From c76d2428b4d478d6a45c334179a4abda563b5242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 52/56] fix: random_index_generator draws from [0,maxIndex) as
 documented

---
 geometrix/utility/random_generator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index 4c92a77..d286c89 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -19,13 +19,13 @@ namespace geometrix {
 
         random_index_generator( std::size_t maxIndex, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex - 1 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
         
         random_index_generator( std::size_t maxIndex, const RandomNumberGenerator& rng )
             : m_randomNumberGenerator(rng)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex - 1 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
 
-- 
2.43.0


From 56ea517e53c2622a7f774e8aaba2702463d518e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:59 +0000
Subject: [PATCH 53/56] fix: copies of random generators draw from their own
 engine

---
 geometrix/utility/random_generator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index d286c89..37de611 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -38,7 +38,7 @@ namespace geometrix {
         //! order of these is important so initializer list gets the order correct.
         mutable RandomNumberGenerator                                                              m_randomNumberGenerator;
         boost::uniform_int<std::size_t>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_int<std::size_t> > m_generator;
+        mutable boost::variate_generator<RandomNumberGenerator, boost::uniform_int<std::size_t> > m_generator;
     };
 
     template <typename RandomNumberGenerator = boost::mt19937>
@@ -61,7 +61,7 @@ namespace geometrix {
         //! order of these is important so initializer list gets the order correct.
         mutable RandomNumberGenerator                                                    m_randomNumberGenerator;
         boost::uniform_real<>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_real<> > m_generator;
+        mutable boost::variate_generator<RandomNumberGenerator, boost::uniform_real<> > m_generator;
     };
 
     template <typename RandomNumberGenerator = boost::mt19937>
@@ -84,7 +84,7 @@ namespace geometrix {
         //! order of these is important so initializer list gets the order correct.
         mutable RandomNumberGenerator                                                              m_randomNumberGenerator;
         boost::uniform_int<std::size_t>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_int<std::size_t> > m_generator;
+        mutable boost::variate_generator<RandomNumberGenerator, boost::uniform_int<std::size_t> > m_generator;
     };
 
     //! generator to generate an ordered sequence (for synthesizing std::iota.. which isn't on all platforms).
-- 
2.43.0


From 14bdc3dd2795a58b44254c5f30896245cfb319ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:58 +0000
Subject: [PATCH 54/56] fix: functions of fixed-point numbers keep the run-time
 scale of their argument

---
 geometrix/numeric/fixed_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/numeric/fixed_point.hpp b/geometrix/numeric/fixed_point.hpp
index 8b020f2..cd70835 100644
--- a/geometrix/numeric/fixed_point.hpp
+++ b/geometrix/numeric/fixed_point.hpp
@@ -442,7 +442,7 @@ namespace geometrix {
         {                                                                                 \
             double vd = v.template convert_to<double>();                                  \
             vd = std:: fn (vd);                                                           \
-            return geometrix::fixed_point<Traits>(vd);                                    \
+            return geometrix::fixed_point<Traits>(vd, v);                                 \
         }                                                                                 \
     /***/
 
-- 
2.43.0


From d229b7e172acc61f2594fe38a1177ee62c3b52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 55/56] fix: set on a type adapted by member functions calls
 its set function

---
 geometrix/tensor/fusion_vector_access_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/tensor/fusion_vector_access_policy.hpp b/geometrix/tensor/fusion_vector_access_policy.hpp
index 977057e..a726347 100644
--- a/geometrix/tensor/fusion_vector_access_policy.hpp
+++ b/geometrix/tensor/fusion_vector_access_policy.hpp
@@ -69,7 +69,7 @@ struct fusion_vector_member_function_access_policy
     {
         typedef typename remove_const_ref<T>::type tensor_type;
         BOOST_CONCEPT_ASSERT((DimensionContainsIndexConcept<boost::fusion::result_of::size<tensor_type>,Index>));
-        boost::fusion::at_c<Index>( collection ) = v;
+        boost::fusion::at_c<Index>( collection ).set( v );
     }
 };
 
-- 
2.43.0


From c5927e089fed054d8fe17e397927c426f2f72e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:33 +0000
Subject: [PATCH 56/56] fix: the plane sweep keeps no place in its event queue
 across insertions

---
 geometrix/algorithm/bentley_ottmann_sweep.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/bentley_ottmann_sweep.hpp b/geometrix/algorithm/bentley_ottmann_sweep.hpp
index bdea989..307567a 100644
--- a/geometrix/algorithm/bentley_ottmann_sweep.hpp
+++ b/geometrix/algorithm/bentley_ottmann_sweep.hpp
@@ -92,7 +92,7 @@ namespace geometrix {
         {
             auto iter = events.cbegin();
             eventHandler.handle_event( events, sweepLine, *iter );
-			events.erase( iter );
+			events.erase( events.cbegin() ); //! new events come after the handled one, and may have reallocated the queue.
         }    
     }
 
-- 
2.43.0

