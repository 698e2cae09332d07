From 9066e2d71cfe765a333090ad2494843a3cb4a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 01/18] fix: blend weights when adding a knot to a rational
 curve

---
 src/curve/nurbs_curve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..f2562c9 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1327,7 +1327,10 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 {
+                // keep the weight of the leading control point, which has no predecessor
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From 93a15aad2a1b91d7b51523b64a1e7fa2394af9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 02/18] fix: degree elevation left excess control points and
 knots and mishandled multi-span curves

---
 src/curve/nurbs_curve.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index f2562c9..c32d47f 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1110,7 +1110,9 @@ where
 
         //intermediate values
         let mut bezalfs = vec![vec![T::zero(); new_degree + 1]; new_degree + degree_inc + 1];
-        let new_control_point_count = control_points.len() + degree_inc + 3;
+        // each (non-empty) span gains `degree_inc` control points
+        let span_count = control_points.len() - self.degree;
+        let new_control_point_count = control_points.len() + degree_inc * span_count + 3;
         let mut bpts = vec![OPoint::origin(); new_control_point_count];
         let mut e_bpts = vec![OPoint::origin(); new_control_point_count];
         let mut next_bpts = vec![OPoint::origin(); new_control_point_count];
@@ -1133,14 +1135,14 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
@@ -1178,11 +1180,7 @@ where
                 1
             };
             let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
+                ph - (r as usize + 1) / 2
             } else {
                 ph
             };
@@ -1209,7 +1207,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1233,9 +1231,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
@@ -1274,6 +1272,9 @@ where
             }
         }
 
+        q_w.truncate(cind);
+        u_h.truncate(kind + ph + 1);
+
         Ok(Self {
             degree: target_degree,
             control_points: q_w,
-- 
2.43.0


From 7ca49bd7f378d3795580e89263fb4408aac75704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 03/18] fix: try_remove_knot missed removable knots

---
 src/curve/nurbs_curve.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index c32d47f..8e8520e 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1372,8 +1372,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // last index of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1444,7 +1444,7 @@ where
             }
 
             // check if knot removable
-            let remove = if j >= i && (j - i) < t {
+            let remove = if j < i + t {
                 let left = &temp[ii - 1];
                 let right = &temp[jj + 1];
                 (left - right).norm() <= tolerance
-- 
2.43.0


From 34321edfd04d81833ab7d996900e67d1d36605d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 04/18] fix: splitting at an existing knot over-multiplied the
 joint knot

---
 src/split/mod.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..8db9013 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -16,6 +17,17 @@ where
     fn try_split(&self, option: Self::Option) -> anyhow::Result<(Self, Self)>;
 }
 
+/// Number of knots equal to `u`, which already count toward the multiplicity
+/// required at the joint, if `u` lies strictly inside the domain
+fn interior_multiplicity<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> usize {
+    let (start, end) = knots.domain(degree);
+    if start < u && u < end {
+        knots.iter().filter(|k| **k == u).count()
+    } else {
+        0
+    }
+}
+
 impl<T: FloatingPoint, D: DimName> Split for NurbsCurve<T, D>
 where
     DefaultAllocator: Allocator<D>,
@@ -42,12 +54,13 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        let multiplicity = interior_multiplicity(self.knots(), self.degree(), u);
+        let knots_to_insert = (multiplicity..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
         let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
+        let s = self.knots().find_knot_span_index(n, self.degree(), u) - multiplicity;
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -98,10 +111,13 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
+        let multiplicity = interior_multiplicity(knots, degree, option.parameter);
+        let knots_to_insert = (multiplicity..=degree)
+            .map(|_| option.parameter)
+            .collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let s = knots.find_knot_span_index(n, degree, option.parameter) - multiplicity;
 
         let curves = points
             .iter()
-- 
2.43.0


From 02baa23549e069cde628c988c4297013aa91f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 05/18] fix: isocurve at a repeated interior knot picked the
 wrong row of control points

---
 src/surface/nurbs_surface.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..498b91b 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -789,7 +789,11 @@ where
                 UVDirection::V => refined.control_points[0].len() - 1,
             }
         } else {
-            knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+            // the row that passes through the curve at t precedes the first knot equal to t in the refined knot vector
+            knots
+                .iter()
+                .position(|k| *k > t || (t - *k).abs() < T::default_epsilon())
+                .map_or(0, |i| i.saturating_sub(1))
         };
 
         match direction {
-- 
2.43.0


From c5abd60107173da0b19761720fe26474bd620443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 06/18] fix: regular surface derivative grid was sized with the
 u and v degrees swapped

---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 498b91b..034fbba 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From d8380d553df03f570046669929763a01d07d480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 07/18] fix: lofting curves with different knot ranges produced
 misordered knots

---
 src/surface/nurbs_surface.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 034fbba..723484d 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1366,8 +1366,11 @@ where
 
     //scale all of the knot vectors to match
     curves.iter_mut().enumerate().for_each(|(i, c)| {
-        let scale = max_knot_span / knot_spans[i];
-        c.knots_mut().iter_mut().for_each(|x| *x *= scale);
+        // divide first, so that the end knots of all curves coincide exactly
+        let span = knot_spans[i];
+        c.knots_mut()
+            .iter_mut()
+            .for_each(|x| *x = *x / span * max_knot_span);
     });
 
     //merge all of the knot vectors
-- 
2.43.0


From 5d4deb4cbc0fdf90eebd712cfa2d5363c4bc6243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 08/18] fix: adaptive tessellation left cracks along the first
 row of cells

---
 src/tessellation/surface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..aa1f57e 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -173,7 +173,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +221,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
-- 
2.43.0


From 79f681198ccde772e97d2f5fc5dea8abe2eeaa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:57 +0000
Subject: [PATCH 09/18] fix: constrained tessellation snapped the row before
 the maximum boundary

---
 src/tessellation/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index aa1f57e..227e90a 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -140,14 +140,14 @@ where
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let ds = s.rational_derivatives(*u, *v, 1);
                 let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
                 SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
                     .with_constraints(u_constraint, v_constraint)
-- 
2.43.0


From 744ec46fc982aff427124df6a29f2b7fbea4bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 10/18] fix: trimming a compound curve at a joint kept or
 dropped the wrong span

---
 src/trim/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..7ce5d63 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -90,7 +90,8 @@ where
                         )
                     }
                     (false, false) => {
-                        let contains = range.contains(&d0);
+                        // the trimming parameters may lie exactly on the joints of the span, so test its middle
+                        let contains = range.contains(&(d0 + (d1 - d0) * T::from_f64(0.5).unwrap()));
                         match (inside, contains) {
                             (true, true) => Ok(vec![curve.clone()]),
                             (true, false) => Ok(vec![]),
-- 
2.43.0


From c6ec35cd1559885a450fcd17e2d27b9ddff43365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 11/18] fix: inverting a compound curve left its spans on the
 parameters of the original order

---
 src/region/compound_curve.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..dd323ec 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -74,16 +74,8 @@ where
             }
         }
 
-        // Align knot vectors
-        // The first knot vector starts at 0, the rest are aligned to the previous knot vector
-        let mut knot_offset = T::zero();
-        connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
-            curve.knots_mut().iter_mut().for_each(|v| {
-                *v = *v - start + knot_offset;
-            });
-            knot_offset = curve.knots().last();
-        });
+        // The first knot vector starts at 0
+        align_knots(&mut connected, T::zero());
 
         Self { spans: connected }
     }
@@ -269,11 +261,30 @@ where
     DefaultAllocator: Allocator<D>,
 {
     fn invert(&mut self) {
+        let start = self.spans.first().map(|span| span.knots().first());
         self.spans.iter_mut().for_each(|span| span.invert());
         self.spans.reverse();
+        if let Some(start) = start {
+            align_knots(&mut self.spans, start);
+        }
     }
 }
 
+/// Align knot vectors
+/// The first knot vector starts at `knot_offset`, the rest are aligned to the previous knot vector
+fn align_knots<T: FloatingPoint, D: DimName>(spans: &mut [NurbsCurve<T, D>], mut knot_offset: T)
+where
+    DefaultAllocator: Allocator<D>,
+{
+    spans.iter_mut().for_each(|curve| {
+        let start = curve.knots().first();
+        curve.knots_mut().iter_mut().for_each(|v| {
+            *v = *v - start + knot_offset;
+        });
+        knot_offset = curve.knots().last();
+    });
+}
+
 #[cfg(feature = "serde")]
 impl<T, D: DimName> serde::Serialize for CompoundCurve<T, D>
 where
-- 
2.43.0


From 34fde54d080bf88833d95446b9344ba3286ffe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 12/18] fix: a compound curve dropped spans that precede the
 first one given

---
 src/region/compound_curve.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index dd323ec..61f4b04 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -68,8 +68,32 @@ where
                     }
                 }
                 None => {
-                    println!("No connection found");
-                    break;
+                    // Nothing follows the last span, so look for a span that precedes the first one
+                    let first = &connected[0];
+                    let found = curves.iter().enumerate().find_map(|(i, c)| {
+                        match CurveDirection::new(first, c, epsilon) {
+                            Some(CurveDirection::Backward) => Some((i, false)),
+                            Some(CurveDirection::Opposite) => Some((i, true)),
+                            _ => None,
+                        }
+                    });
+                    match found {
+                        Some((index, inverted)) => {
+                            let previous = curves.remove(index);
+                            connected.insert(
+                                0,
+                                if inverted {
+                                    previous.inverse()
+                                } else {
+                                    previous
+                                },
+                            );
+                        }
+                        None => {
+                            println!("No connection found");
+                            break;
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From f533b19d3079a184a9f2ac7f28ad61a9d2ce2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 13/18] fix: elliptical arcs with unequal radii left the
 ellipse

---
 src/curve/nurbs_curve.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 8e8520e..2733d5c 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -956,7 +956,9 @@ where
         let mut p0 = center
             + &x_axis * x_radius * start_angle.cos()
             + &y_axis * y_radius * start_angle.sin();
-        let mut t0 = &y_axis * start_angle.cos() - &x_axis * start_angle.sin();
+        let mut t0 =
+            &y_axis * y_radius * start_angle.cos() - &x_axis * x_radius * start_angle.sin();
+        t0.normalize_mut();
 
         let n = 2 * arcs + 1;
         let degree = 2;
@@ -971,9 +973,10 @@ where
 
             let p2 = center + &x_axis * x_radius * angle.cos() + &y_axis * y_radius * angle.sin();
 
-            let t2 = &y_axis * angle.cos() - &x_axis * angle.sin();
-            let ray = Ray::new(p0.clone(), t0.normalize());
-            let other = Ray::new(p2.clone(), t2.normalize());
+            let mut t2 = &y_axis * y_radius * angle.cos() - &x_axis * x_radius * angle.sin();
+            t2.normalize_mut();
+            let ray = Ray::new(p0.clone(), t0.clone());
+            let other = Ray::new(p2.clone(), t2.clone());
             let intersection = ray
                 .find_intersection(&other)
                 .ok_or(anyhow::anyhow!("No intersection"))?;
-- 
2.43.0


From bdc592e51832999aa5ef782b20e0382320a5ef58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:27 +0000
Subject: [PATCH 14/18] fix: closest parameter on a closed curve or surface
 could leave the domain

---
 src/closest_parameter/curve_closest_parameter_newton.rs   | 5 +++--
 src/closest_parameter/surface_closest_parameter_newton.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..a836715 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -70,13 +70,14 @@ where
         // Constrain the parameter to the domain
         let new_param = if new_param < self.knot_domain.0 {
             if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
+                // wrap around once, never leaving the domain
+                (self.knot_domain.1 + (new_param - self.knot_domain.0)).max(self.knot_domain.0)
             } else {
                 self.knot_domain.0
             }
         } else if new_param > self.knot_domain.1 {
             if self.closed {
-                self.knot_domain.0 + (new_param - self.knot_domain.1)
+                (self.knot_domain.0 + (new_param - self.knot_domain.1)).min(self.knot_domain.1)
             } else {
                 self.knot_domain.1
             }
diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..c07f9a9 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -198,13 +198,14 @@ where
 fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
     if parameter < domain.0 {
         if closed {
-            domain.1 - (parameter - domain.0)
+            // wrap around once, never leaving the domain
+            (domain.1 + (parameter - domain.0)).max(domain.0)
         } else {
             domain.0 + T::default_epsilon()
         }
     } else if parameter > domain.1 {
         if closed {
-            domain.0 + (parameter - domain.1)
+            (domain.0 + (parameter - domain.1)).min(domain.1)
         } else {
             domain.1 - T::default_epsilon()
         }
-- 
2.43.0


From 7de8c958a2fcfaa471697db24fef08aa3dc968ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 15/18] fix: constrained tessellation left the normals on the
 boundary unnormalized

---
 src/tessellation/boundary_constraints.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tessellation/boundary_constraints.rs b/src/tessellation/boundary_constraints.rs
index 9b03a3a..431cdd0 100644
--- a/src/tessellation/boundary_constraints.rs
+++ b/src/tessellation/boundary_constraints.rs
@@ -128,6 +128,11 @@ where
             let pt = deriv[0][0].clone();
             let norm = deriv[1][0].cross(&deriv[0][1]);
             let is_normal_degenerated = norm.magnitude_squared() < T::default_epsilon();
+            let norm = if is_normal_degenerated {
+                norm
+            } else {
+                norm.normalize()
+            };
             SurfacePoint::new(uv, pt.into(), norm, is_normal_degenerated)
         };
 
-- 
2.43.0


From 4445b047af9ecd63e5fd0d4282d14b5d5ddccfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 16/18] fix: rounding let the tessellation grid miss or leave
 the end of the domain

---
 src/tessellation/surface.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 227e90a..0bae7c9 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -82,8 +82,10 @@ where
         let divs_u = options.min_divs_u.max(min_u);
         let (umin, umax) = s.u_knots_domain();
         let du = (umax - umin) / T::from_usize(divs_u).unwrap();
-        (0..=divs_u)
+        // end exactly at the end of the domain
+        (0..divs_u)
             .map(|i| umin + du * T::from_usize(i).unwrap())
+            .chain(std::iter::once(umax))
             .collect()
     };
 
@@ -99,8 +101,10 @@ where
         let divs_v = options.min_divs_v.max(min_v);
         let (vmin, vmax) = s.v_knots_domain();
         let dv = (vmax - vmin) / T::from_usize(divs_v).unwrap();
-        (0..=divs_v)
+        // end exactly at the end of the domain
+        (0..divs_v)
             .map(|i| vmin + dv * T::from_usize(i).unwrap())
+            .chain(std::iter::once(vmax))
             .collect()
     };
 
-- 
2.43.0


From 36c0c420c2b75d6e060f8a108cdebcd1e4dd9ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 17/18] fix: the minimum tessellation depth divided sides with
 constrained parameters

---
 src/tessellation/adaptive_tessellation_node.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 359de12..b58db54 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -198,8 +198,17 @@ where
         options: &AdaptiveTessellationOptions<T>,
         current_depth: usize,
     ) -> Option<DividableDirection> {
+        // a constrained side keeps exactly its own parameters
+        let v_dividable = self.corners.iter().all(|c| !c.is_u_constrained());
+        let u_dividable = self.corners.iter().all(|c| !c.is_v_constrained());
+
         if current_depth < options.min_depth {
-            return Some(DividableDirection::Both);
+            return match (u_dividable, v_dividable) {
+                (true, true) => Some(DividableDirection::Both),
+                (true, false) => Some(DividableDirection::U),
+                (false, true) => Some(DividableDirection::V),
+                (false, false) => None,
+            };
         }
 
         if current_depth >= options.max_depth {
@@ -218,13 +227,13 @@ where
             > options.norm_tolerance
             || (self.corners[2].normal() - self.corners[3].normal()).norm_squared()
                 > options.norm_tolerance;
-        let v_direction = v_direction && self.corners.iter().all(|c| !c.is_u_constrained());
+        let v_direction = v_direction && v_dividable;
 
         let u_direction = (self.corners[1].normal() - self.corners[2].normal()).norm_squared()
             > options.norm_tolerance
             || (self.corners[3].normal() - self.corners[0].normal()).norm_squared()
                 > options.norm_tolerance;
-        let u_direction = u_direction && self.corners.iter().all(|c| !c.is_v_constrained());
+        let u_direction = u_direction && u_dividable;
 
         match (u_direction, v_direction) {
             (true, true) => Some(DividableDirection::Both),
-- 
2.43.0


From a3b3d55bfe1fdda710ffd4641da4b5036f71636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:59 +0000
Subject: [PATCH 18/18] fix: a curve over a short domain lost its ends when
 tessellated

---
 src/tessellation/tessellation_curve.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 7a446a2..b98f952 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -47,13 +47,12 @@ where
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
     let p1 = curve.point_at(start);
+    let p3 = curve.point_at(end);
     let delta = end - start;
     if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+        return vec![p1, p3];
     }
 
-    let p3 = curve.point_at(end);
-
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
     let mid = start + delta * T::from_f64(t).unwrap();
     let p2 = curve.point_at(mid);
-- 
2.43.0

