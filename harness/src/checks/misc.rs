//! C23 closest parameters, C24 geometric helpers
use super::surfaces::{curve_f, rs};
use crate::cx::*;
use crate::gen::*;
use crate::q::Q;
use curvo::prelude::*;
use nalgebra::{Const, OPoint, Point2, Point3, Vector3};

subs! {
    "C23" closest_curve "the closest parameter of a curve stays in its domain" 1500 40000;
    "C23" closest_surface "the closest parameters of a surface stay in its domain" 60 1500;
    "C24" segments "segment intersection tests against exact arithmetic" 3000 60000;
    "C24" polygon_contains "polygon containment against the exact winding number" 2000 40000;
    "C24" segment_point "closest point of a segment" 2000 40000;
    "C24" flatness "flatness test of three points and orientation" 1500 30000;
    "C24" binomials "binomial coefficients with and without memoization" 100 400;
    "C24" meshes "triangles, area and concatenation of polygon meshes" 500 10000;
    "C24" transposed "transposing control grids" 300 4000;
}
fn closest_curve(cx: &mut Cx) -> R {
    let mut c = rc(&mut cx.r, 3, KS::Any, 3, 5);
    if cx.r.b() {
        // closed curve
        let n = c.c.len();
        c.c[n - 1] = c.c[0].clone();
    }
    let f = if cx.r.chance(4) {
        NurbsCurve3D::try_circle(&Point3::new(0., 0., 0.), &Vector3::x(), &Vector3::y(), cx.r.f(0.5, 4.)).unwrap()
    } else if cx.r.chance(4) {
        let n = cx.r.us(4, 7);
        let pts: Vec<Point3<f64>> = (0..n).map(|_| Point3::new(cx.r.f(-5., 5.), cx.r.f(-5., 5.), cx.r.f(-5., 5.))).collect();
        match NurbsCurve3D::try_periodic(&pts, 3) { Ok(c) => c, Err(e) => return Err(format!("{e}")) }
    } else {
        curve_f::<4>(&c)
    };
    let p = Point3::new(cx.r.f(-8., 8.), cx.r.f(-8., 8.), cx.r.f(-8., 8.));
    cx.input(format!("{f:?} ; {p:?}"));
    let d = f.knots_domain();
    if let Ok(u) = f.find_closest_parameter(&p) {
        ensure!(u >= d.0 && u <= d.1, "closest parameter {u} outside the domain {d:?}");
        let q = f.find_closest_point(&p).map_err(|e| format!("{e}"))?;
        ensure!((q - f.point_at(u)).norm() < 1e-9, "closest point {q:?} is not the point at the closest parameter {u}");
    }
    Ok(())
}
fn closest_surface(cx: &mut Cx) -> R {
    let mut s = rs(&mut cx.r, 3, KS::Clamped, 2, 1);
    match cx.r.us(0, 2) {
        0 => { let n = s.c.len(); s.c[n - 1] = s.c[0].clone(); }
        1 => for row in s.c.iter_mut() { let n = row.len(); row[n - 1] = row[0].clone(); },
        _ => {}
    }
    let f = NurbsSurface3D::new(
        s.pu,
        s.pv,
        s.ku.iter().map(|x| x.f()).collect::<Vec<_>>(),
        s.kv.iter().map(|x| x.f()).collect::<Vec<_>>(),
        s.c.iter().map(|r| r.iter().map(|p| OPoint::<f64, Const<4>>::from_slice(&p.iter().map(|x| x.f()).collect::<Vec<_>>())).collect()).collect(),
    );
    let p = Point3::new(cx.r.f(-8., 8.), cx.r.f(-8., 8.), cx.r.f(-8., 8.));
    cx.input(format!("{} ; {p:?}", s.show()));
    let (d, e) = f.knots_domain();
    if let Ok((u, v)) = f.find_closest_parameter(&p) {
        ensure!(u >= d.0 && u <= d.1 && v >= e.0 && v <= e.1, "closest parameters {u} {v} outside the domain {d:?} {e:?}");
    }
    Ok(())
}
fn pt(r: &mut Rng) -> [i64; 2] {
    [r.i(-4, 4), r.i(-4, 4)]
}
fn cr(a: [i64; 2], b: [i64; 2], c: [i64; 2]) -> i64 {
    ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])).signum()
}
fn fp(a: [i64; 2]) -> Point2<f64> {
    Point2::new(a[0] as f64, a[1] as f64)
}
fn segments(cx: &mut Cx) -> R {
    let (a, b, c, d) = (pt(&mut cx.r), pt(&mut cx.r), pt(&mut cx.r), pt(&mut cx.r));
    cx.input(format!("{a:?}-{b:?} {c:?}-{d:?}"));
    if a == b || c == d { return Ok(()); }
    let (o1, o2, o3, o4) = (cr(a, b, c), cr(a, b, d), cr(c, d, a), cr(c, d, b));
    // segments on one line are documented nowhere: left out
    if o1 == 0 && o2 == 0 { return Ok(()); }
    let want = o1 * o2 <= 0 && o3 * o4 <= 0;
    let got = Line::new(fp(a), fp(b)).intersects(&Line::new(fp(c), fp(d)));
    ensure!(got == want, "intersects is {got}");
    Ok(())
}
fn polygon_contains(cx: &mut Cx) -> R {
    // simple polygons: a star around the origin
    let mut dirs: Vec<[i64; 2]> = vec![];
    let n = cx.r.us(3, 8);
    while dirs.len() < n {
        let p = pt(&mut cx.r);
        if p != [0, 0] && !dirs.iter().any(|q| q[0] * p[1] == q[1] * p[0] && q[0] * p[0] + q[1] * p[1] > 0) { dirs.push(p) }
    }
    dirs.sort_by(|a, b| (a[1] as f64).atan2(a[0] as f64).total_cmp(&(b[1] as f64).atan2(b[0] as f64)));
    if cx.r.b() { dirs.reverse() }
    let k = cx.r.us(0, n - 1);
    dirs.rotate_left(k);
    let c = [cx.r.i(-4, 4), cx.r.i(-4, 4)];
    cx.input(format!("{dirs:?} contains {c:?}"));
    let e = |i: usize| (dirs[i], dirs[(i + 1) % n]);
    let on = (0..n).any(|i| { let (a, b) = e(i); cr(a, b, c) == 0 && c[0] >= a[0].min(b[0]) && c[0] <= a[0].max(b[0]) && c[1] >= a[1].min(b[1]) && c[1] <= a[1].max(b[1]) });
    if on { return Ok(()); }
    let mut w = 0;
    for i in 0..n {
        let (a, b) = e(i);
        if a[1] <= c[1] && b[1] > c[1] && cr(a, b, c) > 0 { w += 1 }
        if a[1] > c[1] && b[1] <= c[1] && cr(a, b, c) < 0 { w -= 1 }
    }
    let got = PolygonBoundary::new(dirs.iter().map(|p| fp(*p)).collect()).contains(&fp(c), ()).map_err(|e| format!("{e}"))?;
    ensure!(got == (w != 0), "contains is {got}, the winding number is {w}");
    Ok(())
}
fn segment_point(cx: &mut Cx) -> R {
    let p = |r: &mut Rng| Point3::new(r.f(-5., 5.), r.f(-5., 5.), r.f(-5., 5.));
    let (x, a) = (p(&mut cx.r), p(&mut cx.r));
    let b = if cx.r.chance(8) { a } else { p(&mut cx.r) };
    let x = if cx.r.chance(6) { a + (b - a) * cx.r.f(-0.5, 1.5) } else { x };
    let (u0, u1) = (cx.r.f(-2., 2.), cx.r.f(2., 5.));
    cx.input(format!("{x:?} to {a:?} - {b:?} with {u0} {u1}"));
    let (u, q) = segment_closest_point(&x, &a, &b, u0, u1);
    ensure!(u >= u0 - 1e-9 && u <= u1 + 1e-9, "parameter {u} outside {u0} .. {u1}");
    let e = a + (b - a) * ((u - u0) / (u1 - u0));
    ensure!((q - e).norm() < 1e-7, "point {q:?} is not at its parameter {u}: {e:?}");
    for i in 0..=64 {
        let c = a + (b - a) * (i as f64 / 64.);
        ensure!((q - x).norm() <= (c - x).norm() + 1e-9, "{c:?} is closer than {q:?}");
    }
    Ok(())
}
fn flatness(cx: &mut Cx) -> R {
    let v = |r: &mut Rng| Point3::<Q>::new(coord(r), coord(r), coord(r));
    let (a, b, c) = (v(&mut cx.r), v(&mut cx.r), v(&mut cx.r));
    let c = if cx.r.chance(3) { a + (b - a) * Q::new(cx.r.i(-3, 5), 2) } else { c };
    let tol = if cx.r.b() { Q::new(1, 1000) } else { Q::int(cx.r.i(1, 300)) };
    cx.input(format!("{a:?} {b:?} {c:?} tolerance {tol}"));
    let x = (b - a).cross(&(c - a));
    ensure!(three_points_are_flat(&a, &b, &c, tol) == (x.dot(&x) < tol), "3d: squared area {}", x.dot(&x));
    let z = (b - a).xy().perp(&(c - a).xy());
    let (a2, b2, c2) = (a.xy(), b.xy(), c.xy());
    let az = if z < Q::int(0) { -z } else { z };
    ensure!(three_points_are_flat(&a2, &b2, &c2, tol) == (az < tol), "2d: area {z}");
    let (p, q, r) = (pt(&mut cx.r), pt(&mut cx.r), pt(&mut cx.r));
    cx.input(format!("{p:?} {q:?} {r:?}"));
    let o = orientation(&fp(p), &fp(q), &fp(r));
    let e = match cr(p, q, r) { 0 => Orientation::Collinear, 1 => Orientation::CounterClockwise, _ => Orientation::Clockwise };
    ensure!(o == e, "orientation {o:?}");
    Ok(())
}
fn binomials(cx: &mut Cx) -> R {
    let mut m = Binomial::<Q>::new();
    let n = cx.r.us(0, 24);
    let mut seq: Vec<(usize, usize)> = (0..12).map(|_| (cx.r.us(0, n), cx.r.us(0, n + 2))).collect();
    seq.push((n, n / 2));
    cx.input(format!("{seq:?}"));
    for (n, k) in seq {
        let e = if k > n { Q::int(0) } else { crate::refm::binom(n, k) };
        ensure!(m.get(n, k) == e, "memoized ({n}, {k}) is {}", m.get(n, k));
        ensure!((binomial(n, k) - e.f()).abs() <= 1e-9 * e.f().max(1.), "({n}, {k}) is {}", binomial(n, k));
    }
    Ok(())
}
fn mesh3(r: &mut Rng) -> (Vec<Point3<Q>>, Vec<[usize; 3]>) {
    let n = r.us(3, 8);
    let v = (0..n).map(|_| Point3::new(coord(r), coord(r), coord(r))).collect();
    let f = (0..r.us(0, 5)).map(|_| [r.us(0, n - 1), r.us(0, n - 1), r.us(0, n - 1)]).collect();
    (v, f)
}
fn meshes(cx: &mut Cx) -> R {
    let ms: Vec<_> = (0..cx.r.us(1, 4)).map(|_| mesh3(&mut cx.r)).collect();
    cx.input(format!("{ms:?}"));
    let mk = |(v, f): &(Vec<Point3<Q>>, Vec<[usize; 3]>)| PolygonMesh::new(v.clone(), f.clone());
    let sum: PolygonMesh<Q, Const<3>> = ms.iter().map(mk).sum();
    let tri: Vec<_> = ms.iter().flat_map(|m| mk(m).triangles()).collect();
    ensure!(sum.triangles() == tri, "the sum has triangles {:?} instead of {tri:?}", sum.triangles());
    ensure!(sum.vertices().len() == ms.iter().map(|m| m.0.len()).sum::<usize>(), "{} vertices", sum.vertices().len());
    for (m, t) in ms.iter().zip([mk(&ms[0])]) {
        for (f, x) in m.1.iter().zip(t.triangles()) {
            ensure!(x == f.map(|i| m.0[i]), "triangle of {f:?} is {x:?}");
        }
    }
    // area in the plane, exactly
    let flat = PolygonMesh::<Q, Const<2>>::new(ms[0].0.iter().map(|p| p.xy()).collect(), ms[0].1.clone());
    let e = ms[0].1.iter().fold(Q::int(0), |s, f| {
        let p = f.map(|i| ms[0].0[i].xy());
        let a = (p[1] - p[0]).perp(&(p[2] - p[0]));
        s + (if a < Q::int(0) { -a } else { a }) / Q::int(2)
    });
    ensure!(flat.area() == e, "area {} instead of {e}", flat.area());
    let f3 = PolygonMesh::<f64, Const<3>>::new(ms[0].0.iter().map(|p| Point3::new(p.x.f(), p.y.f(), p.z.f())).collect(), ms[0].1.clone());
    let e: f64 = ms[0].1.iter().map(|f| {
        let p = f.map(|i| ms[0].0[i]);
        let x = (p[1] - p[0]).cross(&(p[2] - p[0]));
        x.dot(&x).f().sqrt() / 2.
    }).sum();
    ensure!((f3.area() - e).abs() < 1e-9 * e.max(1.), "area {} instead of {e}", f3.area());
    Ok(())
}
fn transposed(cx: &mut Cx) -> R {
    let (n, m) = (cx.r.us(1, 5), cx.r.us(1, 5));
    let g: Vec<Vec<Point3<Q>>> = (0..n).map(|_| (0..m).map(|_| Point3::new(coord(&mut cx.r), coord(&mut cx.r), coord(&mut cx.r))).collect()).collect();
    cx.input(format!("{g:?}"));
    let t = transpose_control_points(&g);
    ensure!(t.len() == m && t.iter().all(|r| r.len() == n), "{} rows", t.len());
    for i in 0..n {
        for j in 0..m {
            ensure!(t[j][i] == g[i][j], "({i}, {j}) moved");
        }
    }
    Ok(())
}
