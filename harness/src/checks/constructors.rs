//! C15 curve constructors
use super::curves::d_point;
use super::surfaces::{dist, fv};
use crate::cx::*;
use crate::gen::*;
use crate::q::Q;
use crate::refm::*;
use curvo::prelude::*;
use nalgebra::{Const, DVector, Point2, Point3, Vector2, Vector3};

subs! {
    "C15" polyline "polylines pass through their points at the chord lengths" 1500 30000;
    "C15" arcs "circles, ellipses and arcs run along the named ellipse from the start to the end angle" 1500 40000;
    "C15" periodic "periodic curves close smoothly and repeat the given control points" 600 12000;
    "C15" interpolate "interpolated curves pass through the points in order" 1200 20000;
    "C15" periodic_interpolate "closed interpolated curves pass through the points in order and close" 1200 20000;
    "C15" interpolate_control_points "the interpolation helper returns control points of the interpolating curve" 600 10000;
}
fn fpoints(r: &mut Rng, n: usize, dim: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![];
    while v.len() < n {
        let p: Vec<f64> = (0..dim).map(|_| if r.chance(3) { r.i(-5, 5) as f64 } else { r.f(-5., 5.) }).collect();
        // consecutive points (cyclically) keep a distance
        if v.last().map(|q| dist(q, &p) > 0.5).unwrap_or(true) && (v.len() + 1 < n || n < 2 || dist(&v[0], &p) > 0.5) {
            v.push(p);
        }
    }
    v
}
/// the points of `fpoints`, sometimes with a small extent
fn fpoints_scaled(r: &mut Rng, n: usize, dim: usize) -> Vec<Vec<f64>> {
    let k = [1., 1., 1. / 1024., 1. / 16.][r.us(0, 3)];
    fpoints(r, n, dim).into_iter().map(|p| p.into_iter().map(|x| x * k).collect()).collect()
}
fn from_f<const D: usize>(c: &NurbsCurve<f64, Const<D>>) -> RC
where
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<Const<D>>,
{
    RC {
        p: c.degree(),
        k: c.knots().iter().map(|x| Q::from_f(*x)).collect(),
        c: c.control_points().iter().map(|p| p.iter().map(|x| Q::from_f(*x)).collect()).collect(),
    }
}
fn p3(v: &[Vec<f64>]) -> Vec<Point3<f64>> {
    v.iter().map(|p| Point3::from_slice(p)).collect()
}
fn p2(v: &[Vec<f64>]) -> Vec<Point2<f64>> {
    v.iter().map(|p| Point2::from_slice(p)).collect()
}
fn polyline(cx: &mut Cx) -> R {
    let n = cx.r.us(2, 8);
    let pts = fpoints(&mut cx.r, n, 3);
    let norm = cx.r.b();
    cx.input(format!("polyline {pts:?} normalize {norm}"));
    let c = NurbsCurve3D::polyline(&p3(&pts), norm);
    let h = from_f(&c);
    h.wf()?;
    ensure!(h.p == 1 && h.c.len() == n, "degree {} with {} control points", h.p, h.c.len());
    let mut acc = vec![0.];
    for w in pts.windows(2) {
        acc.push(acc.last().unwrap() + dist(&w[0], &w[1]));
    }
    let total = *acc.last().unwrap();
    for i in 0..n {
        let u = if norm { acc[i] / total } else { acc[i] };
        ensure!((h.k[i + 1].f() - u).abs() < 1e-9 * total.max(1.), "knot {} is {}, the chord length is {u}", i + 1, h.k[i + 1]);
        ensure!(dist(&fv(&h.ev(h.k[i + 1])), &pts[i]) < 1e-9, "misses point {i}");
    }
    Ok(())
}
fn arcs(cx: &mut Cx) -> R {
    use std::f64::consts::{FRAC_PI_2, TAU};
    let kind = cx.r.us(0, 3);
    let a0 = match cx.r.us(0, 2) { 0 => 0., 1 => cx.r.i(-4, 4) as f64 * FRAC_PI_2 / 2., _ => cx.r.f(-7., 7.) };
    let sweep = match cx.r.us(0, 2) { 0 => *cx.r.pick(&[FRAC_PI_2, 2. * FRAC_PI_2, 3. * FRAC_PI_2, TAU]), 1 => cx.r.f(0.05, 1.5), _ => cx.r.f(0.05, TAU) };
    // a single arc close to half a turn is numerically singular by construction
    if sweep > FRAC_PI_2 * 1.9 && sweep < FRAC_PI_2 * 2. { return Ok(()); }
    let th = cx.r.f(0., 6.);
    let (rx, ry) = (cx.r.f(0.3, 5.), cx.r.f(0.3, 5.));
    let dim3 = cx.r.b();
    // orthonormal frame
    let (x, y, ctr) = if dim3 {
        let z = Vector3::new(cx.r.f(-1., 1.), cx.r.f(-1., 1.), cx.r.f(0.2, 1.)).normalize();
        let x = z.cross(&Vector3::new(th.cos(), th.sin(), 0.3)).normalize();
        (x, z.cross(&x), Point3::new(cx.r.f(-3., 3.), cx.r.f(-3., 3.), cx.r.f(-3., 3.)))
    } else {
        (Vector3::new(th.cos(), th.sin(), 0.), Vector3::new(-th.sin(), th.cos(), 0.), Point3::new(cx.r.f(-3., 3.), cx.r.f(-3., 3.), 0.))
    };
    let y = if cx.r.chance(3) { -y } else { y };
    cx.input(format!("kind {kind} 3d {dim3} center {ctr:?} x {x:?} y {y:?} radii {rx} {ry} from {a0} sweep {sweep}"));
    let (rx, ry) = if kind < 2 { (rx, rx) } else { (rx, ry) };
    let (a0, a1) = if kind == 0 || kind == 2 { (0., TAU) } else { (a0, a0 + sweep) };
    let sw = a1 - a0;
    let (h, dom) = if dim3 {
        let c = match kind {
            0 => NurbsCurve3D::try_circle(&ctr, &(x * 3.), &(y * 2.), rx),
            1 => NurbsCurve3D::try_arc(&ctr, &(x * 3.), &(y * 2.), rx, a0, a1),
            2 => NurbsCurve3D::try_ellipse(&ctr, &(x * rx), &(y * ry)),
            _ => NurbsCurve3D::try_ellipse_arc(&ctr, &(x * rx), &(y * ry), a0, a1),
        }.map_err(|e| format!("rejected: {e}"))?;
        (from_f(&c), c.knots_domain())
    } else {
        let (x, y, ctr) = (x.xy(), y.xy(), Point2::new(ctr.x, ctr.y));
        let c = match kind {
            0 => NurbsCurve2D::try_circle(&ctr, &(x * 3.), &(y * 2.), rx),
            1 => NurbsCurve2D::try_arc(&ctr, &(x * 3.), &(y * 2.), rx, a0, a1),
            2 => NurbsCurve2D::try_ellipse(&ctr, &(x * rx), &(y * ry)),
            _ => NurbsCurve2D::try_ellipse_arc(&ctr, &(x * rx), &(y * ry), a0, a1),
        }.map_err(|e| format!("rejected: {e}"))?;
        (from_f(&c), c.knots_domain())
    };
    ensure!(h.k.iter().all(|k| !k.bad()) && h.c.iter().flatten().all(|k| !k.bad()), "not finite");
    h.wf()?;
    ensure!((dom.0 - a0).abs() < 1e-9 && (dom.1 - a1).abs() < 1e-9, "domain {dom:?} for the angles {a0} .. {a1}");
    let local = |p: &[f64]| {
        let d = Vector3::new(p[0] - ctr.x, p[1] - ctr.y, if dim3 { p[2] - ctr.z } else { 0. });
        let z = x.cross(&y);
        (d.dot(&x) / rx, d.dot(&y) / ry, d.dot(&z))
    };
    let ends = [fv(&h.ev(h.domain().0)), fv(&h.ev(h.domain().1))];
    for (e, a) in ends.iter().zip([a0, a1]) {
        let (l, m, n) = local(e);
        ensure!((l - a.cos()).abs() < 1e-7 && (m - a.sin()).abs() < 1e-7 && n.abs() < 1e-7, "end at angle {a} is {e:?}");
    }
    let mut last = 0.;
    let n = 24;
    for i in 1..n {
        let u = h.domain().0 + (h.domain().1 - h.domain().0) * Q::new(i, n);
        let (l, m, z) = local(&fv(&h.ev(u)));
        ensure!((l * l + m * m - 1.).abs() < 1e-6 && z.abs() < 1e-7, "point at parameter {u} leaves the ellipse: {l} {m} {z}");
        // the angle travelled since the start
        let t = (m.atan2(l) - a0).rem_euclid(TAU);
        ensure!(t > last && t < sw + 1e-9, "at parameter {u} the curve has travelled {t} of {sw}, before it {last}");
        last = t;
    }
    let wide = NurbsCurve2D::try_arc(&Point2::new(0., 0.), &Vector2::x(), &Vector2::y(), 1., a1, a0);
    ensure!(wide.is_err(), "an arc with its end angle before its start is accepted");
    Ok(())
}
fn periodic(cx: &mut Cx) -> R {
    let p = cx.r.us(1, 4);
    let n = p + 1 + cx.r.us(0, 5);
    let pts: Vec<Vec<Q>> = (0..n).map(|_| (0..3).map(|_| coord(&mut cx.r)).collect()).collect();
    cx.input(format!("periodic degree {p} {pts:?}"));
    let q: Vec<Point3<Q>> = pts.iter().map(|v| Point3::from_slice(v)).collect();
    let c = NurbsCurve3D::<Q>::try_periodic(&q, p).map_err(|e| format!("rejected: {e}"))?;
    let h = from_curve(&c);
    h.wf()?;
    ensure!(h.p == p && h.c.len() == n + p, "degree {} with {} control points", h.p, h.c.len());
    for (i, x) in h.c.iter().enumerate() {
        ensure!(deh(x) == pts[i % n], "control point {i} is {x:?}");
    }
    let (a, b) = c.knots_domain();
    let (x, y) = (d_point(&c.point_at(a)), d_point(&c.point_at(b)));
    ensure!(x == y, "starts at {x:?} and ends at {y:?}");
    let (da, db) = (h.ders(a, p - 1), h.ders(b, p - 1));
    for k in 0..p {
        ensure!(da[k] == db[k], "derivative {k} is {:?} at the start, {:?} at the end", da[k], db[k]);
    }
    ensure!(NurbsCurve3D::<Q>::try_periodic(&q[..p], p).is_err(), "{p} points are accepted for degree {p}");
    Ok(())
}
/// the curve visits the points in order: `ps[i]` at `us[i]`
fn visits(h: &RC, ps: &[Vec<f64>], us: &[f64]) -> R {
    ensure!(h.k.iter().all(|k| !k.bad()) && h.c.iter().flatten().all(|k| !k.bad()), "not finite");
    h.wf()?;
    let (a, b) = h.domain();
    for (p, u) in ps.iter().zip(us) {
        let u = Q::from_f(*u).max(a).min(b);
        let x = fv(&h.ev(u));
        ensure!(dist(&x, p) < 1e-6, "at {u} the curve is at {x:?} instead of the point {p:?}");
    }
    Ok(())
}
/// chord length parameters in [0, 1]
fn chord(ps: &[Vec<f64>]) -> Vec<f64> {
    let mut u = vec![0.];
    for w in ps.windows(2) {
        u.push(u.last().unwrap() + dist(&w[0], &w[1]));
    }
    let l = *u.last().unwrap();
    u.into_iter().map(|x| x / l).collect()
}
fn interpolate(cx: &mut Cx) -> R {
    let p = cx.r.us(1, 4);
    let n = p + 1 + cx.r.us(0, 7);
    let dim3 = cx.r.b();
    let ps = fpoints_scaled(&mut cx.r, n, if dim3 { 3 } else { 2 });
    cx.input(format!("interpolate degree {p} {ps:?}"));
    let h = if dim3 {
        ensure!(NurbsCurve3D::try_interpolate(&p3(&ps[..p]), p).is_err(), "{p} points are accepted for degree {p}");
        from_f(&NurbsCurve3D::try_interpolate(&p3(&ps), p).map_err(|e| format!("rejected: {e}"))?)
    } else {
        from_f(&NurbsCurve2D::try_interpolate(&p2(&ps), p).map_err(|e| format!("rejected: {e}"))?)
    };
    ensure!(h.p == p && h.c.len() == n, "degree {} with {} control points", h.p, h.c.len());
    ensure!(h.c.iter().all(|c| *c.last().unwrap() == Q::int(1)), "weights are not one");
    visits(&h, &ps, &chord(&ps))
}
fn periodic_interpolate(cx: &mut Cx) -> R {
    let p = cx.r.us(2, 4);
    let n = p + 1 + cx.r.us(0, 6);
    let dim3 = cx.r.b();
    let ps = fpoints(&mut cx.r, n, if dim3 { 3 } else { 2 });
    let ks = cx.r.us(0, 2);
    let style = || match ks { 0 => KnotStyle::Uniform, 1 => KnotStyle::Chordal, _ => KnotStyle::Centripetal };
    cx.input(format!("periodic interpolate degree {p} {:?} {ps:?}", style()));
    let h = if dim3 {
        ensure!(NurbsCurve3D::try_periodic_interpolate(&p3(&ps[..p]), p, style()).is_err(), "{p} points are accepted for degree {p}");
        NurbsCurve3D::try_periodic_interpolate(&p3(&ps), p, style()).map(|c| from_f(&c))
    } else {
        NurbsCurve2D::try_periodic_interpolate(&p2(&ps), p, style()).map(|c| from_f(&c))
    };
    // interpolation at the knots is singular for an even degree and an even number of points
    let h = match h {
        Err(_) if p % 2 == 0 && n % 2 == 0 => return Ok(()),
        h => h.map_err(|e| format!("rejected: {e}"))?,
    };
    let big = h.c.iter().flatten().map(|x| x.f().abs()).fold(0., f64::max);
    if !(big < 1e4) {
        return Ok(()); // ill-conditioned system
    }
    let (a, b) = h.domain();
    let len: Vec<f64> = (0..n).map(|i| {
        let d = dist(&ps[i], &ps[(i + 1) % n]);
        match ks { 0 => 1. / (n as f64 - 1.), 1 => d, _ => d.sqrt() }
    }).collect();
    let mut us = vec![a.f()];
    for l in &len {
        us.push(us.last().unwrap() + l);
    }
    ensure!((us[n] - b.f()).abs() < 1e-7 * us[n].abs().max(1.), "domain {a} .. {b} for parameters {us:?}");
    let mut q = ps.clone();
    q.push(ps[0].clone());
    visits(&h, &q, &us)
}
fn interpolate_control_points(cx: &mut Cx) -> R {
    let p = cx.r.us(1, 3);
    let n = p + 1 + cx.r.us(0, 5);
    let dim = cx.r.us(1, 4);
    let ps = fpoints_scaled(&mut cx.r, n, dim);
    let hom = cx.r.b();
    cx.input(format!("degree {p} homogeneous {hom} {ps:?}"));
    let d: Vec<DVector<f64>> = ps.iter().map(|v| DVector::from_vec(v.clone())).collect();
    let (c, k) = try_interpolate_control_points(&d, p, hom).map_err(|e| format!("rejected: {e}"))?;
    ensure!(c.len() == n && c.iter().all(|v| v.len() == dim + hom as usize), "{} control points of {:?}", c.len(), c[0].len());
    let cp = c.iter().map(|v| {
        let mut x: Vec<Q> = v.iter().map(|x| Q::from_f(*x)).collect();
        if !hom { x.push(Q::int(1)) }
        x
    }).collect();
    visits(&RC { p, k: k.iter().map(|x| Q::from_f(*x)).collect(), c: cp }, &ps, &chord(&ps))
}
