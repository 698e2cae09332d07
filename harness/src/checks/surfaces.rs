//! C16 evaluation/derivatives/isocurves/grids, C17 refine/split/flip/transform,
//! C18 constructors
use super::curves::{d_point, mult};
use crate::cx::*;
use crate::gen::*;
use crate::q::Q;
use crate::refm::*;
use curvo::prelude::*;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, OPoint, Point3, Vector3};

subs! {
    "C16" surf_eval "surface point_at against the rational tensor-product combination; inside the hull" 600 20000;
    "C16" surf_derivatives "mixed partial derivatives and normals against the quotient rule" 400 12000;
    "C16" isocurve "isocurves and boundary curves lie on the surface" 800 20000;
    "C16" sample_grid "regular grids of points and derivatives against pointwise evaluation" 400 8000;
    "C17" surf_refine "knot refinement keeps every surface point" 600 16000;
    "C17" surf_split "the two halves of a split surface retrace it" 800 20000;
    "C17" surf_flip "flip/invert retrace the surface backwards in exactly the named directions" 600 12000;
    "C17" surf_transform "affine transforms move every surface point; transposition and cast" 400 8000;
    "C18" plane_extrude "plane and extrusion parametrise exactly the plane patch / the swept segment" 500 10000;
    "C18" loft "lofts start at the first curve and end at the last" 300 6000;
    "C18" revolve "revolved surfaces are the rotated profile" 300 6000;
    "C18" sphere "every sphere point is at the radius" 200 4000;
    "C18" sweep "sweeps start and end with the profile moved onto the rail" 150 3000;
}

pub fn rs(r: &mut Rng, dim: usize, style: KS, maxp: usize, extra: usize) -> RS {
    let (pu, pv) = (r.us(1, maxp), r.us(1, maxp));
    let (nu, nv) = (pu + 1 + r.us(0, extra), pv + 1 + r.us(0, extra));
    let ku = knots(r, pu, nu, style, pu);
    let kv = knots(r, pv, nv, style, pv);
    let rat = r.b();
    let c = (0..nu).map(|_| (0..nv).map(|_| hpoint(r, dim, rat)).collect()).collect();
    RS { pu, pv, ku, kv, c }
}
pub fn to_surf<const D: usize>(s: &RS) -> NurbsSurface<Q, Const<D>>
where
    Const<D>: nalgebra::DimNameSub<nalgebra::U1>,
    DefaultAllocator: Allocator<Const<D>> + Allocator<nalgebra::DimNameDiff<Const<D>, nalgebra::U1>>,
{
    NurbsSurface::new(
        s.pu,
        s.pv,
        s.ku.clone(),
        s.kv.clone(),
        s.c.iter().map(|r| r.iter().map(|p| OPoint::<Q, Const<D>>::from_slice(p)).collect()).collect(),
    )
}
pub fn from_surf<const D: usize>(s: &NurbsSurface<Q, Const<D>>) -> RS
where
    Const<D>: nalgebra::DimNameSub<nalgebra::U1>,
    DefaultAllocator: Allocator<Const<D>> + Allocator<nalgebra::DimNameDiff<Const<D>, nalgebra::U1>>,
{
    RS {
        pu: s.u_degree(),
        pv: s.v_degree(),
        ku: s.u_knots().to_vec(),
        kv: s.v_knots().to_vec(),
        c: s.control_points().iter().map(|r| r.iter().map(|p| p.iter().copied().collect()).collect()).collect(),
    }
}
pub fn from_surf_f(s: &NurbsSurface3D<f64>) -> RS {
    let q = |x: &f64| Q::from_f(*x);
    RS {
        pu: s.u_degree(),
        pv: s.v_degree(),
        ku: s.u_knots().iter().map(q).collect(),
        kv: s.v_knots().iter().map(q).collect(),
        c: s.control_points().iter().map(|r| r.iter().map(|p| p.iter().map(q).collect()).collect()).collect(),
    }
}
fn any(cx: &mut Cx, dim: usize) -> RS {
    let s = rs(&mut cx.r, dim, KS::Any, 3, 3);
    cx.input(s.show());
    s
}
fn uv(r: &mut Rng, s: &RS) -> (Q, Q) {
    let a = params(r, &s.ku, s.pu);
    let b = params(r, &s.kv, s.pv);
    (*r.pick(&a), *r.pick(&b))
}
/// same surface where u,v of x in the given box map to y's parameters
fn same_surf(r: &mut Rng, x: &RS, y: &RS, mu: impl Fn(Q) -> Q, mv: impl Fn(Q) -> Q, bu: (Q, Q), bv: (Q, Q)) -> R {
    let pick = |r: &mut Rng, k: &[Q], p: usize, b: (Q, Q)| -> Vec<Q> {
        let mut v: Vec<Q> = params(r, k, p).into_iter().filter(|t| b.0 <= *t && *t <= b.1).collect();
        v.push(b.0);
        v.push(b.1);
        v.push(r.between(b.0, b.1));
        v.sort();
        v.dedup();
        v
    };
    let us = pick(r, &x.ku, x.pu, bu);
    let vs = pick(r, &x.kv, x.pv, bv);
    for u in &us {
        let (cx_, cy_) = (x.at_u(*u), y.at_u(mu(*u)));
        for v in &vs {
            let (p, q) = (cx_.ev(*v), cy_.ev(mv(*v)));
            ensure!(p == q, "surfaces differ at ({u}, {v}): {p:?} vs {q:?}");
        }
    }
    Ok(())
}
fn surf_eval(cx: &mut Cx) -> R {
    let two = cx.r.chance(4);
    let s = any(cx, if two { 2 } else { 3 });
    for _ in 0..5 {
        let (u, v) = uv(&mut cx.r, &s);
        let e = s.ev(u, v);
        let g = if two { d_point(&to_surf::<3>(&s).point_at(u, v)) } else { d_point(&to_surf::<4>(&s).point_at(u, v)) };
        ensure!(g == e, "point_at({u}, {v}) = {g:?}, tensor-product combination gives {e:?}");
        let d: Vec<Q> = (0..e.len()).map(|_| Q::int(cx.r.i(-3, 3))).collect();
        let pr: Vec<Q> = s.c.iter().flatten().map(|h| dot(&deh(h), &d)).collect();
        let x = dot(&g, &d);
        ensure!(*pr.iter().min().unwrap() <= x && x <= *pr.iter().max().unwrap(), "point at ({u}, {v}) outside the hull");
    }
    if !two {
        let g = to_surf::<4>(&s);
        ensure!(g.u_knots_domain() == s.udom() && g.v_knots_domain() == s.vdom() && g.knots_domain() == (s.udom(), s.vdom()), "domain");
        ensure!(g.knots_domain_at(UVDirection::U) == s.udom() && g.knots_domain_at(UVDirection::V) == s.vdom(), "domain_at");
        let (a, b) = (s.udom(), s.vdom());
        ensure!(g.knots_domain_interval() == (a.1 - a.0, b.1 - b.0), "interval");
        let dh = g.dehomogenized_control_points();
        for i in 0..s.c.len() {
            for j in 0..s.c[0].len() {
                ensure!(d_point(&dh[i][j]) == deh(&s.c[i][j]), "dehomogenized control point ({i},{j})");
            }
        }
    }
    Ok(())
}
fn cross(a: &[Q], b: &[Q]) -> Vec<Q> {
    vec![a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn surf_derivatives(cx: &mut Cx) -> R {
    let s = any(cx, 3);
    let g = to_surf::<4>(&s);
    for _ in 0..2 {
        let (u, v) = uv(&mut cx.r, &s);
        let n = cx.r.us(0, 3);
        let e = s.ders(u, v, n);
        let d = g.rational_derivatives(u, v, n);
        for k in 0..=n {
            for l in 0..=n - k {
                let x: Vec<Q> = d[k][l].iter().copied().collect();
                ensure!(x == e[k][l], "derivative ({k},{l}) at ({u}, {v}): {x:?}, expected {:?}", e[k][l]);
            }
        }
        let e = s.ders(u, v, 1);
        let x: Vec<Q> = g.normal_at(u, v).iter().copied().collect();
        ensure!(x == cross(&e[1][0], &e[0][1]), "normal at ({u}, {v}): {x:?}");
    }
    Ok(())
}
fn isocurve(cx: &mut Cx) -> R {
    let s = any(cx, 3);
    let g = to_surf::<4>(&s);
    if cx.r.chance(3) {
        let b = g.try_boundary_curves().map_err(|e| format!("boundary curves failed: {e}"))?;
        let (ud, vd) = (s.udom(), s.vdom());
        for (i, c) in b.iter().enumerate() {
            let c = from_curve(c);
            c.wf()?;
            let along_v = i % 2 == 0;
            let d = if along_v { vd } else { ud };
            ensure!(c.domain() == d, "boundary curve {i} has domain {:?}, expected {d:?}", c.domain());
            for t in params(&mut cx.r, &c.k, c.p) {
                let e = match i {
                    0 => s.ev(ud.0, t),
                    1 => s.ev(t, vd.0),
                    2 => s.ev(ud.1, t),
                    _ => s.ev(t, vd.1),
                };
                ensure!(c.ev(t) == e, "boundary curve {i} at {t}: {:?}, surface {e:?}", c.ev(t));
            }
        }
        return Ok(());
    }
    let (u, v) = uv(&mut cx.r, &s);
    let dir = if cx.r.b() { UVDirection::U } else { UVDirection::V };
    let t = if dir == UVDirection::U { u } else { v };
    cx.input(format!("isocurve {dir:?} at {t}"));
    let c = g.try_isocurve(t, dir).map_err(|e| format!("isocurve failed: {e}"))?;
    let c = from_curve(&c);
    c.wf()?;
    let d = if dir == UVDirection::U { s.vdom() } else { s.udom() };
    ensure!(c.domain() == d, "isocurve domain {:?}, expected {d:?}", c.domain());
    for x in params(&mut cx.r, &c.k, c.p) {
        let e = if dir == UVDirection::U { s.ev(t, x) } else { s.ev(x, t) };
        ensure!(c.ev(x) == e, "isocurve at {x}: {:?}, surface {e:?}", c.ev(x));
    }
    Ok(())
}
fn sample_grid(cx: &mut Cx) -> R {
    let s = any(cx, 3);
    let g = to_surf::<4>(&s);
    let (du, dv) = (cx.r.us(1, 5), cx.r.us(1, 5));
    let n = cx.r.us(0, 3);
    cx.input(format!("{du} x {dv} divisions, {n} derivatives"));
    let p = g.regular_sample_points(du, dv);
    let d = g.regular_sample_rational_derivatives(du, dv, n);
    ensure!(p.len() == du + 1 && p.iter().all(|r| r.len() == dv + 1), "grid size");
    ensure!(d.len() == du + 1 && d.iter().all(|r| r.len() == dv + 1), "derivative grid size");
    let (a, b) = (s.udom(), s.vdom());
    for i in 0..=du {
        for j in 0..=dv {
            let u = a.0 + (a.1 - a.0) * Q::new(i as i64, du as i64);
            let v = b.0 + (b.1 - b.0) * Q::new(j as i64, dv as i64);
            let e = s.ev(u, v);
            ensure!(d_point(&p[i][j]) == e, "grid point ({i},{j}) at ({u},{v}): {:?}, expected {e:?}", p[i][j]);
            if (i + j) % 3 == 0 {
                let e = s.ders(u, v, n);
                for k in 0..=n {
                    for l in 0..=n - k {
                        let x: Vec<Q> = d[i][j][k][l].iter().copied().collect();
                        ensure!(x == e[k][l], "grid derivative ({k},{l}) at ({u},{v}): {x:?}, expected {:?}", e[k][l]);
                    }
                }
            }
        }
    }
    Ok(())
}
fn dir(r: &mut Rng) -> UVDirection {
    if r.b() { UVDirection::U } else { UVDirection::V }
}
fn surf_refine(cx: &mut Cx) -> R {
    let s = any(cx, 3);
    let d = dir(&mut cx.r);
    let (k, p) = if d == UVDirection::U { (s.ku.clone(), s.pu) } else { (s.kv.clone(), s.pv) };
    let mut add: Vec<Q> = vec![];
    for _ in 0..cx.r.us(0, 3) {
        let v = params(&mut cx.r, &k, p);
        let t = *cx.r.pick(&v);
        if t > k[p] && t < k[k.len() - 1 - p] && mult(&k, t) + add.iter().filter(|x| **x == t).count() < p {
            add.push(t);
        }
    }
    add.sort();
    cx.input(format!("insert {add:?} in {d:?}"));
    let mut g = to_surf::<4>(&s);
    g.try_refine_knot(add.clone(), d).map_err(|e| format!("failed: {e}"))?;
    let g = from_surf(&g);
    g.wf()?;
    let mut e = k.clone();
    e.extend(add);
    e.sort();
    let (gk, go, so) = if d == UVDirection::U { (&g.ku, &g.kv, &s.kv) } else { (&g.kv, &g.ku, &s.ku) };
    ensure!(*gk == e, "knots {gk:?}, expected {e:?}");
    ensure!(go == so && g.pu == s.pu && g.pv == s.pv, "other direction changed");
    same_surf(&mut cx.r, &g, &s, |u| u, |v| v, s.udom(), s.vdom())
}
fn surf_split(cx: &mut Cx) -> R {
    let s = any(cx, 3);
    let d = dir(&mut cx.r);
    let (k, p) = if d == UVDirection::U { (&s.ku, s.pu) } else { (&s.kv, s.pv) };
    let t = loop {
        let v = params(&mut cx.r, k, p);
        let t = *cx.r.pick(&v);
        if t > k[p] && t < k[k.len() - 1 - p] {
            break t;
        }
    };
    cx.input(format!("split at {t} in {d:?}"));
    let (x, y) = to_surf::<4>(&s).try_split(SplitSurfaceOption::new(t, d)).map_err(|e| format!("failed: {e}"))?;
    let (ud, vd) = (s.udom(), s.vdom());
    for (i, h) in [x, y].iter().enumerate() {
        let g = from_surf(h);
        g.wf()?;
        let cut = |a: (Q, Q)| if i == 0 { (a.0, t) } else { (t, a.1) };
        let (eu, ev) = if d == UVDirection::U { (cut(ud), vd) } else { (ud, cut(vd)) };
        ensure!(g.pu == s.pu && g.pv == s.pv, "piece {i}: degree");
        ensure!((g.udom(), g.vdom()) == (eu, ev), "piece {i}: domain {:?}, expected {:?}", (g.udom(), g.vdom()), (eu, ev));
        same_surf(&mut cx.r, &g, &s, |u| u, |v| v, eu, ev).map_err(|e| format!("piece {i}: {e}"))?;
        let (u, v) = (*cx.r.pick(&[eu.0, eu.1]), *cx.r.pick(&[ev.0, ev.1]));
        let x = d_point(&h.point_at(u, v));
        ensure!(x == s.ev(u, v), "piece {i} evaluates to {x:?} at ({u}, {v}), surface to {:?}", s.ev(u, v));
    }
    Ok(())
}
fn surf_flip(cx: &mut Cx) -> R {
    let s = any(cx, 3);
    let g = to_surf::<4>(&s);
    let w = cx.r.us(0, 3);
    let (f, fu, fv) = match w {
        0 => (g.flip(FlipDirection::U), true, false),
        1 => (g.flip(FlipDirection::V), false, true),
        2 => (g.flip(FlipDirection::UV), true, true),
        _ => (g.inverse(), true, true),
    };
    cx.input(format!("flip {}", ["U", "V", "UV", "invert"][w]));
    let h = from_surf(&f);
    h.wf()?;
    ensure!(h.pu == s.pu && h.pv == s.pv, "degrees");
    let mir = |k: &[Q], t: Q, on: bool| if on { k[0] + k[k.len() - 1] - t } else { t };
    let (ku, kv) = (s.ku.clone(), s.kv.clone());
    same_surf(&mut cx.r, &s, &h, |u| mir(&ku, u, fu), |v| mir(&kv, v, fv), s.udom(), s.vdom())?;
    let (u, v) = uv(&mut cx.r, &s);
    let x = d_point(&f.point_at(mir(&ku, u, fu), mir(&kv, v, fv)));
    ensure!(x == s.ev(u, v), "flipped surface evaluates to {x:?}, surface at ({u}, {v}) to {:?}", s.ev(u, v));
    Ok(())
}
fn surf_transform(cx: &mut Cx) -> R {
    let s = any(cx, 3);
    let mut m = nalgebra::Matrix4::<Q>::identity();
    for i in 0..3 {
        for j in 0..4 {
            m[(i, j)] = Q::new(cx.r.i(-4, 4), cx.r.i(1, 2));
        }
    }
    let g = to_surf::<4>(&s);
    let h = from_surf(&g.transformed(&m));
    h.wf()?;
    ensure!(h.ku == s.ku && h.kv == s.kv && h.pu == s.pu && h.pv == s.pv, "knots/degrees changed");
    for _ in 0..4 {
        let (u, v) = uv(&mut cx.r, &s);
        let p = s.ev(u, v);
        let e: Vec<Q> = (0..3).map(|i| m[(i, 0)] * p[0] + m[(i, 1)] * p[1] + m[(i, 2)] * p[2] + m[(i, 3)]).collect();
        ensure!(h.ev(u, v) == e, "transformed surface at ({u}, {v}): {:?}, transformed point {e:?}", h.ev(u, v));
    }
    let t = g.transposed_control_points();
    ensure!(t.len() == s.c[0].len(), "transposed rows");
    for j in 0..t.len() {
        ensure!(t[j].len() == s.c.len(), "transposed columns");
        for i in 0..t[j].len() {
            ensure!(d_point(&t[j][i]) == s.c[i][j], "transposed control point ({j},{i})");
        }
    }
    let c = from_surf(&g.cast::<Q>());
    ensure!(c.ku == s.ku && c.kv == s.kv && c.c == s.c && c.pu == s.pu && c.pv == s.pv, "cast changed the surface");
    Ok(())
}
fn plane_extrude(cx: &mut Cx) -> R {
    let v3 = |r: &mut Rng| Vector3::<Q>::new(coord(r), coord(r), coord(r));
    if cx.r.chance(3) {
        let (c, x, y) = (v3(&mut cx.r), v3(&mut cx.r), v3(&mut cx.r));
        cx.input(format!("plane {c:?} {x:?} {y:?}"));
        let g = NurbsSurface3D::<Q>::plane(Point3::from(c), x, y);
        let h = from_surf(&g);
        h.wf()?;
        let (a, b) = (h.udom(), h.vdom());
        for i in 0..=3 {
            for j in 0..=3 {
                let (s, t) = (Q::new(i, 3), Q::new(j, 3));
                let e = c + x * (s * Q::int(2) - Q::int(1)) + y * (t * Q::int(2) - Q::int(1));
                let p = h.ev(a.0 + (a.1 - a.0) * s, b.0 + (b.1 - b.0) * t);
                ensure!(p == e.iter().copied().collect::<Vec<_>>(), "plane at ({s},{t}): {p:?}, expected {e:?}");
            }
        }
        return Ok(());
    }
    let c = rc(&mut cx.r, 3, KS::Any, 3, 4);
    cx.input(c.show());
    let t = v3(&mut cx.r);
    cx.input(format!("extrude along {t:?}"));
    let g = from_surf(&NurbsSurface3D::extrude(&to_curve::<4>(&c), &t));
    g.wf()?;
    ensure!(g.vdom() == c.domain(), "v domain {:?} instead of the profile's {:?}", g.vdom(), c.domain());
    let d = g.udom();
    for v in params(&mut cx.r, &c.k, c.p) {
        let p = c.ev(v);
        for i in 0..=3 {
            let s = Q::new(i, 3);
            // u = 0 is the translated profile, u = 1 the profile itself
            let e: Vec<Q> = (0..3).map(|j| p[j] + t[j] * (Q::int(1) - s)).collect();
            let x = g.ev(d.0 + (d.1 - d.0) * s, v);
            ensure!(x == e, "extrusion at ({s}, {v}): {x:?}, expected {e:?}");
        }
    }
    Ok(())
}
pub fn curve_f<const D: usize>(c: &RC) -> NurbsCurve<f64, Const<D>>
where
    DefaultAllocator: Allocator<Const<D>>,
{
    NurbsCurve::try_new(
        c.p,
        c.c.iter().map(|p| OPoint::<f64, Const<D>>::from_slice(&p.iter().map(|x| x.f()).collect::<Vec<_>>())).collect(),
        c.k.iter().map(|x| x.f()).collect(),
    )
    .expect("try_new rejected a well-formed curve")
}
pub fn fv(v: &[Q]) -> Vec<f64> {
    v.iter().map(|x| x.f()).collect()
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    let d = a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt();
    if d.is_nan() { f64::INFINITY } else { d }
}
fn finite(s: &NurbsSurface3D<f64>) -> R {
    ensure!(s.u_knots().iter().chain(s.v_knots().iter()).all(|x| x.is_finite()), "knots not finite");
    ensure!(s.control_points().iter().flatten().all(|p| p.iter().all(|x| x.is_finite())), "control points not finite");
    Ok(())
}
fn loft(cx: &mut Cx) -> R {
    let n = cx.r.us(2, 5);
    let p = cx.r.us(1, 3);
    let mixed = cx.r.b();
    let mut cs = vec![];
    for i in 0..n {
        let mut c = if mixed {
            let p = cx.r.us(1, 3);
            rc_deg(&mut cx.r, 3, KS::Clamped, p, 3)
        } else {
            rc_deg(&mut cx.r, 3, KS::Clamped, p, 3)
        };
        for h in c.c.iter_mut() {
            // separate the sections so that no column of control points coincides
            let w = h[3];
            h[2] += Q::int(20 * i as i64) * w;
        }
        cs.push(c);
    }
    let dv = if cx.r.b() { Some(cx.r.us(1, 4)) } else { None };
    for c in &cs {
        cx.input(c.show());
    }
    cx.input(format!("loft degree {dv:?}"));
    let fs: Vec<_> = cs.iter().map(curve_f::<4>).collect();
    let s = NurbsSurface3D::try_loft(&fs, dv).map_err(|e| format!("loft failed: {e}"))?;
    finite(&s)?;
    let g = from_surf_f(&s);
    g.wf()?;
    let maxp = cs.iter().map(|c| c.p).max().unwrap();
    ensure!(g.pu == maxp && g.pv == dv.unwrap_or(maxp).min(n - 1), "degrees {} {}", g.pu, g.pv);
    let (ud, vd) = (g.udom(), g.vdom());
    for (c, v) in [(&cs[0], vd.0), (&cs[n - 1], vd.1)] {
        let (a, b) = c.domain();
        for i in 0..=6 {
            let t = a + (b - a) * Q::new(i, 6);
            let u = ud.0 + (ud.1 - ud.0) * Q::new(i, 6);
            let (x, e) = (fv(&g.ev(u, v)), fv(&c.ev(t)));
            ensure!(dist(&x, &e) < 1e-6, "loft at ({u}, {v}) is {x:?}, the section is {e:?}");
        }
    }
    Ok(())
}
fn unit(r: &mut Rng) -> Vector3<f64> {
    loop {
        let v = Vector3::new(r.f(-1., 1.), r.f(-1., 1.), r.f(-1., 1.));
        if v.norm() > 0.2 {
            return if r.chance(3) { *r.pick(&[Vector3::x(), Vector3::y(), Vector3::z(), -Vector3::z()]) } else { v.normalize() };
        }
    }
}
fn revolve(cx: &mut Cx) -> R {
    let c = rc(&mut cx.r, 3, KS::Clamped, 3, 3);
    let cf = curve_f::<4>(&c);
    let ax = unit(&mut cx.r);
    let ctr = Point3::new(cx.r.f(-2., 2.), cx.r.f(-2., 2.), cx.r.f(-2., 2.));
    let q = std::f64::consts::FRAC_PI_2;
    let th = if cx.r.chance(3) { *cx.r.pick(&[q, 2. * q, 3. * q, 4. * q]) } else { cx.r.f(0.05, 4. * q) };
    cx.input(format!("{} ; axis {ax:?} center {ctr:?} angle {th}", c.show()));
    let s = NurbsSurface3D::try_revolve(&cf, &ctr, &ax, th).map_err(|e| format!("revolve failed: {e}"))?;
    finite(&s)?;
    let g = from_surf_f(&s);
    g.wf()?;
    let ((u0, u1), vd) = (g.udom(), g.vdom());
    ensure!(fv(&[vd.0, vd.1]) == fv(&[c.domain().0, c.domain().1]), "v domain {vd:?}");
    let narcs = if th <= q { 1 } else if th <= 2. * q { 2 } else if th <= 3. * q { 3 } else { 4 };
    let rot = |p: &[f64], a: f64| -> Vec<f64> {
        let d = Vector3::new(p[0] - ctr.x, p[1] - ctr.y, p[2] - ctr.z);
        let r = nalgebra::Rotation3::from_axis_angle(&nalgebra::Unit::new_unchecked(ax), a) * d;
        vec![r.x + ctr.x, r.y + ctr.y, r.z + ctr.z]
    };
    for v in params(&mut cx.r, &g.kv, g.pv).into_iter().take(6) {
        let prof = fv(&c.ev(v.max(c.domain().0).min(c.domain().1)));
        for i in 0..=narcs {
            let u = u0 + (u1 - u0) * Q::new(i as i64, narcs as i64);
            let x = fv(&g.ev(u, v));
            let e = rot(&prof, th * i as f64 / narcs as f64);
            // joints between arcs at 1/3 are not exactly representable
            ensure!(dist(&x, &e) < 1e-6 * (1. + prof.iter().map(|x| x.abs()).fold(0., f64::max)), "revolved at ({u},{v}) is {x:?}, rotated profile {e:?}");
        }
        for i in 1..8 {
            let u = u0 + (u1 - u0) * Q::new(i, 8);
            let x = fv(&g.ev(u, v));
            let rad = |p: &[f64]| {
                let d = Vector3::new(p[0] - ctr.x, p[1] - ctr.y, p[2] - ctr.z);
                let h = d.dot(&ax);
                (h, (d - ax * h).norm())
            };
            let (a, b) = (rad(&x), rad(&prof));
            ensure!((a.0 - b.0).abs() < 1e-6 * (1. + b.0.abs()) && (a.1 - b.1).abs() < 1e-6 * (1. + b.1), "revolved at ({u},{v}): height/radius {a:?}, profile {b:?}");
        }
    }
    Ok(())
}
fn sphere(cx: &mut Cx) -> R {
    let ax = unit(&mut cx.r);
    let mut x = ax.cross(&unit(&mut cx.r));
    while x.norm() < 0.1 {
        x = ax.cross(&unit(&mut cx.r));
    }
    let x = x.normalize();
    let ctr = Point3::new(cx.r.f(-2., 2.), cx.r.f(-2., 2.), cx.r.f(-2., 2.));
    let rad = cx.r.f(0.1, 5.);
    cx.input(format!("sphere {ctr:?} axis {ax:?} x {x:?} radius {rad}"));
    let s = NurbsSurface3D::try_sphere(&ctr, &ax, &x, rad).map_err(|e| format!("sphere failed: {e}"))?;
    finite(&s)?;
    let (ud, vd) = s.knots_domain();
    for i in 0..=9 {
        for j in 0..=9 {
            let (u, v) = (ud.0 + (ud.1 - ud.0) * i as f64 / 9., vd.0 + (vd.1 - vd.0) * j as f64 / 9.);
            let p = s.point_at(u, v);
            let d = (p - ctr).norm();
            ensure!((d - rad).abs() < 1e-7 * (1. + rad), "sphere point at ({u},{v}) is at distance {d} from the center, radius {rad}");
        }
    }
    Ok(())
}
fn sweep(cx: &mut Cx) -> R {
    let prof = rc(&mut cx.r, 3, KS::Clamped, 3, 2);
    // a regular rail: control points advance in x
    let mut rail = rc(&mut cx.r, 3, KS::Clamped, 3, 2);
    for (i, h) in rail.c.iter_mut().enumerate() {
        let w = h[3];
        h[0] = Q::int(30 * i as i64) * w;
    }
    cx.input(prof.show());
    cx.input(rail.show());
    let (p, r) = (curve_f::<4>(&prof), curve_f::<4>(&rail));
    let s = NurbsSurface3D::try_sweep(&p, &r, None).map_err(|e| format!("sweep failed: {e}"))?;
    finite(&s)?;
    let g = from_surf_f(&s);
    g.wf()?;
    let (ud, vd) = (g.udom(), g.vdom());
    let (a, b) = prof.domain();
    let (ra, rb) = rail.domain();
    // a section is a rigid motion of the profile that takes the origin onto the rail:
    // pairwise distances, and distances to the rail point, are the profile's
    for (v, t) in [(vd.0, ra), (vd.1, rb)] {
        let o = fv(&rail.ev(t));
        let mut last: Option<(Vec<f64>, Vec<f64>)> = None;
        for i in 0..=5 {
            let x = fv(&g.ev(ud.0 + (ud.1 - ud.0) * Q::new(i, 5), v));
            let e = fv(&prof.ev(a + (b - a) * Q::new(i, 5)));
            let (d0, d1) = (dist(&x, &o), dist(&e, &[0., 0., 0.]));
            ensure!((d0 - d1).abs() < 1e-5 * (1. + d1), "section at {v}: point {i} is {d0} from the rail point, the profile point is {d1} from the origin");
            if let Some((lx, le)) = &last {
                let (d0, d1) = (dist(&x, lx), dist(&e, le));
                ensure!((d0 - d1).abs() < 1e-5 * (1. + d1), "section at {v}: chord {d0}, profile chord {d1}");
            }
            last = Some((x, e));
        }
    }
    Ok(())
}
