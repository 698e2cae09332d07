//! C19 surface tessellation, C20 boundary constraints, C21 curve and region tessellation
use super::surfaces::{curve_f, dist, from_surf_f, fv, rs};
use crate::cx::*;
use crate::gen::*;
use crate::q::Q;
use crate::refm::*;
use curvo::prelude::*;
use nalgebra::{OPoint, Const, Point2, Vector2, Vector3};
use std::collections::{BTreeSet, HashMap};

subs! {
    "C19" surface_mesh "tessellations are conforming, consistently oriented and cover the whole domain; vertices lie on the surface" 500 12000;
    "C19" regular_mesh "regular tessellations are conforming grids of surface points" 300 6000;
    "C20" constrained "constrained boundaries carry exactly the requested parameters" 500 12000;
    "C20" merge "boundary parameters of opposite sides are merged in order without repeats" 1000 20000;
    "C21" curve_points "tessellated curves run along the curve from end to end and split until flat" 800 20000;
    "C21" short_curves "a curve over a short domain keeps both ends and joins in chains" 60 1000;
    "C21" compound_points "tessellated compound curves join without repeats and close" 500 10000;
    "C21" region_mesh "the mesh of a polygonal region covers exactly the region" 400 8000;
}

fn surf_f(s: &RS) -> NurbsSurface3D<f64> {
    NurbsSurface3D::new(
        s.pu,
        s.pv,
        fv(&s.ku),
        fv(&s.kv),
        s.c.iter().map(|r| r.iter().map(|p| OPoint::<f64, Const<4>>::from_slice(&fv(p))).collect()).collect(),
    )
}
/// a surface over a grid: x and y follow the indices, z is free
fn height(r: &mut Rng, s: &mut RS) {
    for (i, row) in s.c.iter_mut().enumerate() {
        for (j, p) in row.iter_mut().enumerate() {
            let w = p[3];
            p[0] = Q::int(4 * i as i64) * w;
            p[1] = Q::int(4 * j as i64) * w;
            p[2] = Q::new(r.i(-8, 8), 2) * w;
        }
    }
}
fn key(v: &Vector2<f64>) -> (u64, u64) {
    ((v.x + 0.).to_bits(), (v.y + 0.).to_bits())
}
fn parts(t: &SurfaceTessellation3D<f64>, s: &RS) -> R {
    let n = t.points().len();
    ensure!(t.normals().len() == n && t.uvs().len() == n, "{n} points, {} normals, {} uvs", t.normals().len(), t.uvs().len());
    ensure!(t.faces().iter().flatten().all(|i| *i < n), "a face names a vertex that does not exist");
    let (u, v) = (fv(&[s.udom().0, s.udom().1]), fv(&[s.vdom().0, s.vdom().1]));
    for x in t.uvs() {
        ensure!(x.x >= u[0] - 1e-9 && x.x <= u[1] + 1e-9 && x.y >= v[0] - 1e-9 && x.y <= v[1] + 1e-9, "parameter {x:?} outside the domain {u:?} {v:?}");
    }
    Ok(())
}
/// vertices lie on the surface at their parameters with unit normals
fn on_surface(r: &mut Rng, t: &SurfaceTessellation3D<f64>, s: &RS, unit: bool, max: usize) -> R {
    let n = t.points().len();
    for _ in 0..max.min(n) {
        let i = r.us(0, n - 1);
        let uv = t.uvs()[i];
        let c = |x: f64, d: (Q, Q)| Q::from_f(x).max(d.0).min(d.1);
        let (u, v) = (c(uv.x, s.udom()), c(uv.y, s.vdom()));
        let d = s.ders(u, v, 1);
        let p = t.points()[i];
        let e = fv(&d[0][0]);
        ensure!(dist(&[p.x, p.y, p.z], &e) < 1e-7, "vertex {i} at ({}, {}) is {p:?}, the surface is at {e:?}", uv.x, uv.y);
        let (a, b) = (fv(&d[1][0]), fv(&d[0][1]));
        let (a, b) = (Vector3::from_column_slice(&a), Vector3::from_column_slice(&b));
        let x = a.cross(&b);
        // a grid parameter computed with a rounding error may fall on either side of a crease
        let crease = |k: &[Q], p: usize, x: f64| k.iter().filter(|y| (y.f() - x).abs() < 1e-9).count() >= p;
        if x.norm() > 1e-3 && !crease(&s.ku, s.pu, uv.x) && !crease(&s.kv, s.pv, uv.y) {
            let m = t.normals()[i];
            let e = if unit { x.normalize() } else { x };
            ensure!((m - e).norm() < 1e-6 * e.norm().max(1.), "normal of vertex {i} at ({}, {}) is {m:?}, expected {e:?}", uv.x, uv.y);
        }
    }
    Ok(())
}
fn conforming(t: &SurfaceTessellation3D<f64>, s: &RS) -> R {
    let us = t.uvs();
    let (mut lo, mut hi) = (us[0], us[0]);
    for x in us {
        lo = lo.inf(x);
        hi = hi.sup(x);
    }
    let (u, v) = (fv(&[s.udom().0, s.udom().1]), fv(&[s.vdom().0, s.vdom().1]));
    for (a, b) in [(lo.x, u[0]), (hi.x, u[1]), (lo.y, v[0]), (hi.y, v[1])] {
        ensure!((a - b).abs() < 1e-9, "the mesh stops at {a} instead of {b}");
    }
    let mut total = 0.;
    let mut edges: HashMap<((u64, u64), (u64, u64)), usize> = HashMap::new();
    for f in t.faces() {
        let p = f.map(|i| us[i]);
        let a = (p[1] - p[0]).perp(&(p[2] - p[0])) / 2.;
        ensure!(a > 0., "face {f:?} with corners {p:?} is flat or turned over");
        total += a;
        for k in 0..3 {
            *edges.entry((key(&p[k]), key(&p[(k + 1) % 3]))).or_default() += 1;
        }
    }
    let area = (u[1] - u[0]) * (v[1] - v[0]);
    ensure!((total - area).abs() < 1e-9 * area, "the faces cover {total} of {area}");
    let un = |k: (u64, u64)| (f64::from_bits(k.0), f64::from_bits(k.1));
    for (&(a, b), &n) in &edges {
        ensure!(n == 1, "edge {:?} - {:?} is used {n} times in one direction", un(a), un(b));
        if !edges.contains_key(&(b, a)) {
            let (x, y) = (un(a), un(b));
            let side = (x.0 == y.0 && (x.0 == lo.x || x.0 == hi.x)) || (x.1 == y.1 && (x.1 == lo.y || x.1 == hi.y));
            ensure!(side, "edge {x:?} - {y:?} inside the domain has no neighbour (crack)");
        }
    }
    Ok(())
}
fn options(r: &mut Rng) -> AdaptiveTessellationOptions<f64> {
    AdaptiveTessellationOptions {
        norm_tolerance: *r.pick(&[2.5e-2, 1e-1, 4e-3, 0.5]),
        min_divs_u: r.us(1, 6),
        min_divs_v: r.us(1, 6),
        min_depth: if r.chance(3) { r.us(0, 2) } else { 0 },
        max_depth: r.us(0, 5),
    }
}
fn surface_mesh(cx: &mut Cx) -> R {
    let mut s = rs(&mut cx.r, 3, KS::Any, 3, 2);
    if cx.r.b() {
        height(&mut cx.r, &mut s);
    }
    let o = if cx.r.chance(4) { None } else { Some(options(&mut cx.r)) };
    cx.input(format!("{} ; options {o:?}", s.show()));
    let g = surf_f(&s);
    let s = from_surf_f(&g);
    let t = g.tessellate(o);
    parts(&t, &s)?;
    conforming(&t, &s)?;
    on_surface(&mut cx.r, &t, &s, true, 8)
}
fn regular_mesh(cx: &mut Cx) -> R {
    let s = rs(&mut cx.r, 3, KS::Any, 3, 2);
    let (a, b) = (cx.r.us(1, 6), cx.r.us(1, 6));
    cx.input(format!("{} ; divisions {a} {b}", s.show()));
    let g = surf_f(&s);
    let s = from_surf_f(&g);
    let t = g.regular_tessellate(a, b);
    parts(&t, &s)?;
    conforming(&t, &s)?;
    ensure!(t.points().len() == (a + 1) * (b + 1), "{} vertices for {a} x {b} divisions", t.points().len());
    on_surface(&mut cx.r, &t, &s, true, 8)
}
/// sorted parameters including both ends of the domain
fn boundary(r: &mut Rng, d: (Q, Q)) -> Vec<f64> {
    let mut v: BTreeSet<Q> = [d.0, d.1].into_iter().collect();
    for _ in 0..r.us(0, 5) {
        let n = r.i(2, 16);
        v.insert(d.0 + (d.1 - d.0) * Q::new(r.i(1, n - 1), n));
    }
    v.into_iter().map(|x| x.f()).collect()
}
fn constrained(cx: &mut Cx) -> R {
    let mut s = rs(&mut cx.r, 3, KS::Any, 3, 2);
    height(&mut cx.r, &mut s);
    let side = |r: &mut Rng, d| if r.chance(3) { None } else { Some(boundary(r, d)) };
    let (a, b) = (side(&mut cx.r, s.udom()), side(&mut cx.r, s.udom()));
    let (c, d) = (side(&mut cx.r, s.vdom()), side(&mut cx.r, s.vdom()));
    let o = if cx.r.chance(4) { None } else { Some(options(&mut cx.r)) };
    cx.input(format!("{} ; u at v min {a:?}, u at v max {b:?}, v at u min {c:?}, v at u max {d:?} ; options {o:?}", s.show()));
    let mut k = BoundaryConstraints::default();
    if let Some(x) = &a { k = k.with_u_parameters_at_v_min(x.clone()) }
    if let Some(x) = &b { k = k.with_u_parameters_at_v_max(x.clone()) }
    if let Some(x) = &c { k = k.with_v_parameters_at_u_min(x.clone()) }
    if let Some(x) = &d { k = k.with_v_parameters_at_u_max(x.clone()) }
    let g = surf_f(&s);
    let s = from_surf_f(&g);
    let t = g.constrained_tessellate(k, o);
    parts(&t, &s)?;
    on_surface(&mut cx.r, &t, &s, true, 8)?;
    let (u, v) = (fv(&[s.udom().0, s.udom().1]), fv(&[s.vdom().0, s.vdom().1]));
    for (name, want, fixed, at) in [("v min", &a, 1, v[0]), ("v max", &b, 1, v[1]), ("u min", &c, 0, u[0]), ("u max", &d, 0, u[1])] {
        let Some(want) = want else { continue };
        // a grid line may miss the end of the domain by a rounding error
        let got: BTreeSet<u64> = t.uvs().iter().filter(|x| (x[fixed] - at).abs() < 1e-12).map(|x| (x[1 - fixed] + 0.).to_bits()).collect();
        let exp: BTreeSet<u64> = want.iter().map(|x| (x + 0.).to_bits()).collect();
        let show = |s: &BTreeSet<u64>| { let mut v: Vec<f64> = s.iter().map(|x| f64::from_bits(*x)).collect(); v.sort_by(|a, b| a.total_cmp(b)); v };
        // corners may come from the constraint of the adjacent side
        let ends = |s: &BTreeSet<u64>| -> Vec<f64> { let d = if fixed == 1 { &u } else { &v }; show(s).into_iter().filter(|x| (x - d[0]).abs() > 1e-12 && (x - d[1]).abs() > 1e-12).collect() };
        ensure!(ends(&got) == ends(&exp), "boundary {name} carries {:?} instead of {:?}", show(&got), show(&exp));
        // every vertex used by a face on this boundary is one of the requested points
    }
    Ok(())
}
fn merge(cx: &mut Cx) -> R {
    let side = |r: &mut Rng| {
        if r.chance(4) { return None }
        let mut v: BTreeSet<i64> = BTreeSet::new();
        for _ in 0..r.us(0, 6) { v.insert(r.i(-6, 6)); }
        Some(v.into_iter().map(|x| x as f64 / 2.).collect::<Vec<_>>())
    };
    let (a, b, c, d) = (side(&mut cx.r), side(&mut cx.r), side(&mut cx.r), side(&mut cx.r));
    cx.input(format!("{a:?} {b:?} {c:?} {d:?}"));
    let mut k = BoundaryConstraints::new();
    if let Some(x) = &a { k = k.with_u_parameters_at_v_min(x.clone()) }
    if let Some(x) = &b { k = k.with_u_parameters_at_v_max(x.clone()) }
    if let Some(x) = &c { k = k.with_v_parameters_at_u_min(x.clone()) }
    if let Some(x) = &d { k = k.with_v_parameters_at_u_max(x.clone()) }
    ensure!(k.u_parameters_at_v_min() == a.as_ref() && k.u_parameters_at_v_max() == b.as_ref() && k.v_parameters_at_u_min() == c.as_ref() && k.v_parameters_at_u_max() == d.as_ref(), "a side is stored under another side");
    for (got, x, y) in [(k.u_parameters(), &a, &b), (k.v_parameters(), &c, &d)] {
        let e = if x.is_none() && y.is_none() { None } else {
            let mut v: Vec<f64> = x.iter().chain(y.iter()).flatten().copied().collect();
            v.sort_by(|p, q| p.total_cmp(q));
            v.dedup();
            Some(v)
        };
        ensure!(got == e, "merged {x:?} and {y:?} into {got:?}");
    }
    Ok(())
}
fn area(a: &[f64], b: &[f64], c: &[f64]) -> f64 {
    let d = |x: &[f64]| Vector3::new(x[0] - a[0], x[1] - a[1], if x.len() > 2 { x[2] - a[2] } else { 0. });
    let x = d(b).cross(&d(c));
    if a.len() == 2 { x.z } else { x.norm_squared() }
}
/// walk the output: every point is the curve at the next dyadic parameter
fn walk(ev: &dyn Fn(f64) -> Vec<f64>, out: &[Vec<f64>], i: &mut usize, s: f64, e: f64, tol: f64) -> R {
    let end = ev(e);
    ensure!(*i + 1 < out.len(), "stops before the end of the curve, at parameter {s}");
    if out[*i + 1] == end {
        let a = ev(s);
        // flat at one parameter of the middle at least (the tested one is random)
        let mut last = 0.;
        let ok = (0..=200).any(|k| {
            let m = ev(s + (e - s) * (0.5 + 0.2 * k as f64 / 200.));
            let near = dist(&a, &end).powi(2) < tol * 0.999 && dist(&a, &m).powi(2) > tol * 1.2;
            let z = area(&a, &m, &end);
            // a change of sign (in the plane) hides a flat parameter
            let flip = a.len() == 2 && last * z < 0.;
            last = z;
            !near && (flip || z.abs() < tol * 3.)
        });
        ensure!(ok, "the piece {s} .. {e} is kept although it is not flat within {tol}");
        *i += 1;
        return Ok(());
    }
    ensure!(e - s > 1e-7, "point {} = {:?} is not on the curve after parameter {s}", *i + 1, out[*i + 1]);
    let m = s + (e - s) * 0.5;
    walk(ev, out, i, s, m, tol)?;
    walk(ev, out, i, m, e, tol)
}
fn curve_points(cx: &mut Cx) -> R {
    let dim3 = cx.r.b();
    let c = rc(&mut cx.r, if dim3 { 3 } else { 2 }, KS::Any, 4, 4);
    let tol = *cx.r.pick(&[1e-3, 1e-2, 1e-1, 1.0, 3e-4]);
    let o = if cx.r.chance(4) { None } else { Some(tol) };
    let tol = o.unwrap_or(1e-3);
    cx.input(format!("{} ; tolerance {o:?}", c.show()));
    let (out, ev): (Vec<Vec<f64>>, Box<dyn Fn(f64) -> Vec<f64>>) = if dim3 {
        let f = curve_f::<4>(&c);
        (f.tessellate(o).iter().map(|p| p.iter().copied().collect()).collect(), Box::new(move |u| f.point_at(u).iter().copied().collect()))
    } else {
        let f = curve_f::<3>(&c);
        (f.tessellate(o).iter().map(|p| p.iter().copied().collect()).collect(), Box::new(move |u| f.point_at(u).iter().copied().collect()))
    };
    if c.p == 1 {
        let e: Vec<Vec<f64>> = c.c.iter().map(|p| fv(&deh(p))).collect();
        ensure!(out.len() == e.len() && out.iter().zip(&e).all(|(a, b)| dist(a, b) < 1e-9), "a degree one curve gives {out:?} instead of its control points");
        return Ok(());
    }
    let d = c.domain();
    ensure!(out.len() >= 2, "{} points", out.len());
    ensure!(dist(&out[0], &fv(&c.ev(d.0))) < 1e-8, "starts at {:?}", out[0]);
    ensure!(dist(&out[out.len() - 1], &fv(&c.ev(d.1))) < 1e-8, "ends at {:?}", out[out.len() - 1]);
    let mut i = 0;
    walk(&*ev, &out, &mut i, d.0.f(), d.1.f(), tol)?;
    ensure!(i + 1 == out.len(), "{} points follow the end of the curve", out.len() - i - 1);
    Ok(())
}
// domains down to the length below which pieces are not divided
fn short_curves(cx: &mut Cx) -> R {
    let w = 10f64.powi(-(cx.r.us(2, 10) as i32)) * cx.r.us(1, 9) as f64;
    let p = cx.r.us(2, 4);
    let cp: Vec<[f64; 2]> = (0..=p).map(|i| [4. * i as f64 + cx.r.us(0, 3) as f64, cx.r.i(-8, 8) as f64]).collect();
    let mk = |cp: &[[f64; 2]], a: f64, b: f64| {
        let k = [vec![a; p + 1], vec![b; p + 1]].concat();
        NurbsCurve2D::try_new(p, cp.iter().map(|c| OPoint::<f64, Const<3>>::new(c[0], c[1], 1.)).collect(), k).unwrap()
    };
    cx.input(format!("degree {p} domain 0 .. {w:e} control points {cp:?}"));
    let out: Vec<Point2<f64>> = mk(&cp, 0., w).tessellate(Some(1e-3));
    let (a, b) = (Point2::new(cp[0][0], cp[0][1]), Point2::new(cp[p][0], cp[p][1]));
    ensure!(out.len() >= 2 && (out[0] - a).norm() < 1e-9 && (out[out.len() - 1] - b).norm() < 1e-9, "the points {out:?} do not run from {a} to {b}");
    // the pieces of a chain: there and on
    let more: Vec<[f64; 2]> = cp.iter().map(|c| [c[0] + b.x - a.x, c[1] + b.y - a.y]).collect();
    let chain = CompoundCurve::new(vec![mk(&cp, 0., w), mk(&more, w, 2. * w)]);
    let out = chain.tessellate(Some(1e-3));
    let e = Point2::new(more[p][0], more[p][1]);
    ensure!((out[0] - a).norm() < 1e-9 && (out[out.len() - 1] - e).norm() < 1e-9, "the points {out:?} of the chain do not run from {a} to {e}");
    ensure!(out.iter().filter(|q| (*q - b).norm() < 1e-9).count() == 1, "the chain {out:?} does not visit its joint {b} once");
    Ok(())
}
fn compound_points(cx: &mut Cx) -> R {
    let closed = cx.r.b();
    let n = cx.r.us(2, 5);
    // corner points, joined by straight or quadratic spans
    let mut pts: Vec<[f64; 2]> = vec![];
    while pts.len() < n + 1 {
        let p = [cx.r.i(-8, 8) as f64, cx.r.i(-8, 8) as f64];
        if !pts.contains(&p) { pts.push(p) }
    }
    if closed { pts[n] = pts[0] }
    let mut spans = vec![];
    let mut straight = vec![];
    for w in pts.windows(2) {
        let q = [cx.r.i(-8, 8) as f64, cx.r.i(-8, 8) as f64];
        let st = cx.r.b();
        straight.push(st);
        let cp: Vec<[f64; 2]> = if st { vec![w[0], w[1]] } else { vec![w[0], q, w[1]] };
        let p = cp.len() - 1;
        let k = [vec![0.; p + 1], vec![1.; p + 1]].concat();
        spans.push(NurbsCurve2D::try_new(p, cp.iter().map(|c| OPoint::<f64, Const<3>>::new(c[0], c[1], 1.)).collect(), k).unwrap());
    }
    cx.input(format!("closed {closed} corners {pts:?} spans {:?}", spans.iter().map(|s| s.dehomogenized_control_points()).collect::<Vec<_>>()));
    let c = CompoundCurve::new(spans);
    let tol = *cx.r.pick(&[1e-3, 1e-1, 1.0]);
    let out = c.tessellate(Some(tol));
    // the corners occur in order, once each, from the first to the last
    let ends: Vec<Point2<f64>> = c.spans().iter().map(|s| s.point_at(s.knots_domain().0)).chain([c.spans().last().map(|s| s.point_at(s.knots_domain().1)).unwrap()]).collect();
    let near = |a: &Point2<f64>, b: &Point2<f64>| (a - b).norm() < 1e-9;
    ensure!(near(&out[0], &ends[0]), "starts at {:?} instead of {:?}", out[0], ends[0]);
    ensure!(near(out.last().unwrap(), ends.last().unwrap()), "ends at {:?} instead of {:?}", out.last(), ends.last());
    for w in out.windows(2) {
        ensure!((w[0] - w[1]).norm() > 1e-9, "repeats the point {:?}", w[0]);
    }
    let mut i = 0;
    for e in &ends {
        while i < out.len() && !near(&out[i], e) { i += 1 }
        ensure!(i < out.len(), "skips the joint {e:?}");
    }
    if straight.iter().all(|x| *x) {
        ensure!(out.len() == n + 1, "{} points for {n} straight spans", out.len());
    }
    Ok(())
}
fn star(r: &mut Rng, c: [f64; 2], lo: f64, hi: f64) -> Vec<Point2<f64>> {
    let n = r.us(3, 9);
    (0..n)
        .map(|i| {
            let a = std::f64::consts::TAU * (i as f64 + r.f(-0.3, 0.3)) / n as f64;
            let d = r.f(lo, hi);
            Point2::new(c[0] + d * a.cos(), c[1] + d * a.sin())
        })
        .collect()
}
fn shoelace(p: &[Point2<f64>]) -> f64 {
    (0..p.len()).map(|i| p[i].coords.perp(&p[(i + 1) % p.len()].coords)).sum::<f64>() / 2.
}
fn inside(p: &[Point2<f64>], c: &Point2<f64>) -> bool {
    let mut w = false;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        if (a.y > c.y) != (b.y > c.y) && c.x < (b.x - a.x) * (c.y - a.y) / (b.y - a.y) + a.x { w = !w }
    }
    w
}
fn region_mesh(cx: &mut Cx) -> R {
    let ext = star(&mut cx.r, [0., 0.], 8., 14.);
    let holes: Vec<_> = match cx.r.us(0, 2) {
        0 => vec![],
        1 => vec![star(&mut cx.r, [0., 0.], 1., 2.2)],
        _ => vec![star(&mut cx.r, [1.2, 0.4], 0.4, 1.), star(&mut cx.r, [-1.2, -0.2], 0.4, 1.)],
    };
    // holes must stay inside: the exterior keeps a distance when it has enough corners
    if ext.len() < 6 && !holes.is_empty() { return Ok(()); }
    cx.input(format!("exterior {ext:?} holes {holes:?}"));
    let close = |p: &[Point2<f64>], rev: bool| {
        let mut v = p.to_vec();
        v.push(v[0]);
        if rev { v.reverse() }
        CompoundCurve::from(NurbsCurve2D::polyline(&v, true))
    };
    let rev = cx.r.b();
    let reg = Region::new(close(&ext, cx.r.b()), holes.iter().map(|h| close(h, rev)).collect());
    let m = reg.tessellate(None).map_err(|e| format!("rejected: {e}"))?;
    ensure!(m.faces().iter().flatten().all(|i| *i < m.vertices().len()), "a face names a vertex that does not exist");
    let want = shoelace(&ext) - holes.iter().map(|h| shoelace(h)).sum::<f64>();
    ensure!((m.area() - want).abs() < 1e-6 * want, "the mesh covers {} instead of {want}", m.area());
    for t in m.triangles() {
        let c = Point2::from((t[0].coords + t[1].coords + t[2].coords) / 3.);
        ensure!(inside(&ext, &c) && !holes.iter().any(|h| inside(h, &c)), "triangle {t:?} lies outside the region");
        ensure!((t[1] - t[0]).perp(&(t[2] - t[0])) > 0., "triangle {t:?} is turned over");
    }
    Ok(())
}
