//! C14 boxes and traversal, C11 compound trim, C12 compound invert, C22 compound curves
use super::curves::{d_point, upar};
use super::surfaces::{rs, to_surf};
use crate::cx::*;
use crate::gen::*;
use crate::q::Q;
use crate::refm::*;
use curvo::prelude::*;
use nalgebra::{Const, OPoint, Point2, Vector2, Vector3};

subs! {
    "C14" box_algebra "construction, containment, overlap and corners of boxes" 1500 30000;
    "C14" box_encloses "the box of a curve/compound/surface encloses every point of it" 800 16000;
    "C14" traverse_curves "pairwise traversal of two curve trees keeps every common point" 120 2500;
    "C14" traverse_surface "traversal of a surface tree and a curve tree keeps every common point" 60 1200;
    "C11" trim_compound "trimming a compound curve yields exactly the requested range" 800 16000;
    "C12" invert_compound "an inverted compound/region runs backwards" 600 12000;
    "C22" compound_new "spans given in any order and direction are chained end to start" 800 16000;
    "C22" compound_eval "evaluation, closedness and transformation of compound curves" 600 12000;
}

fn v2(r: &mut Rng) -> Vector2<Q> {
    Vector2::new(coord(r), coord(r))
}
fn box_algebra(cx: &mut Cx) -> R {
    let (a, b, c, d) = (v2(&mut cx.r), v2(&mut cx.r), v2(&mut cx.r), v2(&mut cx.r));
    let tol = if cx.r.b() { Q::int(0) } else { Q::new(cx.r.i(0, 4), 4) };
    cx.input(format!("boxes {a:?} {b:?} / {c:?} {d:?} tolerance {tol}"));
    let x = BoundingBox::<Q, Const<2>>::new(a, b);
    let y = BoundingBox::<Q, Const<2>>::new(c, d);
    for i in 0..2 {
        ensure!(x.min()[i] == a[i].min(b[i]) && x.max()[i] == a[i].max(b[i]), "min/max {:?} {:?}", x.min(), x.max());
        ensure!(x.center()[i] == (a[i] + b[i]) / Q::int(2), "center");
        ensure!(x.size()[i] == x.max()[i] - x.min()[i], "size");
    }
    let two = Q::int(2);
    let hit = (0..2).all(|i| x.min()[i] <= y.max()[i] + two * tol && y.min()[i] <= x.max()[i] + two * tol);
    ensure!(x.intersects(&y, Some(tol)) == hit, "intersects = {}, intervals overlap = {hit}", !hit);
    ensure!(y.intersects(&x, Some(tol)) == hit, "intersects is not symmetric");
    for _ in 0..4 {
        let p = v2(&mut cx.r);
        let e = (0..2).all(|i| x.min()[i] <= p[i] && p[i] <= x.max()[i]);
        ensure!(x.contains(&OPoint::from(p)) == e, "contains({p:?}) = {}", !e);
    }
    let z = BoundingBox::<Q, Const<3>>::new(Vector3::new(a[0], a[1], c[0]), Vector3::new(b[0], b[1], c[1]));
    let k = z.corners();
    ensure!(k.len() == 8, "{} corners", k.len());
    for m in 0..8 {
        let e = [0, 1, 2].map(|j| if m >> j & 1 == 0 { z.min()[j] } else { z.max()[j] });
        ensure!(k.iter().any(|p| (0..3).all(|j| p[j] == e[j])), "corner {e:?} missing");
    }
    for (p, q) in z.lines() {
        let diff: Vec<usize> = (0..3).filter(|j| p[*j] != q[*j]).collect();
        ensure!(diff.len() <= 1, "line {p:?}-{q:?} is not an edge");
        for j in 0..3 {
            ensure!((p[j] == z.min()[j] || p[j] == z.max()[j]) && (q[j] == z.min()[j] || q[j] == z.max()[j]), "line end off the corners");
        }
        if let Some(j) = diff.first() {
            ensure!(p[*j].min(q[*j]) == z.min()[*j] && p[*j].max(q[*j]) == z.max()[*j], "edge shorter than the box");
        }
    }
    let pts: Vec<Vector2<Q>> = vec![a, b, c, d];
    let w = BoundingBox::<Q, Const<2>>::new_with_points(pts.iter().map(|p| OPoint::from(*p)));
    for i in 0..2 {
        ensure!(w.min()[i] == pts.iter().map(|p| p[i]).min().unwrap() && w.max()[i] == pts.iter().map(|p| p[i]).max().unwrap(), "box of points {:?} {:?}", w.min(), w.max());
    }
    Ok(())
}
fn box_encloses(cx: &mut Cx) -> R {
    match cx.r.us(0, 2) {
        0 => {
            let c = rc(&mut cx.r, 3, KS::Any, 4, 5);
            cx.input(c.show());
            let b: BoundingBox<Q, Const<3>> = (&to_curve::<4>(&c)).into();
            for u in params(&mut cx.r, &c.k, c.p) {
                let p = c.ev(u);
                ensure!(b.contains(&OPoint::from_slice(&p)), "curve point {p:?} at {u} outside the box {b:?}");
            }
        }
        1 => {
            let (ch, cs) = chain(cx, 3, false);
            let b: BoundingBox<Q, Const<2>> = (&ch).into();
            for c in &cs {
                for u in params(&mut cx.r, &c.k, c.p) {
                    let p = c.ev(u);
                    ensure!(b.contains(&OPoint::from_slice(&p)), "compound point {p:?} outside the box {b:?}");
                }
            }
        }
        _ => {
            let s = rs(&mut cx.r, 3, KS::Any, 3, 2);
            cx.input(s.show());
            let b: BoundingBox<Q, Const<3>> = (&to_surf::<4>(&s)).into();
            let us = params(&mut cx.r, &s.ku, s.pu);
            let vs = params(&mut cx.r, &s.kv, s.pv);
            for _ in 0..4 {
                let p = s.ev(*cx.r.pick(&us), *cx.r.pick(&vs));
                ensure!(b.contains(&OPoint::from_slice(&p)), "surface point {p:?} outside the box {b:?}");
            }
        }
    }
    Ok(())
}
fn shift(c: &mut RC, d: &[Q]) {
    for h in c.c.iter_mut() {
        let n = h.len() - 1;
        for j in 0..n {
            let w = h[n];
            h[j] += d[j] * w;
        }
    }
}
fn traverse_curves(cx: &mut Cx) -> R {
    let mut a = rc(&mut cx.r, 2, KS::Any, 3, 2);
    let b = rc(&mut cx.r, 2, KS::Any, 3, 2);
    let (s, t) = (upar(&mut cx.r, &a), upar(&mut cx.r, &b));
    let d = sub(&b.ev(t), &a.ev(s));
    shift(&mut a, &d);
    cx.input(format!("{} ; {} ; common point at {s} / {t}", a.show(), b.show()));
    let (ca, cb) = (to_curve::<3>(&a), to_curve::<3>(&b));
    let div = |c: &RC, n: i64| (c.domain().1 - c.domain().0) / Q::int(n);
    let (ta, tb) = (div(&a, cx.r.i(1, 5)), div(&b, cx.r.i(1, 5)));
    let tr = BoundingBoxTraversal::try_traverse(CurveBoundingBoxTree::new(&ca, Some(ta)), CurveBoundingBoxTree::new(&cb, Some(tb))).map_err(|e| format!("traversal failed: {e}"))?;
    let mut found = false;
    for (x, y) in tr.pairs() {
        let (dx, dy) = (x.curve().knots_domain(), y.curve().knots_domain());
        for (d, tol, deg) in [(dx, ta, a.p), (dy, tb, b.p)] {
            ensure!(deg == 1 || d.1 - d.0 <= tol, "returned piece {d:?} is wider than the tolerance {tol}");
        }
        for (c, r, d) in [(x, &a, dx), (y, &b, dy)] {
            let m = (d.0 + d.1) / Q::int(2);
            ensure!(d_point(&c.curve().point_at(m)) == r.ev(m), "returned piece is not a piece of the curve");
        }
        found |= dx.0 <= s && s <= dx.1 && dy.0 <= t && t <= dy.1;
    }
    ensure!(found, "no returned pair covers the common point ({} pairs)", tr.pairs().len());
    Ok(())
}
fn traverse_surface(cx: &mut Cx) -> R {
    let s = rs(&mut cx.r, 3, KS::Any, 2, 1);
    let mut c = rc(&mut cx.r, 3, KS::Any, 2, 1);
    let us = params(&mut cx.r, &s.ku, s.pu);
    let vs = params(&mut cx.r, &s.kv, s.pv);
    let (u, v, t) = (*cx.r.pick(&us), *cx.r.pick(&vs), upar(&mut cx.r, &c));
    let d = sub(&s.ev(u, v), &c.ev(t));
    shift(&mut c, &d);
    cx.input(format!("{} ; {} ; common point at ({u},{v}) / {t}", s.show(), c.show()));
    let (g, k) = (to_surf::<4>(&s), to_curve::<4>(&c));
    let (a, b) = (s.udom(), s.vdom());
    let n = cx.r.i(1, 3);
    let tol = ((a.1 - a.0) / Q::int(n), (b.1 - b.0) / Q::int(n));
    let dir = if cx.r.b() { UVDirection::U } else { UVDirection::V };
    let tr = BoundingBoxTraversal::try_traverse(SurfaceBoundingBoxTree::new(&g, dir, Some(tol)), CurveBoundingBoxTree::new(&k, Some((c.domain().1 - c.domain().0) / Q::int(n)))).map_err(|e| format!("traversal failed: {e}"))?;
    let found = tr.pairs().iter().any(|(x, y)| {
        let (du, dv) = x.surface().knots_domain();
        let d = y.curve().knots_domain();
        du.0 <= u && u <= du.1 && dv.0 <= v && v <= dv.1 && d.0 <= t && t <= d.1
    });
    ensure!(found, "no returned pair covers the common point ({} pairs)", tr.pairs().len());
    Ok(())
}

/// a chain of clamped 2D curves joined end to start; reference spans carry the
/// knots the compound is expected to give them
fn links(cx: &mut Cx, maxn: usize, closed: bool) -> Vec<RC> {
    let n = cx.r.us(if closed { 2 } else { 1 }, maxn);
    let mut v: Vec<RC> = vec![];
    // joints well apart, so that the chain is simple
    let joint = |i: usize| -> Vec<Q> { vec![Q::int(40 * i as i64), Q::int(40 * ((i * i) % 7) as i64)] };
    for i in 0..n {
        let mut c = rc(&mut cx.r, 2, KS::Clamped, 3, 3);
        let m = c.c.len() - 1;
        let set = |h: &mut Vec<Q>, p: &[Q]| {
            for j in 0..2 {
                h[j] = p[j] * h[2];
            }
        };
        set(&mut c.c[0], &joint(i));
        let e = if closed && i + 1 == n { joint(0) } else { joint(i + 1) };
        set(&mut c.c[m], &e);
        v.push(c);
    }
    v
}
fn align(v: &mut [RC]) {
    let mut o = Q::int(0);
    for c in v.iter_mut() {
        let s = c.k[0];
        for k in c.k.iter_mut() {
            *k = *k - s + o;
        }
        o = *c.k.last().unwrap();
    }
}
fn chain(cx: &mut Cx, maxn: usize, closed: bool) -> (CompoundCurve<Q, Const<3>>, Vec<RC>) {
    let mut v = links(cx, maxn, closed);
    cx.input(format!("chain{}: {}", if closed { " (closed)" } else { "" }, v.iter().map(|c| c.show()).collect::<Vec<_>>().join(" | ")));
    let ch = CompoundCurve::new(v.iter().map(to_curve::<3>).collect());
    align(&mut v);
    (ch, v)
}
fn rev(c: &RC) -> RC {
    let (s, e) = (c.k[0], c.k[c.k.len() - 1]);
    RC { p: c.p, k: c.k.iter().rev().map(|k| s + e - *k).collect(), c: c.c.iter().rev().cloned().collect() }
}
fn compound_new(cx: &mut Cx) -> R {
    let closed = cx.r.chance(3);
    let v = links(cx, 5, closed);
    // any order, any direction
    let mut g: Vec<RC> = v.clone();
    for i in 0..g.len() {
        let j = cx.r.us(i, g.len() - 1);
        g.swap(i, j);
        if cx.r.chance(3) {
            g[i] = rev(&g[i]);
        }
    }
    cx.input(format!("spans{}: {}", if closed { " (closed)" } else { "" }, g.iter().map(|c| c.show()).collect::<Vec<_>>().join(" | ")));
    let ch = CompoundCurve::new(g.iter().map(to_curve::<3>).collect());
    ensure!(ch.spans().len() == v.len(), "{} of {} connected spans kept", ch.spans().len(), v.len());
    let s: Vec<RC> = ch.spans().iter().map(from_curve).collect();
    let mut o = Q::int(0);
    for (i, c) in s.iter().enumerate() {
        c.wf()?;
        ensure!(c.domain().0 == o, "span {i} starts at {}, the previous one ends at {o}", c.domain().0);
        o = c.domain().1;
        if i > 0 {
            let (e, b) = (s[i - 1].ev(s[i - 1].domain().1), c.ev(c.domain().0));
            ensure!(e == b, "span {} ends at {e:?}, span {i} starts at {b:?}", i - 1);
        }
    }
    // the same set of spans, up to direction
    let same = |c: &RC, x: &RC| {
        let w = x.domain();
        [c.clone(), rev(c)].iter().any(|y| y.p == x.p && y.c == x.c && y.domain().1 - y.domain().0 == w.1 - w.0 && y.k.iter().zip(&x.k).all(|(a, b)| *a - y.k[0] == *b - x.k[0]))
    };
    for (i, c) in v.iter().enumerate() {
        // (a span may be given twice: there and back)
        let n = s.iter().filter(|x| same(c, x)).count();
        let want = v.iter().filter(|x| same(c, x)).count();
        ensure!(n == want, "input span {i} occurs {n} times in the compound, {want} times in the input");
    }
    Ok(())
}
fn compound_eval(cx: &mut Cx) -> R {
    let closed = cx.r.chance(3);
    let (ch, v) = chain(cx, 4, closed);
    ensure!(ch.spans().len() == v.len(), "{} spans", ch.spans().len());
    for (x, c) in ch.spans().iter().zip(&v) {
        let x = from_curve(x);
        ensure!(x.k == c.k && x.c == c.c && x.p == c.p, "span {}", x.show());
        for u in params(&mut cx.r, &c.k, c.p) {
            let p = ch.point_at(u).ok_or(format!("no point at {u}"))?;
            ensure!(d_point(&p) == c.ev(u), "compound at {u}: {p:?}, expected {:?}", c.ev(u));
        }
    }
    let end = v.last().unwrap().domain().1;
    ensure!(ch.point_at(Q::int(-1)).is_none() && ch.point_at(end + Q::int(1)).is_none(), "a point outside the domain");
    ensure!(ch.is_closed() == (v[0].ev(Q::int(0)) == v.last().unwrap().ev(end)), "is_closed = {}", ch.is_closed());
    let mut m = nalgebra::Matrix3::<Q>::identity();
    for i in 0..2 {
        for j in 0..3 {
            m[(i, j)] = Q::int(cx.r.i(-3, 3));
        }
    }
    let tr = ch.transformed(&m);
    ensure!(tr.spans().len() == v.len(), "transform changed the span count");
    for c in &v {
        let u = upar(&mut cx.r, c);
        if u == c.domain().0 || u == c.domain().1 {
            continue;
        }
        let p = c.ev(u);
        let e: Vec<Q> = (0..2).map(|i| m[(i, 0)] * p[0] + m[(i, 1)] * p[1] + m[(i, 2)]).collect();
        let x = tr.point_at(u).ok_or("no point")?;
        ensure!(d_point(&x) == e, "transformed compound at {u}: {x:?}, expected {e:?}");
    }
    Ok(())
}
fn invert_compound(cx: &mut Cx) -> R {
    let closed = cx.r.chance(3);
    let (ch, v) = chain(cx, 4, closed);
    let end = v.last().unwrap().domain().1;
    let back = |inv: &CompoundCurve<Q, Const<3>>, r: &mut Rng| -> R {
        ensure!(inv.spans().len() == v.len(), "{} spans", inv.spans().len());
        for c in &v {
            for u in params(r, &c.k, c.p) {
                let p = inv.point_at(end - u).ok_or(format!("no point at {}", end - u))?;
                ensure!(d_point(&p) == c.ev(u), "inverted compound at {}: {p:?}, expected {:?}", end - u, c.ev(u));
            }
        }
        let s: Vec<RC> = inv.spans().iter().map(from_curve).collect();
        for w in s.windows(2) {
            ensure!(w[0].domain().1 == w[1].domain().0, "spans of the inverted compound are not in parameter order: {:?} then {:?}", w[0].domain(), w[1].domain());
            ensure!(w[0].ev(w[0].domain().1) == w[1].ev(w[1].domain().0), "spans of the inverted compound are not joined end to start");
        }
        Ok(())
    };
    back(&ch.inverse(), &mut cx.r)?;
    let re = Region::new(ch.clone(), vec![ch.clone()]).inverse();
    back(re.exterior(), &mut cx.r)?;
    ensure!(re.interiors().len() == 1, "interiors lost");
    back(&re.interiors()[0], &mut cx.r)?;
    let twice = ch.inverse().inverse();
    ensure!(twice == ch, "inverting twice changes the compound");
    Ok(())
}
fn trim_compound(cx: &mut Cx) -> R {
    let (ch, v) = chain(cx, 4, false);
    let end = v.last().unwrap().domain().1;
    let pick = |r: &mut Rng| loop {
        let c = r.pick(&v).clone();
        let u = upar(r, &c);
        if u > Q::int(0) && u < end {
            return u;
        }
    };
    let (mut s, mut t) = (pick(&mut cx.r), pick(&mut cx.r));
    if s == t {
        return Ok(());
    }
    if s > t {
        std::mem::swap(&mut s, &mut t);
    }
    let inside = cx.r.b();
    let arg = if inside { (s, t) } else { (t, s) };
    cx.input(format!("trim {arg:?}"));
    let got = ch.try_trim_range(arg).map_err(|e| format!("failed: {e}"))?;
    let mut want: Vec<(Q, Q, usize)> = vec![];
    for (i, c) in v.iter().enumerate() {
        let d = c.domain();
        let parts = if inside { vec![(s, t)] } else { vec![(Q::int(0), s), (t, end)] };
        for (a, b) in parts {
            let (a, b) = (a.max(d.0), b.min(d.1));
            if a < b {
                want.push((a, b, i));
            }
        }
    }
    let mut g: Vec<RC> = got.iter().map(from_curve).collect();
    g.sort_by(|a, b| a.domain().0.cmp(&b.domain().0));
    want.sort_by(|a, b| a.0.cmp(&b.0));
    let gd: Vec<_> = g.iter().map(|c| c.domain()).collect();
    ensure!(gd == want.iter().map(|w| (w.0, w.1)).collect::<Vec<_>>(), "pieces {gd:?}, expected {want:?}");
    for (c, w) in g.iter().zip(&want) {
        c.wf()?;
        same_on(c, &v[w.2], |u| u, w.0, w.1)?;
        let x = to_curve::<3>(c);
        for u in [w.0, w.1] {
            ensure!(d_point(&x.point_at(u)) == v[w.2].ev(u), "piece evaluates to {:?} at {u}", x.point_at(u));
        }
    }
    Ok(())
}
#[allow(dead_code)]
fn _u(_: Point2<Q>) {}
