//! C03 evaluation, C04 derivatives, C05 well-formedness, C06 insertion/clamp,
//! C07 Bezier decomposition, C08 elevation, C09 removal, C10 split, C11 trim,
//! C12 inversion, C13 normalise/transform/cast
use crate::cx::*;
use crate::gen::*;
use crate::q::Q;
use crate::refm::*;
use curvo::prelude::*;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, OPoint, Point2, Point3, Point4, Vector2};

subs! {
    "C03" eval "point_at against the rational combination of the control points; stays in their hull" 1500 25000;
    "C03" sample_range "regular sampling: count, parameters and points" 500 6000;
    "C03" control_structure "weights, dehomogenised control points, end points of clamped curves" 500 6000;
    "C04" curve_derivatives "first/second derivatives and point+tangent against the quotient rule" 1200 20000;
    "C05" try_new "construction accepts exactly matching counts and sorts knots" 1200 10000;
    "C06" add_knot "try_add_knot keeps every point of the domain" 1200 20000;
    "C06" refine_knot "try_refine_knot keeps every point of the domain" 1200 20000;
    "C06" clamp "try_clamp gives clamped ends and keeps every point of the original domain" 500 8000;
    "C07" decompose "Bezier segments of clamped curves cover the domain in order and retrace the curve" 700 10000;
    "C08" elevate "degree elevation keeps domain and shape" 700 10000;
    "C09" remove_inserted "removing inserted knots restores the shape and removes as many as possible" 900 15000;
    "C09" remove_any "removal never changes the curve beyond the tolerance" 900 15000;
    "C10" split "the two pieces of a split retrace the curve and are well-formed" 1200 20000;
    "C11" trim_curve "trimming yields exactly the requested range" 900 12000;
    "C12" invert_curve "an inverted curve retraces the curve backwards" 700 10000;
    "C13" normalize "normalised knots keep the shape on [0,1]" 500 6000;
    "C13" transform "affine transforms of a curve transform every point" 500 6000;
    "C13" elevate_dim "dimension elevation appends a zero coordinate; dehomogenised curve; cast" 400 5000;
}

pub fn d_point<const D: usize>(p: &OPoint<Q, Const<D>>) -> Vec<Q>
where
    DefaultAllocator: Allocator<Const<D>>,
{
    p.iter().copied().collect()
}

fn any_curve(cx: &mut Cx, dim: usize) -> RC {
    let c = rc(&mut cx.r, dim, KS::Any, 4, 5);
    cx.input(c.show());
    c
}
/// a parameter inside the domain
pub fn upar(r: &mut Rng, c: &RC) -> Q {
    let v = params(r, &c.k, c.p);
    *r.pick(&v)
}
/// parameter in the open domain
pub fn ipar(r: &mut Rng, c: &RC) -> Q {
    let (a, b) = c.domain();
    loop {
        let u = upar(r, c);
        if a < u && u < b {
            return u;
        }
    }
}

fn eval_d<const D: usize, const E: usize>(cx: &mut Cx, ev: impl Fn(&NurbsCurve<Q, Const<D>>, Q) -> Vec<Q>) -> R
where
    DefaultAllocator: Allocator<Const<D>>,
{
    let c = any_curve(cx, E);
    let cur = to_curve::<D>(&c);
    ensure!(cur.degree() == c.p && cur.knots_domain() == c.domain(), "degree/domain");
    let (a, b) = c.domain();
    ensure!(cur.knots_domain_interval() == b - a, "interval");
    let o = b + Q::int(1);
    ensure!(cur.knots_constrain(o) == b && cur.knots_constrain(a - Q::int(1)) == a, "constrain");
    for u in params(&mut cx.r, &c.k, c.p) {
        let g = ev(&cur, u);
        let e = c.ev(u);
        ensure!(g == e, "point_at({u}) = {g:?}, rational combination gives {e:?}");
        // hull of the p+1 control points active on the span, along random directions
        for _ in 0..2 {
            let d: Vec<Q> = (0..E).map(|_| Q::int(cx.r.i(-3, 3))).collect();
            let pr: Vec<Q> = c.c.iter().map(|h| dot(&deh(h), &d)).collect();
            let x = dot(&g, &d);
            let (lo, hi) = (pr.iter().min().unwrap(), pr.iter().max().unwrap());
            ensure!(*lo <= x && x <= *hi, "point at {u} outside the convex hull of the control points");
        }
    }
    Ok(())
}
fn eval(cx: &mut Cx) -> R {
    if cx.r.b() {
        eval_d::<3, 2>(cx, |c, u| d_point(&c.point_at(u)))
    } else {
        eval_d::<4, 3>(cx, |c, u| d_point(&c.point_at(u)))
    }
}
fn sample_range(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let cur = to_curve::<3>(&c);
    let (mut a, mut b) = c.domain();
    if cx.r.b() {
        a = upar(&mut cx.r, &c);
        b = upar(&mut cx.r, &c);
    }
    let n = cx.r.us(2, 9);
    cx.input(format!("from {a} to {b}, {n} samples"));
    let s = cur.sample_regular_range(a, b, n);
    let t = cur.sample_regular_range_with_parameter(a, b, n);
    ensure!(s.len() == n && t.len() == n, "{} / {} samples for {n}", s.len(), t.len());
    for i in 0..n {
        let u = a + (b - a) * Q::new(i as i64, n as i64 - 1);
        let e = c.ev(u);
        ensure!(t[i].0 == u, "parameter {i} is {:?}, expected {u}", t[i].0);
        ensure!(d_point(&t[i].1) == e && d_point(&s[i]) == e, "sample {i} is {:?}/{:?}, expected {e:?}", s[i], t[i].1);
    }
    Ok(())
}
fn control_structure(cx: &mut Cx) -> R {
    let c = any_curve(cx, 3);
    let cur = to_curve::<4>(&c);
    ensure!(cur.weights() == c.c.iter().map(|h| h[3]).collect::<Vec<_>>(), "weights {:?}", cur.weights());
    let d: Vec<Vec<Q>> = cur.dehomogenized_control_points().iter().map(d_point).collect();
    let e: Vec<Vec<Q>> = c.c.iter().map(|h| deh(h)).collect();
    ensure!(d == e, "dehomogenised {d:?}");
    let (a, b) = c.domain();
    let (p, q) = cur.end_points();
    ensure!(d_point(&p) == c.ev(a) && d_point(&q) == c.ev(b), "end points {p:?} {q:?}");
    let clamped = c.k[c.p] == c.k[0] && c.k[c.k.len() - 1] == c.k[c.k.len() - 1 - c.p];
    ensure!(cur.is_clamped() == clamped, "is_clamped = {}", !clamped);
    if clamped {
        ensure!(d_point(&p) == e[0] && d_point(&q) == e[e.len() - 1], "clamped curve does not start/end at its end control points");
    }
    let closed = c.ev(a) == c.ev(b);
    ensure!(cur.is_closed() == closed, "is_closed = {}", !closed);
    Ok(())
}
fn curve_derivatives(cx: &mut Cx) -> R {
    let dim3 = cx.r.b();
    let c = any_curve(cx, if dim3 { 3 } else { 2 });
    for u in params(&mut cx.r, &c.k, c.p) {
        let e = c.ders(u, 2);
        let (t, s, (p1, t1)) = if dim3 {
            let cur = to_curve::<4>(&c);
            let (p, v) = cur.point_tangent_at(u);
            (cur.tangent_at(u).iter().copied().collect::<Vec<Q>>(), cur.second_derivative_at(u).iter().copied().collect::<Vec<Q>>(), (d_point(&p), v.iter().copied().collect::<Vec<Q>>()))
        } else {
            let cur = to_curve::<3>(&c);
            let (p, v) = cur.point_tangent_at(u);
            (cur.tangent_at(u).iter().copied().collect::<Vec<Q>>(), cur.second_derivative_at(u).iter().copied().collect::<Vec<Q>>(), (d_point(&p), v.iter().copied().collect::<Vec<Q>>()))
        };
        ensure!(t == e[1], "tangent at {u}: {t:?}, expected {:?}", e[1]);
        ensure!(s == e[2], "second derivative at {u}: {s:?}, expected {:?}", e[2]);
        ensure!(p1 == e[0] && t1 == e[1], "point and tangent at {u}: {p1:?} {t1:?}");
    }
    Ok(())
}
fn try_new(cx: &mut Cx) -> R {
    let c = rc(&mut cx.r, 2, KS::Any, 4, 4);
    let mut k = c.k.clone();
    let mut pts = c.c.clone();
    match cx.r.us(0, 4) {
        0 => k.push(k[k.len() - 1]),
        1 => {
            k.pop();
        }
        2 => {
            pts.truncate(c.p);
        }
        3 => {
            pts.truncate(c.p);
            k.truncate(2 * c.p + 1);
        }
        _ => {}
    }
    // shuffle
    if cx.r.b() {
        for i in 0..k.len() {
            let j = cx.r.us(i, k.len() - 1);
            k.swap(i, j);
        }
    }
    cx.input(format!("degree {} knots {k:?} points {}", c.p, pts.len()));
    let g = NurbsCurve::<Q, Const<3>>::try_new(c.p, pts.iter().map(|p| OPoint::<Q, Const<3>>::from_slice(p)).collect(), k.clone());
    let ok = pts.len() > c.p && k.len() == pts.len() + c.p + 1;
    ensure!(g.is_ok() == ok, "try_new accepted = {}, counts match = {ok}", g.is_ok());
    if let Ok(g) = g {
        let g = from_curve(&g);
        let mut s = k.clone();
        s.sort();
        ensure!(g.k == s && g.c == pts && g.p == c.p, "constructed curve differs from its input: {}", g.show());
        g.wf()?;
    }
    Ok(())
}
/// multiplicity of u
pub fn mult(k: &[Q], u: Q) -> usize {
    k.iter().filter(|x| **x == u).count()
}
fn sorted_plus(k: &[Q], add: &[Q]) -> Vec<Q> {
    let mut v = k.to_vec();
    v.extend_from_slice(add);
    v.sort();
    v
}
/// an insertable interior parameter
fn insertable(cx: &mut Cx, c: &RC, max: usize) -> Option<Q> {
    for _ in 0..20 {
        let u = ipar(&mut cx.r, c);
        if mult(&c.k, u) < max {
            return Some(u);
        }
    }
    None
}
fn add_knot(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let mut cur = to_curve::<3>(&c);
    let n = cx.r.us(1, 3);
    let mut now = c.clone();
    for _ in 0..n {
        let Some(u) = insertable(cx, &now, c.p) else { return Ok(()) };
        cx.input(format!("add {u}"));
        cur.try_add_knot(u).map_err(|e| format!("add_knot failed: {e}"))?;
        let g = from_curve(&cur);
        g.wf()?;
        ensure!(g.k == sorted_plus(&now.k, &[u]), "knots after adding {u}: {:?}", g.k);
        ensure!(g.p == c.p, "degree changed");
        let (a, b) = c.domain();
        same_on(&g, &c, |u| u, a, b)?;
        now = g;
    }
    for u in [c.k[0] - Q::int(1), c.k[c.k.len() - 1] + Q::int(1)] {
        ensure!(cur.try_add_knot(u).is_err(), "knot {u} outside the knot range was accepted");
        ensure!(from_curve(&cur).k == now.k, "rejected knot changed the curve");
    }
    Ok(())
}
fn refine_knot(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let mut cur = to_curve::<3>(&c);
    let n = cx.r.us(0, 4);
    let full = cx.r.chance(4);
    let mut add = vec![];
    let mut k = c.clone();
    for _ in 0..n {
        let Some(u) = insertable(cx, &k, if full { c.p + 1 } else { c.p }) else { break };
        add.push(u);
        k.k = sorted_plus(&k.k, &[u]);
        k.c.push(k.c[0].clone());
    }
    add.sort();
    cx.input(format!("insert {add:?}"));
    cur.try_refine_knot(add.clone()).map_err(|e| format!("refine_knot failed: {e}"))?;
    let g = from_curve(&cur);
    g.wf()?;
    ensure!(g.k == sorted_plus(&c.k, &add) && g.p == c.p, "knots after refinement: {:?}", g.k);
    let (a, b) = c.domain();
    same_on(&g, &c, |u| u, a, b)
}
fn clamp(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let mut cur = to_curve::<3>(&c);
    cur.try_clamp().map_err(|e| format!("clamp failed: {e}"))?;
    let g = from_curve(&cur);
    g.wf()?;
    ensure!(cur.is_clamped(), "not clamped: {:?}", g.k);
    let l = g.k.len();
    ensure!(g.k[..=c.p].iter().all(|x| *x == c.k[0]) && g.k[l - 1 - c.p..].iter().all(|x| *x == c.k[c.k.len() - 1]), "end knots {:?}", g.k);
    let (a, b) = c.domain();
    same_on(&g, &c, |u| u, a, b)
}
fn decompose(cx: &mut Cx) -> R {
    let c = rc(&mut cx.r, 2, KS::Clamped, 4, 6);
    cx.input(c.show());
    let segs = to_curve::<3>(&c).try_decompose_bezier_segments().map_err(|e| format!("failed: {e}"))?;
    let mut br = c.k.clone();
    br.dedup();
    ensure!(segs.len() == br.len() - 1, "{} segments for {} spans", segs.len(), br.len() - 1);
    for (s, w) in segs.iter().zip(br.windows(2)) {
        let g = from_curve(s);
        g.wf()?;
        ensure!(g.p == c.p && g.c.len() == c.p + 1, "segment is not a single Bezier span: {}", g.show());
        let mut e = vec![w[0]; c.p + 1];
        e.extend(vec![w[1]; c.p + 1]);
        ensure!(g.k == e, "segment knots {:?}, expected {e:?}", g.k);
        same_on(&g, &c, |u| u, w[0], w[1])?;
    }
    Ok(())
}
fn elevate(cx: &mut Cx) -> R {
    let p = cx.r.us(1, 4);
    let c = rc_deg(&mut cx.r, 2, KS::Clamped, p, 6);
    let t = match cx.r.us(0, 6) { 0 => p, 1 => p - 1, x => p + 1 + x % 3 };
    cx.input(c.show());
    cx.input(format!("to degree {t}"));
    let g = to_curve::<3>(&c).try_elevate_degree(t).map_err(|e| format!("failed: {e}"))?;
    let g = from_curve(&g);
    g.wf()?;
    if t <= p {
        ensure!(g.p == p && g.k == c.k && g.c == c.c, "elevation to a lower degree changed the curve");
        return Ok(());
    }
    ensure!(g.p == t, "degree {} instead of {t}", g.p);
    ensure!(g.domain() == c.domain(), "domain {:?} instead of {:?}", g.domain(), c.domain());
    let mut e = vec![];
    let mut br = c.k.clone();
    br.dedup();
    for b in br {
        e.extend(vec![b; mult(&c.k, b) + t - p]);
    }
    ensure!(g.k == e, "knots {:?}, expected every multiplicity raised by {}: {e:?}", g.k, t - p);
    let (a, b) = c.domain();
    same_on(&g, &c, |u| u, a, b)
}
fn remove_inserted(cx: &mut Cx) -> R {
    let p = cx.r.us(1, 4);
    let style = if cx.r.chance(4) { KS::Unclamped } else { KS::Clamped };
    let mut c = rc_deg(&mut cx.r, 2, style, p, 5);
    if style == KS::Unclamped {
        // keep the inserted knot clear of the ends
        c = rc_deg(&mut cx.r, 2, style, p, 5);
    }
    cx.input(c.show());
    // mostly a new knot, sometimes an existing one below full multiplicity
    let Some(u) = insertable(cx, &c, p) else { return Ok(()) };
    let s = mult(&c.k, u);
    let t = cx.r.us(1, p - s);
    cx.input(format!("insert {u} x{t} then remove"));
    let mut cur = to_curve::<3>(&c);
    cur.try_refine_knot(vec![u; t]).map_err(|e| format!("refine: {e}"))?;
    let before = from_curve(&cur);
    let (a, b) = c.domain();
    same_on(&before, &c, |u| u, a, b).map_err(|e| format!("(refine) {e}"))?;
    let removed = match cur.try_remove_knot(u, Some(Q::new(1, 1_000_000_000))) {
        Ok(x) => x,
        Err(e) => return Err(format!("removal failed: {e}")),
    };
    let g = from_curve(&cur);
    g.wf()?;
    ensure!(removed >= t, "removed {removed} of {t} inserted copies of {u}");
    ensure!(mult(&g.k, u) + removed == s + t && g.k.len() + removed == before.k.len(), "reported {removed} removals, knots {:?}", g.k);
    // removals beyond the inserted ones are legitimate only if the shape survives
    close_on(&c, &g, a, b, 1e-6)
}
/// euclidean distance of two curves below tol at sampled parameters
fn close_on(x: &RC, y: &RC, a: Q, b: Q, tol: f64) -> R {
    let mut br: Vec<Q> = vec![a, b];
    br.extend(x.k.iter().copied().filter(|k| a < *k && *k < b));
    br.sort();
    br.dedup();
    for w in br.windows(2) {
        for j in 0..=4 {
            let u = w[0] + (w[1] - w[0]) * Q::new(j, 4);
            let (p, q) = (x.ev(u), y.ev(u));
            let d: f64 = p.iter().zip(&q).map(|(a, b)| (*a - *b).f().powi(2)).sum::<f64>().sqrt();
            ensure!(d <= tol, "differ by {d} at {u}: {p:?} vs {q:?}");
        }
    }
    Ok(())
}
fn remove_any(cx: &mut Cx) -> R {
    let p = cx.r.us(1, 4);
    let mut c = rc_deg(&mut cx.r, 2, KS::Clamped, p, 5);
    for h in c.c.iter_mut() {
        // polynomial, so that the homogeneous tolerance bounds the euclidean error
        for j in 0..2 {
            let w = h[2];
            h[j] /= w;
        }
        h[2] = Q::int(1);
    }
    let inner: Vec<Q> = c.k.iter().copied().filter(|u| *u > c.domain().0 && *u < c.domain().1).collect();
    if inner.is_empty() {
        return Ok(());
    }
    let u = *cx.r.pick(&inner);
    let tol = if cx.r.b() { Q::new(1, 1000) } else { Q::int(2) };
    cx.input(c.show());
    cx.input(format!("remove {u} tolerance {tol}"));
    let mut cur = to_curve::<3>(&c);
    let t = cur.try_remove_knot(u, Some(tol)).map_err(|e| format!("removal failed: {e}"))?;
    let g = from_curve(&cur);
    g.wf()?;
    ensure!(g.k.len() + t == c.k.len() && mult(&g.k, u) + t == mult(&c.k, u), "reported {t} removals, knots {:?}", g.k);
    if t == 0 {
        ensure!(g.k == c.k && g.c == c.c, "nothing removed but the curve changed");
    }
    let (a, b) = c.domain();
    close_on(&c, &g, a, b, tol.f() * t as f64 + 1e-9)
}
fn split(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let u = ipar(&mut cx.r, &c);
    cx.input(format!("split at {u}"));
    let (x, y) = to_curve::<3>(&c).try_split(u).map_err(|e| format!("failed: {e}"))?;
    let (x, y) = (from_curve(&x), from_curve(&y));
    check_split(&c, u, &x, &y)
}
pub fn check_split(c: &RC, u: Q, x: &RC, y: &RC) -> R {
    x.wf().map_err(|e| format!("left piece: {e}"))?;
    y.wf().map_err(|e| format!("right piece: {e}"))?;
    let (a, b) = c.domain();
    ensure!(x.p == c.p && y.p == c.p, "degree changed");
    ensure!(x.domain() == (a, u), "left domain {:?}, expected {:?}", x.domain(), (a, u));
    ensure!(y.domain() == (u, b), "right domain {:?}, expected {:?}", y.domain(), (u, b));
    for (n, g, l, r) in [("left", x, a, u), ("right", y, u, b)] {
        same_on(g, c, |u| u, l, r).map_err(|e| format!("{n} piece: {e}"))?;
        // evaluating the real piece at its ends is finite and on the curve
        let cur = to_curve::<3>(g);
        for t in [l, r, (l + r) / Q::int(2)] {
            let p = d_point(&cur.point_at(t));
            ensure!(p == c.ev(t), "{n} piece evaluates to {p:?} at {t}, curve to {:?}", c.ev(t));
        }
    }
    Ok(())
}
fn piece(c: &RC, cur: &NurbsCurve<Q, Const<3>>, l: Q, r: Q) -> R {
    let g = from_curve(cur);
    g.wf()?;
    ensure!(g.domain() == (l, r), "piece domain {:?}, expected {:?}", g.domain(), (l, r));
    same_on(&g, c, |u| u, l, r)?;
    for t in [l, r] {
        let p = d_point(&cur.point_at(t));
        ensure!(p == c.ev(t), "piece evaluates to {p:?} at {t}, curve to {:?}", c.ev(t));
    }
    Ok(())
}
fn trim_curve(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let (mut s, mut t) = (ipar(&mut cx.r, &c), ipar(&mut cx.r, &c));
    if s == t {
        return Ok(());
    }
    if s > t {
        std::mem::swap(&mut s, &mut t);
    }
    let cur = to_curve::<3>(&c);
    let (a, b) = c.domain();
    if cx.r.b() {
        cx.input(format!("trim ({s}, {t})"));
        let v = cur.try_trim_range((s, t)).map_err(|e| format!("failed: {e}"))?;
        ensure!(v.len() == 1, "{} pieces", v.len());
        piece(&c, &v[0], s, t)
    } else {
        cx.input(format!("trim ({t}, {s})"));
        let mut v = cur.try_trim_range((t, s)).map_err(|e| format!("failed: {e}"))?;
        ensure!(v.len() == 2, "{} pieces", v.len());
        v.sort_by(|x, y| x.knots_domain().0.partial_cmp(&y.knots_domain().0).unwrap());
        piece(&c, &v[0], a, s)?;
        piece(&c, &v[1], t, b)
    }
}
fn invert_curve(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let inv = to_curve::<3>(&c).inverse();
    let g = from_curve(&inv);
    g.wf()?;
    let (s, e) = (c.k[0], c.k[c.k.len() - 1]);
    let (a, b) = c.domain();
    ensure!(g.domain() == (s + e - b, s + e - a), "domain {:?}", g.domain());
    same_on(&c, &g, |u| s + e - u, a, b)?;
    for u in params(&mut cx.r, &c.k, c.p) {
        let x = d_point(&inv.point_at(s + e - u));
        ensure!(x == c.ev(u), "inverted curve at {}: {x:?}, expected {:?}", s + e - u, c.ev(u));
    }
    let back = from_curve(&inv.inverse());
    ensure!(back.k == c.k && back.c == c.c, "inverting twice changes the curve: {}", back.show());
    Ok(())
}
fn normalize(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let mut cur = to_curve::<3>(&c);
    cur.normalize_knots();
    let g = from_curve(&cur);
    g.wf()?;
    ensure!(g.domain() == (Q::int(0), Q::int(1)), "domain {:?}", g.domain());
    let (a, b) = c.domain();
    same_on(&c, &g, |u| (u - a) / (b - a), a, b)
}
fn transform(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let mut m = nalgebra::Matrix3::<Q>::identity();
    for i in 0..2 {
        for j in 0..3 {
            m[(i, j)] = Q::new(cx.r.i(-4, 4), cx.r.i(1, 2));
        }
    }
    cx.input(format!("matrix rows {:?}", (0..3).map(|i| (0..3).map(|j| m[(i, j)]).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let cur = to_curve::<3>(&c).transformed(&m);
    let g = from_curve(&cur);
    g.wf()?;
    ensure!(g.k == c.k && g.p == c.p, "knots changed");
    for u in params(&mut cx.r, &c.k, c.p) {
        let p = c.ev(u);
        let e = vec![m[(0, 0)] * p[0] + m[(0, 1)] * p[1] + m[(0, 2)], m[(1, 0)] * p[0] + m[(1, 1)] * p[1] + m[(1, 2)]];
        let x = d_point(&cur.point_at(u));
        ensure!(x == e, "transformed curve at {u}: {x:?}, transformed point {e:?}");
    }
    Ok(())
}
fn elevate_dim(cx: &mut Cx) -> R {
    let c = any_curve(cx, 2);
    let cur = to_curve::<3>(&c);
    let g = from_curve(&cur.elevate_dimension());
    g.wf()?;
    ensure!(g.k == c.k && g.p == c.p && g.c.len() == c.c.len(), "knots/degree changed");
    for u in params(&mut cx.r, &c.k, c.p) {
        let mut e = c.ev(u);
        e.push(Q::int(0));
        ensure!(g.ev(u) == e, "elevated curve at {u}: {:?}", g.ev(u));
    }
    let d = from_curve(&cur.dehomogenize());
    ensure!(d.k == c.k && d.p == c.p && d.c == c.c.iter().map(|h| deh(h)).collect::<Vec<_>>(), "dehomogenized curve");
    let f = cur.cast::<Q>();
    let f = from_curve(&f);
    ensure!(f.k == c.k && f.c == c.c && f.p == c.p, "cast changed the curve");
    Ok(())
}
#[allow(dead_code)]
fn _unused(_: Point2<Q>, _: Point3<Q>, _: Point4<Q>, _: Vector2<Q>) {}
