//! C01 knot lookup, C02 basis functions, knot-vector part of C12
use crate::cx::*;
use crate::gen::*;
use crate::q::Q;
use curvo::prelude::*;

subs! {
    "C01" span_index "find_knot_span_index against its definition on clamped and unclamped knot vectors" 4000 60000;
    "C01" span_linear "find_knot_span_linear against its definition" 1500 20000;
    "C01" floor_add "floor / add keep the vector sorted and insert one knot" 2000 20000;
    "C01" domain_clamp "domain, clamp, first/last, knots_constrain" 1500 20000;
    "C01" multiplicity "run-length multiplicities and clampedness" 2000 20000;
    "C01" uniform "uniform knot vectors" 400 2000;
    "C02" basis "basis_functions against the Cox-de Boor recursion, non-negative, sum 1" 2500 40000;
    "C02" derivative_basis "derivative_basis_functions against differentiated recursion, rows sum to 0" 2000 30000;
    "C02" regular_basis "regularly spaced basis functions and derivatives against single evaluations" 800 10000;
    "C12" knot_invert "inverting a knot vector mirrors it inside its span" 1500 20000;
}

fn kv(cx: &mut Cx) -> (usize, usize, Vec<Q>) {
    let p = cx.r.us(1, 5);
    let n1 = p + 1 + cx.r.us(0, 9);
    let k = knots(&mut cx.r, p, n1, KS::Any, p);
    (p, n1, k)
}
/// a parameter: domain ends, knots, inside spans, slightly or far outside
fn par(r: &mut Rng, k: &[Q], p: usize, outside: bool) -> Q {
    let (a, b) = (k[p], k[k.len() - 1 - p]);
    match r.us(0, if outside { 7 } else { 5 }) {
        0 => a,
        1 => b,
        2 => *r.pick(&k[p..k.len() - p]),
        6 => a - Q::new(r.i(1, 9), r.i(1, 9)),
        7 => b + Q::new(r.i(1, 9), r.i(1, 9)),
        _ => {
            let i = r.us(p, k.len() - 2 - p);
            if k[i] < k[i + 1] { r.between(k[i], k[i + 1]) } else { k[i] }
        }
    }
}
fn span_ref(k: &[Q], n: usize, p: usize, u: Q) -> usize {
    if u >= k[n + 1] {
        return n;
    }
    if u < k[p] {
        return p;
    }
    (p..=n).find(|i| k[*i] <= u && u < k[*i + 1]).unwrap()
}

fn span_index(cx: &mut Cx) -> R {
    let (p, n1, k) = kv(cx);
    let u = par(&mut cx.r, &k, p, true);
    cx.input(format!("knots {k:?} degree {p} u {u}"));
    let s = KnotVector::new(k.clone()).find_knot_span_index(n1 - 1, p, u);
    let e = span_ref(&k, n1 - 1, p, u);
    ensure!(s == e, "span {s}, the span containing u is {e}");
    Ok(())
}
fn span_linear(cx: &mut Cx) -> R {
    let (p, n1, k) = kv(cx);
    let u = par(&mut cx.r, &k, p, true);
    let n = if cx.r.b() { n1 } else { cx.r.us(p + 1, n1) };
    cx.input(format!("knots {k:?} degree {p} n {n} u {u}"));
    let s = KnotVector::new(k.clone()).find_knot_span_linear(n, p, u);
    // greatest i in degree..=n-1 with i == degree or k[i] <= u
    let mut e = p;
    for i in p + 1..n {
        if k[i] <= u {
            e = i;
        }
    }
    ensure!(s == e, "span {s}, expected {e}");
    Ok(())
}
fn floor_add(cx: &mut Cx) -> R {
    let (p, _, k) = kv(cx);
    let u = par(&mut cx.r, &k, p, true);
    let u = match cx.r.us(0, 5) { 0 => k[0] - Q::int(1), 1 => k[k.len() - 1] + Q::int(1), 2 => k[0], 3 => k[k.len() - 1], _ => u };
    cx.input(format!("knots {k:?} knot {u}"));
    let mut v = KnotVector::new(k.clone());
    let f = v.floor(u);
    let e = k.iter().rposition(|x| *x <= u);
    ensure!(f == e, "floor {f:?}, expected {e:?}");
    let at = v.add(u);
    let got = v.to_vec();
    let mut want = k.clone();
    want.push(u);
    want.sort();
    ensure!(got == want, "after add: {got:?}, expected {want:?}");
    ensure!(at < got.len() && got[at] == u && got[at + 1..].iter().all(|x| *x > u), "add returned {at} for {got:?}");
    Ok(())
}
fn domain_clamp(cx: &mut Cx) -> R {
    let (p, _, k) = kv(cx);
    let u = par(&mut cx.r, &k, p, true);
    cx.input(format!("knots {k:?} degree {p} u {u}"));
    let v = KnotVector::new(k.clone());
    let (a, b) = (k[p], k[k.len() - p - 1]);
    ensure!(v.domain(p) == (a, b), "domain {:?}", v.domain(p));
    ensure!(v.first() == k[0] && v.last() == k[k.len() - 1] && v.len() == k.len() && !v.is_empty() && v.as_slice() == &k[..] && v.iter().copied().collect::<Vec<_>>() == k, "accessors");
    let c = v.clamp(p, u);
    let e = if u < a { a } else if u > b { b } else { u };
    ensure!(c == e, "clamp {c}, expected {e}");
    Ok(())
}
fn multiplicity(cx: &mut Cx) -> R {
    let (p, _, mut k) = kv(cx);
    if cx.r.chance(3) {
        let p2 = cx.r.us(1, 3);
        k = k[..k.len() - p2.min(k.len() - 2)].to_vec();
    }
    let d = cx.r.us(1, 5);
    cx.input(format!("knots {k:?} degree {d}/{p}"));
    let v = KnotVector::new(k.clone());
    let mut e: Vec<(Q, usize)> = vec![];
    for x in &k {
        match e.last_mut() {
            Some(l) if l.0 == *x => l.1 += 1,
            _ => e.push((*x, 1)),
        }
    }
    let g: Vec<(Q, usize)> = v.multiplicity().iter().map(|m| (*m.knot(), m.multiplicity())).collect();
    ensure!(g == e, "multiplicity {g:?}, expected {e:?}");
    let c = e[0].1 > d && e[e.len() - 1].1 > d;
    ensure!(v.is_clamped(d) == c, "is_clamped({d}) = {}", !c);
    Ok(())
}
fn uniform(cx: &mut Cx) -> R {
    let p = cx.r.us(1, 6);
    let n = cx.r.us(2, 14);
    cx.input(format!("n {n} degree {p}"));
    let v = KnotVector::<Q>::uniform(n, p).to_vec();
    let mut e = vec![Q::int(0); p];
    e.extend((0..n as i64).map(Q::int));
    e.extend(vec![Q::int(n as i64 - 1); p]);
    ensure!(v == e, "{v:?}, expected {e:?}");
    Ok(())
}
fn basis_in(cx: &mut Cx) -> (usize, usize, Vec<Q>, Q, usize) {
    let (p, n1, k) = kv(cx);
    let u = par(&mut cx.r, &k, p, false);
    let s = span_ref(&k, n1 - 1, p, u);
    cx.input(format!("knots {k:?} degree {p} u {u}"));
    (p, n1, k, u, s)
}
fn basis(cx: &mut Cx) -> R {
    let (p, n1, k, u, s) = basis_in(cx);
    let v = KnotVector::new(k.clone());
    let b = v.basis_functions(s, u, p);
    ensure!(b.len() == p + 1, "{} values for degree {p}", b.len());
    let end = k[n1];
    let mut sum = Q::int(0);
    for j in 0..=p {
        let e = crate::refm::basis(&k, s - p + j, p, u, end);
        ensure!(b[j] == e, "N_{},{p}({u}) = {:?}, by definition {:?}", s - p + j, b[j], e);
        ensure!(b[j].sgn() >= 0, "negative basis function {:?}", b[j]);
        sum += b[j];
    }
    ensure!(sum == Q::int(1), "basis functions sum to {sum}");
    Ok(())
}
fn dbasis(k: &[Q], i: usize, p: usize, u: Q, end: Q, d: usize) -> Q {
    if d == 0 {
        return crate::refm::basis(k, i, p, u, end);
    }
    if p == 0 {
        return Q::int(0);
    }
    let mut s = Q::int(0);
    let a = k[i + p] - k[i];
    if a.sgn() != 0 {
        s += dbasis(k, i, p - 1, u, end, d - 1) / a;
    }
    let a = k[i + p + 1] - k[i + 1];
    if a.sgn() != 0 {
        s -= dbasis(k, i + 1, p - 1, u, end, d - 1) / a;
    }
    s * Q::int(p as i64)
}
fn derivative_basis(cx: &mut Cx) -> R {
    let (p, n1, k, u, s) = basis_in(cx);
    let n = cx.r.us(0, p);
    let v = KnotVector::new(k.clone());
    let b = v.derivative_basis_functions(s, u, p, n);
    ensure!(b.len() == n + 1, "{} rows for n={n}", b.len());
    let end = k[n1];
    for d in 0..=n {
        let mut sum = Q::int(0);
        ensure!(b[d].len() == p + 1, "row {d} has {} values", b[d].len());
        for j in 0..=p {
            let e = dbasis(&k, s - p + j, p, u, end, d);
            ensure!(b[d][j] == e, "derivative {d} of N_{},{p} at {u} = {:?}, by definition {:?}", s - p + j, b[d][j], e);
            sum += b[d][j];
        }
        ensure!(sum == Q::int(if d == 0 { 1 } else { 0 }), "row {d} sums to {sum}");
    }
    Ok(())
}
fn regular_basis(cx: &mut Cx) -> R {
    let (p, n1, k) = kv(cx);
    let divs = cx.r.us(1, 9);
    cx.input(format!("knots {k:?} degree {p} divs {divs}"));
    let v = KnotVector::new(k.clone());
    let (a, b) = (k[p], k[n1]);
    let (s, e, step, n) = v.regularly_spaced_span(p, divs);
    ensure!(s == a && e == b && step == (b - a) / Q::int(divs as i64) && n == n1 - 1, "regularly_spaced_span = {:?}", (s, e, step, n));
    let (sp, bs) = v.regulary_spaced_basis_functions(p, divs);
    let (sp2, ds) = v.regularly_spaced_derivative_basis_functions(p, divs);
    ensure!(sp.len() == divs + 1 && bs.len() == divs + 1 && sp2 == sp && ds.len() == divs + 1, "counts {} {} {}", sp.len(), bs.len(), ds.len());
    for i in 0..=divs {
        let u = a + step * Q::int(i as i64);
        let x = span_ref(&k, n, p, u);
        ensure!(sp[i] == x, "span at sample {i} is {}, expected {x}", sp[i]);
        let e: Vec<Q> = (0..=p).map(|j| crate::refm::basis(&k, x - p + j, p, u, b)).collect();
        ensure!(bs[i] == e, "basis at sample {i}: {:?}, expected {e:?}", bs[i]);
        for (d, row) in ds[i].iter().enumerate() {
            for j in 0..=p {
                let e = dbasis(&k, x - p + j, p, u, b, d);
                ensure!(row[j] == e, "derivative {d} at sample {i}: {:?}, expected {e:?}", row[j]);
            }
        }
    }
    Ok(())
}
fn knot_invert(cx: &mut Cx) -> R {
    let (_, _, k) = kv(cx);
    cx.input(format!("knots {k:?}"));
    let mut v = KnotVector::new(k.clone());
    v.invert();
    let l = k.len();
    let e: Vec<Q> = (0..l).map(|i| k[0] + k[l - 1] - k[l - 1 - i]).collect();
    ensure!(v.to_vec() == e, "inverted {:?}, expected {e:?}", v.to_vec());
    v.invert();
    ensure!(v.to_vec() == k, "inverted twice {:?}", v.to_vec());
    Ok(())
}
