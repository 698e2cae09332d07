// needs: knotmaps
// ---- ends of a curve
pub open spec fn sp(c: NurbsCurve) -> OPoint { ptc(c, c.knots.0@[c.degree as int]@) }
pub open spec fn ep(c: NurbsCurve) -> OPoint { ptc(c, c.knots.0@[c.control_points.len() as int]@) }
pub open spec fn endpt(c: NurbsCurve, last: bool) -> OPoint { if last { ep(c) } else { sp(c) } }
pub open spec fn goodc(c: NurbsCurve) -> bool { wfc(c) && posw(c) }
pub proof fn lemma_goodc(c: NurbsCurve, u: real)
  requires goodc(c), c.knots.0@[c.degree as int]@ <= u <= c.knots.0@[c.control_points.len() as int]@
  ensures crv(c, u, dim() - 1) != 0real
{ axiom_dim(); lemma_weight_pos(c.control_points@, c.knots.0@, c.degree as int, u, dim() - 1); }
// curves with the same values at u and v have the same point there
pub proof fn lemma_ptc_same(a: NurbsCurve, u: real, b: NurbsCurve, v: real)
  requires forall|i: int| 0 <= i < dim() ==> #[trigger] crv(a, u, i) == crv(b, v, i)
  ensures ptc(a, u) == ptc(b, v)
{
  axiom_dim();
  let f = |i: int| crv(a, u, i) / crv(a, u, dim() - 1);
  axiom_vec_mk(f, dim() - 1);
  let v0 = choose|w: OVector| #[trigger] vec_is(w, f, dim() - 1);
  let p = OPoint { coords: v0 };
  assert(is_pt(p, a, u)); assert(lowpt(p));
  assert(crv(a, u, dim() - 1) == crv(b, v, dim() - 1));
  assert forall|i: int| 0 <= i < dim() - 1 implies (#[trigger] p.coords.c(i)) == crv(b, v, i) / crv(b, v, dim() - 1) by { assert(crv(a, u, i) == crv(b, v, i)); }
  lemma_ptc(p, a, u); lemma_ptc(p, b, v);
}
// ---- inverse
pub open spec fn is_inv(o: NurbsCurve, c: NurbsCurve) -> bool {
  c.degree == o.degree && c.control_points@ == o.control_points@.reverse() && mirrored(o.knots.0@, c.knots.0@, o.knots.0@[0]@ + o.knots.0@[o.knots.0.len() - 1]@) && wfc(c)
}
pub proof fn lemma_inv_at(o: NurbsCurve, c: NurbsCurve, u: real, k: int, i: int)
  requires wfc(o), is_inv(o, c), in_span(o.knots.0@, o.control_points.len() - 1, o.degree as int, u, k),
    in_span(c.knots.0@, o.control_points.len() - 1, o.degree as int, o.knots.0@[0]@ + o.knots.0@[o.knots.0.len() - 1]@ - u, o.knots.0.len() - 2 - k)
  ensures crv(c, o.knots.0@[0]@ + o.knots.0@[o.knots.0.len() - 1]@ - u, i) == crv(o, u, i)
{
  let s = o.knots.0@; let s2 = c.knots.0@; let a = s[0]@ + s[s.len() - 1]@; let p = o.degree as int; let n = o.control_points.len() - 1;
  lemma_kspan(s, n, p, u, k);
  lemma_kspan(s2, n, p, a - u, s.len() - 2 - k);
  assert(csum(o.control_points@, s, k, p, u, i, 0) == 0real);
  lemma_csum_mirror(o.control_points@, c.control_points@, s, s2, a, k, p, u, i, p + 1);
}
pub proof fn lemma_inv_ends(o: NurbsCurve, c: NurbsCurve)
  requires goodc(o), is_inv(o, c)
  ensures goodc(c), sp(c) == ep(o), ep(c) == sp(o)
{
  let s = o.knots.0@; let s2 = c.knots.0@; let a = s[0]@ + s[s.len() - 1]@; let p = o.degree as int; let n = o.control_points.len() - 1;
  axiom_eps();
  assert(c.control_points.len() == o.control_points.len());
  assert forall|j: int| 0 <= j < c.control_points.len() implies (#[trigger] c.control_points@[j]).coords.c(dim() - 1) > 0real by { assert(c.control_points@[j] == o.control_points@[n - j]); }
  assert(s2[p]@ == a - s[n + 1]@); assert(s2[p + 1]@ == a - s[n]@); assert(s2[n]@ == a - s[p + 1]@); assert(s2[n + 1]@ == a - s[p]@);
  assert(in_span(s, n, p, s[n + 1]@, n)); 
  assert(s2[p]@ <= a - s[n + 1]@ < s2[p + 1]@);
  assert(in_span(s2, n, p, a - s[n + 1]@, p));
  assert(in_span(s, n, p, s[p]@, p));
  assert(in_span(s2, n, p, a - s[p]@, n));
  assert forall|i: int| 0 <= i < dim() implies #[trigger] crv(c, s2[p]@, i) == crv(o, s[n + 1]@, i) by { lemma_inv_at(o, c, s[n + 1]@, n, i); }
  assert forall|i: int| 0 <= i < dim() implies #[trigger] crv(c, s2[n + 1]@, i) == crv(o, s[p]@, i) by { lemma_inv_at(o, c, s[p]@, p, i); }
  lemma_ptc_same(c, s2[p]@, o, s[n + 1]@);
  lemma_ptc_same(c, s2[n + 1]@, o, s[p]@);
}
// ---- the same curve with its knots moved by d
pub open spec fn moved(o: NurbsCurve, c: NurbsCurve, d: real) -> bool { c.degree == o.degree && c.control_points == o.control_points && shifted(o.knots.0@, c.knots.0@, d) }
pub open spec fn shifted(s: Seq<R>, t: Seq<R>, d: real) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] t[i])@ == s[i]@ + d }
pub proof fn lemma_moved(o: NurbsCurve, c: NurbsCurve, d: real)
  requires goodc(o), moved(o, c, d)
  ensures goodc(c), forall|u: real, i: int| #[trigger] crv(c, u + d, i) == crv(o, u, i), forall|u: real| #[trigger] ptc(c, u + d) == ptc(o, u), sp(c) == sp(o), ep(c) == ep(o)
{
  let s = o.knots.0@; let t = c.knots.0@; let p = o.degree as int; let n = o.control_points.len() - 1;
  assert(wfk(t, n, p));
  assert forall|u: real, i: int| #[trigger] crv(c, u + d, i) == crv(o, u, i) by {
    let k = kspan(s, n, p, u);
    lemma_span_exists(s, n, p, u);
    assert(t[k]@ == s[k]@ + d && t[k + 1]@ == s[k + 1]@ + d && t[n + 1]@ == s[n + 1]@ + d && t[p]@ == s[p]@ + d);
    assert(in_span(t, n, p, u + d, k));
    lemma_kspan(t, n, p, u + d, k);
    assert(affmap(s, t, 0real - d, 1real)) by { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] t[i])@ * 1real == s[i]@ - (0real - d) by { assert(t[i]@ == s[i]@ + d); } }
    assert((u + d) * 1real == u - (0real - d));
    lemma_csum_affine(o.control_points@, s, t, 0real - d, 1real, k, p, u, u + d, i, p + 1);
  }
  assert forall|u: real| #[trigger] ptc(c, u + d) == ptc(o, u) by {
    assert forall|i: int| 0 <= i < dim() implies #[trigger] crv(c, u + d, i) == crv(o, u, i) by { }
    lemma_ptc_same(c, u + d, o, u);
  }
  assert(t[p]@ == s[p]@ + d); assert(t[n + 1]@ == s[n + 1]@ + d);
  assert(sp(c) == ptc(c, s[p]@ + d)); assert(ep(c) == ptc(c, s[n + 1]@ + d));
}
pub open spec fn firstk(c: NurbsCurve) -> real { c.knots.0@[0]@ }
pub open spec fn lastk(c: NurbsCurve) -> real { c.knots.0@[c.knots.0.len() - 1]@ }
// the spans c laid end to end from parameter x: each is the given span with its knots moved
pub open spec fn laid(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, x: real) -> bool {
  &&& c.len() == o.len()
  &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] moved(o[i], c[i], firstk(c[i]) - firstk(o[i]))
  &&& c.len() > 0 ==> firstk(c[0]) == x
  &&& forall|i: int| 0 <= i < o.len() - 1 ==> #[trigger] firstk(c[i + 1]) == lastk(c[i])
}
// ---- chains
pub open spec fn tol() -> real { 1real / 10000real }
pub open spec fn near(a: OPoint, b: OPoint) -> bool { pdist(a, b) < tol() }
pub open spec fn linked(c: Seq<NurbsCurve>) -> bool { forall|i: int, j: int| 0 <= i && j == i + 1 && j < c.len() ==> near(#[trigger] ep(c[i]), #[trigger] sp(c[j])) }
// no end of a third curve is near a joint
pub open spec fn nobranch(c: Seq<NurbsCurve>) -> bool {
  forall|i: int, j: int, k: int, a: bool, b: bool, d: bool| 0 <= i < c.len() && 0 <= j < c.len() && 0 <= k < c.len() && i != j && j != k && i != k && near(#[trigger] endpt(c[i], a), #[trigger] endpt(c[j], b)) ==> !near(endpt(c[j], b), #[trigger] endpt(c[k], d))
}
pub open spec fn origin(o: NurbsCurve, c: NurbsCurve) -> bool { c == o || is_inv(o, c) }
pub proof fn lemma_origin(o: NurbsCurve, c: NurbsCurve)
  requires goodc(o), origin(o, c)
  ensures goodc(c), exists|b: bool| sp(c) == #[trigger] endpt(o, b) && ep(c) == endpt(o, !b)
{
  if c == o { assert(sp(c) == endpt(o, false)); } else { lemma_inv_ends(o, c); assert(sp(c) == endpt(o, true)); }
}
// spans after inverting a chain: the inverses in reversed order, laid from the start of the chain
pub open spec fn invchain(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>) -> bool {
  c.len() == o.len() && exists|m: Seq<NurbsCurve>| m.len() == o.len() && (forall|i: int| 0 <= i < o.len() ==> is_inv(o[o.len() - 1 - i], #[trigger] m[i])) && #[trigger] laid(m, c, firstk(o[0]))
}
pub open spec fn goodch(c: Seq<NurbsCurve>) -> bool { forall|i: int| 0 <= i < c.len() ==> goodc(#[trigger] c[i]) }
// parameter t is in the domain of span i
pub open spec fn covers(c: NurbsCurve, t: real) -> bool { c.knots.0@[c.degree as int]@ <= t <= c.knots.0@[c.control_points.len() as int]@ }
pub proof fn lemma_low_ptc(c: NurbsCurve, u: real) ensures lowpt(ptc(c, u)) {
  let f = |i: int| crv(c, u, i) / crv(c, u, dim() - 1);
  axiom_vec_mk(f, dim() - 1);
  let v0 = choose|w: OVector| #[trigger] vec_is(w, f, dim() - 1);
  let p = OPoint { coords: v0 };
  assert(is_pt(p, c, u)); assert(lowpt(p));
  assert(is_point_of(p, c, u));
}
pub proof fn lemma_near_sym(a: OPoint, b: OPoint)
  requires lowpt(a), lowpt(b)
  ensures near(a, b) == near(b, a), pdist(a, b) == pdist(b, a)
{
  let f = |i: int| a.coords.c(i) - b.coords.c(i); let g = |i: int| b.coords.c(i) - a.coords.c(i);
  axiom_vec_mk(f, dim() - 1); axiom_vec_mk(g, dim() - 1);
  let v = choose|w: OVector| #[trigger] vec_is(w, f, dim() - 1); let w = choose|w: OVector| #[trigger] vec_is(w, g, dim() - 1);
  assert(is_sub(v, a, b)); assert(is_sub(w, b, a));
  lemma_pdist_sym(a, b);
}
// total parameter range of spans
pub open spec fn range(c: Seq<NurbsCurve>, m: int) -> real decreases m { if m <= 0 { 0real } else { range(c, m - 1) + (lastk(c[m - 1]) - firstk(c[m - 1])) } }
pub proof fn lemma_laid_range(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, x: real, m: int)
  requires laid(o, c, x), 1 <= m <= o.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).knots.0.len() > 0
  ensures lastk(c[m - 1]) == x + range(o, m)
  decreases m
{
  assert(moved(o[m - 1], c[m - 1], firstk(c[m - 1]) - firstk(o[m - 1])));
  assert(o[m - 1].knots.0.len() > 0);
  assert(lastk(c[m - 1]) == lastk(o[m - 1]) + (firstk(c[m - 1]) - firstk(o[m - 1])));
  if m > 1 { lemma_laid_range(o, c, x, m - 1); assert(firstk(c[(m - 2) + 1]) == lastk(c[m - 2])); } else { assert(range(o, 0) == 0real); }
}
pub open spec fn rangefrom(c: Seq<NurbsCurve>, a: int) -> real decreases c.len() - a { if a >= c.len() { 0real } else { (lastk(c[a]) - firstk(c[a])) + rangefrom(c, a + 1) } }
pub proof fn lemma_range_from(c: Seq<NurbsCurve>, a: int)
  requires 0 <= a <= c.len()
  ensures range(c, a) + rangefrom(c, a) == range(c, c.len() as int)
  decreases c.len() - a
{ if a < c.len() { lemma_range_from(c, a + 1); } }
pub proof fn lemma_range_rev(o: Seq<NurbsCurve>, m: Seq<NurbsCurve>, t: int)
  requires m.len() == o.len(), forall|i: int| 0 <= i < o.len() ==> is_inv(o[o.len() - 1 - i], #[trigger] m[i]), goodch(o), 0 <= t <= o.len()
  ensures range(m, t) == rangefrom(o, o.len() - t)
  decreases t
{
  if t > 0 {
    lemma_range_rev(o, m, t - 1);
    assert(is_inv(o[o.len() - 1 - (t - 1)], m[t - 1]));
    assert(goodc(o[o.len() - t]));
  }
}
pub proof fn lemma_invchain(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>)
  requires goodch(o), invchain(o, c)
  ensures goodch(c), linked(o) ==> linked(c), forall|i: int| 0 <= i < c.len() ==> sp(#[trigger] c[i]) == ep(o[o.len() - 1 - i]) && ep(c[i]) == sp(o[o.len() - 1 - i]),
    o.len() > 0 ==> firstk(c[0]) == firstk(o[0]) && lastk(c[c.len() - 1]) == firstk(o[0]) + range(o, o.len() as int),
    forall|i: int, u: real| 0 <= i < c.len() && covers(o[o.len() - 1 - i], u) ==> #[trigger] retraced(o[o.len() - 1 - i], c[i], u),
{
  let n = o.len() as int;
  let m = choose|m: Seq<NurbsCurve>| m.len() == o.len() && (forall|i: int| 0 <= i < o.len() ==> is_inv(o[o.len() - 1 - i], #[trigger] m[i])) && #[trigger] laid(m, c, firstk(o[0]));
  assert forall|i: int| 0 <= i < n implies goodc(#[trigger] c[i]) && sp(c[i]) == ep(o[n - 1 - i]) && ep(c[i]) == sp(o[n - 1 - i]) by {
    assert(goodc(o[n - 1 - i]));
    assert(is_inv(o[n - 1 - i], m[i]));
    lemma_inv_ends(o[n - 1 - i], m[i]);
    assert(moved(m[i], c[i], firstk(c[i]) - firstk(m[i])));
    lemma_moved(m[i], c[i], firstk(c[i]) - firstk(m[i]));
  }
  if linked(o) {
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < c.len() implies near(#[trigger] ep(c[i]), #[trigger] sp(c[j])) by {
      assert(near(ep(o[n - 1 - j]), sp(o[n - 1 - i])));
      lemma_low_ptc(o[n - 1 - j], o[n - 1 - j].knots.0@[o[n - 1 - j].control_points.len() as int]@);
      lemma_low_ptc(o[n - 1 - i], o[n - 1 - i].knots.0@[o[n - 1 - i].degree as int]@);
      lemma_near_sym(ep(o[n - 1 - j]), sp(o[n - 1 - i]));
    }
  }
  if n > 0 {
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).knots.0.len() > 0 by { assert(is_inv(o[n - 1 - i], m[i])); assert(goodc(o[n - 1 - i])); }
    lemma_laid_range(m, c, firstk(o[0]), n);
    lemma_range_rev(o, m, n);
    lemma_range_from(o, 0);
  }
  assert forall|i: int, u: real| 0 <= i < c.len() && covers(o[n - 1 - i], u) implies #[trigger] retraced(o[n - 1 - i], c[i], u) by {
    assert(goodc(o[n - 1 - i]));
    assert(is_inv(o[n - 1 - i], m[i]));
    assert(moved(m[i], c[i], firstk(c[i]) - firstk(m[i])));
    lemma_inv_ends(o[n - 1 - i], m[i]);
    lemma_inv_inside(o[n - 1 - i], m[i], u);
    lemma_moved(m[i], c[i], firstk(c[i]) - firstk(m[i]));
    let q = o[n - 1 - i]; let d = firstk(c[i]) - firstk(m[i]);
    assert(firstk(m[i]) == firstk(q));
    if inside(q, u) { assert(ptc(c[i], (firstk(q) + lastk(q) - u) + d) == ptc(m[i], firstk(q) + lastk(q) - u)); }
  }
}
// u lies strictly inside a knot span and away from the domain ends by the tolerance
pub open spec fn inside(o: NurbsCurve, u: real) -> bool {
  let s = o.knots.0@; let n1 = o.control_points.len() as int;
  s[o.degree as int]@ + eps() <= u && u <= s[n1]@ - eps() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ != u
}
// c passes the point of o at u at the mirrored parameter (c spans the mirrored range from its own first knot)
pub open spec fn retraced(o: NurbsCurve, c: NurbsCurve, u: real) -> bool { inside(o, u) ==> ptc(c, firstk(c) + lastk(o) - u) == ptc(o, u) }
pub proof fn lemma_inv_inside(o: NurbsCurve, c: NurbsCurve, u: real)
  requires goodc(o), is_inv(o, c)
  ensures inside(o, u) ==> ptc(c, firstk(o) + lastk(o) - u) == ptc(o, u)
{
  if inside(o, u) {
    let s = o.knots.0@; let t = c.knots.0@; let p = o.degree as int; let n = o.control_points.len() - 1; let a = firstk(o) + lastk(o);
    axiom_eps();
    let k = kspan(s, n, p, u);
    lemma_span_exists(s, n, p, u);
    lemma_span_contains(s, n, p, u, k);
    assert(s[k]@ != u && s[k + 1]@ != u);
    let k2 = s.len() - 2 - k;
    assert(t[k2]@ == a - s[k + 1]@ && t[k2 + 1]@ == a - s[k]@);
    assert(c.control_points.len() == o.control_points.len());
    assert(in_span(t, n, p, a - u, k2));
    assert forall|i: int| 0 <= i < dim() implies #[trigger] crv(c, a - u, i) == crv(o, u, i) by { lemma_inv_at(o, c, u, k, i); }
    lemma_ptc_same(c, a - u, o, u);
  }
}
// ---- building a chain: connected[i] comes from spans[ids[i]], what is left over is spans[rids[j]]
pub open spec fn distinct(a: Seq<int>, n: int) -> bool { (forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] a[i] < n) && forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j ==> #[trigger] a[i] != #[trigger] a[j] }
pub open spec fn disj(a: Seq<int>, b: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] a[i] != #[trigger] b[j] }
pub open spec fn chst(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, ids: Seq<int>, rest: Seq<NurbsCurve>, rids: Seq<int>) -> bool {
  &&& c.len() == ids.len() && c.len() >= 1 && rest.len() == rids.len() && distinct(ids, o.len() as int) && distinct(rids, o.len() as int) && disj(ids, rids)
  &&& forall|i: int| 0 <= i < c.len() ==> origin(o[ids[i]], #[trigger] c[i])
  &&& forall|i: int| 0 <= i < rest.len() ==> #[trigger] rest[i] == o[rids[i]]
}
pub open spec fn chall(o: Seq<NurbsCurve>, ids: Seq<int>, rids: Seq<int>) -> bool { ids.len() + rids.len() == o.len() }
// no remaining curve has an end near an end of the chain
pub open spec fn loose(c: Seq<NurbsCurve>, q: NurbsCurve) -> bool {
  forall|b: bool| !near(ep(c[c.len() - 1]), #[trigger] endpt(q, b)) && !near(sp(c[0]), endpt(q, b))
}
// what a chain built from o is: distinct given curves or their inverses, laid end to end from zero
pub open spec fn chained(o: Seq<NurbsCurve>, r: Seq<NurbsCurve>, c: Seq<NurbsCurve>, ids: Seq<int>) -> bool {
  &&& c.len() == ids.len() && c.len() >= 1 && distinct(ids, o.len() as int) && (forall|i: int| 0 <= i < c.len() ==> origin(o[ids[i]], #[trigger] c[i])) && laid(c, r, 0real)
  &&& nobranch(o) ==> linked(r) && forall|j: int| 0 <= j < o.len() && !ids.contains(j) ==> loose(r, #[trigger] o[j])
}
pub open spec fn is_chain(o: Seq<NurbsCurve>, r: Seq<NurbsCurve>) -> bool { exists|c: Seq<NurbsCurve>, ids: Seq<int>| #[trigger] chained(o, r, c, ids) }
// take remaining curve x (as given or inverted: y) and put it at position at
pub proof fn lemma_chst(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, ids: Seq<int>, rest: Seq<NurbsCurve>, rids: Seq<int>, x: int, at: int, y: NurbsCurve)
  requires chst(o, c, ids, rest, rids), 0 <= x < rest.len(), 0 <= at <= c.len(), origin(rest[x], y)
  ensures chst(o, c.insert(at, y), ids.insert(at, rids[x]), rest.remove(x), rids.remove(x)), chall(o, ids, rids) ==> chall(o, ids.insert(at, rids[x]), rids.remove(x))
{
  let c2 = c.insert(at, y); let i2 = ids.insert(at, rids[x]); let r2 = rest.remove(x); let q2 = rids.remove(x);
  assert forall|i: int| 0 <= i < c2.len() implies origin(o[i2[i]], #[trigger] c2[i]) by { if i < at { assert(c2[i] == c[i]); } else if i > at { assert(c2[i] == c[i - 1]); } }
}
// an end of a chained curve is an end of the given one
pub proof fn lemma_sides(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, ids: Seq<int>, rest: Seq<NurbsCurve>, rids: Seq<int>, i: int)
  requires chst(o, c, ids, rest, rids), goodch(o), 0 <= i < c.len()
  ensures goodc(c[i]), exists|b: bool| sp(c[i]) == #[trigger] endpt(o[ids[i]], b) && ep(c[i]) == endpt(o[ids[i]], !b)
{ assert(origin(o[ids[i]], c[i])); assert(goodc(o[ids[i]])); lemma_origin(o[ids[i]], c[i]); }
pub proof fn lemma_low_end(c: NurbsCurve, b: bool) ensures lowpt(endpt(c, b)) {
  lemma_low_ptc(c, c.knots.0@[c.degree as int]@); lemma_low_ptc(c, c.knots.0@[c.control_points.len() as int]@);
}
// an end used by a joint of the chain is not near any end of a remaining curve
pub proof fn lemma_no_third(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, ids: Seq<int>, rest: Seq<NurbsCurve>, rids: Seq<int>, i: int, x: int, b: bool)
  requires chst(o, c, ids, rest, rids), goodch(o), nobranch(o), linked(c), 0 <= i < c.len() - 1, 0 <= x < rest.len()
  ensures !near(sp(c[i + 1]), endpt(rest[x], b)), !near(ep(c[i]), endpt(rest[x], b))
{
  lemma_sides(o, c, ids, rest, rids, i); lemma_sides(o, c, ids, rest, rids, i + 1);
  let b1 = choose|b: bool| sp(c[i]) == #[trigger] endpt(o[ids[i]], b) && ep(c[i]) == endpt(o[ids[i]], !b);
  let b2 = choose|b: bool| sp(c[i + 1]) == #[trigger] endpt(o[ids[i + 1]], b) && ep(c[i + 1]) == endpt(o[ids[i + 1]], !b);
  assert(near(ep(c[i]), sp(c[i + 1])));
  lemma_low_end(o[ids[i]], !b1); lemma_low_end(o[ids[i + 1]], b2);
  lemma_near_sym(ep(c[i]), sp(c[i + 1]));
  assert(near(endpt(o[ids[i]], !b1), endpt(o[ids[i + 1]], b2)));
  assert(near(endpt(o[ids[i + 1]], b2), endpt(o[ids[i]], !b1)));
  assert(rest[x] == o[rids[x]]);
  assert(endpt(o[rids[x]], b) == endpt(rest[x], b));
  assert(ids[i] != rids[x] && ids[i + 1] != rids[x] && ids[i] != ids[i + 1]);
}
pub proof fn lemma_link_end(c: Seq<NurbsCurve>, y: NurbsCurve)
  requires linked(c), c.len() > 0, near(ep(c[c.len() - 1]), sp(y))
  ensures linked(c.insert(c.len() as int, y))
{ let c2 = c.insert(c.len() as int, y);
  assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < c2.len() implies near(#[trigger] ep(c2[i]), #[trigger] sp(c2[j])) by { assert(c2[i] == c[i]); if j < c.len() { assert(c2[j] == c[j]); } } }
pub proof fn lemma_link_start(c: Seq<NurbsCurve>, y: NurbsCurve)
  requires linked(c), c.len() > 0, near(ep(y), sp(c[0]))
  ensures linked(c.insert(0, y))
{ let c2 = c.insert(0, y);
  assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < c2.len() implies near(#[trigger] ep(c2[i]), #[trigger] sp(c2[j])) by { assert(c2[j] == c[j - 1]); if i > 0 { assert(c2[i] == c[i - 1]); } } }
pub proof fn lemma_chained(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, ids: Seq<int>, rest: Seq<NurbsCurve>, rids: Seq<int>, r: Seq<NurbsCurve>)
  requires goodch(o), chst(o, c, ids, rest, rids), laid(c, r, 0real), nobranch(o) ==> chall(o, ids, rids) && linked(c) && forall|j: int| 0 <= j < rest.len() ==> loose(c, #[trigger] rest[j])
  ensures is_chain(o, r), goodch(r)
{
  let n = c.len() as int;
  assert forall|i: int| 0 <= i < n implies goodc(#[trigger] r[i]) && goodc(c[i]) && sp(r[i]) == sp(c[i]) && ep(r[i]) == ep(c[i]) by {
    lemma_sides(o, c, ids, rest, rids, i);
    assert(moved(c[i], r[i], firstk(r[i]) - firstk(c[i])));
    lemma_moved(c[i], r[i], firstk(r[i]) - firstk(c[i]));
  }
  if nobranch(o) {
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < r.len() implies near(#[trigger] ep(r[i]), #[trigger] sp(r[j])) by { assert(near(ep(c[i]), sp(c[j]))); }
    assert forall|j: int| 0 <= j < o.len() && !ids.contains(j) implies loose(r, #[trigger] o[j]) by {
      lemma_cover(ids, rids, o.len() as int, j);
      let q = choose|q: int| 0 <= q < rids.len() && #[trigger] rids[q] == j;
      assert(rest[q] == o[j]);
      assert(loose(c, rest[q]));
      assert(sp(r[0]) == sp(c[0]) && ep(r[n - 1]) == ep(c[n - 1]));
      assert forall|b: bool| !near(ep(r[n - 1]), #[trigger] endpt(o[j], b)) && !near(sp(r[0]), endpt(o[j], b)) by { assert(!near(ep(c[n - 1]), endpt(rest[q], b))); }
    }
  }
  assert(chained(o, r, c, ids));
}
// counting: distinct ids and rids that together have n members cover 0..n
pub proof fn lemma_cover(a: Seq<int>, b: Seq<int>, n: int, j: int)
  requires distinct(a, n), distinct(b, n), disj(a, b), a.len() + b.len() == n, 0 <= j < n, !a.contains(j)
  ensures exists|q: int| 0 <= q < b.len() && #[trigger] b[q] == j
{
  let c = a + b;
  assert(c.no_duplicates());
  c.unique_seq_to_set();
  let full = vstd::set_lib::set_int_range(0, n);
  vstd::set_lib::lemma_int_range(0, n);
  assert(c.to_set().subset_of(full)) by { assert forall|x: int| c.to_set().contains(x) implies full.contains(x) by { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } } }
  vstd::set_lib::lemma_subset_equality(c.to_set(), full);
  assert(c.to_set().contains(j));
  let i = choose|i: int| 0 <= i < c.len() && c[i] == j;
  if i < a.len() { assert(a.contains(j)) by { assert(a[i] == j); } } else { assert(b[i - a.len()] == j); }
}
pub proof fn lemma_drop(o: Seq<NurbsCurve>, c: Seq<NurbsCurve>, ids: Seq<int>, rest: Seq<NurbsCurve>, rids: Seq<int>, x: int)
  requires chst(o, c, ids, rest, rids), 0 <= x < rest.len()
  ensures chst(o, c, ids, rest.remove(x), rids.remove(x))
{ }
