// needs: srfsum
// One-span knots 0..0 1..1: the basis is Bernstein's.
pub open spec fn unit_knots(s: Seq<R>, p: int) -> bool { s.len() == 2 * p + 2 && (forall|i: int| 0 <= i <= p ==> (#[trigger] s[i])@ == 0real) && forall|i: int| p < i < 2 * p + 2 ==> (#[trigger] s[i])@ == 1real }
pub proof fn lemma_unit_span(s: Seq<R>, p: int, u: real)
  requires unit_knots(s, p), 0 <= p < 0x100, eps() <= 1real
  ensures wfk(s, p, p), kspan(s, p, p, u) == p
{ assert(wfk(s, p, p)); lemma_span_exists(s, p, p, u); }
pub proof fn lemma_fr1(a: real) ensures fr(a, 1real) == a, fr(a, 0real) == 0real { assert(a / 1real == a) by (nonlinear_arith); }
pub proof fn lemma_bern1(s: Seq<R>, u: real)
  requires unit_knots(s, 1)
  ensures bas(s, 1, 0, 1, u) == 1real - u, bas(s, 1, 1, 1, u) == u
{
  assert(s[0]@ == 0real && s[1]@ == 0real && s[2]@ == 1real && s[3]@ == 1real);
  lemma_fr1(u); lemma_fr1(1real - u); lemma_fr1(u - 1real);
  assert(bas(s, 1, 0, 0, u) == 0real && bas(s, 1, 1, 0, u) == 1real && bas(s, 1, 2, 0, u) == 0real);
  assert(bas(s, 1, 0, 1, u) == fr(u - 0real, 0real) * 0real + fr(1real - u, 1real) * 1real);
  assert(bas(s, 1, 1, 1, u) == fr(u - 0real, 1real) * 1real + fr(1real - u, 0real) * 0real);
}
pub proof fn lemma_bern2(s: Seq<R>, u: real)
  requires unit_knots(s, 2)
  ensures bas(s, 2, 0, 2, u) == (1real - u) * (1real - u), bas(s, 2, 1, 2, u) == 2real * (u * (1real - u)), bas(s, 2, 2, 2, u) == u * u
{
  assert(s[0]@ == 0real && s[1]@ == 0real && s[2]@ == 0real && s[3]@ == 1real && s[4]@ == 1real && s[5]@ == 1real);
  lemma_fr1(u); lemma_fr1(1real - u); lemma_fr1(u - 1real); lemma_fr1(1real); lemma_fr1(0real);
  lemma_zero_prod(u, 1real - u);
  assert(bas(s, 2, 1, 0, u) == 0real && bas(s, 2, 2, 0, u) == 1real && bas(s, 2, 3, 0, u) == 0real && bas(s, 2, 0, 0, u) == 0real && bas(s, 2, 4, 0, u) == 0real);
  assert(bas(s, 2, 0, 1, u) == 0real && bas(s, 2, 1, 1, u) == 1real - u && bas(s, 2, 2, 1, u) == u && bas(s, 2, 3, 1, u) == 0real);
  let v = 1real - u;
  assert(u * v + v * u == 2real * (u * v)) by (nonlinear_arith);
}
// a row plus a multiple of its weights
pub proof fn lemma_csum_shift(a: Seq<OPoint>, b: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, x: real, m: int)
  requires 0 <= m <= p + 1, p <= k < a.len(), forall|j: int| 0 <= j < a.len() ==> (#[trigger] b[j]).coords.c(c) == a[j].coords.c(c) + x * a[j].coords.c(dim() - 1)
  ensures csum(b, s, k, p, u, c, m) == csum(a, s, k, p, u, c, m) + x * csum(a, s, k, p, u, dim() - 1, m)
  decreases m
{
  if m > 0 {
    lemma_csum_shift(a, b, s, k, p, u, c, x, m - 1);
    let j = k - p + m - 1; let z = bas(s, k, j, p, u); let y = a[j].coords.c(c); let w = a[j].coords.c(dim() - 1); let q = csum(a, s, k, p, u, dim() - 1, m - 1);
    assert(b[j].coords.c(c) == y + x * w);
    assert((y + x * w) * z == y * z + x * (w * z)) by (nonlinear_arith);
    assert(x * (q + w * z) == x * q + x * (w * z)) by (nonlinear_arith);
  } else { lemma_zero_prod(x, x); }
}
pub proof fn lemma_patch(a: real, x: real, y: real, u: real, v: real)
  ensures ((a - x - y) * (1real - u) + (a + x - y) * u) * (1real - v) + ((a - x + y) * (1real - u) + (a + x + y) * u) * v == a + (2real * u - 1real) * x + (2real * v - 1real) * y
{
  let k = (2real * u - 1real) * x;
  assert((a - x - y) * (1real - u) + (a + x - y) * u == a - y + k) by (nonlinear_arith) requires k == (2real * u - 1real) * x;
  assert((a - x + y) * (1real - u) + (a + x + y) * u == a + y + k) by (nonlinear_arith) requires k == (2real * u - 1real) * x;
  assert((a - y + k) * (1real - v) + (a + y + k) * v == a + k + (2real * v - 1real) * y) by (nonlinear_arith);
}
// the rows of an extrusion: the profile moved by the whole, half and none of the translation
pub open spec fn exfac(i: int) -> real { if i == 0 { 1real } else if i == 1 { 1real / 2real } else { 0real } }
pub open spec fn excell(b: OPoint, a: OPoint, t: OVector, i: int) -> bool { b.coords.c(dim() - 1) == a.coords.c(dim() - 1) && forall|c: int| 0 <= c < dim() - 1 ==> (#[trigger] b.coords.c(c)) == a.coords.c(c) + exfac(i) * t.c(c) * a.coords.c(dim() - 1) }
pub open spec fn exrow(row: Seq<OPoint>, cp: Seq<OPoint>, t: OVector, i: int, m: int) -> bool { row.len() == m && forall|j: int| 0 <= j < m ==> excell(#[trigger] row[j], cp[j], t, i) }
pub proof fn lemma_one(x: real) ensures 1real * x == x, x * 1real == x { assert(1real * x == x && x * 1real == x) by (nonlinear_arith); }
pub proof fn lemma_dist2(x: real, y: real, a: real) ensures (x + y) * a == x * a + y * a { assert((x + y) * a == x * a + y * a) by (nonlinear_arith); }
pub proof fn lemma_assoc3(x: real, y: real, z: real) ensures x * y * z == x * (y * z) { assert(x * y * z == x * (y * z)) by (nonlinear_arith); }
pub proof fn lemma_bern2sum(u: real)
  ensures (1real - u) * (1real - u) + 2real * (u * (1real - u)) + u * u == 1real, (1real - u) * (1real - u) + u * (1real - u) == 1real - u
{ let v = 1real - u; lemma_dist2(v, u, v); lemma_dist2(v, u, u); lemma_one(v); assert(v * u == u * v) by (nonlinear_arith); let o = v + u; assert(o == 1real); lemma_one(u); assert(o * v == v && o * u == u); let b = u * v; assert(2real * (u * (1real - u)) == b + b); }
pub proof fn lemma_exsum(x: real, tt: real, w: real, u: real, h0: real, h1: real, h2: real)
  requires h0 == x + 1real * tt * w, h1 == x + (1real / 2real) * tt * w, h2 == x + 0real * tt * w
  ensures h0 * ((1real - u) * (1real - u)) + h1 * (2real * (u * (1real - u))) + h2 * (u * u) == x + ((1real - u) * tt) * w
{
  let y = tt * w; let v = 1real - u; let hy = (1real / 2real) * y;
  lemma_assoc3(1real, tt, w); lemma_assoc3(1real / 2real, tt, w); lemma_assoc3(0real, tt, w); lemma_assoc3(v, tt, w); lemma_zero_prod(y, x); lemma_one(y);
  assert(h0 == x + y && h1 == x + hy && h2 == x);
  let a = v * v; let b = u * v; let q = u * u;
  lemma_bern2sum(u);
  lemma_dist2(x, y, a); lemma_dist2(x, hy, 2real * b);
  lemma_fold(x, a, 2real * b, q); lemma_fold(y, a, b, 0real); lemma_zero_prod(y, 0real);
  assert(hy * (2real * b) == y * b) by (nonlinear_arith) requires hy == (1real / 2real) * y;
  assert(v * y == y * v) by (nonlinear_arith);
}
pub proof fn lemma_fold(x: real, a: real, b: real, c: real) ensures x * a + x * b + x * c == x * (a + b + c) { assert(x * a + x * b + x * c == x * (a + b + c)) by (nonlinear_arith); }
pub proof fn lemma_wsum(w: real, u: real)
  ensures w * ((1real - u) * (1real - u)) + w * (2real * (u * (1real - u))) + w * (u * u) == w
{ let v = 1real - u; lemma_bern2sum(u); lemma_fold(w, v * v, 2real * (u * v), u * u); lemma_one(w); }
pub open spec fn bezsum(net: Seq<Vec<OPoint>>, s: Seq<R>, k: int, p: int, v: real, c: int, u: real) -> real {
  csum(net[0]@, s, k, p, v, c, p + 1) * ((1real - u) * (1real - u)) + csum(net[1]@, s, k, p, v, c, p + 1) * (2real * (u * (1real - u))) + csum(net[2]@, s, k, p, v, c, p + 1) * (u * u)
}
pub proof fn lemma_bezrows(s: NurbsSurface, u: real, v: real, c: int)
  requires wfs(s), s.u_degree == 2, unit_knots(s.u_knots.0@, 2), s.control_points.len() == 3, eps() <= 1real
  ensures srf(s, u, v, c) == bezsum(s.control_points@, s.v_knots.0@, kspv(s, v), s.v_degree as int, v, c, u)
{
  let su = s.u_knots.0@; let sv = s.v_knots.0@; let p = s.v_degree as int; let net = s.control_points@;
  lemma_unit_span(su, 2, u); lemma_bern2(su, u);
  lemma_span_exists(sv, net_nv(s) - 1, p, v);
  let kv = kspv(s, v); let bu = pseq(su, 2, 2, u, 0); let bv = pseq(sv, kv, p, v, 0);
  assert(bu.len() == 3 && bu[0] == bas(su, 2, 0, 2, u) && bu[1] == bas(su, 2, 1, 2, u) && bu[2] == bas(su, 2, 2, 2, u));
  lemma_ssum_rows(net, 0, kv - p, c, bu, bv, p + 1);
  lemma_lsum_csum(net[0]@, sv, kv, p, v, c, p + 1); lemma_lsum_csum(net[1]@, sv, kv, p, v, c, p + 1); lemma_lsum_csum(net[2]@, sv, kv, p, v, c, p + 1);
  let t = p + 1; let iv = kv - p;
  assert(rsum(net, 0, iv, c, bu, bv, t, 0) == 0real);
  assert(rsum(net, 0, iv, c, bu, bv, t, 1) == lsum(net[0]@, iv, c, bv, t) * bu[0]);
  assert(rsum(net, 0, iv, c, bu, bv, t, 2) == rsum(net, 0, iv, c, bu, bv, t, 1) + lsum(net[1]@, iv, c, bv, t) * bu[1]);
  assert(rsum(net, 0, iv, c, bu, bv, t, 3) == rsum(net, 0, iv, c, bu, bv, t, 2) + lsum(net[2]@, iv, c, bv, t) * bu[2]);
}
pub proof fn lemma_exhval(row: Seq<OPoint>, cp: Seq<OPoint>, t: OVector, i: int, s: Seq<R>, k: int, p: int, v: real, c: int)
  requires exrow(row, cp, t, i, cp.len() as int), 0 <= p <= k < cp.len(), 0 <= c < dim()
  ensures csum(row, s, k, p, v, c, p + 1) == csum(cp, s, k, p, v, c, p + 1) + (if c == dim() - 1 { 0real } else { exfac(i) * t.c(c) * csum(cp, s, k, p, v, dim() - 1, p + 1) })
{
  if c == dim() - 1 {
    assert forall|j: int| 0 <= j < p + 1 implies (#[trigger] row[k - p + j]).coords.c(c) == cp[k - p + j].coords.c(c) by { assert(excell(row[k - p + j], cp[k - p + j], t, i)); }
    lemma_csum_ext(row, cp, s, k, p, v, c, c, p + 1);
  } else {
    assert forall|j: int| 0 <= j < cp.len() implies (#[trigger] row[j]).coords.c(c) == cp[j].coords.c(c) + (exfac(i) * t.c(c)) * cp[j].coords.c(dim() - 1) by { assert(excell(row[j], cp[j], t, i)); }
    lemma_csum_shift(cp, row, s, k, p, v, c, exfac(i) * t.c(c), p + 1);
  }
}
pub proof fn lemma_extrude(s: NurbsSurface, pr: NurbsCurve, t: OVector)
  requires wfk(pr.knots.0@, pr.control_points.len() - 1, pr.degree as int), s.u_degree == 2, s.v_degree == pr.degree, unit_knots(s.u_knots.0@, 2), s.v_knots == pr.knots, s.control_points.len() == 3, eps() <= 1real,
    forall|i: int| 0 <= i < 3 ==> exrow((#[trigger] s.control_points@[i])@, pr.control_points@, t, i, pr.control_points.len() as int)
  ensures wfs(s), forall|u: real, v: real, c: int| 0 <= c < dim() - 1 ==> #[trigger] srf(s, u, v, c) == hval(pr.control_points@, pr.knots.0@, pr.degree as int, v, c) + ((1real - u) * t.c(c)) * hval(pr.control_points@, pr.knots.0@, pr.degree as int, v, dim() - 1),
    forall|u: real, v: real| #[trigger] srf(s, u, v, dim() - 1) == hval(pr.control_points@, pr.knots.0@, pr.degree as int, v, dim() - 1)
{
  let net = s.control_points@; let cp = pr.control_points@; let sv = pr.knots.0@; let p = pr.degree as int;
  assert(exrow(net[0]@, cp, t, 0, cp.len() as int) && exrow(net[1]@, cp, t, 1, cp.len() as int) && exrow(net[2]@, cp, t, 2, cp.len() as int));
  axiom_dim();
  lemma_unit_span(s.u_knots.0@, 2, 0real);
  assert(wfs(s));
  assert forall|u: real, v: real, c: int| 0 <= c < dim() implies #[trigger] srf(s, u, v, c) == (if c < dim() - 1 { hval(cp, sv, p, v, c) + ((1real - u) * t.c(c)) * hval(cp, sv, p, v, dim() - 1) } else { hval(cp, sv, p, v, c) }) by {
    lemma_bezrows(s, u, v, c);
    lemma_span_exists(sv, cp.len() - 1, p, v);
    let k = kspv(s, v);
    lemma_exhval(net[0]@, cp, t, 0, sv, k, p, v, c); lemma_exhval(net[1]@, cp, t, 1, sv, k, p, v, c); lemma_exhval(net[2]@, cp, t, 2, sv, k, p, v, c);
    let h0 = csum(net[0]@, sv, k, p, v, c, p + 1); let h1 = csum(net[1]@, sv, k, p, v, c, p + 1); let h2 = csum(net[2]@, sv, k, p, v, c, p + 1); let x = csum(cp, sv, k, p, v, c, p + 1);
    if c < dim() - 1 { lemma_exsum(x, t.c(c), csum(cp, sv, k, p, v, dim() - 1, p + 1), u, h0, h1, h2); } else { lemma_wsum(x, u); }
  }
}
