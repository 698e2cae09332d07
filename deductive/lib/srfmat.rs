// needs: srf mat
// An affine map of the control points is the same map of the surface's homogeneous values.
pub open spec fn ucomb(m: OMatrix, i: int, net: Seq<Vec<OPoint>>, iu: int, jv: int, bu: Seq<real>, t: int, n: int) -> real decreases n { if n <= 0 { 0real } else { ucomb(m, i, net, iu, jv, bu, t, n - 1) + m.m(i, n - 1) * usum(net, iu, jv, n - 1, bu, t) } }
pub open spec fn scomb(m: OMatrix, i: int, net: Seq<Vec<OPoint>>, iu: int, iv: int, bu: Seq<real>, bv: Seq<real>, t: int, n: int) -> real decreases n { if n <= 0 { 0real } else { scomb(m, i, net, iu, iv, bu, bv, t, n - 1) + m.m(i, n - 1) * ssum(net, iu, iv, n - 1, bu, bv, t) } }
pub proof fn lemma_comb_cell(q: real, y: real, c0: real, z: real, b: real) ensures y * (c0 + z * b) == y * c0 + (y * z) * b, (q + y * z) * b == q * b + (y * z) * b
{ assert(y * (c0 + z * b) == y * c0 + (y * z) * b) by (nonlinear_arith); assert((q + y * z) * b == q * b + (y * z) * b) by (nonlinear_arith); }
pub proof fn lemma_ucomb_step(m: OMatrix, i: int, net: Seq<Vec<OPoint>>, iu: int, jv: int, bu: Seq<real>, t: int, n: int)
  requires t >= 1
  ensures ucomb(m, i, net, iu, jv, bu, t, n) == ucomb(m, i, net, iu, jv, bu, t - 1, n) + mrow(m, i, net[iu + t - 1]@[jv], n) * bu[t - 1]
  decreases n
{
  if n > 0 { lemma_ucomb_step(m, i, net, iu, jv, bu, t, n - 1); lemma_comb_cell(mrow(m, i, net[iu + t - 1]@[jv], n - 1), m.m(i, n - 1), usum(net, iu, jv, n - 1, bu, t - 1), net[iu + t - 1]@[jv].coords.c(n - 1), bu[t - 1]); }
  else { let b = bu[t - 1]; assert(0real * b == 0real) by (nonlinear_arith); }
}
pub proof fn lemma_ucomb0(m: OMatrix, i: int, net: Seq<Vec<OPoint>>, iu: int, jv: int, bu: Seq<real>, n: int) ensures ucomb(m, i, net, iu, jv, bu, 0, n) == 0real decreases n
{ if n > 0 { lemma_ucomb0(m, i, net, iu, jv, bu, n - 1); let y = m.m(i, n - 1); assert(y * 0real == 0real) by (nonlinear_arith); } }
pub proof fn lemma_usum_map(m: OMatrix, i: int, a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, iu: int, jv: int, bu: Seq<real>, t: int)
  requires 0 <= t <= bu.len(), forall|r: int| iu <= r < iu + bu.len() ==> (#[trigger] b[r]@[jv]).coords.c(i) == mrow(m, i, a[r]@[jv], dim() as int)
  ensures usum(b, iu, jv, i, bu, t) == ucomb(m, i, a, iu, jv, bu, t, dim() as int)
  decreases t
{
  if t > 0 {
    lemma_usum_map(m, i, a, b, iu, jv, bu, t - 1); lemma_ucomb_step(m, i, a, iu, jv, bu, t, dim() as int);
    let r = iu + t - 1; assert(b[r]@[jv].coords.c(i) == mrow(m, i, a[r]@[jv], dim() as int));
  } else { lemma_ucomb0(m, i, a, iu, jv, bu, dim() as int); }
}
pub proof fn lemma_scomb_step(m: OMatrix, i: int, net: Seq<Vec<OPoint>>, iu: int, iv: int, bu: Seq<real>, bv: Seq<real>, t: int, n: int)
  requires t >= 1
  ensures scomb(m, i, net, iu, iv, bu, bv, t, n) == scomb(m, i, net, iu, iv, bu, bv, t - 1, n) + ucomb(m, i, net, iu, iv + t - 1, bu, bu.len() as int, n) * bv[t - 1]
  decreases n
{
  if n > 0 { lemma_scomb_step(m, i, net, iu, iv, bu, bv, t, n - 1); lemma_comb_cell(ucomb(m, i, net, iu, iv + t - 1, bu, bu.len() as int, n - 1), m.m(i, n - 1), ssum(net, iu, iv, n - 1, bu, bv, t - 1), usum(net, iu, iv + t - 1, n - 1, bu, bu.len() as int), bv[t - 1]); }
  else { let b = bv[t - 1]; assert(0real * b == 0real) by (nonlinear_arith); }
}
pub proof fn lemma_scomb0(m: OMatrix, i: int, net: Seq<Vec<OPoint>>, iu: int, iv: int, bu: Seq<real>, bv: Seq<real>, n: int) ensures scomb(m, i, net, iu, iv, bu, bv, 0, n) == 0real decreases n
{ if n > 0 { lemma_scomb0(m, i, net, iu, iv, bu, bv, n - 1); let y = m.m(i, n - 1); assert(y * 0real == 0real) by (nonlinear_arith); } }
pub proof fn lemma_ssum_map(m: OMatrix, i: int, a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, iu: int, iv: int, bu: Seq<real>, bv: Seq<real>, t: int)
  requires 0 <= t <= bv.len(), forall|r: int, q: int| iu <= r < iu + bu.len() && iv <= q < iv + bv.len() ==> (#[trigger] b[r]@[q]).coords.c(i) == mrow(m, i, a[r]@[q], dim() as int)
  ensures ssum(b, iu, iv, i, bu, bv, t) == scomb(m, i, a, iu, iv, bu, bv, t, dim() as int)
  decreases t
{
  if t > 0 { lemma_ssum_map(m, i, a, b, iu, iv, bu, bv, t - 1); lemma_scomb_step(m, i, a, iu, iv, bu, bv, t, dim() as int); lemma_usum_map(m, i, a, b, iu, iv + t - 1, bu, bu.len() as int); }
  else { lemma_scomb0(m, i, a, iu, iv, bu, bv, dim() as int); }
}
// row i of the matrix applied to the surface's homogeneous value
pub open spec fn srow(m: OMatrix, i: int, s: NurbsSurface, u: real, v: real, n: int) -> real decreases n { if n <= 0 { 0real } else { srow(m, i, s, u, v, n - 1) + m.m(i, n - 1) * srf(s, u, v, n - 1) } }
pub proof fn lemma_scomb_srow(m: OMatrix, i: int, s: NurbsSurface, u: real, v: real, n: int)
  ensures scomb(m, i, s.control_points@, kspu(s, u) - s.u_degree, kspv(s, v) - s.v_degree, pseq(s.u_knots.0@, kspu(s, u), s.u_degree as int, u, 0), pseq(s.v_knots.0@, kspv(s, v), s.v_degree as int, v, 0), s.v_degree + 1, n) == srow(m, i, s, u, v, n)
  decreases n
{ if n > 0 { lemma_scomb_srow(m, i, s, u, v, n - 1); } }
pub open spec fn samegrid(a: NurbsSurface, b: NurbsSurface) -> bool {
  b.u_degree == a.u_degree && b.v_degree == a.v_degree && b.u_knots == a.u_knots && b.v_knots == a.v_knots && b.control_points.len() == a.control_points.len()
    && forall|i: int| 0 <= i < a.control_points.len() ==> (#[trigger] b.control_points@[i]).len() == a.control_points@[i].len()
}
pub open spec fn mapped(m: OMatrix, a: OPoint, b: OPoint) -> bool { b.coords.c(dim() - 1) == a.coords.c(dim() - 1) && forall|c: int| 0 <= c < dim() - 1 ==> (#[trigger] b.coords.c(c)) == mrow(m, c, a, dim() as int) }
pub open spec fn mappedrow(m: OMatrix, a: Seq<OPoint>, b: Seq<OPoint>, k: int) -> bool { a.len() == b.len() && (forall|j: int| 0 <= j < k ==> mapped(m, #[trigger] a[j], b[j])) && forall|j: int| k <= j < a.len() ==> #[trigger] a[j] == b[j] }
pub proof fn lemma_surface_map(m: OMatrix, a: NurbsSurface, b: NurbsSurface, u: real, v: real)
  requires wfs(a), samegrid(a, b), forall|i: int| 0 <= i < a.control_points.len() ==> mappedrow(m, (#[trigger] a.control_points@[i])@, b.control_points@[i]@, net_nv(a))
  ensures forall|c: int| 0 <= c < dim() - 1 ==> #[trigger] srf(b, u, v, c) == srow(m, c, a, u, v, dim() as int), srf(b, u, v, dim() - 1) == srf(a, u, v, dim() - 1)
{
  lemma_span_exists(a.u_knots.0@, a.control_points.len() - 1, a.u_degree as int, u); lemma_span_exists(a.v_knots.0@, net_nv(a) - 1, a.v_degree as int, v);
  let ku = kspu(a, u); let kv = kspv(a, v); let iu = ku - a.u_degree; let iv = kv - a.v_degree;
  let bu = pseq(a.u_knots.0@, ku, a.u_degree as int, u, 0); let bv = pseq(a.v_knots.0@, kv, a.v_degree as int, v, 0);
  let na = a.control_points@; let nb = b.control_points@;
  assert(nb[0].len() == na[0].len());
  assert forall|r: int, q: int| 0 <= r < na.len() && 0 <= q < net_nv(a) implies mapped(m, #[trigger] na[r]@[q], nb[r]@[q]) by { assert(mappedrow(m, na[r]@, nb[r]@, net_nv(a))); }
  assert forall|c: int| 0 <= c < dim() - 1 implies #[trigger] srf(b, u, v, c) == srow(m, c, a, u, v, dim() as int) by {
    assert forall|r: int, q: int| iu <= r < iu + bu.len() && iv <= q < iv + bv.len() implies (#[trigger] nb[r]@[q]).coords.c(c) == mrow(m, c, na[r]@[q], dim() as int) by { assert(mapped(m, na[r]@[q], nb[r]@[q])); }
    lemma_ssum_map(m, c, na, nb, iu, iv, bu, bv, a.v_degree + 1);
    lemma_scomb_srow(m, c, a, u, v, dim() as int);
  }
  assert forall|i: int, j: int| 0 <= i < bu.len() && 0 <= j < bv.len() implies (#[trigger] nb[iu + i]@[iv + j]).coords.c(dim() - 1) == na[iu + i]@[iv + j].coords.c(dim() - 1) by { assert(mapped(m, na[iu + i]@[iv + j], nb[iu + i]@[iv + j])); }
  lemma_ssum_ext(na, nb, iu, iv, dim() - 1, bu, bv, a.v_degree + 1);
}
