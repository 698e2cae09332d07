// needs: srf
// The tensor-product sum column by column and row by row.
pub open spec fn ucol(net: Seq<Vec<OPoint>>, j: int) -> Seq<OPoint> { Seq::new(net.len(), |i: int| net[i]@[j]) }
pub proof fn lemma_zero_prod(a: real, b: real) ensures a * 0real == 0real, 0real * a == 0real, b * 0real == 0real, 0real * b == 0real { assert(a * 0real == 0real && 0real * a == 0real && b * 0real == 0real && 0real * b == 0real) by (nonlinear_arith); }
pub proof fn lemma_usum_csum(net: Seq<Vec<OPoint>>, s: Seq<R>, k: int, p: int, u: real, j: int, c: int, t: int)
  requires 0 <= t <= p + 1, p <= k < net.len()
  ensures usum(net, k - p, j, c, pseq(s, k, p, u, 0), t) == csum(ucol(net, j), s, k, p, u, c, t)
  decreases t
{ if t > 0 { lemma_usum_csum(net, s, k, p, u, j, c, t - 1); assert(ucol(net, j)[k - p + t - 1] == net[k - p + t - 1]@[j]); assert(pseq(s, k, p, u, 0)[t - 1] == bas(s, k, k - p + (t - 1), p, u)); } }
pub proof fn lemma_ssum_cols(a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, ia: int, ib: int, iv: int, c: int, wa: Seq<real>, wb: Seq<real>, bv: Seq<real>, t: int)
  requires 0 <= t <= bv.len(), forall|j: int| iv <= j < iv + bv.len() ==> #[trigger] usum(a, ia, j, c, wa, wa.len() as int) == usum(b, ib, j, c, wb, wb.len() as int)
  ensures ssum(a, ia, iv, c, wa, bv, t) == ssum(b, ib, iv, c, wb, bv, t)
  decreases t
{ if t > 0 { lemma_ssum_cols(a, b, ia, ib, iv, c, wa, wb, bv, t - 1); assert(usum(a, ia, iv + t - 1, c, wa, wa.len() as int) == usum(b, ib, iv + t - 1, c, wb, wb.len() as int)); } }
// the double sum, rows first
pub open spec fn lsum(row: Seq<OPoint>, iv: int, c: int, bv: Seq<real>, t: int) -> real decreases t {
  if t <= 0 { 0real } else { lsum(row, iv, c, bv, t - 1) + row[iv + t - 1].coords.c(c) * bv[t - 1] }
}
pub open spec fn rsum(net: Seq<Vec<OPoint>>, iu: int, iv: int, c: int, bu: Seq<real>, bv: Seq<real>, t: int, m: int) -> real decreases m {
  if m <= 0 { 0real } else { rsum(net, iu, iv, c, bu, bv, t, m - 1) + lsum(net[iu + m - 1]@, iv, c, bv, t) * bu[m - 1] }
}
pub proof fn lemma_lsum_csum(row: Seq<OPoint>, s: Seq<R>, k: int, p: int, u: real, c: int, t: int)
  requires 0 <= t <= p + 1
  ensures lsum(row, k - p, c, pseq(s, k, p, u, 0), t) == csum(row, s, k, p, u, c, t)
  decreases t
{ if t > 0 { lemma_lsum_csum(row, s, k, p, u, c, t - 1); assert(pseq(s, k, p, u, 0)[t - 1] == bas(s, k, k - p + (t - 1), p, u)); } }
pub proof fn lemma_swap_cell(r: real, us: real, v: real, x: real, a: real, b: real)
  ensures (r + us * b) + (v + x * b) * a == (r + v * a) + (us + x * a) * b
{ assert((v + x * b) * a == v * a + x * b * a) by (nonlinear_arith); assert((us + x * a) * b == us * b + x * a * b) by (nonlinear_arith); assert(x * b * a == x * a * b) by (nonlinear_arith); }
pub proof fn lemma_rsum_step(net: Seq<Vec<OPoint>>, iu: int, iv: int, c: int, bu: Seq<real>, bv: Seq<real>, t: int, m: int)
  requires t > 0, m >= 0
  ensures rsum(net, iu, iv, c, bu, bv, t, m) == rsum(net, iu, iv, c, bu, bv, t - 1, m) + usum(net, iu, iv + t - 1, c, bu, m) * bv[t - 1]
  decreases m
{
  if m > 0 {
    lemma_rsum_step(net, iu, iv, c, bu, bv, t, m - 1);
    let row = net[iu + m - 1]@;
    lemma_swap_cell(rsum(net, iu, iv, c, bu, bv, t - 1, m - 1), usum(net, iu, iv + t - 1, c, bu, m - 1), lsum(row, iv, c, bv, t - 1), row[iv + t - 1].coords.c(c), bu[m - 1], bv[t - 1]);
  } else { lemma_zero_prod(bv[t - 1], 0real); }
}
pub proof fn lemma_rsum_none(net: Seq<Vec<OPoint>>, iu: int, iv: int, c: int, bu: Seq<real>, bv: Seq<real>, m: int)
  ensures rsum(net, iu, iv, c, bu, bv, 0, m) == 0real decreases m
{ if m > 0 { lemma_rsum_none(net, iu, iv, c, bu, bv, m - 1); lemma_zero_prod(bu[m - 1], 0real); } }
pub proof fn lemma_ssum_rows(net: Seq<Vec<OPoint>>, iu: int, iv: int, c: int, bu: Seq<real>, bv: Seq<real>, t: int)
  requires t >= 0
  ensures ssum(net, iu, iv, c, bu, bv, t) == rsum(net, iu, iv, c, bu, bv, t, bu.len() as int)
  decreases t
{ if t > 0 { lemma_ssum_rows(net, iu, iv, c, bu, bv, t - 1); lemma_rsum_step(net, iu, iv, c, bu, bv, t, bu.len() as int); } else { lemma_rsum_none(net, iu, iv, c, bu, bv, bu.len() as int); } }
pub proof fn lemma_rsum_ext(a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, iu: int, ja: int, jb: int, c: int, bu: Seq<real>, wa: Seq<real>, wb: Seq<real>, m: int)
  requires forall|i: int| iu <= i < iu + m ==> lsum((#[trigger] a[i])@, ja, c, wa, wa.len() as int) == lsum(b[i]@, jb, c, wb, wb.len() as int)
  ensures rsum(a, iu, ja, c, bu, wa, wa.len() as int, m) == rsum(b, iu, jb, c, bu, wb, wb.len() as int, m)
  decreases m
{ if m > 0 { lemma_rsum_ext(a, b, iu, ja, jb, c, bu, wa, wb, m - 1); let i = iu + m - 1; assert(lsum(a[i]@, ja, c, wa, wa.len() as int) == lsum(b[i]@, jb, c, wb, wb.len() as int)); } }
