// needs: cder
// A surface's tensor product: net rows are indexed by u, columns by v.
pub open spec fn rv(v: Seq<R>) -> Seq<real> { Seq::new(v.len(), |i: int| v[i]@) }
// a-th derivatives of the p+1 basis functions alive on span k
pub open spec fn pseq(s: Seq<R>, k: int, p: int, u: real, a: int) -> Seq<real> { Seq::new((p + 1) as nat, |r: int| pder(s, k, k - p + r, p, u, a)) }
pub open spec fn usum(net: Seq<Vec<OPoint>>, iu: int, jv: int, c: int, bu: Seq<real>, t: int) -> real decreases t {
  if t <= 0 { 0real } else { usum(net, iu, jv, c, bu, t - 1) + net[iu + t - 1]@[jv].coords.c(c) * bu[t - 1] }
}
pub open spec fn ssum(net: Seq<Vec<OPoint>>, iu: int, iv: int, c: int, bu: Seq<real>, bv: Seq<real>, t: int) -> real decreases t {
  if t <= 0 { 0real } else { ssum(net, iu, iv, c, bu, bv, t - 1) + usum(net, iu, iv + t - 1, c, bu, bu.len() as int) * bv[t - 1] }
}
pub open spec fn zeroseq(b: Seq<real>) -> bool { forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == 0real }
pub proof fn lemma_usum_zero(net: Seq<Vec<OPoint>>, iu: int, jv: int, c: int, bu: Seq<real>, t: int)
  requires zeroseq(bu), t <= bu.len() ensures usum(net, iu, jv, c, bu, t) == 0real decreases t
{ if t > 0 { lemma_usum_zero(net, iu, jv, c, bu, t - 1); let x = net[iu + t - 1]@[jv].coords.c(c); assert(bu[t - 1] == 0real); assert(x * 0real == 0real) by (nonlinear_arith); } }
pub proof fn lemma_ssum_zero(net: Seq<Vec<OPoint>>, iu: int, iv: int, c: int, bu: Seq<real>, bv: Seq<real>, t: int)
  requires zeroseq(bu) || zeroseq(bv), t <= bv.len() ensures ssum(net, iu, iv, c, bu, bv, t) == 0real decreases t
{
  if t > 0 {
    lemma_ssum_zero(net, iu, iv, c, bu, bv, t - 1);
    let x = usum(net, iu, iv + t - 1, c, bu, bu.len() as int); let y = bv[t - 1];
    if zeroseq(bu) { lemma_usum_zero(net, iu, iv + t - 1, c, bu, bu.len() as int); }
    assert(x * y == 0real) by (nonlinear_arith) requires x == 0real || y == 0real;
  }
}
// derivatives beyond the degree vanish
pub proof fn lemma_pseq_beyond(s: Seq<R>, k: int, p: int, u: real, a: int)
  requires good_span(s, k, p), k + p + 1 < s.len(), a > p ensures zeroseq(pseq(s, k, p, u, a))
{ assert forall|i: int| 0 <= i < p + 1 implies #[trigger] pseq(s, k, p, u, a)[i] == 0real by { lemma_pder(s, k, k - p + i, p, u, a); lemma_dbas_beyond(s, k, k - p + i, p, u, a); } }
// Rational derivatives from homogeneous ones: the (k,l)-th derivative of (weight x surface) by Leibniz's rule in two
// variables is the (k,l)-th derivative d[k][l] of the homogeneous coordinate; solved for the highest order.
pub open spec fn srd(d: Seq<Vec<OVector>>, c: int, k: int, l: int) -> real decreases k, l, 2int, 0int {
  if k < 0 || l < 0 { 0real } else { (d[k]@[l].c(c) - slow1(d, c, k, l, l) - slow2(d, c, k, l, k)) / d[0]@[0].c(dim() - 1) }
}
// terms without derivatives of the weight in u: j in 1..=t
pub open spec fn slow1(d: Seq<Vec<OVector>>, c: int, k: int, l: int, t: int) -> real decreases k, l, 1int, t {
  if t <= 0 || t > l || k < 0 { 0real } else { slow1(d, c, k, l, t - 1) + srd(d, c, k, l - t) * ((bin(l, t) as real) * d[0]@[t].c(dim() - 1)) }
}
pub open spec fn slow2(d: Seq<Vec<OVector>>, c: int, k: int, l: int, t: int) -> real decreases k, l, 1int, t {
  if t <= 0 || t > k || l < 0 { 0real } else {
    slow2(d, c, k, l, t - 1) + srd(d, c, k - t, l) * ((bin(k, t) as real) * d[t]@[0].c(dim() - 1)) + slow3(d, c, k, l, t, l) * (bin(k, t) as real)
  }
}
pub open spec fn slow3(d: Seq<Vec<OVector>>, c: int, k: int, l: int, i: int, t: int) -> real decreases k, l, 0int, t {
  if t <= 0 || t > l || i <= 0 || i > k { 0real } else { slow3(d, c, k, l, i, t - 1) + srd(d, c, k - i, l - t) * (bin(l, t) as real) * d[i]@[t].c(dim() - 1) }
}
// Leibniz's rule for weight times surface
pub proof fn lemma_leibniz2(d: Seq<Vec<OVector>>, c: int, k: int, l: int)
  requires d[0]@[0].c(dim() - 1) != 0real, k >= 0, l >= 0
  ensures srd(d, c, k, l) * d[0]@[0].c(dim() - 1) + slow1(d, c, k, l, l) + slow2(d, c, k, l, k) == d[k]@[l].c(c)
{
  let w = d[0]@[0].c(dim() - 1); let a = d[k]@[l].c(c) - slow1(d, c, k, l, l) - slow2(d, c, k, l, k);
  assert((a / w) * w == a) by (nonlinear_arith) requires w != 0real;
}
pub open spec fn rmini(a: int, b: int) -> int { if a <= b { a } else { b } }

// position of cell (a, b) in rows of width w
pub open spec fn gix(w: int, a: int, b: int) -> int { a * w + b }
pub proof fn lemma_gix(w: int, a: int, b: int, a2: int, b2: int)
  requires 0 <= b < w, 0 <= b2, 0 <= a, a < a2 || a == a2 && b < b2
  ensures 0 <= gix(w, a, b) < gix(w, a2, b2)
{ if a < a2 { assert(a * w + w <= a2 * w) by (nonlinear_arith) requires a + 1 <= a2, w >= 0; } assert(a * w >= 0) by (nonlinear_arith) requires a >= 0, w >= 0; }
pub proof fn lemma_gix_row(w: int, a: int) ensures gix(w, a + 1, 0) == gix(w, a, w), gix(w, 0, 0) == 0
{ assert((a + 1) * w + 0 == a * w + w) by (nonlinear_arith); }
// sums in reverse order
pub proof fn lemma_usum_rev(a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, ia: int, ja: int, ib: int, jb: int, c: int, wa: Seq<real>, wb: Seq<real>, t: int)
  requires wa.len() == wb.len(), 0 <= t <= wa.len(), forall|i: int| 0 <= i < wa.len() ==> #[trigger] wb[i] == wa[wa.len() - 1 - i],
    forall|i: int| 0 <= i < wa.len() ==> (#[trigger] b[ib + i]@[jb]).coords.c(c) == a[ia + wa.len() - 1 - i]@[ja].coords.c(c),
  ensures usum(b, ib, jb, c, wb, t) == usum(a, ia, ja, c, wa, wa.len() as int) - usum(a, ia, ja, c, wa, wa.len() - t)
  decreases t
{
  if t > 0 {
    lemma_usum_rev(a, b, ia, ja, ib, jb, c, wa, wb, t - 1);
    let i = t - 1; let q = wa.len() - i;
    assert(wb[i] == wa[q - 1]);
    assert(b[ib + i]@[jb].coords.c(c) == a[ia + q - 1]@[ja].coords.c(c));
    assert(usum(a, ia, ja, c, wa, q) == usum(a, ia, ja, c, wa, q - 1) + a[ia + q - 1]@[ja].coords.c(c) * wa[q - 1]);
    assert(ib + t - 1 == ib + i);
  }
}
pub proof fn lemma_usum_ext(a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, ia: int, ja: int, ib: int, jb: int, c: int, w: Seq<real>, t: int)
  requires 0 <= t <= w.len(), forall|i: int| 0 <= i < w.len() ==> (#[trigger] b[ib + i]@[jb]).coords.c(c) == a[ia + i]@[ja].coords.c(c),
  ensures usum(b, ib, jb, c, w, t) == usum(a, ia, ja, c, w, t)
  decreases t
{ if t > 0 { lemma_usum_ext(a, b, ia, ja, ib, jb, c, w, t - 1); assert(b[ib + (t - 1)]@[jb].coords.c(c) == a[ia + (t - 1)]@[ja].coords.c(c)); } }
// rows reversed
pub proof fn lemma_ssum_rev_u(a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, ia: int, ib: int, iv: int, c: int, wa: Seq<real>, wb: Seq<real>, bv: Seq<real>, t: int)
  requires wa.len() == wb.len(), 0 <= t <= bv.len(), forall|i: int| 0 <= i < wa.len() ==> #[trigger] wb[i] == wa[wa.len() - 1 - i],
    forall|i: int, j: int| 0 <= i < wa.len() && 0 <= j < bv.len() ==> (#[trigger] b[ib + i]@[iv + j]).coords.c(c) == a[ia + wa.len() - 1 - i]@[iv + j].coords.c(c),
  ensures ssum(b, ib, iv, c, wb, bv, t) == ssum(a, ia, iv, c, wa, bv, t)
  decreases t
{
  if t > 0 {
    lemma_ssum_rev_u(a, b, ia, ib, iv, c, wa, wb, bv, t - 1);
    let j = iv + (t - 1);
    assert(iv + t - 1 == j);
    lemma_usum_rev(a, b, ia, j, ib, j, c, wa, wb, wa.len() as int);
  }
}
// columns reversed
pub proof fn lemma_ssum_rev_v(a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, iu: int, ia: int, ib: int, c: int, bu: Seq<real>, wa: Seq<real>, wb: Seq<real>, t: int)
  requires wa.len() == wb.len(), 0 <= t <= wa.len(), forall|i: int| 0 <= i < wa.len() ==> #[trigger] wb[i] == wa[wa.len() - 1 - i],
    forall|i: int, j: int| 0 <= i < bu.len() && 0 <= j < wa.len() ==> (#[trigger] b[iu + i]@[ib + j]).coords.c(c) == a[iu + i]@[ia + wa.len() - 1 - j].coords.c(c),
  ensures ssum(b, iu, ib, c, bu, wb, t) == ssum(a, iu, ia, c, bu, wa, wa.len() as int) - ssum(a, iu, ia, c, bu, wa, wa.len() - t)
  decreases t
{
  if t > 0 {
    lemma_ssum_rev_v(a, b, iu, ia, ib, c, bu, wa, wb, t - 1);
    let j = t - 1; let q = wa.len() - j;
    assert(wb[j] == wa[q - 1]);
    assert forall|i: int| 0 <= i < bu.len() implies (#[trigger] b[iu + i]@[ib + j]).coords.c(c) == a[iu + i]@[ia + q - 1].coords.c(c) by { assert(b[iu + i]@[ib + j].coords.c(c) == a[iu + i]@[ia + wa.len() - 1 - j].coords.c(c)); }
    lemma_usum_ext(a, b, iu, ia + q - 1, iu, ib + j, c, bu, bu.len() as int);
    assert(ssum(a, iu, ia, c, bu, wa, q) == ssum(a, iu, ia, c, bu, wa, q - 1) + usum(a, iu, ia + q - 1, c, bu, bu.len() as int) * wa[q - 1]);
    assert(ib + t - 1 == ib + j);
  }
}
// net entries agree
pub proof fn lemma_ssum_ext(a: Seq<Vec<OPoint>>, b: Seq<Vec<OPoint>>, iu: int, iv: int, c: int, bu: Seq<real>, bv: Seq<real>, t: int)
  requires 0 <= t <= bv.len(),
    forall|i: int, j: int| 0 <= i < bu.len() && 0 <= j < bv.len() ==> (#[trigger] b[iu + i]@[iv + j]).coords.c(c) == a[iu + i]@[iv + j].coords.c(c),
  ensures ssum(b, iu, iv, c, bu, bv, t) == ssum(a, iu, iv, c, bu, bv, t)
  decreases t
{ if t > 0 { lemma_ssum_ext(a, b, iu, iv, c, bu, bv, t - 1); let j = t - 1; assert(iv + t - 1 == iv + j); lemma_usum_ext(a, b, iu, iv + j, iu, iv + j, c, bu, bu.len() as int); } }
