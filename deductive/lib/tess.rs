// needs: srf
// Sorted parameter lists, fans of triangles.
pub open spec fn inl(s: Seq<R>, x: real) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x }
pub open spec fn sinc(s: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i])@ < (#[trigger] s[j])@ }
pub open spec fn sasc(s: Seq<R>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i])@ <= (#[trigger] s[j])@ }
// slice::sort_by with the ascending order
#[verifier::external_body]
pub fn vec_sorted(v: Vec<R>) -> (r: Vec<R>) ensures r@.to_multiset() == v@.to_multiset(), r@.len() == v@.len(), sasc(r@) { unimplemented!() }
// Itertools::dedup: the first of each run of equal elements
pub open spec fn dd(s: Seq<R>) -> Seq<R> decreases s.len() {
  if s.len() <= 1 { s } else if s.last()@ == s[s.len() - 2]@ { dd(s.drop_last()) } else { dd(s.drop_last()).push(s.last()) }
}
#[verifier::external_body]
pub fn vec_dedup(v: Vec<R>) -> (r: Vec<R>) ensures r@ == dd(v@) { unimplemented!() }
pub proof fn lemma_dd(s: Seq<R>)
  requires sasc(s), ensures sinc(dd(s)), forall|x: real| #[trigger] inl(dd(s), x) == inl(s, x), dd(s).len() <= s.len(), s.len() > 0 ==> dd(s).len() > 0 && dd(s).last()@ == s.last()@
  decreases s.len()
{
  if s.len() > 1 {
    let d = s.drop_last();
    assert(d.last() == s[s.len() - 2]);
    lemma_dd(d);
    let r = dd(s); let q = dd(d);
    if s.last()@ == s[s.len() - 2]@ {
      assert forall|x: real| #[trigger] inl(r, x) == inl(s, x) by {
        assert(inl(q, x) == inl(d, x));
        if inl(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x; if i == s.len() - 1 { assert(d[s.len() - 2]@ == x); } else { assert(d[i]@ == x); } }
        if inl(d, x) { let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i])@ == x; assert(s[i]@ == x); }
      }
    } else {
      assert(s[s.len() - 2]@ <= s[s.len() - 1]@);
      assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i])@ < (#[trigger] r[j])@ by {
        if j < q.len() { assert(q[i]@ < q[j]@); }
        else if i < q.len() - 1 { assert(q[i]@ < q[q.len() - 1]@); }
      }
      assert forall|x: real| #[trigger] inl(r, x) == inl(s, x) by {
        assert(inl(q, x) == inl(d, x));
        if inl(s, x) {
          let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x;
          if i == s.len() - 1 { assert(r[r.len() - 1]@ == x); }
          else { assert(d[i]@ == x); let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k])@ == x; assert(r[k]@ == x); }
        }
        if inl(r, x) {
          let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == x;
          if i == r.len() - 1 { assert(s[s.len() - 1]@ == x); }
          else { assert(q[i]@ == x); let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k])@ == x; assert(s[k]@ == x); }
        }
      }
    }
  } else { assert(dd(s) == s); }
}
pub proof fn lemma_inl_perm(a: Seq<R>, b: Seq<R>)
  requires a.to_multiset() == b.to_multiset(), ensures forall|x: real| #[trigger] inl(a, x) == inl(b, x)
{
  a.to_multiset_ensures(); b.to_multiset_ensures();
  assert forall|x: real| #[trigger] inl(a, x) == inl(b, x) by {
    if inl(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == x; assert(a.contains(a[i])); assert(a.to_multiset().contains(a[i])); assert(b.to_multiset().contains(a[i])); assert(b.contains(a[i])); let k = choose|k: int| 0 <= k < b.len() && b[k] == a[i]; assert(b[k]@ == x); }
    if inl(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == x; assert(b.contains(b[i])); assert(b.to_multiset().contains(b[i])); assert(a.to_multiset().contains(b[i])); assert(a.contains(b[i])); let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; assert(a[k]@ == x); }
  }
}
pub proof fn lemma_inl_cat(a: Seq<R>, b: Seq<R>) ensures forall|x: real| #[trigger] inl(a + b, x) == (inl(a, x) || inl(b, x))
{
  let s = a + b;
  assert forall|x: real| #[trigger] inl(s, x) == (inl(a, x) || inl(b, x)) by {
    if inl(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x; if i < a.len() { assert(a[i]@ == x); } else { assert(b[i - a.len()]@ == x); } }
    if inl(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == x; assert(s[i]@ == x); }
    if inl(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == x; assert(s[i + a.len()]@ == x); }
  }
}
// squared distance
pub open spec fn dsqn(a: OPoint, b: OPoint, n: int) -> real decreases n { if n <= 0 { 0real } else { dsqn(a, b, n - 1) + (a.coords.c(n - 1) - b.coords.c(n - 1)) * (a.coords.c(n - 1) - b.coords.c(n - 1)) } }
pub open spec fn dsq(a: OPoint, b: OPoint) -> real { dsqn(a, b, dim() as int) }
pub proof fn lemma_dsqn(a: OPoint, b: OPoint, d: OVector, n: int)
  requires forall|i: int| #[trigger] d.c(i) == a.coords.c(i) - b.coords.c(i), ensures vdotn(d, d, n) == dsqn(a, b, n) decreases n { if n > 0 { lemma_dsqn(a, b, d, n - 1); } }
pub proof fn lemma_dsq_zero(a: OPoint, b: OPoint, n: int)
  ensures dsqn(a, b, n) >= 0real, dsqn(a, b, n) <= 0real ==> forall|i: int| 0 <= i < n ==> #[trigger] a.coords.c(i) == b.coords.c(i) decreases n
{
  if n > 0 {
    lemma_dsq_zero(a, b, n - 1);
    let x = a.coords.c(n - 1) - b.coords.c(n - 1);
    assert(x * x >= 0real) by (nonlinear_arith); assert(x * x == 0real ==> x == 0real) by (nonlinear_arith);
  }
}
pub proof fn lemma_dsq_same(a: OPoint, b: OPoint, n: int) requires forall|i: int| 0 <= i < n ==> #[trigger] a.coords.c(i) == b.coords.c(i), ensures dsqn(a, b, n) == 0real decreases n
{ if n > 0 { lemma_dsq_same(a, b, n - 1); let x = a.coords.c(n - 1) - b.coords.c(n - 1); assert(x == 0real && x * x == 0real) by (nonlinear_arith) requires x == 0real; } }
// twice the signed area of a triangle in the parameter plane
pub open spec fn uvarea(a: OVector, b: OVector, c: OVector) -> real { (b.c(0) - a.c(0)) * (c.c(1) - a.c(1)) - (b.c(1) - a.c(1)) * (c.c(0) - a.c(0)) }
pub proof fn lemma_area_flat(a: OVector, b: OVector, c: OVector)
  ensures b.c(1) == a.c(1) ==> uvarea(a, b, c) == (b.c(0) - a.c(0)) * (c.c(1) - a.c(1)),
    b.c(0) == a.c(0) ==> uvarea(a, b, c) == (b.c(1) - a.c(1)) * (a.c(0) - c.c(0)),
    c.c(1) == a.c(1) ==> uvarea(a, b, c) == (b.c(1) - a.c(1)) * (a.c(0) - c.c(0)),
    c.c(0) == a.c(0) ==> uvarea(a, b, c) == (b.c(0) - a.c(0)) * (c.c(1) - a.c(1)),
    b.c(1) == c.c(1) ==> uvarea(a, b, c) == (b.c(1) - a.c(1)) * (b.c(0) - c.c(0)),
    b.c(0) == c.c(0) ==> uvarea(a, b, c) == (b.c(0) - a.c(0)) * (c.c(1) - b.c(1)),
{
  let (p, q, r, t) = (b.c(0) - a.c(0), c.c(1) - a.c(1), b.c(1) - a.c(1), c.c(0) - a.c(0));
  lemma_area4(p, q, r, t);
  assert(a.c(0) - c.c(0) == 0real - t && b.c(0) - c.c(0) == p - t && c.c(1) - b.c(1) == q - r);
}
proof fn lemma_area4(p: real, q: real, r: real, t: real)
  ensures r == 0real ==> p * q - r * t == p * q, p == 0real ==> p * q - r * t == r * (0real - t), q == 0real ==> p * q - r * t == r * (0real - t), t == 0real ==> p * q - r * t == p * q,
    r == q ==> p * q - r * t == r * (p - t), p == t ==> p * q - r * t == p * (q - r)
{
  if r == 0real { assert(r * t == 0real) by (nonlinear_arith) requires r == 0real; }
  if t == 0real { assert(r * t == 0real) by (nonlinear_arith) requires t == 0real; }
  if p == 0real { assert(p * q == 0real) by (nonlinear_arith) requires p == 0real; }
  if q == 0real { assert(p * q == 0real) by (nonlinear_arith) requires q == 0real; }
  assert(r * (0real - t) == 0real - r * t) by (nonlinear_arith);
  assert(r * (p - t) == r * p - r * t) by (nonlinear_arith); assert(p * r == r * p) by (nonlinear_arith);
  assert(p * (q - r) == p * q - p * r) by (nonlinear_arith);
  if p == t { assert(r * t == p * r) by (nonlinear_arith) requires p == t; }
}
pub proof fn lemma_pp(a: real, b: real) ensures a > 0real && b > 0real ==> a * b > 0real, a < 0real && b < 0real ==> a * b > 0real
{ if a > 0real && b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; } if a < 0real && b < 0real { assert(a * b > 0real) by (nonlinear_arith) requires a < 0real, b < 0real; } }
