// needs: boehm
// Refinement from the right: V/C is the curve so far, held partly in the old arrays (up to span i) and partly in the new ones (shifted by the d insertions to come).
pub open spec fn refst(s: Seq<R>, cp: Seq<OPoint>, kp: Seq<R>, cpp: Seq<OPoint>, v: Seq<R>, c: Seq<OPoint>, p: int, a: int, i: int, d: int) -> bool {
  &&& p <= a <= i && v.len() + d == kp.len() && c.len() + d == cpp.len() && d >= 0 && i < v.len() && i < s.len() && i - p <= cp.len() && i - p <= c.len()
  &&& forall|q: int| 0 <= q <= i ==> (#[trigger] v[q]) == s[q]
  &&& forall|q: int| i < q < v.len() ==> (#[trigger] v[q]) == kp[q + d]
  &&& forall|q: int| 0 <= q < i - p ==> (#[trigger] c[q]) == cp[q]
  &&& forall|q: int| i - p <= q < c.len() ==> (#[trigger] c[q]) == cpp[q + d]
  &&& forall|q: int| 0 <= q < a - p ==> (#[trigger] cpp[q]) == cp[q]
  &&& forall|q: int| 0 <= q <= a ==> (#[trigger] kp[q]) == s[q]
}
pub proof fn lemma_ref_move(s: Seq<R>, cp: Seq<OPoint>, kp: Seq<R>, cpp: Seq<OPoint>, v: Seq<R>, c: Seq<OPoint>, p: int, a: int, i: int, d: int, kp2: Seq<R>, cpp2: Seq<OPoint>)
  requires refst(s, cp, kp, cpp, v, c, p, a, i, d), a < i, 0 <= p, kp2 == kp.update(i + d, s[i]), cpp2 == cpp.update(i + d - p - 1, cp[i - p - 1])
  ensures refst(s, cp, kp2, cpp2, v, c, p, a, i - 1, d)
{ }
// the new control points as the inner loop leaves them
pub open spec fn refrow(cpp: Seq<OPoint>, cpp2: Seq<OPoint>, v: Seq<R>, c: Seq<OPoint>, x: real, p: int, i: int, d: int, l: int) -> bool {
  let b = i + d - p - 1;
  &&& cpp2.len() == cpp.len()
  &&& cpp2[b] == cpp[b + 1]
  &&& forall|q: int| 0 <= q < b || b + l <= q < cpp.len() ==> (#[trigger] cpp2[q]) == cpp[q]
  &&& forall|j: int, e: int| i - p < j < i - p + l ==> (#[trigger] cpp2[j + d - 1].coords.c(e)) == insco(c, v, i, x, p, j, e)
}
pub proof fn lemma_ref_insert(s: Seq<R>, cp: Seq<OPoint>, kp: Seq<R>, cpp: Seq<OPoint>, v: Seq<R>, c: Seq<OPoint>, p: int, a: int, i: int, d: int, kp2: Seq<R>, cpp2: Seq<OPoint>, x: R) -> (c2: Seq<OPoint>)
  requires refst(s, cp, kp, cpp, v, c, p, a, i, d), d >= 1, 0 <= p, insat(v, i, x), i < c.len(), kp2 == kp.update(i + d, x), refrow(cpp, cpp2, v, c, x@, p, i, d, p + 1)
  ensures refst(s, cp, kp2, cpp2, v.insert(i + 1, x), c2, p, a, i, d - 1), inserted(c, v, c2, v.insert(i + 1, x), x, p)
{
  hide(sorted); hide(insco);
  let c2 = Seq::new((c.len() + 1) as nat, |q: int| if q < i - p { cp[q] } else { cpp2[q + d - 1] });
  let v2 = v.insert(i + 1, x);
  v.insert_ensures(i + 1, x);
  assert(refst(s, cp, kp2, cpp2, v2, c2, p, a, i, d - 1)) by {
    assert forall|q: int| i < q < v2.len() implies (#[trigger] v2[q]) == kp2[q + d - 1] by { if q > i + 1 { assert(v2[q] == v[q - 1]); } }
    assert forall|q: int| 0 <= q <= i implies (#[trigger] v2[q]) == s[q] by { assert(v2[q] == v[q]); }
  }
  assert forall|j: int, e: int| 0 <= j < c2.len() && usedcp(i, c.len() as int, p, j) implies (#[trigger] c2[j].coords.c(e)) == insco(c, v, i, x@, p, j, e) by {
    lemma_insco(c, v, i, x@, p, j, e);
    let b = i + d - p - 1;
    if j < i - p { assert(c2[j] == c[j]); lemma_le(v, j + p, i); }
    else if j == i - p { assert(c2[j] == cpp2[b]); assert(c[j] == cpp[j + d]); }
    else if j <= i { assert(c2[j] == cpp2[j + d - 1]); assert(cpp2[j + d - 1].coords.c(e) == insco(c, v, i, x@, p, j, e)); }
    else { assert(c2[j] == cpp2[j + d - 1]); assert(cpp2[j + d - 1] == cpp[j + d - 1]); assert(c[j - 1] == cpp[j - 1 + d]); }
  }
  assert(insnet(c, v, c2, i, x, p));
  assert(v2 == v.insert(i + 1, x));
  c2
}
// one control point of the row: w (x - ...) as the code blends them
pub proof fn lemma_ref_blend(x: real, lo: real, hi: real, w: real, y: real, z: real)
  requires lo < hi, w * (hi - lo) == hi - x
  ensures y * (1real - (1real - w)) + z * (1real - w) == fr(x - lo, hi - lo) * z + (1real - fr(x - lo, hi - lo)) * y
{
  let g = hi - lo; let f = fr(x - lo, g);
  lemma_fr_mulb(x - lo, g);
  let e = 1real - w;
  assert((1real - w) * g == g - w * g) by (nonlinear_arith);
  lemma_cancel(e, f, g);
  assert(z * e == e * z) by (nonlinear_arith);
  let h = 1real - e;
  assert(y * h == h * y) by (nonlinear_arith);
}
// values are the same or told apart by the tolerance
pub open spec fn sepd(a: real, b: real) -> bool { a == b || a - b >= eps() || b - a >= eps() }
// knots that can be inserted: in order, inside the domain, told apart from the knots and from each other
pub open spec fn insertable(xs: Seq<R>, s: Seq<R>, p: int, n1: int) -> bool {
  &&& sorted(xs)
  &&& forall|j: int| 0 <= j < xs.len() ==> s[p]@ <= (#[trigger] xs[j])@ <= s[n1]@
  &&& forall|j: int, q: int| 0 <= j < xs.len() && 0 <= q < s.len() ==> sepd((#[trigger] s[q])@, (#[trigger] xs[j])@)
  &&& forall|j: int, q: int| 0 <= j < xs.len() && 0 <= q < xs.len() ==> sepd((#[trigger] xs[q])@, (#[trigger] xs[j])@)
}
// what is left to insert, against the knots so far
pub open spec fn septail(xs: Seq<R>, v: Seq<R>, d: int) -> bool { forall|j: int, q: int| 0 <= j < d && 0 <= q < v.len() ==> sepd((#[trigger] v[q])@, (#[trigger] xs[j])@) }
pub proof fn lemma_septail(xs: Seq<R>, v: Seq<R>, d: int, i: int, s: Seq<R>, p: int, n1: int)
  requires septail(xs, v, d), 1 <= d <= xs.len(), insertable(xs, s, p, n1), 0 <= i < v.len()
  ensures septail(xs, v.insert(i + 1, xs[d - 1]), d - 1)
{
  let x = xs[d - 1]; let v2 = v.insert(i + 1, x);
  v.insert_ensures(i + 1, x);
  assert forall|j: int, q: int| 0 <= j < d - 1 && 0 <= q < v2.len() implies sepd((#[trigger] v2[q])@, (#[trigger] xs[j])@) by {
    if q <= i { assert(v2[q] == v[q]); } else if q > i + 1 { assert(v2[q] == v[q - 1]); }
  }
}
pub proof fn lemma_ms_step(s: Seq<R>, xs: Seq<R>, v: Seq<R>, v2: Seq<R>, d: int)
  requires 1 <= d <= xs.len(), v.to_multiset() =~= s.to_multiset().add(xs.subrange(d, xs.len() as int).to_multiset()), v2.to_multiset() =~= v.to_multiset().insert(xs[d - 1])
  ensures v2.to_multiset() =~= s.to_multiset().add(xs.subrange(d - 1, xs.len() as int).to_multiset())
{
  let t = xs.subrange(d, xs.len() as int);
  assert(xs.subrange(d - 1, xs.len() as int) =~= t.insert(0, xs[d - 1]));
  vstd::seq_lib::to_multiset_insert(t, 0, xs[d - 1]);
}
pub proof fn lemma_ref_init(s: Seq<R>, cp: Seq<OPoint>, xs: Seq<R>, p: int)
  requires wfk(s, cp.len() - 1, p), insertable(xs, s, p, cp.len() as int)
  ensures sorted(s), sorted(xs), clstate(cp, s, cp, s, p, s[p]@, s[cp.len() as int]@), septail(xs, s, xs.len() as int),
    s.to_multiset() =~= s.to_multiset().add(xs.subrange(xs.len() as int, xs.len() as int).to_multiset()), spans(s, cp.len() - 1, p)
{
  lemma_clinit(cp, s, p);
  assert(xs.subrange(xs.len() as int, xs.len() as int) =~= Seq::<R>::empty());
  Seq::<R>::empty().to_multiset_ensures(); assert(Seq::<R>::empty().to_multiset().len() == 0);
}
pub proof fn lemma_ref_span(s: Seq<R>, xs: Seq<R>, p: int, n1: int, a: int, b: int)
  requires wfk(s, n1 - 1, p), insertable(xs, s, p, n1), 0 < xs.len(), in_span(s, n1 - 1, p, xs[0]@, a), in_span(s, n1 - 1, p, xs[xs.len() - 1]@, b)
  ensures s[a]@ <= xs[0]@ <= s[a + 1]@, xs[xs.len() - 1]@ <= s[b + 1]@, p <= a <= b < n1
{
  let l = xs.len() - 1;
  lemma_span_contains(s, n1 - 1, p, xs[0]@, a); lemma_span_contains(s, n1 - 1, p, xs[l]@, b);
  lemma_le(xs, 0, l);
  if a > b { lemma_le(s, b + 1, a); lemma_span_unique(s, n1 - 1, p, xs[0]@, a, b); }
}
// where the search for the place of x = xs[j] stopped
pub proof fn lemma_ref_here(s: Seq<R>, xs: Seq<R>, v: Seq<R>, p: int, n1: int, a: int, i: int, j: int)
  requires sorted(s), sorted(v), insertable(xs, s, p, n1), 0 <= j < xs.len(), 0 <= p <= a <= i < v.len(), a < n1 < s.len(), i < s.len(), v[i] == s[i],
    s[a]@ <= xs[0]@ <= s[a + 1]@, !(xs[j]@ <= s[i]@ && i > a), i + 1 < v.len() ==> xs[j]@ <= v[i + 1]@
  ensures insat(v, i, xs[j]), i < n1, j == 0 ==> i == a
{
  lemma_le(xs, 0, j);
  if i >= n1 { lemma_le(s, n1, i); }
  if j == 0 && i > a { lemma_le(s, a + 1, i); }
}
pub proof fn lemma_ref_row(s: Seq<R>, cp: Seq<OPoint>, kp: Seq<R>, cpp: Seq<OPoint>, v: Seq<R>, c: Seq<OPoint>, p: int, a: int, i: int, j: int, cpp1: Seq<OPoint>, cpp2: Seq<OPoint>, x: R, xs: Seq<R>, l: int)
  requires refst(s, cp, kp, cpp, v, c, p, a, i, j + 1), septail(xs, v, j + 1), insat(v, i, x), 0 <= j < xs.len(), x == xs[j], i + p < v.len(), i < c.len(), 1 <= l <= p, 0 <= p,
    refrow(cpp, cpp1, v, c, x@, p, i, j + 1, l), cpp2.len() == cpp1.len(),
    forall|q: int| 0 <= q < cpp1.len() && q != i + j + l - p ==> (#[trigger] cpp2[q]) == cpp1[q],
    refval(cpp1, cpp2[i + j + l - p], i + j + l - p, kp[i + j + 1 + l]@, s[i - p + l]@, x@)
  ensures refrow(cpp, cpp2, v, c, x@, p, i, j + 1, l + 1)
{
  hide(sorted); hide(insco);
  let b = i + j - p; let q0 = b + l; let jj = i - p + l;
  assert(v[i + l] == kp[i + l + (j + 1)]); assert(v[jj] == s[jj]);
  assert(c[jj] == cpp[jj + (j + 1)]); assert(c[jj - 1] == cpp[jj - 1 + (j + 1)]);
  assert(cpp1[q0 + 1] == cpp[q0 + 1] && cpp1[q0] == cpp[q0]);
  assert(sepd(v[i + l]@, xs[j]@));
  lemma_le(v, i + 1, i + l); lemma_le(v, jj, i);
  assert forall|e: int| (#[trigger] cpp2[q0].coords.c(e)) == insco(c, v, i, x@, p, jj, e) by {
    lemma_insco(c, v, i, x@, p, jj, e);
    let hi = v[jj + p]@; let lo = v[jj]@;
    if hi <= x@ { assert(cpp2[q0].coords.c(e) == cpp1[q0 + 1].coords.c(e)); }
    else {
      let w = choose|w: real| w * (hi - lo) == hi - x@ && #[trigger] isblend(cpp2[q0], cpp1[q0], cpp1[q0 + 1], w);
      lemma_ref_blend(x@, lo, hi, w, c[jj - 1].coords.c(e), c[jj].coords.c(e));
      assert(insco(c, v, i, x@, p, jj, e) == ia(v, i, x@, jj, p) * c[jj].coords.c(e) + (1real - ia(v, i, x@, jj, p)) * c[jj - 1].coords.c(e)) by { reveal(insco); }
    }
  }
  assert forall|q: int, e: int| i - p < q < i - p + l + 1 implies (#[trigger] cpp2[q + (j + 1) - 1].coords.c(e)) == insco(c, v, i, x@, p, q, e) by {
    if q == jj { assert(cpp2[q0].coords.c(e) == insco(c, v, i, x@, p, jj, e)); } else { assert(cpp2[q + j] == cpp1[q + j]); assert(cpp1[q + (j + 1) - 1].coords.c(e) == insco(c, v, i, x@, p, q, e)); }
  }
}
// what the code leaves at q: a copy of the next one where hi = x, the blend otherwise
pub open spec fn refval(cpp: Seq<OPoint>, y: OPoint, q: int, hi: real, lo: real, x: real) -> bool {
  if hi == x { forall|e: int| (#[trigger] y.coords.c(e)) == cpp[q + 1].coords.c(e) }
  else if hi - x >= eps() && hi > x { exists|w: real| w * (hi - lo) == hi - x && #[trigger] isblend(y, cpp[q], cpp[q + 1], w) }
  else { true }
}
pub open spec fn isblend(y: OPoint, a: OPoint, b: OPoint, w: real) -> bool { forall|e: int| (#[trigger] y.coords.c(e)) == a.coords.c(e) * (1real - (1real - w)) + b.coords.c(e) * (1real - w) }
pub proof fn lemma_ref_order(s: Seq<R>, cp: Seq<OPoint>, kp: Seq<R>, cpp: Seq<OPoint>, v: Seq<R>, c: Seq<OPoint>, p: int, a: int, i: int, j: int, x: R, xs: Seq<R>, l: int)
  requires refst(s, cp, kp, cpp, v, c, p, a, i, j + 1), septail(xs, v, j + 1), insat(v, i, x), 0 <= j < xs.len(), x == xs[j], i + p < v.len(), 1 <= l <= p, 0 <= p
  ensures kp[i + j + 1 + l]@ == x@ || (kp[i + j + 1 + l]@ > x@ && kp[i + j + 1 + l]@ - x@ >= eps()), s[i - p + l]@ <= x@
{
  hide(sorted);
  assert(v[i + l] == kp[i + l + (j + 1)]); assert(v[i - p + l] == s[i - p + l]);
  assert(sepd(v[i + l]@, xs[j]@));
  lemma_le(v, i + 1, i + l); lemma_le(v, i - p + l, i);
}
