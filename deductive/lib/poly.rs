// needs: crv
// length of the polyline up to point i
pub open spec fn chord(pts: Seq<OPoint>, i: int) -> real decreases i { if i <= 0 { 0real } else { chord(pts, i - 1) + pdist(pts[i - 1], pts[i]) } }
pub open spec fn scaled(x: real, norm: bool, total: real) -> real { if norm { x / total } else { x } }
// the knots of the polyline: the accumulated chord lengths
pub open spec fn polyk(pts: Seq<OPoint>, s: Seq<R>, norm: bool) -> bool {
  let n = pts.len() as int; let t = chord(pts, n - 1);
  &&& s.len() == n + 2 && s[0]@ == 0real && s[n + 1]@ == scaled(t, norm, t)
  &&& forall|j: int| 1 <= j <= n ==> (#[trigger] s[j])@ == scaled(chord(pts, j - 1), norm, t)
}
pub open spec fn ishom(h: OPoint, p: OPoint) -> bool { h.coords.c(dim() - 1) == 1real && forall|i: int| 0 <= i < dim() - 1 ==> (#[trigger] h.coords.c(i)) == p.coords.c(i) }
// the point of the leg from point i to point i + 1 at u
pub open spec fn onleg(cp: Seq<OPoint>, s: Seq<R>, pts: Seq<OPoint>, i: int, u: real) -> bool {
  let a = s[i + 1]@; let b = s[i + 2]@;
  hval(cp, s, 1, u, dim() - 1) == 1real && forall|c: int| 0 <= c < dim() - 1 ==> (#[trigger] hval(cp, s, 1, u, c)) * (b - a) == pts[i].coords.c(c) * (b - u) + pts[i + 1].coords.c(c) * (u - a)
}
// neighbours wide enough apart for the lookup of spans
pub open spec fn legs(pts: Seq<OPoint>, norm: bool) -> bool {
  let t = chord(pts, pts.len() - 1);
  forall|i: int| 0 <= i < pts.len() - 1 ==> pdist(#[trigger] pts[i], pts[i + 1]) > 0real && pdist(pts[i], pts[i + 1]) >= eps() * (if norm { t } else { 1real })
}
pub open spec fn polyline_of(cp: Seq<OPoint>, s: Seq<R>, pts: Seq<OPoint>, norm: bool) -> bool {
  &&& polyk(pts, s, norm) && cp.len() == pts.len() && forall|i: int| 0 <= i < pts.len() ==> ishom(#[trigger] cp[i], pts[i])
  &&& legs(pts, norm) ==> wfk(s, pts.len() - 1, 1) && forall|i: int, u: real| 0 <= i < pts.len() - 1 && s[i + 1]@ <= u <= s[i + 2]@ ==> #[trigger] onleg(cp, s, pts, i, u)
}
pub proof fn lemma_chord_mono(pts: Seq<OPoint>, norm: bool, i: int, j: int)
  requires legs(pts, norm), 0 <= i <= j < pts.len() ensures chord(pts, i) <= chord(pts, j), i < j ==> chord(pts, i) < chord(pts, j) decreases j
{ if i < j { lemma_chord_mono(pts, norm, i, j - 1); assert(pdist(pts[j - 1], pts[j - 1 + 1]) > 0real); } }
pub proof fn lemma_hat(cp: Seq<OPoint>, s: Seq<R>, n: int, k: int, u: real, c: int)
  requires 1 <= k < n, s[k]@ < s[k + 1]@, wfk(s, n - 1, 1), cp.len() == n, s[k]@ <= u, u < s[k + 1]@ || (k == n - 1 && u == s[n]@)
  ensures hval(cp, s, 1, u, c) == cp[k - 1].coords.c(c) * ((s[k + 1]@ - u) / (s[k + 1]@ - s[k]@)) + cp[k].coords.c(c) * ((u - s[k]@) / (s[k + 1]@ - s[k]@))
{
  axiom_eps();
  lemma_kspan(s, n - 1, 1, u, k);
  reveal_with_fuel(bas, 3); reveal_with_fuel(csum, 3);
  let d = s[k + 1]@ - s[k]@; let x = (s[k + 1]@ - u) / d; let y = (u - s[k]@) / d;
  let z = fr(u - s[k - 1]@, s[k]@ - s[k - 1]@); let w = fr(s[k + 2]@ - u, s[k + 2]@ - s[k + 1]@);
  assert(z * 0real == 0real && w * 0real == 0real && x * 1real == x && y * 1real == y) by (nonlinear_arith);
  assert(bas(s, k, k - 1, 1, u) == x); assert(bas(s, k, k, 1, u) == y);
}
pub proof fn lemma_legmix(a: real, b: real, d: real, e: real, f: real)
  requires d > 0real ensures (a * (e / d) + b * (f / d)) * d == a * e + b * f, e + f == d ==> 1real * (e / d) + 1real * (f / d) == 1real
{
  let x = e / d; let y = f / d;
  assert(x * d == e) by (nonlinear_arith) requires x == e / d, d > 0real;
  assert(y * d == f) by (nonlinear_arith) requires y == f / d, d > 0real;
  let ax = a * x; let by = b * y;
  assert((ax + by) * d == ax * d + by * d) by (nonlinear_arith);
  assert((a * x) * d == a * (x * d)) by (nonlinear_arith); assert((b * y) * d == b * (y * d)) by (nonlinear_arith);
  assert((x + y) * d == x * d + y * d) by (nonlinear_arith);
  let z = x + y;
  assert(z * d == d ==> z == 1real) by (nonlinear_arith) requires d > 0real;
  assert(1real * x == x && 1real * y == y) by (nonlinear_arith);
}
pub proof fn lemma_div_lt(a: real, b: real, t: real, e: real)
  requires t > 0real ensures a < b ==> a / t < b / t, a <= b ==> a / t <= b / t, b - a >= e * t ==> b / t - a / t >= e, 0real / t == 0real
{
  let x = a / t; let y = b / t;
  assert(x * t == a && y * t == b) by (nonlinear_arith) requires x == a / t, y == b / t, t > 0real;
  assert(a < b ==> x < y) by (nonlinear_arith) requires x * t == a, y * t == b, t > 0real;
  assert(a <= b ==> x <= y) by (nonlinear_arith) requires x * t == a, y * t == b, t > 0real;
  assert(b - a >= e * t ==> y - x >= e) by (nonlinear_arith) requires x * t == a, y * t == b, t > 0real;
  assert(0real / t == 0real) by (nonlinear_arith) requires t > 0real;
}
pub proof fn lemma_polyline(cp: Seq<OPoint>, s: Seq<R>, pts: Seq<OPoint>, norm: bool)
  requires pts.len() >= 2, pts.len() < 0x1000_0000, polyk(pts, s, norm), cp.len() == pts.len(), forall|i: int| 0 <= i < pts.len() ==> ishom(#[trigger] cp[i], pts[i])
  ensures polyline_of(cp, s, pts, norm)
{
  if legs(pts, norm) {
    let n = pts.len() as int; let t = chord(pts, n - 1);
    lemma_chord_mono(pts, norm, 0, n - 1);
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies (#[trigger] s[i])@ <= (#[trigger] s[j])@ by {
      let a = if i == 0 { 0 } else if i == n + 1 { n - 1 } else { i - 1 }; let b = if j == 0 { 0 } else if j == n + 1 { n - 1 } else { j - 1 };
      lemma_chord_mono(pts, norm, a, b); lemma_div_lt(chord(pts, a), chord(pts, b), t, 0real);
    }
    assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] s[i + 1])@ < s[i + 2]@ && s[i + 2]@ - s[i + 1]@ >= eps() by {
      let k = i + 1;
      assert(chord(pts, k) == chord(pts, k - 1) + pdist(pts[k - 1], pts[k]));
      assert(pdist(pts[i], pts[i + 1]) > 0real);
      lemma_div_lt(chord(pts, i), chord(pts, i + 1), t, eps());
      assert(s[i + 2]@ == scaled(chord(pts, i + 1), norm, t));
      assert(eps() * 1real == eps()) by (nonlinear_arith);
    }
    let z = 0int; assert(s[z + 1]@ < s[z + 2]@); assert(s[n - 2 + 1]@ < s[n - 2 + 2]@);
    assert(wfk(s, n - 1, 1));
    assert forall|i: int, u: real| 0 <= i < pts.len() - 1 && s[i + 1]@ <= u <= s[i + 2]@ implies #[trigger] onleg(cp, s, pts, i, u) by {
      assert(s[i + 1]@ < s[i + 2]@);
      lemma_leg(cp, s, pts, i, u);
    }
  }
}
pub proof fn lemma_leg(cp: Seq<OPoint>, s: Seq<R>, pts: Seq<OPoint>, i: int, u: real)
  requires wfk(s, pts.len() - 1, 1), pts.len() >= 2, cp.len() == pts.len(), forall|i: int| 0 <= i < pts.len() ==> ishom(#[trigger] cp[i], pts[i]), 0 <= i < pts.len() - 1, s[i + 1]@ <= u <= s[i + 2]@, forall|i: int| 0 <= i < pts.len() - 1 ==> (#[trigger] s[i + 1])@ < s[i + 2]@
  ensures onleg(cp, s, pts, i, u)
{
  let n = pts.len() as int; let a = s[i + 1]@; let b = s[i + 2]@;
  assert(a < b);
  assert(ishom(cp[i], pts[i]) && ishom(cp[i + 1], pts[i + 1]));
  axiom_dim();
  assert forall|c: int| 0 <= c <= dim() - 1 implies (#[trigger] hval(cp, s, 1, u, c)) * (b - a) == cp[i].coords.c(c) * (b - u) + cp[i + 1].coords.c(c) * (u - a) && (c == dim() - 1 ==> hval(cp, s, 1, u, c) == 1real) by {
    if u < b || i == n - 2 {
      lemma_hat(cp, s, n, i + 1, u, c);
      lemma_legmix(cp[i].coords.c(c), cp[i + 1].coords.c(c), b - a, b - u, u - a);
    } else {
      // the far end is the start of the next leg
      let e = s[i + 3]@; assert(s[i + 1 + 1]@ < s[i + 1 + 2]@);
      assert(ishom(cp[i + 2], pts[i + 2]));
      lemma_hat(cp, s, n, i + 2, u, c);
      let h = hval(cp, s, 1, u, c); let y = cp[i + 1].coords.c(c);
      lemma_legmix(y, cp[i + 2].coords.c(c), e - b, e - b, 0real);
      let z = cp[i + 2].coords.c(c);
      assert(z * 0real == 0real) by (nonlinear_arith);
      assert(h * (e - b) == y * (e - b));
      assert(h == y) by (nonlinear_arith) requires h * (e - b) == y * (e - b), e > b;
      let x = cp[i].coords.c(c);
      assert(x * (b - u) == 0real) by (nonlinear_arith) requires u == b;
    }
  }
}
