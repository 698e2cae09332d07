// needs: crv misc chain
// tessellated curves
pub struct ThreadRng { pub x: u8 }
#[verifier::external_body]
pub fn rand_rng() -> ThreadRng { unimplemented!() }
#[verifier::external_body]
pub fn rand_unit() -> (r: R) ensures 0real <= r@ < 1real { unimplemented!() }
pub open spec fn flat3(a: OPoint, b: OPoint, c: OPoint, tol: real) -> bool {
  if bdim() == 2 { rabs(det3(a, b, c)) < tol } else { vdot(crossv(pdiff(b, a), pdiff(c, a)), crossv(pdiff(b, a), pdiff(c, a))) < tol }
}
// a piece ends the division when it is short or flat at some parameter inside it
pub open spec fn flatat(c: NurbsCurve, a: real, b: real, m: real, tol: real) -> bool { a <= m <= b && flat3(ptc(c, a), ptc(c, m), ptc(c, b), tol) }
pub open spec fn donep(c: NurbsCurve, a: real, b: real, tol: real) -> bool { a < b && (b - a < 1real / 100000000real || exists|m: real| #[trigger] flatat(c, a, b, m, tol)) }
pub open spec fn tessof(pts: Seq<OPoint>, c: NurbsCurve, ts: Seq<real>, tol: real) -> bool {
  &&& pts.len() == ts.len() && ts.len() >= 2
  &&& forall|i: int| 0 <= i < pts.len() ==> #[trigger] pts[i] == ptc(c, ts[i])
  &&& forall|i: int| 0 <= i < ts.len() - 1 ==> donep(c, #[trigger] ts[i], ts[i + 1], tol)
}
pub open spec fn tessto(pts: Seq<OPoint>, c: NurbsCurve, ts: Seq<real>, tol: real, a: real, b: real) -> bool { tessof(pts, c, ts, tol) && ts[0] == a && ts[ts.len() - 1] == b }
pub proof fn lemma_tess_join(l: Seq<OPoint>, r: Seq<OPoint>, c: NurbsCurve, ta: Seq<real>, tb: Seq<real>, tol: real, a: real, m: real, b: real)
  requires tessto(l, c, ta, tol, a, m), tessto(r, c, tb, tol, m, b)
  ensures tessrange(l.drop_last() + r, c, tol, a, b)
{
  let n = l.len() - 1; let pts = l.drop_last() + r; let ts = ta.take(n) + tb;
  assert forall|i: int| 0 <= i < pts.len() implies #[trigger] pts[i] == ptc(c, ts[i]) by { if i < n { assert(l[i] == ptc(c, ta[i])); assert(pts[i] == l[i] && ts[i] == ta[i]); } else { assert(r[i - n] == ptc(c, tb[i - n])); assert(pts[i] == r[i - n] && ts[i] == tb[i - n]); } }
  assert forall|i: int| 0 <= i < ts.len() - 1 implies donep(c, #[trigger] ts[i], ts[i + 1], tol) by {
    if i < n { assert(donep(c, ta[i], ta[i + 1], tol)); assert(ts[i] == ta[i]); assert(ts[i + 1] == ta[i + 1]); } else { assert(donep(c, tb[i - n], tb[i - n + 1], tol)); }
  }
  assert(tessto(pts, c, ts, tol, a, b));
}
pub proof fn lemma_tess_one(p: OPoint, q: OPoint, c: NurbsCurve, a: real, b: real, tol: real)
  requires donep(c, a, b, tol), p == ptc(c, a), q == ptc(c, b)
  ensures forall|s: Seq<OPoint>| s.len() == 2 && s[0] == p && s[1] == q ==> #[trigger] tessrange(s, c, tol, a, b)
{
  assert forall|s: Seq<OPoint>| s.len() == 2 && s[0] == p && s[1] == q implies #[trigger] tessrange(s, c, tol, a, b) by { assert(tessto(s, c, seq![a, b], tol, a, b)); }
}
pub open spec fn nonzerow(c: NurbsCurve) -> bool { forall|u: real| dlo(c) <= u <= dhi(c) ==> #[trigger] crv(c, u, dim() - 1) != 0real }
pub open spec fn tessrange(pts: Seq<OPoint>, c: NurbsCurve, tol: real, a: real, b: real) -> bool { exists|ts: Seq<real>| #[trigger] tessto(pts, c, ts, tol, a, b) }
// the elements of a list over and over, k of them
#[verifier::external_body]
pub fn vec_cycle<T: Clone>(x: Vec<T>, k: usize) -> (r: Vec<T>)
  ensures x@.len() == 0 ==> r@.len() == 0, x@.len() > 0 ==> r@.len() == k && (forall|i: int| 0 <= i < x@.len() && i < k ==> #[trigger] r@[i] == x@[i]) && (forall|i: int| x@.len() <= i < 2 * x@.len() && i < k ==> #[trigger] r@[i] == x@[i - x@.len()])
{ unimplemented!() }
pub open spec fn spantess(c: NurbsCurve, pts: Seq<OPoint>, tol: real) -> bool {
  &&& c.degree != 1 ==> tessrange(pts, c, tol, dlo(c), dhi(c))
  &&& c.degree == 1 ==> pts.len() == c.control_points.len() && forall|j: int, i: int| 0 <= j < pts.len() && 0 <= i < dim() - 1 ==> (#[trigger] pts[j].coords.c(i)) == c.control_points@[j].coords.c(i) / c.control_points@[j].coords.c(dim() - 1)
}
pub open spec fn tolv(t: Option<R>) -> real { if t.is_some() { t.unwrap()@ } else { 1real / 1000real } }
pub open spec fn parted(c: Seq<NurbsCurve>, parts: Seq<Seq<OPoint>>, tol: real, m: int) -> bool { parts.len() == m && forall|i: int| 0 <= i < m ==> spantess(#[trigger] c[i], parts[i], tol) }
// the parts one after the other, each without its last point
pub open spec fn shorn(parts: Seq<Seq<OPoint>>, m: int) -> Seq<OPoint> decreases m { if m <= 0 { Seq::empty() } else { shorn(parts, m - 1) + parts[m - 1].drop_last() } }
pub proof fn lemma_shorn(a: Seq<Seq<OPoint>>, b: Seq<Seq<OPoint>>, m: int)
  requires 0 <= m <= a.len(), m <= b.len(), forall|i: int| 0 <= i < m ==> a[i] == b[i]
  ensures shorn(a, m) == shorn(b, m)
  decreases m
{ if m > 0 { lemma_shorn(a, b, m - 1); } }
pub open spec fn chaintess(r: Seq<OPoint>, c: Seq<NurbsCurve>, tol: real, closed: bool) -> bool { exists|parts: Seq<Seq<OPoint>>| #[trigger] chainof(r, c, parts, tol, closed) }
pub open spec fn chainof(r: Seq<OPoint>, c: Seq<NurbsCurve>, parts: Seq<Seq<OPoint>>, tol: real, closed: bool) -> bool {
  &&& parted(c, parts, tol, c.len() as int)
  &&& !closed ==> r == (if c.len() == 0 { Seq::empty() } else { shorn(parts, c.len() - 1) + parts[c.len() - 1] })
  &&& closed ==> r == shorn(parts, c.len() as int) + shorn(parts, c.len() as int).take(1) && r.len() > 1
}
pub open spec fn longdom(c: Seq<NurbsCurve>) -> bool { forall|i: int| 0 <= i < c.len() ==> dlo(#[trigger] c[i]) < dhi(c[i]) }
pub proof fn lemma_spantess(c: NurbsCurve, pts: Seq<OPoint>, tol: real)
  requires spantess(c, pts, tol), wfc(c)
  ensures pts.len() >= 2
{ if c.degree != 1 { let ts = choose|ts: Seq<real>| #[trigger] tessto(pts, c, ts, tol, dlo(c), dhi(c)); assert(pts.len() == ts.len()); } }
pub proof fn lemma_nonzerow(c: NurbsCurve)
  requires goodc(c)
  ensures nonzerow(c)
{ assert forall|u: real| dlo(c) <= u <= dhi(c) implies #[trigger] crv(c, u, dim() - 1) != 0real by { lemma_goodc(c, u); } }
pub proof fn lemma_parted(c: Seq<NurbsCurve>, parts: Seq<Seq<OPoint>>, t: Seq<OPoint>, tol: real, m: int)
  requires parted(c, parts, tol, m), 0 <= m < c.len(), spantess(c[m], t, tol), goodc(c[m])
  ensures parted(c, parts.push(t), tol, m + 1), shorn(parts.push(t), m + 1) == shorn(parts, m) + t.drop_last(), shorn(parts.push(t), m) == shorn(parts, m), t.len() >= 2
{
  lemma_spantess(c[m], t, tol);
  lemma_shorn(parts, parts.push(t), m);
  assert forall|i: int| 0 <= i < m + 1 implies spantess(#[trigger] c[i], parts.push(t)[i], tol) by { if i < m { assert(parts.push(t)[i] == parts[i]); } }
}
