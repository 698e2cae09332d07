// needs: chain join
// a parameter a span can be cut at, or one outside its interior
pub open spec fn dom0(c: NurbsCurve) -> R { c.knots.0@[c.degree as int] }
pub open spec fn dom1(c: NurbsCurve) -> R { c.knots.0@[c.control_points.len() as int] }
pub open spec fn cuttable(c: NurbsCurve, t: real) -> bool { t <= dom0(c)@ || t >= dom1(c)@ || trimmable(c, t) }
pub open spec fn isp(c: NurbsCurve, a: R, b: R, r: NurbsCurve) -> bool { part(c, a, b, r) || (r == c && a == dom0(c) && b == dom1(c)) }
pub open spec fn inner(c: NurbsCurve, t: real) -> bool { dom0(c)@ < t < dom1(c)@ }
// what of the span c lies between lo and hi
pub open spec fn kept(c: NurbsCurve, lo: R, hi: R, v: Seq<NurbsCurve>) -> bool {
  let a = if lo@ > dom0(c)@ { lo } else { dom0(c) }; let b = if hi@ < dom1(c)@ { hi } else { dom1(c) };
  if a@ < b@ { v.len() == 1 && isp(c, a, b, v[0]) } else { v.len() == 0 }
}
// what of the span c lies before lo and after hi
pub open spec fn outer(c: NurbsCurve, lo: R, hi: R, v: Seq<NurbsCurve>) -> bool {
  if lo@ >= dom1(c)@ || hi@ <= dom0(c)@ { v == seq![c] }
  else if inner(c, lo@) && inner(c, hi@) { v.len() == 2 && part(c, dom0(c), lo, v[0]) && part(c, hi, dom1(c), v[1]) }
  else if inner(c, lo@) { v.len() == 1 && part(c, dom0(c), lo, v[0]) }
  else if inner(c, hi@) { v.len() == 1 && part(c, hi, dom1(c), v[0]) }
  else { v.len() == 0 }
}
pub open spec fn trimmed(c: NurbsCurve, lo: R, hi: R, inside: bool, v: Seq<NurbsCurve>) -> bool { if inside { kept(c, lo, hi, v) } else { outer(c, lo, hi, v) } }
pub open spec fn flatn(vs: Seq<Vec<NurbsCurve>>, m: int) -> Seq<NurbsCurve> decreases m { if m <= 0 { seq![] } else { flatn(vs, m - 1) + vs[m - 1]@ } }
pub open spec fn trimchain(o: Seq<NurbsCurve>, lo: R, hi: R, inside: bool, r: Seq<NurbsCurve>) -> bool {
  exists|vs: Seq<Vec<NurbsCurve>>| vs.len() == o.len() && (forall|i: int| 0 <= i < o.len() ==> trimmed(o[i], lo, hi, inside, #[trigger] vs[i]@)) && r == #[trigger] flatn(vs, o.len() as int)
}
pub proof fn lemma_cut_sep(c: NurbsCurve, t: real)
  requires goodc(c), cuttable(c, t)
  ensures inner(c, t) ==> trimmable(c, t) && dom0(c)@ + eps() <= t <= dom1(c)@ - eps(), !inner(c, t) ==> !(dom0(c)@ + eps() <= t <= dom1(c)@ - eps()) || eps() == 0real
{ axiom_eps(); if inner(c, t) { assert(trimmable(c, t)); assert(sepd(c.knots.0@[c.degree as int]@, t)); assert(sepd(c.knots.0@[c.control_points.len() as int]@, t)); } }
pub open spec fn peps() -> real { eps() }
pub proof fn lemma_part_right(c: NurbsCurve, b: R, hi: R, t: NurbsCurve)
  requires wfk(c.knots.0@, c.control_points.len() - 1, c.degree as int), rightof(c, b, t), c.knots.0@[c.degree as int]@ <= b@ < hi@, sepq(c.knots.0@, b@), hi == c.knots.0@[c.control_points.len() as int]
  ensures part(c, b, hi, t)
{
  lemma_tail_ready(c, b, b, t);
  let p = c.degree as int;
  assert forall|x: real, e: int| b@ <= x <= hi@ && b@ < hi@ implies #[trigger] hval(t.control_points@, t.knots.0@, p, x, e) == hval(c.control_points@, c.knots.0@, p, x, e) by { }
}
