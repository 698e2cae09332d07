// needs: bbox crv
// q is control point j of the curve, without its weight
pub open spec fn isdehom(q: OPoint, c: NurbsCurve, j: int) -> bool { forall|e: int| 0 <= e < dim() - 1 ==> (#[trigger] q.coords.c(e)) == c.control_points@[j].coords.c(e) / c.control_points@[j].coords.c(dim() - 1) }
pub open spec fn covered(v: Seq<OPoint>, c: NurbsCurve, j: int) -> bool { exists|k: int| 0 <= k < v.len() && #[trigger] isdehom(v[k], c, j) }
