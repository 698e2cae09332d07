// needs: bbox
// Helpers of the misc modules: orientation, segments, rays, meshes.
pub struct SelfOption;
pub struct Coord { pub x: R, pub y: R }
// robust::orient2d: the exact sign of the determinant
#[verifier::external_body]
pub fn orient2d(a: Coord, b: Coord, c: Coord) -> (r: R)
  ensures (r@ > 0real) == ((a.x@ - c.x@) * (b.y@ - c.y@) - (a.y@ - c.y@) * (b.x@ - c.x@) > 0real),
    (r@ < 0real) == ((a.x@ - c.x@) * (b.y@ - c.y@) - (a.y@ - c.y@) * (b.x@ - c.x@) < 0real)
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_concat<T: Clone>(a: Vec<T>, b: Vec<T>) -> (r: Vec<T>) ensures r@ == a@ + b@ { unimplemented!() }

pub open spec fn cr2(x0: real, x1: real, y0: real, y1: real) -> real { x0 * y1 - x1 * y0 }
// twice the signed area of the triangle a, b, c
pub open spec fn det3(a: OPoint, b: OPoint, c: OPoint) -> real { cr2(b.c(0) - a.c(0), b.c(1) - a.c(1), c.c(0) - a.c(0), c.c(1) - a.c(1)) }
pub proof fn lemma_orient(a0: real, a1: real, b0: real, b1: real, c0: real, c1: real)
  ensures (a0 - c0) * (b1 - c1) - (a1 - c1) * (b0 - c0) == cr2(b0 - a0, b1 - a1, c0 - a0, c1 - a1)
{
  let p0 = a0 - c0; let p1 = a1 - c1; let q0 = b0 - c0; let q1 = b1 - c1;
  assert(b0 - a0 == q0 - p0 && b1 - a1 == q1 - p1 && c0 - a0 == 0real - p0 && c1 - a1 == 0real - p1);
  lemma_orient4(p0, p1, q0, q1);
}
proof fn lemma_orient4(p0: real, p1: real, q0: real, q1: real)
  ensures p0 * q1 - p1 * q0 == (q0 - p0) * (0real - p1) - (q1 - p1) * (0real - p0)
{ assert(p0 * q1 - p1 * q0 == (q0 - p0) * (0real - p1) - (q1 - p1) * (0real - p0)) by (nonlinear_arith); }
// the segments a b and c d have the point at s, t in common
pub open spec fn meeti(a: OPoint, b: OPoint, c: OPoint, d: OPoint, s: real, t: real, i: int) -> bool { a.c(i) + s * (b.c(i) - a.c(i)) == c.c(i) + t * (d.c(i) - c.c(i)) }
pub open spec fn meet(a: OPoint, b: OPoint, c: OPoint, d: OPoint, s: real, t: real) -> bool { 0real <= s <= 1real && 0real <= t <= 1real && meeti(a, b, c, d, s, t, 0) && meeti(a, b, c, d, s, t, 1) }
pub open spec fn flat4(a: OPoint, b: OPoint, c: OPoint, d: OPoint) -> bool { det3(a, b, c) == 0real && det3(a, b, d) == 0real && det3(c, d, a) == 0real && det3(c, d, b) == 0real }
proof fn lemma_sub_mul(x: real, y: real, z: real) ensures (x - y) * z == x * z - y * z { assert((x - y) * z == x * z - y * z) by (nonlinear_arith); }
proof fn lemma_rot(x: real, y: real, z: real) ensures (x * y) * z == (z * x) * y, (x * y) * z == (z * y) * x, (x * y) * z == (y * x) * z
{ assert((x * y) * z == (z * x) * y) by (nonlinear_arith); assert((x * y) * z == (z * y) * x) by (nonlinear_arith); assert((x * y) * z == (y * x) * z) by (nonlinear_arith); }
proof fn lemma_cramer1(b0: real, b1: real, c0: real, c1: real, e0: real, e1: real)
  ensures (c0 * e1 - c1 * e0) * b0 + (b0 * c1 - b1 * c0) * e0 == (b0 * e1 - b1 * e0) * c0
{
  lemma_sub_mul(c0 * e1, c1 * e0, b0); lemma_sub_mul(b0 * c1, b1 * c0, e0); lemma_sub_mul(b0 * e1, b1 * e0, c0);
  lemma_rot(c0, e1, b0); lemma_rot(c1, e0, b0); lemma_rot(b0, c1, e0); lemma_rot(b1, c0, e0); lemma_rot(b0, e1, c0); lemma_rot(b1, e0, c0);
}
proof fn lemma_cramer(b0: real, b1: real, c0: real, c1: real, e0: real, e1: real)
  ensures cr2(c0, c1, e0, e1) * b0 + cr2(b0, b1, c0, c1) * e0 == cr2(b0, b1, e0, e1) * c0, cr2(c0, c1, e0, e1) * b1 + cr2(b0, b1, c0, c1) * e1 == cr2(b0, b1, e0, e1) * c1
{
  lemma_cramer1(b0, b1, c0, c1, e0, e1);
  lemma_cramer1(b1, b0, c1, c0, e1, e0);
  lemma_sub_mul(c0 * e1, c1 * e0, b1); lemma_sub_mul(b0 * c1, b1 * c0, e1); lemma_sub_mul(b0 * e1, b1 * e0, c1);
  lemma_sub_mul(c1 * e0, c0 * e1, b1); lemma_sub_mul(b1 * c0, b0 * c1, e1); lemma_sub_mul(b1 * e0, b0 * e1, c1);
}
// the determinants in terms of b - a, c - a and d - c
proof fn lemma_dets(a: OPoint, b: OPoint, c: OPoint, d: OPoint)
  ensures det3(a, b, d) - det3(a, b, c) == cr2(b.c(0) - a.c(0), b.c(1) - a.c(1), d.c(0) - c.c(0), d.c(1) - c.c(1)),
    det3(c, d, a) - det3(c, d, b) == cr2(b.c(0) - a.c(0), b.c(1) - a.c(1), d.c(0) - c.c(0), d.c(1) - c.c(1)),
    det3(c, d, a) == cr2(c.c(0) - a.c(0), c.c(1) - a.c(1), d.c(0) - c.c(0), d.c(1) - c.c(1))
{
  let (a0, a1, b0, b1, c0, c1, d0, d1) = (a.c(0), a.c(1), b.c(0), b.c(1), c.c(0), c.c(1), d.c(0), d.c(1));
  assert(cr2(b0 - a0, b1 - a1, d0 - a0, d1 - a1) - cr2(b0 - a0, b1 - a1, c0 - a0, c1 - a1) == cr2(b0 - a0, b1 - a1, d0 - c0, d1 - c1)) by (nonlinear_arith);
  assert(cr2(d0 - c0, d1 - c1, a0 - c0, a1 - c1) - cr2(d0 - c0, d1 - c1, b0 - c0, b1 - c1) == cr2(b0 - a0, b1 - a1, d0 - c0, d1 - c1)) by (nonlinear_arith);
  assert(cr2(d0 - c0, d1 - c1, a0 - c0, a1 - c1) == cr2(c0 - a0, c1 - a1, d0 - c0, d1 - c1)) by (nonlinear_arith);
}
// opposite sides both ways: the segments meet
pub proof fn lemma_cross_meet(a: OPoint, b: OPoint, c: OPoint, d: OPoint)
  requires !flat4(a, b, c, d),
    !(det3(a, b, c) > 0real && det3(a, b, d) > 0real), !(det3(a, b, c) < 0real && det3(a, b, d) < 0real),
    !(det3(c, d, a) > 0real && det3(c, d, b) > 0real), !(det3(c, d, a) < 0real && det3(c, d, b) < 0real),
  ensures exists|s: real, t: real| meet(a, b, c, d, s, t)
{
  lemma_dets(a, b, c, d);
  let o1 = det3(a, b, c); let o2 = det3(a, b, d); let o3 = det3(c, d, a); let o4 = det3(c, d, b);
  let g = o2 - o1;
  assert(g != 0real);
  let s = o3 / g; let t = (0real - o1) / g;
  assert(s * g == o3) by (nonlinear_arith) requires g != 0real, s == o3 / g;
  assert(t * g == 0real - o1) by (nonlinear_arith) requires g != 0real, t == (0real - o1) / g;
  if g > 0real {
    assert(o3 >= 0real && o3 <= g && o1 <= 0real && 0real - o1 <= g);
    assert(0real <= s <= 1real) by (nonlinear_arith) requires s * g == o3, g > 0real, 0real <= o3 <= g;
    assert(0real <= t <= 1real) by (nonlinear_arith) requires t * g == 0real - o1, g > 0real, 0real <= 0real - o1 <= g;
  } else {
    assert(o3 <= 0real && o3 >= g && o1 >= 0real && 0real - o1 >= g);
    assert(0real <= s <= 1real) by (nonlinear_arith) requires s * g == o3, g < 0real, 0real >= o3 >= g;
    assert(0real <= t <= 1real) by (nonlinear_arith) requires t * g == 0real - o1, g < 0real, 0real >= 0real - o1 >= g;
  }
  lemma_cramer(b.c(0) - a.c(0), b.c(1) - a.c(1), c.c(0) - a.c(0), c.c(1) - a.c(1), d.c(0) - c.c(0), d.c(1) - c.c(1));
  lemma_meet_at(s, t, g, o1, o3, b.c(0) - a.c(0), d.c(0) - c.c(0), c.c(0) - a.c(0));
  lemma_meet_at(s, t, g, o1, o3, b.c(1) - a.c(1), d.c(1) - c.c(1), c.c(1) - a.c(1));
  assert(meet(a, b, c, d, s, t));
}
proof fn lemma_meet_at(s: real, t: real, g: real, o1: real, o3: real, x: real, y: real, z: real)
  requires g != 0real, s * g == o3, t * g == 0real - o1, o3 * x + o1 * y == g * z
  ensures s * x == z + t * y
{
  let l = s * x; let r = z + t * y;
  assert(l * g == o3 * x) by (nonlinear_arith) requires s * g == o3, l == s * x;
  assert(r * g == g * z + (t * g) * y) by (nonlinear_arith) requires r == z + t * y;
  assert((0real - o1) * y == 0real - o1 * y) by (nonlinear_arith);
  assert(l == r) by (nonlinear_arith) requires l * g == r * g, g != 0real;
}
// a common point lies on both lines
pub proof fn lemma_meet_cross(a: OPoint, b: OPoint, c: OPoint, d: OPoint, s: real, t: real)
  requires meet(a, b, c, d, s, t)
  ensures !(det3(a, b, c) > 0real && det3(a, b, d) > 0real), !(det3(a, b, c) < 0real && det3(a, b, d) < 0real)
{
  lemma_dets(a, b, c, d);
  let o1 = det3(a, b, c); let o2 = det3(a, b, d);
  lemma_on_line(b.c(0) - a.c(0), b.c(1) - a.c(1), c.c(0) - a.c(0), c.c(1) - a.c(1), d.c(0) - c.c(0), d.c(1) - c.c(1), s, t);
  let g = o2 - o1;
  assert(o1 + t * g == 0real);
  lemma_lever(o1, g, t);
}
// o + t g between o and o + g
proof fn lemma_lever(o: real, g: real, t: real)
  requires o + t * g == 0real, 0real <= t <= 1real
  ensures !(o > 0real && o + g > 0real), !(o < 0real && o + g < 0real)
{
  if g >= 0real { assert(0real <= t * g <= g) by (nonlinear_arith) requires 0real <= t <= 1real, g >= 0real; }
  else { assert(g <= t * g <= 0real) by (nonlinear_arith) requires 0real <= t <= 1real, g < 0real; }
}
proof fn lemma_on_line(x0: real, x1: real, c0: real, c1: real, e0: real, e1: real, s: real, t: real)
  requires s * x0 == c0 + t * e0, s * x1 == c1 + t * e1
  ensures cr2(x0, x1, c0, c1) + t * cr2(x0, x1, e0, e1) == 0real
{
  let y0 = s * x0; let y1 = s * x1;
  assert(x0 * y1 - x1 * y0 == 0real) by (nonlinear_arith) requires y0 == s * x0, y1 == s * x1;
  let f0 = t * e0; let f1 = t * e1;
  assert(x0 * (c1 + f1) == x0 * c1 + x0 * f1) by (nonlinear_arith);
  assert(x1 * (c0 + f0) == x1 * c0 + x1 * f0) by (nonlinear_arith);
  assert(x0 * f1 - x1 * f0 == t * (x0 * e1 - x1 * e0)) by (nonlinear_arith) requires f0 == t * e0, f1 == t * e1;
}
// the common point as a point
pub proof fn lemma_meet_point(a: OPoint, b: OPoint, s: real) -> (p: OPoint)
  requires 0real <= s <= 1real, bdim() == 2
  ensures forall|i: int| 0 <= i < bdim() ==> (#[trigger] p.coords.c(i)) == a.c(i) + s * (b.c(i) - a.c(i)), forall|i: int| 0 <= i < bdim() ==> rmin(a.c(i), b.c(i)) <= #[trigger] p.coords.c(i) <= rmax(a.c(i), b.c(i))
{
  let f = |i: int| a.c(i) + s * (b.c(i) - a.c(i));
  axiom_vec_mk(f, 2);
  let v = choose|v: OVector| #[trigger] vec_is(v, f, 2);
  let p = OPoint { coords: v };
  assert forall|i: int| 0 <= i < bdim() implies (#[trigger] p.coords.c(i)) == a.c(i) + s * (b.c(i) - a.c(i)) && rmin(a.c(i), b.c(i)) <= p.coords.c(i) <= rmax(a.c(i), b.c(i)) by {
    assert(v.c(i) == f(i));
    let x = a.c(i); let y = b.c(i); let z = x + s * (y - x);
    assert(x <= y ==> x <= z <= y) by (nonlinear_arith) requires z == x + s * (y - x), 0real <= s <= 1real;
    assert(y <= x ==> y <= z <= x) by (nonlinear_arith) requires z == x + s * (y - x), 0real <= s <= 1real;
  }
  p
}
// dot products
pub proof fn lemma_dot_lin(v: OVector, a: OVector, b: OVector, t: real, d: OVector, n: int)
  requires forall|i: int| (#[trigger] v.c(i)) == a.c(i) + t * b.c(i)
  ensures vdotn(v, d, n) == vdotn(a, d, n) + t * vdotn(b, d, n)
  decreases n
{
  if n > 0 {
    lemma_dot_lin(v, a, b, t, d, n - 1);
    let x = a.c(n - 1); let y = b.c(n - 1); let z = d.c(n - 1); let w = v.c(n - 1); let q = vdotn(b, d, n - 1);
    assert(w * z == x * z + t * (y * z)) by (nonlinear_arith) requires w == x + t * y;
    assert(t * (q + y * z) == t * q + t * (y * z)) by (nonlinear_arith);
  } else { assert(t * 0real == 0real) by (nonlinear_arith); }
}
pub proof fn lemma_dot_lin4(v: OVector, a: OVector, b: OVector, g: OVector, h: OVector, t: real, w: real, d: OVector, n: int)
  requires forall|i: int| (#[trigger] v.c(i)) == a.c(i) - b.c(i) + t * g.c(i) - w * h.c(i)
  ensures vdotn(v, d, n) == vdotn(a, d, n) - vdotn(b, d, n) + t * vdotn(g, d, n) - w * vdotn(h, d, n)
  decreases n
{
  if n > 0 {
    lemma_dot_lin4(v, a, b, g, h, t, w, d, n - 1);
    let z = d.c(n - 1); let (x, y, p, q) = (a.c(n - 1), b.c(n - 1), g.c(n - 1), h.c(n - 1)); let (tp, wq) = (t * p, w * q);
    assert((x - y + tp - wq) * z == x * z - y * z + tp * z - wq * z) by (nonlinear_arith);
    assert(tp * z == t * (p * z)) by (nonlinear_arith) requires tp == t * p;
    assert(wq * z == w * (q * z)) by (nonlinear_arith) requires wq == w * q;
    let (pz, qz) = (p * z, q * z); let (m, k) = (vdotn(g, d, n - 1), vdotn(h, d, n - 1));
    assert(t * (m + pz) == t * m + t * pz && w * (k + qz) == w * k + w * qz) by (nonlinear_arith);
  } else { assert(t * 0real == 0real && w * 0real == 0real) by (nonlinear_arith); }
}
// the two equations of the common perpendicular
pub proof fn lemma_perp(daa: real, dbb: real, dab: real, x: real, y: real, w: real, t: real)
  requires daa != 0real, w * (daa * dbb - dab * dab) == dab * x - daa * y, t * daa == x + w * dab
  ensures 0real - x + t * daa - w * dab == 0real, t * dab - w * dbb - y == 0real
{
  let g = t * dab - w * dbb - y;
  let wd = w * dab; let td = t * dab; let wb = w * dbb;
  assert(td * daa == (x + wd) * dab) by (nonlinear_arith) requires t * daa == x + wd, td == t * dab;
  assert((x + wd) * dab == dab * x + wd * dab) by (nonlinear_arith);
  assert(w * (daa * dbb - dab * dab) == wb * daa - wd * dab) by (nonlinear_arith) requires wd == w * dab, wb == w * dbb;
  assert(g * daa == td * daa - wb * daa - y * daa) by (nonlinear_arith) requires g == td - wb - y;
  assert(y * daa == daa * y) by (nonlinear_arith);
  assert(g == 0real) by (nonlinear_arith) requires g * daa == 0real, daa != 0real;
}
pub proof fn lemma_dot_sym(a: OVector, b: OVector, n: int) ensures vdotn(a, b, n) == vdotn(b, a, n) decreases n
{ if n > 0 { lemma_dot_sym(a, b, n - 1); let x = a.c(n - 1); let y = b.c(n - 1); assert(x * y == y * x) by (nonlinear_arith); } }
pub proof fn lemma_dot_pos(a: OVector, n: int)
  ensures vdotn(a, a, n) >= 0real, vdotn(a, a, n) == 0real ==> forall|i: int| 0 <= i < n ==> #[trigger] a.c(i) == 0real
  decreases n
{
  if n > 0 {
    lemma_dot_pos(a, n - 1);
    let x = a.c(n - 1);
    assert(x * x >= 0real) by (nonlinear_arith);
    assert(x * x == 0real ==> x == 0real) by (nonlinear_arith);
  }
}
pub proof fn lemma_dot_zero(a: OVector, b: OVector, n: int)
  requires forall|i: int| 0 <= i < n ==> #[trigger] a.c(i) == 0real
  ensures vdotn(a, b, n) == 0real
  decreases n
{ if n > 0 { lemma_dot_zero(a, b, n - 1); let y = b.c(n - 1); assert(0real * y == 0real) by (nonlinear_arith); assert(a.c(n - 1) == 0real); } }
// |w - m d|^2
pub proof fn lemma_dot_sq(x: OVector, w: OVector, d: OVector, m: real)
  requires forall|i: int| (#[trigger] x.c(i)) == w.c(i) + (0real - m) * d.c(i)
  ensures vdot(x, x) == vdot(w, w) - 2real * m * vdot(w, d) + m * m * vdot(d, d)
{
  let n = dim() as int;
  lemma_dot_lin(x, w, d, 0real - m, x, n);
  lemma_dot_sym(w, x, n); lemma_dot_sym(d, x, n);
  lemma_dot_lin(x, w, d, 0real - m, w, n); lemma_dot_lin(x, w, d, 0real - m, d, n);
  lemma_dot_sym(d, w, n);
  let a = vdot(w, w); let b = vdot(w, d); let e = vdot(d, d);
  assert((a + (0real - m) * b) + (0real - m) * (b + (0real - m) * e) == a - 2real * m * b + m * m * e) by (nonlinear_arith);
}
// the square of the distance at parameter l, clamped projection of w on d
pub open spec fn seg2(a: real, b: real, e: real, m: real) -> real { a - 2real * m * b + m * m * e }
pub proof fn lemma_seg_min(a: real, b: real, e: real, l: real, m: real)
  requires e > 0real, 0real <= m <= 1real, (b < 0real && l == 0real) || (b > e && l == 1real) || (l * e == b)
  ensures seg2(a, b, e, l) <= seg2(a, b, e, m)
{
  // seg2(m) - seg2(l) = (m - l) ((m + l) e - 2 b)
  let me = m * e; let le = l * e; let h = me + le - 2real * b;
  assert(m * m * e == m * me && l * l * e == l * le && m * le == l * me) by (nonlinear_arith) requires me == m * e, le == l * e;
  let k = m - l;
  assert(k * h == k * me + k * le - 2real * (k * b)) by (nonlinear_arith) requires h == me + le - 2real * b;
  assert(k * me == m * me - l * me && k * le == m * le - l * le && k * b == m * b - l * b) by (nonlinear_arith) requires k == m - l;
  assert(2real * m * b == 2real * (m * b) && 2real * l * b == 2real * (l * b)) by (nonlinear_arith);
  assert(seg2(a, b, e, m) - seg2(a, b, e, l) == k * h);
  if b < 0real && l == 0real {
    assert(me >= 0real) by (nonlinear_arith) requires e > 0real, m >= 0real, me == m * e;
    assert(le == 0real) by (nonlinear_arith) requires le == l * e, l == 0real;
    assert(k * h >= 0real) by (nonlinear_arith) requires h >= 0real, k >= 0real;
  } else if b > e && l == 1real {
    assert(me <= e) by (nonlinear_arith) requires e > 0real, m <= 1real, me == m * e;
    assert(le == e) by (nonlinear_arith) requires l == 1real, le == l * e;
    assert(k * h >= 0real) by (nonlinear_arith) requires h <= 0real, k <= 0real;
  } else {
    assert(h == k * e) by (nonlinear_arith) requires h == me + le - 2real * b, le == b, me == m * e, le == l * e, k == m - l;
    assert(k * h >= 0real) by (nonlinear_arith) requires h == k * e, e > 0real;
  }
}
// the point of the segment at m
pub open spec fn onseg(q: OPoint, a: OPoint, b: OPoint, m: real) -> bool { forall|i: int| (#[trigger] q.coords.c(i)) == a.c(i) + m * (b.c(i) - a.c(i)) }
// squared distance
pub open spec fn pdist2(a: OPoint, b: OPoint) -> real { vdot(pdiff(a, b), pdiff(a, b)) }
pub proof fn lemma_diff(a: OPoint, b: OPoint) ensures exists|v: OVector| is_sub(v, a, b), is_sub(pdiff(a, b), a, b)
{ axiom_sub(a, b); }
// two points have a difference
#[verifier::external_body]
pub proof fn axiom_sub(a: OPoint, b: OPoint) ensures exists|v: OVector| is_sub(v, a, b) {}
pub proof fn lemma_seg_dist(p: OPoint, q: OPoint, a: OPoint, b: OPoint, m: real)
  requires onseg(q, a, b, m)
  ensures pdist2(p, q) == seg2(vdot(pdiff(p, a), pdiff(p, a)), vdot(pdiff(p, a), pdiff(b, a)), vdot(pdiff(b, a), pdiff(b, a)), m)
{
  lemma_diff(p, q); lemma_diff(p, a); lemma_diff(b, a);
  let x = pdiff(p, q); let w = pdiff(p, a); let d = pdiff(b, a);
  assert forall|i: int| (#[trigger] x.c(i)) == w.c(i) + (0real - m) * d.c(i) by {
    let g = d.c(i);
    assert(q.coords.c(i) == a.c(i) + m * g);
    assert((0real - m) * g == 0real - m * g) by (nonlinear_arith);
  }
  lemma_dot_sq(x, w, d, m);
}
pub proof fn lemma_nearest(p: OPoint, r: OPoint, a: OPoint, b: OPoint, l: real)
  requires onseg(r, a, b, l), vdot(pdiff(b, a), pdiff(b, a)) > 0real,
    (vdot(pdiff(p, a), pdiff(b, a)) < 0real && l == 0real) || (vdot(pdiff(p, a), pdiff(b, a)) > vdot(pdiff(b, a), pdiff(b, a)) && l == 1real) || l * vdot(pdiff(b, a), pdiff(b, a)) == vdot(pdiff(p, a), pdiff(b, a)),
  ensures forall|q: OPoint, m: real| 0real <= m <= 1real && #[trigger] onseg(q, a, b, m) ==> pdist2(p, r) <= pdist2(p, q)
{
  lemma_seg_dist(p, r, a, b, l);
  assert forall|q: OPoint, m: real| 0real <= m <= 1real && #[trigger] onseg(q, a, b, m) implies pdist2(p, r) <= pdist2(p, q) by {
    lemma_seg_dist(p, q, a, b, m);
    lemma_seg_min(vdot(pdiff(p, a), pdiff(p, a)), vdot(pdiff(p, a), pdiff(b, a)), vdot(pdiff(b, a), pdiff(b, a)), l, m);
  }
}
// twice the areas of triangles
pub open spec fn crossv(a: OVector, b: OVector) -> OVector { choose|v: OVector| is_cross(v, a, b) }
pub proof fn lemma_crossv(v: OVector, a: OVector, b: OVector) requires is_cross(v, a, b) ensures v == crossv(a, b)
{
  let w = crossv(a, b);
  assert(is_cross(w, a, b));
  assert forall|i: int| #[trigger] v.c(i) == w.c(i) by { if i == 0 || i == 1 || i == 2 {} }
  axiom_vec_ext(v, w);
}
impl OVector {
  pub fn into(self) -> (r: OPoint) ensures r.coords == self { OPoint { coords: self } }
}
pub proof fn lemma_norm_pos(v: OVector) ensures vnorm(v) >= 0real, vnorm(v) * vnorm(v) == vdot(v, v) { axiom_vnorm(v); }
// textbook winding number of the closed polygon v around c: the edges 0..n
pub open spec fn wedge(p: OPoint, q: OPoint, c: OPoint) -> int {
  if p.c(1) <= c.c(1) && q.c(1) > c.c(1) && det3(p, q, c) > 0real { 1int } else if p.c(1) > c.c(1) && q.c(1) <= c.c(1) && det3(p, q, c) < 0real { 0int - 1 } else { 0int }
}
pub open spec fn winding(v: Seq<OPoint>, c: OPoint, n: int) -> int decreases n { if n <= 0 { 0int } else { winding(v, c, n - 1) + wedge(v[n - 1], v[if n == v.len() { 0 } else { n }], c) } }
// sums of triangle areas
pub open spec fn tri3(a: OPoint, b: OPoint, c: OPoint) -> real { vnorm(crossv(pdiff(b, a), pdiff(c, a))) }
pub open spec fn tri2(a: OPoint, b: OPoint, c: OPoint) -> real { rabs(det3(a, b, c)) }
pub open spec fn sum3(v: Seq<OPoint>, f: Seq<[usize; 3]>, n: int) -> real decreases n { if n <= 0 { 0real } else { sum3(v, f, n - 1) + tri3(v[f[n - 1]@[0] as int], v[f[n - 1]@[1] as int], v[f[n - 1]@[2] as int]) } }
pub open spec fn sum2(v: Seq<OPoint>, f: Seq<[usize; 3]>, n: int) -> real decreases n { if n <= 0 { 0real } else { sum2(v, f, n - 1) + tri2(v[f[n - 1]@[0] as int], v[f[n - 1]@[1] as int], v[f[n - 1]@[2] as int]) } }
pub open spec fn faceok(f: [usize; 3], n: int) -> bool { f@[0] < n && f@[1] < n && f@[2] < n }
pub open spec fn facesok(f: Seq<[usize; 3]>, n: int) -> bool { forall|k: int| 0 <= k < f.len() ==> faceok(#[trigger] f[k], n) }
pub proof fn lemma_dot_scale(r: OVector, d: OVector, w: OVector, l: real)
  requires forall|i: int| (#[trigger] r.c(i)) * l == d.c(i)
  ensures vdot(w, r) * l == vdot(w, d)
{ lemma_dot_scalen(r, d, w, l, dim() as int); }
proof fn lemma_dot_scalen(r: OVector, d: OVector, w: OVector, l: real, n: int)
  requires forall|i: int| (#[trigger] r.c(i)) * l == d.c(i)
  ensures vdotn(w, r, n) * l == vdotn(w, d, n)
  decreases n
{
  if n > 0 {
    lemma_dot_scalen(r, d, w, l, n - 1);
    let q = vdotn(w, r, n - 1); let x = w.c(n - 1); let y = r.c(n - 1); let xy = x * y;
    assert((q + xy) * l == q * l + xy * l) by (nonlinear_arith);
    assert(xy * l == x * (y * l)) by (nonlinear_arith) requires xy == x * y;
  } else { assert(0real * l == 0real) by (nonlinear_arith); }
}
