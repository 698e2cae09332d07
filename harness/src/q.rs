//! Exact rational scalar `Q` implementing nalgebra's `RealField` and curvo's
//! `FloatingPoint`, so that the *real generic code* of /repo can be run on
//! exact numbers.  Small values are stored inline (i64/i64), larger ones in a
//! thread-local arena of BigRationals.  Transcendental functions are rounded
//! through f64 (and set the INEXACT flag); everything else is exact.
use approx::{AbsDiffEq, RelativeEq, UlpsEq};
use nalgebra::{ComplexField, Field, RealField, SimdValue};
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational;
use num_traits::{FromPrimitive, Num, One, Signed, ToPrimitive, Zero};
use simba::scalar::{SubsetOf, SupersetOf};
use simba::simd::PrimitiveSimdValue;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Q {
    n: i64,
    d: i64, // > 0 inline; 0 => n is an arena index; -1 => NaN (n=0), +inf (1), -inf (-1)
}

thread_local! {
    static ARENA: RefCell<Vec<BigRational>> = RefCell::new(Vec::new());
    static INEXACT: Cell<bool> = Cell::new(false);
}

/// Forget every big value (only call between cases, when no big Q is alive).
pub fn reset_arena() {
    ARENA.with(|a| a.borrow_mut().clear());
    INEXACT.with(|c| c.set(false));
}
pub fn was_inexact() -> bool {
    INEXACT.with(|c| c.get())
}
fn mark_inexact() {
    INEXACT.with(|c| c.set(true));
}

impl Q {
    pub fn new(n: i64, d: i64) -> Q {
        Q::small(n as i128, d as i128)
    }
    pub fn int(n: i64) -> Q {
        Q { n, d: 1 }
    }
    fn small(mut n: i128, mut d: i128) -> Q {
        if d == 0 {
            return Q { n: n.signum() as i64, d: -1 };
        }
        if d < 0 {
            n = -n;
            d = -d;
        }
        let g = gcd(n.unsigned_abs(), d as u128) as i128;
        if g > 1 {
            n /= g;
            d /= g;
        }
        if n >= -(i64::MAX as i128) && n <= i64::MAX as i128 && d <= i64::MAX as i128 {
            Q { n: n as i64, d: d as i64 }
        } else {
            Q::arena(BigRational::new_raw(BigInt::from(n), BigInt::from(d)))
        }
    }
    fn arena(b: BigRational) -> Q {
        ARENA.with(|a| {
            let mut a = a.borrow_mut();
            a.push(b);
            Q { n: (a.len() - 1) as i64, d: 0 }
        })
    }
    pub fn from_big(b: BigRational) -> Q {
        if let (Some(n), Some(d)) = (b.numer().to_i64(), b.denom().to_i64()) {
            if n != i64::MIN {
                return Q { n, d };
            }
        }
        Q::arena(b)
    }
    pub fn nan() -> Q {
        Q { n: 0, d: -1 }
    }
    /// NaN or infinite
    pub fn bad(self) -> bool {
        self.d == -1
    }
    fn isnan(self) -> bool {
        self.d == -1 && self.n == 0
    }
    fn fin(self) -> bool {
        self.d != -1
    }
    /// IEEE-style arithmetic when an operand is not finite
    fn ext(self, o: Q, g: impl Fn(f64, f64) -> f64) -> Q {
        let f = |x: Q| if x.d == -1 { [f64::NEG_INFINITY, f64::NAN, f64::INFINITY][(x.n + 1) as usize] } else { x.sgn() as f64 };
        let r = g(f(self), f(o));
        if r.is_nan() { Q::nan() } else if r == f64::INFINITY { Q { n: 1, d: -1 } } else if r == f64::NEG_INFINITY { Q { n: -1, d: -1 } } else { Q::int(r as i64) }
    }
    pub fn big(self) -> BigRational {
        if self.d == -1 {
            panic!("Q: non-finite value used as a number");
        }
        if self.d != 0 {
            BigRational::new_raw(BigInt::from(self.n), BigInt::from(self.d))
        } else {
            ARENA.with(|a| a.borrow()[self.n as usize].clone())
        }
    }
    pub fn f(self) -> f64 {
        if self.d == -1 {
            return [f64::NEG_INFINITY, f64::NAN, f64::INFINITY][(self.n + 1) as usize];
        }
        if self.d != 0 {
            if self.n.abs() < (1 << 53) && self.d < (1 << 53) {
                return self.n as f64 / self.d as f64;
            }
        }
        let b = self.big();
        big_to_f64(&b)
    }
    pub fn from_f(x: f64) -> Q {
        if !x.is_finite() {
            return if x.is_nan() { Q::nan() } else { Q { n: x.signum() as i64, d: -1 } };
        }
        if x.fract() == 0.0 && x.abs() < 1e15 {
            return Q { n: x as i64, d: 1 };
        }
        Q::from_big(BigRational::from_float(x).unwrap())
    }
    fn via(self, g: impl Fn(f64) -> f64) -> Q {
        mark_inexact();
        Q::from_f(g(self.f()))
    }
    pub fn sgn(self) -> i32 {
        if self.d != 0 {
            // (infinities carry their sign in n, NaN counts as 0)
            self.n.signum() as i32
        } else {
            match self.big().cmp(&BigRational::zero()) {
                Ordering::Less => -1,
                Ordering::Equal => 0,
                Ordering::Greater => 1,
            }
        }
    }
}

fn big_to_f64(b: &BigRational) -> f64 {
    // scale so that the integer quotient carries > 64 significant bits
    let nb = b.numer().bits() as i64;
    let db = b.denom().bits() as i64;
    let shift = 80 - (nb - db);
    let q = if shift >= 0 {
        (b.numer() << (shift as usize)) / b.denom()
    } else {
        b.numer() / (b.denom() << ((-shift) as usize))
    };
    let m = q.to_f64().unwrap_or(0.0);
    m * 2f64.powi(-(shift as i32))
}

fn gcd(mut a: u128, mut b: u128) -> u128 {
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        return (a as u64).gcd(&(b as u64)) as u128;
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.d == -1 {
            write!(f, "{}", self.f())
        } else if self.d == 1 {
            write!(f, "{}", self.n)
        } else if self.d != 0 {
            write!(f, "{}/{}", self.n, self.d)
        } else {
            let b = self.big();
            let s = format!("{}/{}", b.numer(), b.denom());
            if s.len() > 60 { write!(f, "~{}", self.f()) } else { write!(f, "{}", s) }
        }
    }
}

fn cmpq(a: &Q, b: &Q) -> Ordering {
    if a.d == -1 || b.d == -1 {
        return a.f().partial_cmp(&b.f()).unwrap_or(Ordering::Less);
    }
    if a.d != 0 && b.d != 0 {
        (a.n as i128 * b.d as i128).cmp(&(b.n as i128 * a.d as i128))
    } else {
        a.big().cmp(&b.big())
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        if self.isnan() || o.isnan() {
            return false;
        }
        cmpq(self, o) == Ordering::Equal
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        if self.isnan() || o.isnan() {
            return None;
        }
        Some(cmpq(self, o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        cmpq(self, o)
    }
}

impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        if !(self.fin() && o.fin()) {
            return self.ext(o, |a, b| a + b);
        }
        if self.d != 0 && o.d != 0 {
            if self.d == 1 && o.d == 1 {
                return Q::small(self.n as i128 + o.n as i128, 1);
            }
            let a = self.n as i128 * o.d as i128;
            let b = o.n as i128 * self.d as i128;
            if let Some(s) = a.checked_add(b) {
                return Q::small(s, self.d as i128 * o.d as i128);
            }
        }
        Q::from_big(self.big() + o.big())
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        if self.d != 0 {
            Q { n: -self.n, d: self.d }
        } else {
            Q::arena(-self.big())
        }
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + (-o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        if !(self.fin() && o.fin()) {
            return self.ext(o, |a, b| a * b);
        }
        if self.d != 0 && o.d != 0 {
            return Q::small(self.n as i128 * o.n as i128, self.d as i128 * o.d as i128);
        }
        Q::from_big(self.big() * o.big())
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        if !(self.fin() && o.fin()) {
            return self.ext(o, |a, b| a / b);
        }
        if o.sgn() == 0 {
            return Q { n: self.sgn() as i64, d: -1 };
        }
        if self.d != 0 && o.d != 0 {
            return Q::small(self.n as i128 * o.d as i128, self.d as i128 * o.n as i128);
        }
        Q::from_big(self.big() / o.big())
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, o: Q) -> Q {
        if !(self.fin() && o.fin()) || o.sgn() == 0 {
            return Q::nan();
        }
        Q::from_big(self.big() % o.big())
    }
}
macro_rules! assign { ($($t:ident $m:ident $op:tt),*) => { $(impl $t for Q { fn $m(&mut self, o: Q) { *self = *self $op o; } })* } }
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);

impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.fin() && self.sgn() == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
}
impl Num for Q {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Q, ()> {
        i64::from_str_radix(s, r).map(Q::int).map_err(|_| ())
    }
}
impl Signed for Q {
    fn abs(&self) -> Q {
        if self.sgn() < 0 { -*self } else { *self }
    }
    fn abs_sub(&self, o: &Q) -> Q {
        if *self <= *o { Q::int(0) } else { *self - *o }
    }
    fn signum(&self) -> Q {
        Q::int(self.sgn() as i64)
    }
    fn is_positive(&self) -> bool {
        self.sgn() > 0
    }
    fn is_negative(&self) -> bool {
        self.sgn() < 0
    }
}
impl ToPrimitive for Q {
    fn to_i64(&self) -> Option<i64> {
        if !self.fin() { return None; }
        self.big().to_integer().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        if !self.fin() { return None; }
        self.big().to_integer().to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.f())
    }
}
impl FromPrimitive for Q {
    fn from_i64(n: i64) -> Option<Q> {
        Some(Q::small(n as i128, 1))
    }
    fn from_u64(n: u64) -> Option<Q> {
        Some(Q::small(n as i128, 1))
    }
    fn from_f64(x: f64) -> Option<Q> {
        if x.is_finite() { Some(Q::from_f(x)) } else { None }
    }
    fn from_f32(x: f32) -> Option<Q> {
        Q::from_f64(x as f64)
    }
}

impl SubsetOf<Q> for Q {
    fn to_superset(&self) -> Q {
        *self
    }
    fn from_superset_unchecked(e: &Q) -> Q {
        *e
    }
    fn is_in_subset(_: &Q) -> bool {
        true
    }
}
impl SupersetOf<f64> for Q {
    fn is_in_subset(&self) -> bool {
        true
    }
    fn to_subset_unchecked(&self) -> f64 {
        self.f()
    }
    fn from_subset(e: &f64) -> Q {
        Q::from_f(*e)
    }
}
impl SupersetOf<f32> for Q {
    fn is_in_subset(&self) -> bool {
        true
    }
    fn to_subset_unchecked(&self) -> f32 {
        self.f() as f32
    }
    fn from_subset(e: &f32) -> Q {
        Q::from_f(*e as f64)
    }
}
impl PrimitiveSimdValue for Q {}
impl SimdValue for Q {
    const LANES: usize = 1;
    type Element = Q;
    type SimdBool = bool;
    fn splat(v: Q) -> Q {
        v
    }
    fn extract(&self, _: usize) -> Q {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Q {
        *self
    }
    fn replace(&mut self, _: usize, v: Q) {
        *self = v;
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Q) {
        *self = v;
    }
    fn select(self, c: bool, o: Q) -> Q {
        if c { self } else { o }
    }
}
impl Field for Q {}

impl AbsDiffEq for Q {
    type Epsilon = Q;
    fn default_epsilon() -> Q {
        Q::new(1, 1 << 52)
    }
    fn abs_diff_eq(&self, o: &Q, e: Q) -> bool {
        Signed::abs(&(*self - *o)) <= e
    }
}
impl RelativeEq for Q {
    fn default_max_relative() -> Q {
        Q::new(1, 1 << 52)
    }
    fn relative_eq(&self, o: &Q, e: Q, m: Q) -> bool {
        let d = Signed::abs(&(*self - *o));
        let l = std::cmp::max(Signed::abs(self), Signed::abs(o));
        d <= e || d <= l * m
    }
}
impl UlpsEq for Q {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Q, e: Q, _: u32) -> bool {
        self.abs_diff_eq(o, e)
    }
}

fn floor_q(x: Q) -> Q {
    if !x.fin() {
        return x;
    }
    Q::from_big(x.big().floor())
}
fn exact_sqrt(x: Q) -> Option<Q> {
    let b = x.big();
    let n = b.numer().sqrt();
    let d = b.denom().sqrt();
    if &(&n * &n) == b.numer() && &(&d * &d) == b.denom() {
        Some(Q::from_big(BigRational::new(n, d)))
    } else {
        None
    }
}

macro_rules! via { ($($m:ident),*) => { $(fn $m(self) -> Q { Q::via(self, f64::$m) })* } }

impl ComplexField for Q {
    type RealField = Q;
    fn from_real(re: Q) -> Q { re }
    fn real(self) -> Q { self }
    fn imaginary(self) -> Q { Q::int(0) }
    fn modulus(self) -> Q { Signed::abs(&self) }
    fn modulus_squared(self) -> Q { self * self }
    fn argument(self) -> Q {
        if self.sgn() >= 0 { Q::int(0) } else { Q::from_f(std::f64::consts::PI) }
    }
    fn norm1(self) -> Q { Signed::abs(&self) }
    fn scale(self, f: Q) -> Q { self * f }
    fn unscale(self, f: Q) -> Q { self / f }
    fn floor(self) -> Q { floor_q(self) }
    fn ceil(self) -> Q { -floor_q(-self) }
    fn round(self) -> Q { if !self.fin() { return self; } Q::from_big(self.big().round()) }
    fn trunc(self) -> Q { if !self.fin() { return self; } Q::from_big(self.big().trunc()) }
    fn fract(self) -> Q { if !self.fin() { return self; } Q::from_big(self.big().fract()) }
    fn mul_add(self, a: Q, b: Q) -> Q { self * a + b }
    fn abs(self) -> Q { Signed::abs(&self) }
    fn hypot(self, o: Q) -> Q { ComplexField::sqrt(self * self + o * o) }
    fn recip(self) -> Q { Q::int(1) / self }
    fn conjugate(self) -> Q { self }
    fn sin_cos(self) -> (Q, Q) { (ComplexField::sin(self), ComplexField::cos(self)) }
    via!(sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, log2, log10, ln, ln_1p, exp, exp2, exp_m1, cbrt);
    fn log(self, b: Q) -> Q { mark_inexact(); Q::from_f(self.f().log(b.f())) }
    fn sqrt(self) -> Q {
        if !self.fin() { return self; }
        if self.sgn() < 0 { return Q::nan(); }
        match exact_sqrt(self) { Some(r) => r, None => self.via(f64::sqrt) }
    }
    fn powi(self, n: i32) -> Q {
        let mut r = Q::int(1);
        for _ in 0..n.unsigned_abs() { r *= self; }
        if n < 0 { Q::int(1) / r } else { r }
    }
    fn powf(self, n: Q) -> Q { mark_inexact(); Q::from_f(self.f().powf(n.f())) }
    fn powc(self, n: Q) -> Q { self.powf(n) }
    fn is_finite(&self) -> bool { self.fin() }
    fn try_sqrt(self) -> Option<Q> { if self.sgn() < 0 { None } else { Some(ComplexField::sqrt(self)) } }
}

macro_rules! consts { ($($m:ident $v:expr),*) => { $(fn $m() -> Q { Q::from_f($v) })* } }
impl RealField for Q {
    fn is_sign_positive(&self) -> bool { self.sgn() >= 0 }
    fn is_sign_negative(&self) -> bool { self.sgn() < 0 }
    fn copysign(self, s: Q) -> Q { if s.sgn() >= 0 { Signed::abs(&self) } else { -Signed::abs(&self) } }
    fn max(self, o: Q) -> Q { if self >= o { self } else { o } }
    fn min(self, o: Q) -> Q { if self <= o { self } else { o } }
    fn clamp(self, a: Q, b: Q) -> Q { if self < a { a } else if self > b { b } else { self } }
    fn atan2(self, o: Q) -> Q { mark_inexact(); Q::from_f(self.f().atan2(o.f())) }
    fn min_value() -> Option<Q> { Some(Q::from_f(f64::MIN)) }
    fn max_value() -> Option<Q> { Some(Q::from_f(f64::MAX)) }
    consts!(pi std::f64::consts::PI, two_pi std::f64::consts::TAU, frac_pi_2 std::f64::consts::FRAC_PI_2,
        frac_pi_3 std::f64::consts::FRAC_PI_3, frac_pi_4 std::f64::consts::FRAC_PI_4, frac_pi_6 std::f64::consts::FRAC_PI_6,
        frac_pi_8 std::f64::consts::FRAC_PI_8, frac_1_pi std::f64::consts::FRAC_1_PI, frac_2_pi std::f64::consts::FRAC_2_PI,
        frac_2_sqrt_pi std::f64::consts::FRAC_2_SQRT_PI, e std::f64::consts::E, log2_e std::f64::consts::LOG2_E,
        log10_e std::f64::consts::LOG10_E, ln_2 std::f64::consts::LN_2, ln_10 std::f64::consts::LN_10);
}
impl curvo::prelude::FloatingPoint for Q {}
