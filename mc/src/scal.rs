//! Scalars used to instantiate the generic implementation.
use num::traits::{Num, One, Signed, Zero, Float, NumCast, ToPrimitive, FloatConst};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::ops::*;

// ------------------------------------------------------------------ prime fields
/// Integers modulo the prime P: instantiating the generic code with it makes its whole input space
/// finite and small enough to enumerate completely.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Fp<const P: u32>(pub u32);
impl<const P: u32> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32> Fp<P> {
    pub fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero in the field");
        let (mut b, mut e, mut r) = (self.0 as u64, P - 2, 1u64);
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % P as u64;
            }
            b = b * b % P as u64;
            e >>= 1;
        }
        Fp(r as u32)
    }
}
impl<const P: u32> Add for Fp<P> { type Output = Self; fn add(self, o: Self) -> Self { Fp((self.0 + o.0) % P) } }
impl<const P: u32> Sub for Fp<P> { type Output = Self; fn sub(self, o: Self) -> Self { Fp((self.0 + P - o.0) % P) } }
impl<const P: u32> Mul for Fp<P> { type Output = Self; fn mul(self, o: Self) -> Self { Fp(((self.0 as u64 * o.0 as u64) % P as u64) as u32) } }
impl<const P: u32> Div for Fp<P> { type Output = Self; fn div(self, o: Self) -> Self { self * o.inv() } }
impl<const P: u32> Rem for Fp<P> { type Output = Self; fn rem(self, _: Self) -> Self { Fp(0) } }
impl<const P: u32> Neg for Fp<P> { type Output = Self; fn neg(self) -> Self { Fp((P - self.0) % P) } }
impl<const P: u32> Zero for Fp<P> { fn zero() -> Self { Fp(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u32> One for Fp<P> { fn one() -> Self { Fp(1 % P) } }
impl<const P: u32> Num for Fp<P> {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> { Err(()) }
}
impl<const P: u32> Signed for Fp<P> {
    fn abs(&self) -> Self { *self }
    fn abs_sub(&self, o: &Self) -> Self { *self - *o }
    fn signum(&self) -> Self { if self.0 == 0 { *self } else { Fp(1) } }
    fn is_positive(&self) -> bool { self.0 != 0 }
    fn is_negative(&self) -> bool { false }
}

// ------------------------------------------------------------------ traced floats
/// f64 that tracks, through the implementation, a bound on its total degree as a polynomial of the
/// inputs (NONPOLY after any other operation), whether it is a constant, and logs comparisons.
#[derive(Clone, Copy, Debug)]
pub struct Tr {
    pub v: f64,
    pub deg: u32,
}
pub const NONPOLY: u32 = u32::MAX;

#[derive(Default, Clone, Debug)]
pub struct TraceLog {
    /// comparisons involving an input-dependent value: site -> (times true, times false)
    pub sites: BTreeMap<String, (u64, u64)>,
    /// constants that input-dependent values were compared with
    pub consts: BTreeMap<u64, u64>,
    pub comparisons: u64,
}
thread_local! {
    static LOG: RefCell<TraceLog> = RefCell::new(TraceLog::default());
}
pub fn trace_reset() {
    LOG.with(|l| *l.borrow_mut() = TraceLog::default())
}
pub fn trace_take() -> TraceLog {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
impl Tr {
    /// an input variable
    pub fn var(v: f64) -> Tr { Tr { v, deg: 1 } }
    pub fn cst(v: f64) -> Tr { Tr { v, deg: 0 } }
    fn is_c(&self) -> bool { self.deg == 0 }
    fn un(self, v: f64) -> Tr { Tr { v, deg: if self.deg == 0 { 0 } else { NONPOLY } } }
}
#[track_caller]
fn logcmp(a: &Tr, b: &Tr, outcome: bool) {
    if a.is_c() && b.is_c() {
        return;
    }
    let loc = std::panic::Location::caller();
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.comparisons += 1;
        let f = loc.file().rsplit('/').next().unwrap_or("?");
        let e = l.sites.entry(format!("{}:{}:{}", f, loc.line(), loc.column())).or_insert((0, 0));
        if outcome { e.0 += 1 } else { e.1 += 1 }
        for (x, y) in [(a, b), (b, a)] {
            if x.is_c() && !y.is_c() && x.v.is_finite() {
                *l.consts.entry(x.v.to_bits()).or_insert(0) += 1;
            }
        }
    })
}
impl PartialEq for Tr {
    #[track_caller]
    fn eq(&self, o: &Tr) -> bool { let r = self.v == o.v; logcmp(self, o, r); r }
}
impl PartialOrd for Tr {
    #[track_caller]
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> { let r = self.v.partial_cmp(&o.v); logcmp(self, o, r == Some(std::cmp::Ordering::Less)); r }
    #[track_caller]
    fn lt(&self, o: &Tr) -> bool { let r = self.v < o.v; logcmp(self, o, r); r }
    #[track_caller]
    fn le(&self, o: &Tr) -> bool { let r = self.v <= o.v; logcmp(self, o, r); r }
    #[track_caller]
    fn gt(&self, o: &Tr) -> bool { let r = self.v > o.v; logcmp(self, o, r); r }
    #[track_caller]
    fn ge(&self, o: &Tr) -> bool { let r = self.v >= o.v; logcmp(self, o, r); r }
}
impl fmt::Display for Tr { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(&self.v, f) } }
fn dmax(a: u32, b: u32) -> u32 { a.max(b) }
fn dadd(a: u32, b: u32) -> u32 { if a == NONPOLY || b == NONPOLY { NONPOLY } else { a + b } }
impl Add for Tr { type Output = Tr; fn add(self, o: Tr) -> Tr { Tr { v: self.v + o.v, deg: dmax(self.deg, o.deg) } } }
impl Sub for Tr { type Output = Tr; fn sub(self, o: Tr) -> Tr { Tr { v: self.v - o.v, deg: dmax(self.deg, o.deg) } } }
impl Mul for Tr { type Output = Tr; fn mul(self, o: Tr) -> Tr { Tr { v: self.v * o.v, deg: dadd(self.deg, o.deg) } } }
impl Div for Tr { type Output = Tr; fn div(self, o: Tr) -> Tr { Tr { v: self.v / o.v, deg: if o.deg == 0 { self.deg } else { NONPOLY } } } }
impl Rem for Tr { type Output = Tr; fn rem(self, o: Tr) -> Tr { Tr { v: self.v % o.v, deg: if self.deg == 0 && o.deg == 0 { 0 } else { NONPOLY } } } }
impl Neg for Tr { type Output = Tr; fn neg(self) -> Tr { Tr { v: -self.v, deg: self.deg } } }
impl AddAssign for Tr { fn add_assign(&mut self, o: Tr) { *self = *self + o } }
impl SubAssign for Tr { fn sub_assign(&mut self, o: Tr) { *self = *self - o } }
impl MulAssign for Tr { fn mul_assign(&mut self, o: Tr) { *self = *self * o } }
impl std::iter::Sum for Tr { fn sum<I: Iterator<Item = Tr>>(i: I) -> Tr { i.fold(Tr::cst(0.0), |a, b| a + b) } }
impl Zero for Tr {
    fn zero() -> Tr { Tr::cst(0.0) }
    #[track_caller]
    fn is_zero(&self) -> bool { *self == Tr::cst(0.0) }
}
impl One for Tr { fn one() -> Tr { Tr::cst(1.0) } }
impl Num for Tr { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Tr, ()> { Err(()) } }
impl ToPrimitive for Tr {
    fn to_i64(&self) -> Option<i64> { self.v.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.v.to_u64() }
    fn to_f64(&self) -> Option<f64> { Some(self.v) }
}
impl NumCast for Tr { fn from<T: ToPrimitive>(n: T) -> Option<Tr> { n.to_f64().map(Tr::cst) } }
impl Signed for Tr {
    #[track_caller]
    fn abs(&self) -> Tr { logcmp(self, &Tr::cst(0.0), self.v < 0.0); self.un(self.v.abs()) }
    fn abs_sub(&self, o: &Tr) -> Tr { Tr { v: (self.v - o.v).max(0.0), deg: NONPOLY } }
    fn signum(&self) -> Tr { self.un(self.v.signum()) }
    fn is_positive(&self) -> bool { *self > Tr::cst(0.0) }
    fn is_negative(&self) -> bool { *self < Tr::cst(0.0) }
}
macro_rules! fun { ($($n:ident)*) => { $( fn $n(self) -> Tr { self.un(self.v.$n()) } )* } }
macro_rules! konst { ($($n:ident)*) => { $( fn $n() -> Tr { Tr::cst(<f64 as Float>::$n()) } )* } }
macro_rules! pred { ($($n:ident)*) => { $( #[track_caller] fn $n(self) -> bool { let r = self.v.$n(); logcmp(&self, &self, r); r } )* } }
impl Float for Tr {
    konst!(nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    pred!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    fun!(floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    #[track_caller]
    fn abs(self) -> Tr { logcmp(&self, &Tr::cst(0.0), self.v < 0.0); self.un(self.v.abs()) }
    fn classify(self) -> std::num::FpCategory { self.v.classify() }
    fn mul_add(self, a: Tr, b: Tr) -> Tr { Tr { v: self.v.mul_add(a.v, b.v), deg: dmax(dadd(self.deg, a.deg), b.deg) } }
    fn powi(self, n: i32) -> Tr { if n >= 0 && self.deg != NONPOLY { Tr { v: self.v.powi(n), deg: self.deg * n as u32 } } else { self.un(self.v.powi(n)) } }
    fn powf(self, n: Tr) -> Tr { Tr { v: self.v.powf(n.v), deg: if self.deg == 0 && n.deg == 0 { 0 } else { NONPOLY } } }
    fn log(self, b: Tr) -> Tr { self.un(self.v.log(b.v)) }
    #[track_caller]
    fn max(self, o: Tr) -> Tr { if self > o { self } else { o } }
    #[track_caller]
    fn min(self, o: Tr) -> Tr { if self < o { self } else { o } }
    fn abs_sub(self, o: Tr) -> Tr { Tr { v: (self.v - o.v).max(0.0), deg: NONPOLY } }
    fn hypot(self, o: Tr) -> Tr { Tr { v: self.v.hypot(o.v), deg: NONPOLY } }
    fn atan2(self, o: Tr) -> Tr { Tr { v: self.v.atan2(o.v), deg: if self.deg == 0 && o.deg == 0 { 0 } else { NONPOLY } } }
    fn sin_cos(self) -> (Tr, Tr) { (self.un(self.v.sin()), self.un(self.v.cos())) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.v) }
}
macro_rules! fc { ($($n:ident)*) => { $( #[allow(non_snake_case)] fn $n() -> Tr { Tr::cst(<f64 as FloatConst>::$n()) } )* } }
impl FloatConst for Tr {
    fc!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);
}
