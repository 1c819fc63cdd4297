//! Uniform view of the five matrix and five vector types through their public API.
use num::traits::{Num, Signed, Float, Zero};
use static_math::traits::LinearAlgebra;
pub use static_math::matrix2x2::M22;
pub use static_math::matrix3x3::M33;
pub use static_math::matrix4x4::M44;
pub use static_math::matrix5x5::M55;
pub use static_math::matrix6x6::M66;
pub use static_math::vector2::V2;
pub use static_math::vector3::V3;
pub use static_math::vector4::V4;
pub use static_math::vector5::V5;
pub use static_math::vector6::V6;
pub use static_math::quaternion::Quaternion;
pub use static_math::dual_quaternion::DualQuaternion;
use std::fmt::Debug;
use std::ops::{Add, Sub, Mul, Div, Neg, AddAssign, SubAssign};

pub trait Vx<T, const N: usize>:
    Copy + PartialEq + Debug + Add<Output = Self> + Sub<Output = Self> + Mul<Self, Output = T> + Mul<T, Output = Self> + Div<T, Output = Self> + Neg<Output = Self> + AddAssign + SubAssign + Zero
{
    fn mk(a: [T; N]) -> Self;
    fn arr(&self) -> [T; N];
    fn zeros_() -> Self;
    fn ones_() -> Self;
}
pub trait Mx<T, V, const N: usize>:
    Copy + PartialEq + Debug + Add<Output = Self> + Sub<Output = Self> + Mul<Self, Output = Self> + Mul<T, Output = Self> + Mul<V, Output = V> + Div<T, Output = Self> + Neg<Output = Self> + AddAssign + SubAssign
{
    fn mk(a: [[T; N]; N]) -> Self;
    fn arr(&self) -> [[T; N]; N];
    fn zeros_() -> Self;
    fn identity_() -> Self;
    fn zero_() -> Self;
    fn one_() -> Self;
    fn is_zero_(&self) -> bool;
    fn is_one_(&self) -> bool;
    fn vecmul(v: V, m: Self) -> V;
}
pub trait Fx<T, const N: usize>: Copy + Debug + PartialEq {
    fn fmk(a: [[T; N]; N]) -> Self;
    fn farr(&self) -> [[T; N]; N];
    fn det_(&self) -> T;
    fn inv_(&self) -> Option<Self>;
    fn qr_(&self) -> Option<(Self, Self)>;
    fn lu_(&self) -> (Self, T, [usize; N]);
    fn tr_(&self) -> Self;
    fn trace_(&self) -> T;
    fn norm2_(&self) -> T;
    fn shape_(&self) -> (usize, usize, (usize, usize));
}
macro_rules! adapt {
    ($M:ident, $V:ident, $n:literal) => {
        impl<T: Num + Copy + Signed + Debug + PartialEq> Vx<T, $n> for $V<T> {
            fn mk(a: [T; $n]) -> Self { $V::new(a) }
            fn arr(&self) -> [T; $n] { std::array::from_fn(|i| self[i]) }
            fn zeros_() -> Self { $V::zeros() }
            fn ones_() -> Self { $V::ones() }
        }
        impl<T: Num + Copy + Signed + Debug + PartialEq> Mx<T, $V<T>, $n> for $M<T> {
            fn mk(a: [[T; $n]; $n]) -> Self { $M::new(a) }
            fn arr(&self) -> [[T; $n]; $n] { std::array::from_fn(|i| std::array::from_fn(|j| self[(i, j)])) }
            fn zeros_() -> Self { $M::zeros() }
            fn identity_() -> Self { $M::identity() }
            fn zero_() -> Self { <$M<T> as Zero>::zero() }
            fn one_() -> Self { <$M<T> as num::One>::one() }
            fn is_zero_(&self) -> bool { <$M<T> as Zero>::is_zero(self) }
            fn is_one_(&self) -> bool { <$M<T> as num::One>::is_one(self) }
            fn vecmul(v: $V<T>, m: Self) -> $V<T> { v * m }
        }
        impl<T: Float + std::iter::Sum + Debug> Fx<T, $n> for $M<T> {
            fn fmk(a: [[T; $n]; $n]) -> Self { $M::new(a) }
            fn farr(&self) -> [[T; $n]; $n] { std::array::from_fn(|i| std::array::from_fn(|j| self[(i, j)])) }
            fn det_(&self) -> T { LinearAlgebra::det(self) }
            fn inv_(&self) -> Option<Self> { LinearAlgebra::inverse(self) }
            fn qr_(&self) -> Option<(Self, Self)> { LinearAlgebra::qr(self) }
            fn lu_(&self) -> (Self, T, [usize; $n]) { let (m, d, p) = self.lu(); (m, d, std::array::from_fn(|i| p[i])) }
            fn tr_(&self) -> Self { LinearAlgebra::transpose(self) }
            fn trace_(&self) -> T { LinearAlgebra::trace(self) }
            fn norm2_(&self) -> T { LinearAlgebra::norm2(self) }
            fn shape_(&self) -> (usize, usize, (usize, usize)) { (LinearAlgebra::rows(self), LinearAlgebra::cols(self), LinearAlgebra::shape(self)) }
        }
    };
}
adapt!(M22, V2, 2);
adapt!(M33, V3, 3);
adapt!(M44, V4, 4);
adapt!(M55, V5, 5);
adapt!(M66, V6, 6);

/// Scalar conversion for float checks in both precisions.
pub trait Fl: Float + num::traits::FloatConst + Signed + std::iter::Sum + Debug + Send + Sync + std::fmt::Display + 'static {
    const NAME: &'static str;
    const EPS: f64;
    const MINP: f64;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
}
impl Fl for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    const MINP: f64 = f64::MIN_POSITIVE;
    fn of(x: f64) -> f64 { x }
    fn to(self) -> f64 { self }
}
impl Fl for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    const MINP: f64 = f32::MIN_POSITIVE as f64;
    fn of(x: f64) -> f32 { x as f32 }
    fn to(self) -> f64 { self as f64 }
}
pub fn of_m<T: Fl, const N: usize>(a: &[[f64; N]; N]) -> [[T; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| T::of(a[i][j]))) }
pub fn to_m<T: Fl, const N: usize>(a: &[[T; N]; N]) -> [[f64; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| a[i][j].to())) }
pub fn of_v<T: Fl, const N: usize>(a: &[f64; N]) -> [T; N] { std::array::from_fn(|i| T::of(a[i])) }
pub fn to_v<T: Fl, const N: usize>(a: &[T; N]) -> [f64; N] { std::array::from_fn(|i| a[i].to()) }
pub fn v3<T: Fl>(a: [f64; 3]) -> V3<T> { V3::new_from(T::of(a[0]), T::of(a[1]), T::of(a[2])) }
pub fn a3<T: Fl>(v: &V3<T>) -> [f64; 3] { [v[0].to(), v[1].to(), v[2].to()] }
pub fn m33<T: Fl>(a: &[[f64; 3]; 3]) -> M33<T> { M33::new(of_m(a)) }
pub fn am33<T: Fl>(m: &M33<T>) -> [[f64; 3]; 3] { to_m(&Fx::farr(m)) }
pub fn m44<T: Fl>(a: &[[f64; 4]; 4]) -> M44<T> { M44::new(of_m(a)) }
pub fn am44<T: Fl>(m: &M44<T>) -> [[f64; 4]; 4] { to_m(&Fx::farr(m)) }
pub fn qn<T: Fl>(a: [f64; 4]) -> Quaternion<T> { Quaternion::new_from(T::of(a[0]), T::of(a[1]), T::of(a[2]), T::of(a[3])) }
pub fn aq<T: Fl>(q: &Quaternion<T>) -> [f64; 4] { let v = q.imag(); [q.real().to(), v[0].to(), v[1].to(), v[2].to()] }
pub fn adq<T: Fl>(d: &DualQuaternion<T>) -> [f64; 8] { let (a, b) = (aq(&d.real()), aq(&d.dual())); [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]] }

/// Scalars for the generic arithmetic checks.
pub trait Sc: Num + Copy + Signed + Debug + Send + Sync + PartialEq + 'static {
    const TNAME: &'static str;
    fn from_i(x: i64) -> Self;
    fn from_f(x: f64) -> Self { Self::from_i(x as i64) }
    /// equal up to `n` roundings on terms of total magnitude `mag`
    fn close(a: Self, b: Self, mag: Self, n: usize) -> bool;
    fn same(a: Self, b: Self) -> bool { a == b }
}
macro_rules! sc_int { ($($t:ty),*) => { $( impl Sc for $t {
    const TNAME: &'static str = stringify!($t);
    fn from_i(x: i64) -> Self { x as $t }
    fn close(a: Self, b: Self, _m: Self, _n: usize) -> bool { a == b }
} )* } }
sc_int!(i32, i64);
macro_rules! sc_fl { ($($t:ty),*) => { $( impl Sc for $t {
    const TNAME: &'static str = stringify!($t);
    fn from_i(x: i64) -> Self { x as $t }
    fn from_f(x: f64) -> Self { x as $t }
    fn close(a: Self, b: Self, m: Self, n: usize) -> bool {
        let t = (n as $t + 2.0) * 4.0 * <$t>::EPSILON * m + <$t>::MIN_POSITIVE;
        (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= t
    }
    fn same(a: Self, b: Self) -> bool { a == b || (a.is_nan() && b.is_nan()) }
} )* } }
sc_fl!(f32, f64);
impl<const P: u32> Sc for crate::scal::Fp<P> {
    const TNAME: &'static str = "Fp";
    fn from_i(x: i64) -> Self { crate::scal::Fp((((x % P as i64) + P as i64) % P as i64) as u32) }
    fn close(a: Self, b: Self, _m: Self, _n: usize) -> bool { a == b }
}
impl Sc for num::rational::Ratio<i64> {
    const TNAME: &'static str = "Ratio<i64>";
    fn from_i(x: i64) -> Self { num::rational::Ratio::new(x, 6) }
    fn close(a: Self, b: Self, _m: Self, _n: usize) -> bool { a == b }
}
