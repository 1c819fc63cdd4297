//! One table of the library's floating-point operations: each takes its arguments from a flat slice of
//! floats and returns its result as a flat list of floats. Self-contained (also built by mc-nostd).
use num::traits::{Float, FloatConst, One, Signed, Zero};
use static_math::dual_quaternion::DualQuaternion;
use static_math::matrix2x2::M22;
use static_math::matrix3x3::M33;
use static_math::matrix4x4::M44;
use static_math::matrix5x5::M55;
use static_math::matrix6x6::M66;
use static_math::quaternion::Quaternion;
use static_math::traits::LinearAlgebra;
use static_math::transformations as tf;
use static_math::transformations::EulerSeq;
use static_math::vector2::V2;
use static_math::vector3::V3;
use static_math::vector4::V4;
use static_math::vector5::V5;
use static_math::vector6::V6;
use static_math::{slices_methods as sm, utils as ut};

pub trait R: Float + FloatConst + Signed + core::iter::Sum + core::fmt::Debug + core::fmt::Display + core::ops::AddAssign + Send + Sync + 'static {
    const NAME: &'static str;
    const EPS: f64;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
    /// identity of the value; all not-a-numbers are one value
    fn id(self) -> u64;
    fn lmul2(self, v: V2<Self>) -> Option<V2<Self>>;
    fn lmul3(self, v: V3<Self>) -> Option<V3<Self>>;
    fn lmul4(self, v: V4<Self>) -> Option<V4<Self>>;
    fn lmul5(self, v: V5<Self>) -> Option<V5<Self>>;
    fn lmul6(self, v: V6<Self>) -> Option<V6<Self>>;
    fn lmulm2(self, v: M22<Self>) -> Option<M22<Self>>;
    fn lmulm3(self, v: M33<Self>) -> Option<M33<Self>>;
}
impl R for f64 {
    const NAME: &'static str = "f64";
    const EPS: f64 = f64::EPSILON;
    fn of(x: f64) -> f64 { x }
    fn to(self) -> f64 { self }
    fn id(self) -> u64 { if self.is_nan() { 1 } else { self.to_bits() } }
    fn lmul2(self, _: V2<f64>) -> Option<V2<f64>> { None }
    fn lmul3(self, v: V3<f64>) -> Option<V3<f64>> { Some(self * v) }
    fn lmul4(self, _: V4<f64>) -> Option<V4<f64>> { None }
    fn lmul5(self, _: V5<f64>) -> Option<V5<f64>> { None }
    fn lmul6(self, _: V6<f64>) -> Option<V6<f64>> { None }
    fn lmulm2(self, _: M22<f64>) -> Option<M22<f64>> { None }
    fn lmulm3(self, v: M33<f64>) -> Option<M33<f64>> { Some(self * v) }
}
impl R for f32 {
    const NAME: &'static str = "f32";
    const EPS: f64 = f32::EPSILON as f64;
    fn of(x: f64) -> f32 { x as f32 }
    fn to(self) -> f64 { self as f64 }
    fn id(self) -> u64 { if self.is_nan() { 1 } else { self.to_bits() as u64 } }
    fn lmul2(self, v: V2<f32>) -> Option<V2<f32>> { Some(self * v) }
    fn lmul3(self, v: V3<f32>) -> Option<V3<f32>> { Some(self * v) }
    fn lmul4(self, v: V4<f32>) -> Option<V4<f32>> { Some(self * v) }
    fn lmul5(self, v: V5<f32>) -> Option<V5<f32>> { Some(self * v) }
    fn lmul6(self, v: V6<f32>) -> Option<V6<f32>> { Some(self * v) }
    fn lmulm2(self, v: M22<f32>) -> Option<M22<f32>> { Some(self * v) }
    fn lmulm3(self, v: M33<f32>) -> Option<M33<f32>> { Some(self * v) }
}

/// arguments
pub trait Arg<T> { const N: usize; fn mk(x: &[T]) -> Self; fn back(&self, o: &mut Vec<T>); }
/// results
pub trait Out<T> { fn put(&self, o: &mut Vec<T>); }

impl<T: R> Arg<T> for T { const N: usize = 1; fn mk(x: &[T]) -> T { x[0] } fn back(&self, o: &mut Vec<T>) { o.push(*self) } }
impl<T: R> Out<T> for T { fn put(&self, o: &mut Vec<T>) { o.push(*self) } }
impl<T: R> Out<T> for bool { fn put(&self, o: &mut Vec<T>) { o.push(T::of(*self as u8 as f64)) } }
impl<T: R> Out<T> for usize { fn put(&self, o: &mut Vec<T>) { o.push(T::of(*self as f64)) } }
/// a text, as its bytes
pub struct Text(pub String);
impl<T: R> Out<T> for Text { fn put(&self, o: &mut Vec<T>) { for b in self.0.bytes() { o.push(T::of(b as f64)) } } }
impl<T: R> Out<T> for () { fn put(&self, _: &mut Vec<T>) {} }
impl<T: R, X: Out<T>> Out<T> for Option<X> { fn put(&self, o: &mut Vec<T>) { match self { None => o.push(T::of(0.0)), Some(x) => { o.push(T::of(1.0)); x.put(o) } } } }
impl<T: R, X: Out<T>, E> Out<T> for Result<X, E> { fn put(&self, o: &mut Vec<T>) { match self { Err(_) => o.push(T::of(0.0)), Ok(x) => { o.push(T::of(1.0)); x.put(o) } } } }
impl<T: R, X: Out<T>, const N: usize> Out<T> for [X; N] { fn put(&self, o: &mut Vec<T>) { for x in self { x.put(o) } } }
macro_rules! tup { ($($n:ident $i:tt),*) => { impl<T: R, $($n: Out<T>),*> Out<T> for ($($n,)*) { fn put(&self, o: &mut Vec<T>) { $( self.$i.put(o); )* } } } }
tup!(A 0, B 1);
tup!(A 0, B 1, C 2);
tup!(A 0, B 1, C 2, D 3);
tup!(A 0, B 1, C 2, D 3, E 4, F 5);
macro_rules! vecs { ($($V:ident $M:ident $n:literal),*) => { $(
    impl<T: R> Arg<T> for $V<T> { const N: usize = $n; fn mk(x: &[T]) -> Self { $V::new(core::array::from_fn(|i| x[i])) } fn back(&self, o: &mut Vec<T>) { for i in 0..$n { o.push(self[i]) } } }
    impl<T: R, X: Out<T>> Out<T> for $V<X> { fn put(&self, o: &mut Vec<T>) { for i in 0..$n { self[i].put(o) } } }
    impl<T: R> Arg<T> for $M<T> { const N: usize = $n * $n; fn mk(x: &[T]) -> Self { $M::new(core::array::from_fn(|i| core::array::from_fn(|j| x[i * $n + j]))) } fn back(&self, o: &mut Vec<T>) { self.put(o) } }
    impl<T: R> Out<T> for $M<T> { fn put(&self, o: &mut Vec<T>) { for i in 0..$n { for j in 0..$n { o.push(self[(i, j)]) } } } }
)* } }
vecs!(V2 M22 2, V3 M33 3, V4 M44 4, V5 M55 5, V6 M66 6);
type Q<T> = Quaternion<T>;
type D<T> = DualQuaternion<T>;
impl<T: R> Arg<T> for Q<T> { const N: usize = 4; fn mk(x: &[T]) -> Self { Quaternion::new_from(x[0], x[1], x[2], x[3]) } fn back(&self, o: &mut Vec<T>) { self.put(o) } }
impl<T: R> Out<T> for Q<T> { fn put(&self, o: &mut Vec<T>) { o.push(self.real()); self.imag().put(o) } }
impl<T: R> Arg<T> for D<T> { const N: usize = 8; fn mk(x: &[T]) -> Self { DualQuaternion::new(Q::mk(x), Q::mk(&x[4..])) } fn back(&self, o: &mut Vec<T>) { self.put(o) } }
impl<T: R> Out<T> for D<T> { fn put(&self, o: &mut Vec<T>) { self.real().put(o); self.dual().put(o) } }
impl<T: R> Out<T> for sm::MaxMin<T> { fn put(&self, o: &mut Vec<T>) { o.push(self.max.0); self.max.1.put(o); o.push(self.min.0); self.min.1.put(o) } }

fn unit<T: R>(x: &[T]) -> [T; 4] {
    let n = (x[0] * x[0] + x[1] * x[1] + x[2] * x[2] + x[3] * x[3]).sqrt();
    let z = T::of(0.0);
    // (also when the squares vanish or overflow)
    if n == z || n.is_infinite() { return [T::of(1.0), z, z, z] }
    [x[0] / n, x[1] / n, x[2] / n, x[3] / n]
}
fn rot<T: R>(x: &[T]) -> [[T; 3]; 3] {
    let [a, b, c, d] = unit(x);
    let two = T::of(2.0);
    [[a * a + b * b - c * c - d * d, two * (b * c - a * d), two * (b * d + a * c)], [two * (b * c + a * d), a * a - b * b + c * c - d * d, two * (c * d - a * b)], [two * (b * d - a * c), two * (c * d + a * b), a * a - b * b - c * c + d * d]]
}
/// valid values made with square roots and products only
pub struct Uq<T>(pub Q<T>);
pub struct Rm<T>(pub M33<T>);
pub struct Hm<T>(pub M44<T>);
/// unit dual quaternion carrying the marker / not carrying it
pub struct Dm<T>(pub D<T>);
pub struct Du<T>(pub D<T>);
/// quaternion and dual quaternion that went through `normalize`
pub struct Nq<T>(pub Q<T>);
pub struct Nd<T>(pub D<T>);
impl<T: R> Arg<T> for Uq<T> { const N: usize = 4; fn mk(x: &[T]) -> Self { Uq(Q::mk(&unit(x))) } fn back(&self, o: &mut Vec<T>) { self.0.back(o) } }
impl<T: R> Arg<T> for Rm<T> { const N: usize = 4; fn mk(x: &[T]) -> Self { Rm(M33::new(rot(x))) } fn back(&self, o: &mut Vec<T>) { self.0.back(o) } }
impl<T: R> Arg<T> for Hm<T> {
    const N: usize = 7;
    fn mk(x: &[T]) -> Self {
        let (r, z) = (rot(x), T::of(0.0));
        Hm(M44::new([[r[0][0], r[0][1], r[0][2], x[4]], [r[1][0], r[1][1], r[1][2], x[5]], [r[2][0], r[2][1], r[2][2], x[6]], [z, z, z, T::of(1.0)]]))
    }
    fn back(&self, o: &mut Vec<T>) { self.0.back(o) }
}
fn dual<T: R>(x: &[T]) -> D<T> {
    let q = Q::mk(&unit(x));
    DualQuaternion::new(q, Quaternion::new_from(T::of(0.0), x[4], x[5], x[6]) * q * T::of(0.5))
}
impl<T: R> Arg<T> for Du<T> { const N: usize = 7; fn mk(x: &[T]) -> Self { Du(dual(x)) } fn back(&self, o: &mut Vec<T>) { self.0.back(o) } }
impl<T: R> Arg<T> for Dm<T> { const N: usize = 7; fn mk(x: &[T]) -> Self { let d = dual(x); Dm(d.normalize().unwrap_or(d)) } fn back(&self, o: &mut Vec<T>) { self.0.back(o) } }
impl<T: R> Arg<T> for Nq<T> { const N: usize = 4; fn mk(x: &[T]) -> Self { let q = Q::mk(x); Nq(q.normalize().unwrap_or(q)) } fn back(&self, o: &mut Vec<T>) { self.0.back(o) } }
impl<T: R> Arg<T> for Nd<T> { const N: usize = 8; fn mk(x: &[T]) -> Self { let d = D::mk(x); Nd(d.normalize().unwrap_or(d)) } fn back(&self, o: &mut Vec<T>) { self.0.back(o) } }

/// One operation. `may_panic` holds exactly on arguments for which a panic is documented.
pub struct Op<T> {
    pub name: String,
    pub arity: usize,
    pub may_panic: fn(&[T]) -> bool,
    /// (result, the arguments as they are afterwards, the arguments as they were)
    pub run: fn(&[T]) -> (Vec<T>, Vec<T>, Vec<T>),
}
macro_rules! op {
    ($l:ident, $name:expr, |$($a:ident: $t:ty),*| $body:expr) => { op!($l, $name, |$($a: $t),*| $body, |_x| false) };
    ($l:ident, $name:expr, |$($a:ident: $t:ty),*| $body:expr, $pan:expr) => {
        $l.push(Op { name: $name.to_string(), arity: 0 $( + <$t as Arg<T>>::N )*, may_panic: $pan, run: |x: &[T]| {
            let mut _k = 0;
            let mut before = Vec::new();
            $( #[allow(unused_mut)] let mut $a = <$t as Arg<T>>::mk(&x[_k..]); _k += <$t as Arg<T>>::N; Arg::<T>::back(&$a, &mut before); )*
            let mut o = Vec::new();
            Out::<T>::put(&$body, &mut o);
            let mut after = Vec::new();
            $( Arg::<T>::back(&$a, &mut after); )*
            (o, after, before)
        } })
    };
}
/// a row without any non-zero number (from the top: the scan of the factorisation keeps its largest)
fn empty_row<T: R>(x: &[T], n: usize) -> bool {
    (0..n).any(|i| x[i * n..i * n + n].iter().all(|v| !(v.abs() > T::of(0.0))))
}
fn tiny<T: R>(x: &[T]) -> bool { x.iter().fold(0.0, |s, v| s + v.to() * v.to()) <= 4.0 * T::EPS || x.iter().fold(T::of(0.0), |s, v| s + *v * *v).to() <= 4.0 * T::EPS }
fn short<T: R>(x: &[T]) -> bool { x.iter().fold(T::of(0.0), |s, v| s + *v * *v).to().sqrt() <= 4.0 * T::EPS }

macro_rules! vec_ops { ($l:ident, $V:ident, $M:ident, $n:literal, $lm:ident, $s:literal) => {
    op!($l, concat!($s, " add"), |a: $V<T>, b: $V<T>| a + b);
    op!($l, concat!($s, " sub"), |a: $V<T>, b: $V<T>| a - b);
    op!($l, concat!($s, " neg"), |a: $V<T>| -a);
    op!($l, concat!($s, " dot"), |a: $V<T>, b: $V<T>| a * b);
    op!($l, concat!($s, " scale"), |a: $V<T>, k: T| a * k);
    op!($l, concat!($s, " divide"), |a: $V<T>, k: T| a / k);
    op!($l, concat!($s, " scalar on the left"), |k: T, a: $V<T>| k.$lm(a));
    op!($l, concat!($s, " times matrix"), |a: $V<T>, m: $M<T>| a * m);
    op!($l, concat!($s, " +="), |a: $V<T>, b: $V<T>| { let mut c = a; c += b; c });
    op!($l, concat!($s, " -="), |a: $V<T>, b: $V<T>| { let mut c = a; c -= b; c });
    op!($l, concat!($s, " norm2"), |a: $V<T>| a.norm2());
    op!($l, concat!($s, " norm_inf"), |a: $V<T>| a.norm_inf());
    op!($l, concat!($s, " norm_l"), |a: $V<T>| a.norm_l());
    op!($l, concat!($s, " normalize"), |a: $V<T>| a.normalize()); // (in place on the argument: it must be left alone)
    op!($l, concat!($s, " is_zero"), |a: $V<T>| Zero::is_zero(&a));
    op!($l, concat!($s, " =="), |a: $V<T>, b: $V<T>| a == b);
    op!($l, concat!($s, " zeros ones"), |_a: $V<T>| ($V::<T>::zeros(), $V::<T>::ones()));
    op!($l, concat!($s, " slice norm2"), |a: $V<T>| (sm::norm2(&a[..]), sm::norm_inf(&a[..]), sm::norm_l(&a[..])));
    op!($l, concat!($s, " slice max min"), |a: $V<T>| sm::find_max_min(&a[..]));
    op!($l, concat!($s, " slice dot"), |a: $V<T>, b: $V<T>| (sm::dot(&a[..], &b[..]), sm::project_x_over_y(&a[..], &b[..])));
    op!($l, concat!($s, " slice normalize"), |a: $V<T>| { let mut c = a; sm::normalize(&mut c[..]); c });
    op!($l, concat!($s, " slice check"), |a: $V<T>, t: T| sm::check_elements(&a[..], t));
    op!($l, concat!($s, " compare"), |a: $V<T>, b: $V<T>, t: T| ut::compare_vecs(&a[..], &b[..], t));
} }
macro_rules! mat_ops { ($l:ident, $M:ident, $V:ident, $n:literal, $upper:ident, $s:literal) => {
    op!($l, concat!($s, " add"), |a: $M<T>, b: $M<T>| a + b);
    op!($l, concat!($s, " sub"), |a: $M<T>, b: $M<T>| a - b);
    op!($l, concat!($s, " neg"), |a: $M<T>| -a);
    op!($l, concat!($s, " mul"), |a: $M<T>, b: $M<T>| a * b);
    op!($l, concat!($s, " scale"), |a: $M<T>, k: T| a * k);
    op!($l, concat!($s, " divide"), |a: $M<T>, k: T| a / k);
    op!($l, concat!($s, " times vector"), |a: $M<T>, v: $V<T>| a * v);
    op!($l, concat!($s, " +="), |a: $M<T>, b: $M<T>| { let mut c = a; c += b; c });
    op!($l, concat!($s, " -="), |a: $M<T>, b: $M<T>| { let mut c = a; c -= b; c });
    op!($l, concat!($s, " det"), |a: $M<T>| LinearAlgebra::det(&a));
    op!($l, concat!($s, " inverse"), |a: $M<T>| LinearAlgebra::inverse(&a));
    op!($l, concat!($s, " qr"), |a: $M<T>| LinearAlgebra::qr(&a));
    op!($l, concat!($s, " lu"), |a: $M<T>| a.lu(), |x| empty_row(x, $n));
    op!($l, concat!($s, " transpose"), |a: $M<T>| LinearAlgebra::transpose(&a));
    op!($l, concat!($s, " trace norm2"), |a: $M<T>| (LinearAlgebra::trace(&a), LinearAlgebra::norm2(&a)));
    op!($l, concat!($s, " shape"), |a: $M<T>| (LinearAlgebra::rows(&a), LinearAlgebra::cols(&a), LinearAlgebra::shape(&a)));
    op!($l, concat!($s, " diagonal rows cols"), |a: $M<T>| (a.get_diagonal(), a.get_rows(), a.get_cols()));
    op!($l, concat!($s, " as_vec"), |a: $M<T>| a.as_vec());
    op!($l, concat!($s, " from columns"), |a: $M<T>| $M::new_from_vecs(a.get_cols()));
    op!($l, concat!($s, " for_each"), |a: $M<T>, k: T| a.for_each(|x| x * k + T::of(1.0)));
    op!($l, concat!($s, " is_zero is_one"), |a: $M<T>| (Zero::is_zero(&a), One::is_one(&a)));
    op!($l, concat!($s, " =="), |a: $M<T>, b: $M<T>| a == b);
    op!($l, concat!($s, " identity zeros"), |_a: $M<T>| ($M::<T>::identity(), $M::<T>::zeros()));
} }
fn seq(k: usize) -> Option<EulerSeq> {
    use EulerSeq::*;
    Some(match k { 0 => XYX, 1 => XYZ, 2 => XZX, 3 => XZY, 4 => YXY, 5 => YXZ, 6 => YZX, 7 => YZY, 8 => ZXY, 9 => ZXZ, _ => return None })
}

pub fn table<T: R>() -> Vec<Op<T>> {
    let mut l: Vec<Op<T>> = Vec::new();
    vec_ops!(l, V2, M22, 2, lmul2, "V2");
    vec_ops!(l, V3, M33, 3, lmul3, "V3");
    vec_ops!(l, V4, M44, 4, lmul4, "V4");
    vec_ops!(l, V5, M55, 5, lmul5, "V5");
    vec_ops!(l, V6, M66, 6, lmul6, "V6");
    op!(l, "V3 cross", |a: V3<T>, b: V3<T>| a.cross(b));
    op!(l, "V3 axes", |_a: V3<T>| (V3::<T>::x_axis(), V3::<T>::y_axis(), V3::<T>::z_axis()));
    mat_ops!(l, M22, V2, 2, _u, "M22");
    mat_ops!(l, M33, V3, 3, _u, "M33");
    mat_ops!(l, M44, V4, 4, _u, "M44");
    mat_ops!(l, M55, V5, 5, _u, "M55");
    mat_ops!(l, M66, V6, 6, _u, "M66");
    op!(l, "M22 scalar on the left", |k: T, a: M22<T>| k.lmulm2(a));
    op!(l, "M33 scalar on the left", |k: T, a: M33<T>| k.lmulm3(a));
    op!(l, "M22 real_eigenvals", |a: M22<T>| a.real_eigenvals());
    op!(l, "M33 triangles", |a: M33<T>| (a.get_upper_triagular(), a.get_lower_triangular()));
    op!(l, "M44 triangles", |a: M44<T>| (a.get_upper_triagular(), a.get_lower_triangular()));
    op!(l, "M55 triangles", |a: M55<T>| (a.get_upper_triagular(), a.get_lower_triangular()));
    op!(l, "M66 triangles", |a: M66<T>| (a.get_upper_triangular(), a.get_lower_triangular()));
    op!(l, "M44 submatrices", |a: M44<T>| { let s: [M33<T>; 16] = core::array::from_fn(|k| a.get_submatrix((k / 4, k % 4))); s });
    op!(l, "M66 copy block", |a: M66<T>, b: M33<T>| { let s: [M66<T>; 4] = core::array::from_fn(|k| { let mut c = a; c.copy_elements_from(&b, k + 1); c }); s });
    // quaternions
    op!(l, "Q add", |a: Q<T>, b: Q<T>| a + b);
    op!(l, "Q sub", |a: Q<T>, b: Q<T>| a - b);
    op!(l, "Q neg", |a: Q<T>| -a);
    op!(l, "Q mul", |a: Q<T>, b: Q<T>| a * b);
    op!(l, "Q scale", |a: Q<T>, k: T| a * k);
    op!(l, "Q divide scalar", |a: Q<T>, k: T| a / k);
    op!(l, "Q div", |a: Q<T>, b: Q<T>| a / b, |x| tiny(&x[4..8]));
    op!(l, "Q times vector", |a: Q<T>, v: V3<T>| a * v);
    op!(l, "Q dot", |a: Q<T>, b: Q<T>| a.dot(b));
    op!(l, "Q conj abs2 norm2", |a: Q<T>| (a.conj(), a.abs2(), a.norm2(), a.abs_imag()));
    op!(l, "Q inverse", |a: Q<T>| a.inverse());
    op!(l, "Q normalize", |a: Q<T>| a.normalize());
    op!(l, "Q normalize_q", |a: Q<T>| a.normalize_q());
    op!(l, "Q argq", |a: Q<T>| a.argq());
    op!(l, "Q exp", |a: Q<T>| a.exp());
    op!(l, "Q ln", |a: Q<T>| a.ln());
    op!(l, "Q sqrt", |a: Q<T>| a.sqrt());
    op!(l, "Q pow", |a: Q<T>, b: Q<T>| a.pow(b));
    op!(l, "Q sin", |a: Q<T>| a.sin());
    op!(l, "Q cos", |a: Q<T>| a.cos());
    op!(l, "Q angle", |a: Q<T>| a.get_angle());
    op!(l, "Q axis", |a: Q<T>| (a.get_axis(), a.axis_angle()));
    op!(l, "Q to_rotation", |a: Q<T>| a.to_rotation());
    op!(l, "Q to_euler", |a: Q<T>| a.to_euler_angles());
    op!(l, "Q derivative", |a: Q<T>, v: V3<T>| a.derivative(&v));
    op!(l, "Q slerp", |a: Q<T>, b: Q<T>, t: T| Quaternion::slerp(a, b, t));
    op!(l, "Q from_rotation", |m: M33<T>| Quaternion::from_rotation(&m));
    op!(l, "Q rotation", |t: T, v: V3<T>| Quaternion::rotation(t, &v), |x| short(&x[1..4]));
    op!(l, "Q rotation_norm_encoded", |v: V3<T>| Quaternion::rotation_norm_encoded(&v));
    op!(l, "Q from_euler", |v: V3<T>| Quaternion::from_euler_angles(v[0], v[1], v[2]));
    op!(l, "Q new_from_vec", |v: V4<T>| (Quaternion::new_from_vec(&v), Quaternion::from([v[0], v[1], v[2], v[3]])));
    op!(l, "Q new_real new_imag", |a: T, v: V3<T>| (Quaternion::new_real(a), Quaternion::new_imag(&v)));
    op!(l, "Q is_zero is_one", |a: Q<T>| (Zero::is_zero(&a), One::is_one(&a)));
    op!(l, "Q D text", |a: Q<T>, b: D<T>| (Text(format!("{}", a)), Text(format!("{}", b))));
    op!(l, "Q ==", |a: Q<T>, b: Q<T>| a == b);
    op!(l, "unit Q slerp", |a: Uq<T>, b: Uq<T>, t: T| Quaternion::slerp(a.0, b.0, t));
    op!(l, "slerp of two close rotations", |a: Uq<T>, v: V3<T>, t: T| { let s: [Q<T>; 4] = core::array::from_fn(|k| Quaternion::slerp(a.0, a.0 * Quaternion::rotation_norm_encoded(&(v * T::of(CLOSE[k]))), t)); s });
    op!(l, "small and large rotation vectors", |v: V3<T>| { let s: [Q<T>; 4] = core::array::from_fn(|k| Quaternion::rotation_norm_encoded(&(v * T::of(CLOSE[k])))); (s, tf::matrix_exponential(&tf::skew_from_vec(&(v * T::of(CLOSE[1])))), tf::matrix_exponential(&tf::skew_from_vec(&(v * T::of(CLOSE[2])))), tf::matrix_exponential(&tf::skew_from_vec(&(v * T::of(CLOSE[3]))))) });
    op!(l, "logarithm of a small rotation", |v: V3<T>| { let s: [Q<T>; 2] = core::array::from_fn(|k| Quaternion::rotation_norm_encoded(&(v * T::of(CLOSE[k])))); (s.map(|q| q.ln()), s.map(|q| q.sqrt()), tf::matrix_log(&s[0].to_rotation()), s[0].axis_angle()) });
    op!(l, "small and large angles", |t: T| { let s: [M33<T>; 4] = core::array::from_fn(|k| tf::rotx(t * T::of(CLOSE[k])) * tf::roty(t * T::of(CLOSE[k])) * tf::rotz(t * T::of(CLOSE[k]))); (s, tf::rot2(t * T::of(CLOSE[2])), tf::rot2(t * T::of(CLOSE[3]))) });
    op!(l, "small twists", |v: V6<T>| { let s: [M44<T>; 4] = core::array::from_fn(|k| tf::matrix_exponential6(&tf::twist_to_se3(&(v * T::of(CLOSE[k]))))); s });
    op!(l, "screw_lerp of two close motions", |a: Dm<T>, v: V3<T>, p: V3<T>, t: T| { let s: [D<T>; 2] = core::array::from_fn(|k| DualQuaternion::screw_lerp(&a.0, &(a.0 * DualQuaternion::new_from_rot_trans(&Quaternion::rotation_norm_encoded(&(v * T::of(CLOSE[k]))), &p)), t)); s });
    op!(l, "unit Q ln exp", |a: Uq<T>| (a.0.ln(), a.0.ln().exp(), a.0.sqrt()));
    op!(l, "unit Q axis angle", |a: Uq<T>| a.0.axis_angle());
    op!(l, "unit Q euler", |a: Uq<T>| a.0.to_euler_angles());
    op!(l, "unit Q rotate", |a: Uq<T>, v: V3<T>| a.0 * v);
    op!(l, "normalised Q inverse", |a: Nq<T>| a.0.inverse());
    op!(l, "normalised Q normalize", |a: Nq<T>| a.0.normalize());
    op!(l, "normalised Q ln", |a: Nq<T>| (a.0.ln(), a.0.sqrt()));
    op!(l, "normalised Q axis", |a: Nq<T>| a.0.axis_angle());
    op!(l, "normalised Q div", |a: Q<T>, b: Nq<T>| a / b.0, |x| tiny(&x[4..8]) || short(&x[4..8]));
    op!(l, "rotation to Q", |m: Rm<T>| Quaternion::from_rotation(&m.0));
    // dual quaternions
    op!(l, "D add", |a: D<T>, b: D<T>| a + b);
    op!(l, "D sub", |a: D<T>, b: D<T>| a - b);
    op!(l, "D neg", |a: D<T>| -a);
    op!(l, "D mul", |a: D<T>, b: D<T>| a * b);
    op!(l, "D scale", |a: D<T>, k: T| a * k);
    op!(l, "D div", |a: D<T>, b: D<T>| a / b, |x| tiny(&x[8..12]));
    op!(l, "D inverse", |a: D<T>| a.inverse(), |x| tiny(&x[0..4]));
    op!(l, "D normalize", |a: D<T>| a.normalize());
    op!(l, "D is_normalized", |a: D<T>| a.is_normalized());
    op!(l, "D conjugates", |a: D<T>| (a.conj(), a.conj_as_dual(), a.conj_combined(), a.norm()));
    op!(l, "D to_homogeneous", |a: D<T>| a.to_homogeneous());
    op!(l, "D to parts", |a: D<T>| (a.to_rotation_translation(), a.to_quaternion_translation(), a.get_translation()));
    op!(l, "D screw parameters", |a: D<T>| a.get_screw_parameters());
    op!(l, "D from screw", |v: V3<T>, m: V3<T>, t: T, d: T| DualQuaternion::new_from_screw_parameters(&v, &m, t, d));
    op!(l, "D pow", |a: D<T>, t: T| a.pow(t));
    op!(l, "D screw_lerp", |a: D<T>, b: D<T>, t: T| DualQuaternion::screw_lerp(&a, &b, t), |x| tiny(&x[0..4]));
    op!(l, "D log", |a: D<T>| a.log());
    op!(l, "D transform_point", |a: D<T>, p: V3<T>| a.transform_point(&p));
    op!(l, "D from array", |a: Q<T>, v: V3<T>| { let (r, q) = (a.real(), a.imag()); DualQuaternion::new_from_array([r, q[0], q[1], q[2], v[0], v[1], v[2]]) });
    op!(l, "D from translation", |v: V3<T>| (DualQuaternion::new_from_translation(&v), DualQuaternion::new_from_point(&v)));
    op!(l, "D from rotation", |a: Q<T>| DualQuaternion::new_from_rotation(&a));
    op!(l, "D from rot trans", |a: Q<T>, v: V3<T>| DualQuaternion::new_from_rot_trans(&a, &v), |x| short(&x[0..4]));
    op!(l, "D from rotation matrix", |m: M33<T>| DualQuaternion::new_from_rotation_matrix(&m));
    op!(l, "D from homogeneous", |m: Hm<T>| DualQuaternion::new_from_homogeneous(&m.0));
    op!(l, "D from homogeneous of anything", |m: M44<T>| DualQuaternion::new_from_homogeneous(&m));
    op!(l, "D div by a normalised D", |a: D<T>, b: Nd<T>| a / b.0, |x| tiny(&x[8..12]) || short(&x[8..12]));
    op!(l, "D from vecs", |a: V4<T>, b: V4<T>| DualQuaternion::new_from_vecs(&a, &b));
    op!(l, "D is_zero is_one", |a: D<T>| (Zero::is_zero(&a), One::is_one(&a)));
    op!(l, "D ==", |a: D<T>, b: D<T>| a == b);
    op!(l, "motion to_homogeneous", |a: Du<T>| a.0.to_homogeneous());
    op!(l, "motion screw", |a: Du<T>| a.0.get_screw_parameters());
    op!(l, "motion pow", |a: Du<T>, t: T| a.0.pow(t));
    op!(l, "motion inverse", |a: Du<T>, b: Dm<T>| (a.0.inverse(), b.0.inverse()));
    op!(l, "motion screw_lerp", |a: Du<T>, b: Dm<T>, t: T| DualQuaternion::screw_lerp(&a.0, &b.0, t));
    op!(l, "motion log", |a: Dm<T>| a.0.log());
    op!(l, "motion transform_point", |a: Dm<T>, p: V3<T>| a.0.transform_point(&p));
    op!(l, "normalised D", |a: Nd<T>| (a.0.normalize(), a.0.is_normalized(), a.0.log()));
    op!(l, "normalised D inverse", |a: Nd<T>| a.0.inverse(), |x| tiny(&x[0..4]) || short(&x[0..4]));
    // transformations
    op!(l, "rot2 rotx roty rotz", |t: T| (tf::rot2(t), tf::rotx(t), tf::roty(t), tf::rotz(t)));
    op!(l, "euler_to_rotation", |a: T, b: T, c: T| { let s: [M33<T>; 11] = core::array::from_fn(|k| tf::euler_to_rotation(a, b, c, seq(k))); s });
    op!(l, "rotation_to_euler", |m: M33<T>| tf::rotation_to_euler(&m));
    op!(l, "rotation to euler", |m: Rm<T>| tf::rotation_to_euler(&m.0));
    op!(l, "homogeneous_from_rotation", |m: M33<T>, p: V3<T>| tf::homogeneous_from_rotation(&m, &p));
    op!(l, "homogeneous_from_quaternion", |q: Q<T>, p: V3<T>| tf::homogeneous_from_quaternion(&q, &p));
    op!(l, "se3 parts", |m: M33<T>, p: V3<T>| { let s = tf::se3_from_parts(&m, &p); (s, tf::se3_get_parts(&s), tf::se3_to_twist(&s)) });
    op!(l, "get_parts", |h: M44<T>| tf::get_parts(&h));
    op!(l, "get_parts_raw", |h: M44<T>| tf::get_parts_raw(&h));
    op!(l, "motion get_parts", |h: Hm<T>| (tf::get_parts(&h.0), tf::get_parts_raw(&h.0)));
    op!(l, "homogeneous_inverse", |h: M44<T>| tf::homogeneous_inverse(&h));
    op!(l, "homogeneous_inverse_transform", |h: M44<T>, p: V3<T>| tf::homogeneous_inverse_transform(&h, &p));
    op!(l, "motion inverse transform", |h: Hm<T>, p: V3<T>| (tf::homogeneous_inverse(&h.0), tf::homogeneous_inverse_transform(&h.0, &p)));
    op!(l, "skews", |v: V3<T>, t: T| (tf::skew_from_vec(&v), tf::skew_scalar(t), tf::skew_from_vec_aug(v)));
    op!(l, "skew_v6", |v: V6<T>| (tf::skew_v6(v), tf::twist_to_se3(&v)));
    op!(l, "skew_to_vec", |m: M33<T>, n: M22<T>| (tf::skew_to_vec(&m), tf::vex_m22(&n)));
    op!(l, "ksi translation", |a: T, x: T, y: T| (tf::ksi(a, x, y), tf::translation_2d(x, y), tf::translation_3d(x, y, a)));
    op!(l, "axis_angle", |v: V3<T>| tf::axis_angle(&v), |x| short(x));
    op!(l, "axis_angle6", |v: V6<T>| tf::axis_angle6(&v));
    op!(l, "rotation_from_axis_angle", |v: V3<T>, t: T| tf::rotation_from_axis_angle(&v, t));
    op!(l, "matrix_exponential", |v: V3<T>| tf::matrix_exponential(&tf::skew_from_vec(&v)));
    op!(l, "matrix_exponential of anything", |m: M33<T>| tf::matrix_exponential(&m));
    op!(l, "matrix_log of anything", |m: M33<T>| tf::matrix_log(&m));
    op!(l, "matrix_log", |m: Rm<T>| tf::matrix_log(&m.0));
    op!(l, "rotation_inverse", |m: M33<T>| tf::rotation_inverse(&m));
    op!(l, "adjoint", |h: M44<T>| tf::adjoint(&h));
    op!(l, "motion adjoint", |h: Hm<T>| tf::adjoint(&h.0));
    op!(l, "screw_to_axis", |q: V3<T>, s: V3<T>, h: T| tf::screw_to_axis(&q, &s, h));
    op!(l, "matrix_exponential6", |v: V6<T>| tf::matrix_exponential6(&tf::twist_to_se3(&v)));
    op!(l, "matrix_exponential6 of anything", |h: M44<T>| tf::matrix_exponential6(&h));
    op!(l, "matrix_log6", |h: Hm<T>| tf::matrix_log6(&h.0));
    op!(l, "matrix_log6 of anything", |h: M44<T>| tf::matrix_log6(&h));
    op!(l, "distance_to_manifold", |m: M33<T>| tf::distance_to_manifold(&m));
    op!(l, "rotation distance_to_manifold", |m: Rm<T>| tf::distance_to_manifold(&m.0));
    op!(l, "is_rotation", |m: M33<T>| ut::is_rotation(m));
    op!(l, "is_rotation of a rotation", |m: Rm<T>| ut::is_rotation(m.0));
    op!(l, "is_rotation_h", |m: M44<T>| ut::is_rotation_h(m));
    op!(l, "is_rotation_h of a motion", |m: Hm<T>| ut::is_rotation_h(m.0));
    op!(l, "nearly_equal", |a: T, b: T, t: T| (ut::nearly_equal(a, b, t), ut::compare_floats(a, b, t)));
    op!(l, "nearly_zero", |a: T| ut::nearly_zero(a));
    op!(l, "compare_dual_quaternions", |a: D<T>, b: D<T>, t: T| ut::compare_dual_quaternions(a, b, t));
    l
}

/// A finite input space for an operation of `n` floats: the full product of the values when it is small
/// enough, otherwise every change of at most `k` of the components of a few base vectors.
pub struct Cases { n: usize, vals: Vec<f64>, bases: Vec<Vec<f64>>, k: usize, per: u64 }
impl Cases {
    pub fn new(n: usize, vals: &[f64], cap: u64) -> Cases {
        let v = vals.len() as u64;
        let mut full = 1u64;
        for _ in 0..n { full = full.saturating_mul(v).min(u64::MAX / v) }
        if full <= cap { return Cases { n, vals: vals.to_vec(), bases: vec![], k: 0, per: full } }
        let side = (1..=6).find(|s| s * s == n);
        let mut bases = vec![
            (0..n).map(|j| ((j * j * 3 + 5 * j + 1) % 7) as f64 * 0.5 - 1.0).collect::<Vec<_>>(),
            (0..n).map(|j| if let Some(s) = side { (j / s == j % s) as u8 as f64 } else { [1.0, 0.0, 0.0, 0.0][j % 4] }).collect(),
            (0..n).map(|j| 0.75 + ((j * 5 + 2) % 9) as f64 * if j % 2 == 0 { 0.25 } else { -0.375 }).collect(),
            vec![0.0; n],
            vec![1.0; n],
        ];
        if let Some(s) = side {
            // a dominant diagonal, an anti-diagonal permutation, a motion-like last row
            bases.push((0..n).map(|j| ((j * 7 + 3) % 5) as f64 - 2.0 + if j / s == j % s { 7.0 } else { 0.0 }).collect());
            bases.push((0..n).map(|j| (j / s + j % s == s - 1) as u8 as f64).collect());
            bases.push((0..n).map(|j| if j / s == s - 1 { (j == n - 1) as u8 as f64 } else { ((j * 3 + 1) % 4) as f64 * 0.5 - 0.5 }).collect());
        }
        let count = |k: usize| 1 + n as u64 * v + if k > 1 { (n as u64 * (n as u64 - 1) / 2) * v * v } else { 0 };
        let k = if count(2) * bases.len() as u64 <= cap { 2 } else { 1 };
        let per = count(k);
        Cases { n, vals: vals.to_vec(), bases, k, per }
    }
    pub fn size(&self) -> u64 { self.per * self.bases.len().max(1) as u64 }
    pub fn at(&self, mut i: u64) -> Vec<f64> {
        let v = self.vals.len() as u64;
        if self.bases.is_empty() {
            return (0..self.n).map(|_| { let x = self.vals[(i % v) as usize]; i /= v; x }).collect();
        }
        let mut x = self.bases[(i / self.per) as usize].clone();
        i %= self.per;
        if i == 0 { return x }
        i -= 1;
        if i < self.n as u64 * v {
            x[(i / v) as usize] = self.vals[(i % v) as usize];
            return x;
        }
        i -= self.n as u64 * v;
        let (a, b) = (self.vals[(i % v) as usize], self.vals[(i / v % v) as usize]);
        let mut p = i / (v * v);
        let mut c = 0u64;
        while p >= self.n as u64 - 1 - c { p -= self.n as u64 - 1 - c; c += 1 }
        x[c as usize] = a;
        x[(c + 1 + p) as usize] = b;
        x
    }
    pub fn devs(&self) -> usize { self.k }
}
/// Factors that make the arguments of an operation small (and large).
pub const CLOSE: [f64; 4] = [0.04, 3e-3, 1e-4, 37.0];
/// Component values for comparing two configurations of the library (the set is the same in both).
pub const COMPARE: [f64; 14] = [0.0, 1.0, -1.0, 0.5, -0.375, 0.1, 2.0, -3.0, 0.7071, 1.5707963267948966, 3.141592653589793, -2.2, 9.75, 1e-3];
