//! Small-matrix stand-in for nalgebra over symbolic scalars (exact cofactor expansion).
use std::ops::*;
use symrt::S;

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(transparent)]
pub struct Mat<T, const R: usize, const C: usize> {
    d: [[T; C]; R],
}
pub type Matrix2<T> = Mat<T, 2, 2>;
pub type Matrix3<T> = Mat<T, 3, 3>;
pub type Matrix4<T> = Mat<T, 4, 4>;
pub type Matrix2x3<T> = Mat<T, 2, 3>;
pub type Matrix3x2<T> = Mat<T, 3, 2>;
pub type Matrix2x1<T> = Mat<T, 2, 1>;
pub type Matrix3x1<T> = Mat<T, 3, 1>;
pub type Matrix4x1<T> = Mat<T, 4, 1>;
pub type Matrix1x2<T> = Mat<T, 1, 2>;
pub type Vector2<T> = Mat<T, 2, 1>;
pub type Vector3<T> = Mat<T, 3, 1>;
pub type Vector4<T> = Mat<T, 4, 1>;
pub type RowVector2<T> = Mat<T, 1, 2>;
pub type RowVector3<T> = Mat<T, 1, 3>;
pub type RowVector4<T> = Mat<T, 1, 4>;
pub type Matrix1x3<T> = Mat<T, 1, 3>;
pub type Matrix1x4<T> = Mat<T, 1, 4>;
pub type Matrix2x4<T> = Mat<T, 2, 4>;
pub type Matrix4x2<T> = Mat<T, 4, 2>;
pub type Matrix3x4<T> = Mat<T, 3, 4>;
pub type Matrix4x3<T> = Mat<T, 4, 3>;
pub type SMatrix<T, const R: usize, const C: usize> = Mat<T, R, C>;
pub type SVector<T, const R: usize> = Mat<T, R, 1>;
pub type Point2<T> = Mat<T, 2, 1>;
pub type Point3<T> = Mat<T, 3, 1>;

macro_rules! newm {
    ($r:expr, $c:expr, [$([$($a:ident),*]),*]) => {
        impl Mat<S, $r, $c> {
            #[allow(clippy::too_many_arguments)]
            pub fn new($($($a: S),*),*) -> Self {
                Mat { d: [$([$($a),*]),*] }
            }
        }
    };
}
newm!(2, 1, [[a], [b]]);
newm!(3, 1, [[a], [b], [c]]);
newm!(4, 1, [[a], [b], [c], [d]]);
newm!(1, 2, [[a, b]]);
newm!(1, 4, [[a, b, c, d]]);
newm!(2, 4, [[a, b, c, d], [e, f, g, h]]);
newm!(4, 2, [[a, b], [c, d], [e, f], [g, h]]);
newm!(3, 4, [[a, b, c, d], [e, f, g, h], [i, j, k, l]]);
newm!(4, 3, [[a, b, c], [d, e, f], [g, h, i], [j, k, l]]);
newm!(1, 3, [[a, b, c]]);
newm!(2, 2, [[a, b], [c, d]]);
newm!(2, 3, [[a, b, c], [d, e, f]]);
newm!(3, 2, [[a, b], [c, d], [e, f]]);
newm!(3, 3, [[a, b, c], [d, e, f], [g, h, i]]);
newm!(4, 4, [[a, b, c, d], [e, f, g, h], [i, j, k, l], [m, n, o, p]]);

const Z: S = S::C(0.0);
const I: S = S::C(1.0);

impl<const R: usize, const C: usize> Mat<S, R, C> {
    pub fn zeros() -> Self {
        Mat { d: [[Z; C]; R] }
    }
    pub fn from_row_slice(s: &[S]) -> Self {
        let mut m = Self::zeros();
        for i in 0..R {
            for j in 0..C {
                m.d[i][j] = s[i * C + j];
            }
        }
        m
    }
    pub fn from_column_slice(s: &[S]) -> Self {
        let mut m = Self::zeros();
        for i in 0..R {
            for j in 0..C {
                m.d[i][j] = s[j * R + i];
            }
        }
        m
    }
    pub fn from_fn<F: FnMut(usize, usize) -> S>(mut f: F) -> Self {
        let mut m = Self::zeros();
        for j in 0..C {
            for i in 0..R {
                m.d[i][j] = f(i, j);
            }
        }
        m
    }
    pub fn from_element(x: S) -> Self {
        Mat { d: [[x; C]; R] }
    }
    pub fn repeat(x: S) -> Self {
        Self::from_element(x)
    }
    pub fn from_rows(rows: &[Mat<S, 1, C>]) -> Self {
        assert!(rows.len() == R, "Invalid number of rows provided to build this matrix.");
        Self::from_fn(|i, j| rows[i].d[0][j])
    }
    pub fn from_columns(cols: &[Mat<S, R, 1>]) -> Self {
        assert!(cols.len() == C, "Invalid number of columns provided to build this matrix.");
        Self::from_fn(|i, j| cols[j].d[i][0])
    }
    pub fn from_vec(v: Vec<S>) -> Self {
        assert!(v.len() == R * C);
        Self::from_column_slice(&v)
    }
    pub fn from_iterator<It: IntoIterator<Item = S>>(it: It) -> Self {
        let v: Vec<S> = it.into_iter().take(R * C).collect();
        Self::from_vec(v)
    }
    pub fn from_row_iterator<It: IntoIterator<Item = S>>(it: It) -> Self {
        let v: Vec<S> = it.into_iter().take(R * C).collect();
        Self::from_row_slice(&v)
    }
    pub fn row(&self, i: usize) -> Mat<S, 1, C> {
        Mat { d: [self.d[i]; 1] }
    }
    pub fn column(&self, j: usize) -> Mat<S, R, 1> {
        Mat::<S, R, 1>::from_fn(|i, _| self.d[i][j])
    }
    pub fn set_row(&mut self, i: usize, r: &Mat<S, 1, C>) {
        self.d[i] = r.d[0];
    }
    pub fn set_column(&mut self, j: usize, c: &Mat<S, R, 1>) {
        for i in 0..R {
            self.d[i][j] = c.d[i][0];
        }
    }
    pub fn row_iter(&self) -> std::vec::IntoIter<Mat<S, 1, C>> {
        (0..R).map(|i| self.row(i)).collect::<Vec<_>>().into_iter()
    }
    pub fn column_iter(&self) -> std::vec::IntoIter<Mat<S, R, 1>> {
        (0..C).map(|j| self.column(j)).collect::<Vec<_>>().into_iter()
    }
    pub fn swap_rows(&mut self, a: usize, b: usize) {
        self.d.swap(a, b);
    }
    pub fn nrows(&self) -> usize {
        R
    }
    pub fn ncols(&self) -> usize {
        C
    }
    pub fn shape(&self) -> (usize, usize) {
        (R, C)
    }
    pub fn len(&self) -> usize {
        R * C
    }
    pub fn is_empty(&self) -> bool {
        R * C == 0
    }
    pub fn abs(&self) -> Self {
        self.map(|x| x.abs())
    }
    pub fn sum(&self) -> S {
        let mut t = Z;
        for x in self.iter() {
            t = t + *x;
        }
        t
    }
    pub fn max(&self) -> S {
        let v: Vec<S> = self.iter().cloned().collect();
        v[1..].iter().fold(v[0], |a, b| if *b > a { *b } else { a })
    }
    pub fn min(&self) -> S {
        let v: Vec<S> = self.iter().cloned().collect();
        v[1..].iter().fold(v[0], |a, b| if *b < a { *b } else { a })
    }
    pub fn amax(&self) -> S {
        self.abs().max()
    }
    pub fn component_mul(&self, o: &Self) -> Self {
        zip(self, o, |a, b| a * b)
    }
    pub fn component_div(&self, o: &Self) -> Self {
        zip(self, o, |a, b| a / b)
    }
    pub fn zip_map<F: FnMut(S, S) -> S>(&self, o: &Self, mut f: F) -> Self {
        Self::from_fn(|i, j| f(self.d[i][j], o.d[i][j]))
    }
    pub fn metric_distance(&self, o: &Self) -> S {
        zip(self, o, |a, b| a - b).norm()
    }
    pub fn lerp(&self, o: &Self, t: S) -> Self {
        zip(&self.scale(I - t), &o.scale(t), |a, b| a + b)
    }
    pub fn try_normalize(&self, min: S) -> Option<Self> {
        let n = self.norm();
        if n <= min {
            None
        } else {
            Some(self.map(|x| x / n))
        }
    }
    pub fn transpose(&self) -> Mat<S, C, R> {
        let mut m = Mat::<S, C, R>::zeros();
        for i in 0..R {
            for j in 0..C {
                m.d[j][i] = self.d[i][j];
            }
        }
        m
    }
    pub fn map<F: FnMut(S) -> S>(&self, mut f: F) -> Self {
        let mut m = *self;
        for i in 0..R {
            for j in 0..C {
                m.d[i][j] = f(self.d[i][j]);
            }
        }
        m
    }
    pub fn scale(&self, k: S) -> Self {
        self.map(|x| x * k)
    }
    pub fn dot(&self, o: &Self) -> S {
        let mut s = Z;
        for i in 0..R {
            for j in 0..C {
                s = s + self.d[i][j] * o.d[i][j];
            }
        }
        s
    }
    pub fn norm_squared(&self) -> S {
        self.dot(self)
    }
    pub fn magnitude_squared(&self) -> S {
        self.dot(self)
    }
    pub fn norm(&self) -> S {
        self.norm_squared().sqrt()
    }
    pub fn magnitude(&self) -> S {
        self.norm()
    }
    pub fn normalize(&self) -> Self {
        let n = self.norm();
        self.map(|x| x / n)
    }
    pub fn iter(&self) -> std::vec::IntoIter<&S> {
        let mut v = vec![];
        for j in 0..C {
            for i in 0..R {
                v.push(&self.d[i][j]);
            }
        }
        v.into_iter()
    }
}
impl Mat<S, 2, 1> {
    /// two-dimensional cross product
    pub fn perp(&self, o: &Self) -> S {
        self.d[0][0] * o.d[1][0] - self.d[1][0] * o.d[0][0]
    }
    pub fn angle(&self, o: &Self) -> S {
        (self.dot(o) / (self.norm() * o.norm())).acos()
    }
}
impl Mat<S, 3, 1> {
    pub fn cross(&self, o: &Self) -> Self {
        let (a, b) = (self, o);
        Mat::<S, 3, 1>::new(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    }
}

/// named components, laid out as the rows of the array
macro_rules! named {
    ($name:ident, $r:expr, $c:expr, [$($f:ident),*]) => {
        #[repr(C)]
        pub struct $name {
            $(pub $f: S),*
        }
        impl Deref for Mat<S, $r, $c> {
            type Target = $name;
            fn deref(&self) -> &$name {
                unsafe { &*(self as *const Self as *const $name) }
            }
        }
        impl DerefMut for Mat<S, $r, $c> {
            fn deref_mut(&mut self) -> &mut $name {
                unsafe { &mut *(self as *mut Self as *mut $name) }
            }
        }
    };
}
named!(C2x1, 2, 1, [x, y]);
named!(C1x2, 1, 2, [x, y]);
named!(C3x1, 3, 1, [x, y, z]);
named!(C1x3, 1, 3, [x, y, z]);
named!(C4x1, 4, 1, [x, y, z, w]);
named!(C2x2, 2, 2, [m11, m12, m21, m22]);
named!(C3x3, 3, 3, [m11, m12, m13, m21, m22, m23, m31, m32, m33]);
named!(C2x3, 2, 3, [m11, m12, m13, m21, m22, m23]);
named!(C3x2, 3, 2, [m11, m12, m21, m22, m31, m32]);

pub fn distance(a: &Mat<S, 2, 1>, b: &Mat<S, 2, 1>) -> S {
    a.metric_distance(b)
}
pub fn distance_squared(a: &Mat<S, 2, 1>, b: &Mat<S, 2, 1>) -> S {
    zip(a, b, |x, y| x - y).norm_squared()
}
pub fn center(a: &Mat<S, 2, 1>, b: &Mat<S, 2, 1>) -> Mat<S, 2, 1> {
    a.lerp(b, S::C(0.5))
}
impl Mat<S, 2, 1> {
    pub fn origin() -> Self {
        Self::zeros()
    }
    pub fn coords(&self) -> Self {
        *self
    }
    pub fn x() -> Self {
        Self::new(I, Z)
    }
    pub fn y() -> Self {
        Self::new(Z, I)
    }
}
impl<const R: usize> From<[S; R]> for Mat<S, R, 1> {
    fn from(a: [S; R]) -> Self {
        Self::from_column_slice(&a)
    }
}
/// nalgebra reads nested arrays column by column
impl<const R: usize, const C: usize> From<[[S; R]; C]> for Mat<S, R, C> {
    fn from(a: [[S; R]; C]) -> Self {
        Self::from_fn(|i, j| a[j][i])
    }
}

fn det_rec(m: &[Vec<S>]) -> S {
    let n = m.len();
    match n {
        1 => m[0][0],
        2 => m[0][0] * m[1][1] - m[1][0] * m[0][1],
        _ => {
            let mut s = Z;
            for j in 0..n {
                let minor: Vec<Vec<S>> = m[1..]
                    .iter()
                    .map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect())
                    .collect();
                let t = m[0][j] * det_rec(&minor);
                s = if j % 2 == 0 { s + t } else { s - t };
            }
            s
        }
    }
}
impl<const N: usize> Mat<S, N, N> {
    pub fn identity() -> Self {
        let mut m = Self::zeros();
        for i in 0..N {
            m.d[i][i] = I;
        }
        m
    }
    fn rows(&self) -> Vec<Vec<S>> {
        self.d.iter().map(|r| r.to_vec()).collect()
    }
    pub fn determinant(&self) -> S {
        det_rec(&self.rows())
    }
    pub fn is_invertible(&self) -> bool {
        // the real one for N <= 3 tests the determinant against exactly zero
        self.determinant() != Z
    }
    pub fn try_inverse(self) -> Option<Self> {
        let d = self.determinant();
        if d == Z {
            return None;
        }
        let r = self.rows();
        let mut m = Self::zeros();
        for i in 0..N {
            for j in 0..N {
                let minor: Vec<Vec<S>> = r
                    .iter()
                    .enumerate()
                    .filter(|(k, _)| *k != i)
                    .map(|(_, row)| row.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect())
                    .collect();
                let c = if N == 1 { I } else { det_rec(&minor) };
                m.d[j][i] = (if (i + j) % 2 == 0 { c } else { Z - c }) / d;
            }
        }
        Some(m)
    }
    pub fn trace(&self) -> S {
        (0..N).fold(Z, |s, i| s + self.d[i][i])
    }
}

impl<T, const R: usize, const C: usize> Index<usize> for Mat<T, R, C> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.d[i % R][i / R]
    }
}
impl<T, const R: usize, const C: usize> IndexMut<usize> for Mat<T, R, C> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.d[i % R][i / R]
    }
}
impl<T, const R: usize, const C: usize> Index<(usize, usize)> for Mat<T, R, C> {
    type Output = T;
    fn index(&self, i: (usize, usize)) -> &T {
        &self.d[i.0][i.1]
    }
}
impl<T, const R: usize, const C: usize> IndexMut<(usize, usize)> for Mat<T, R, C> {
    fn index_mut(&mut self, i: (usize, usize)) -> &mut T {
        &mut self.d[i.0][i.1]
    }
}

fn zip<const R: usize, const C: usize>(a: &Mat<S, R, C>, b: &Mat<S, R, C>, f: fn(S, S) -> S) -> Mat<S, R, C> {
    let mut m = *a;
    for i in 0..R {
        for j in 0..C {
            m.d[i][j] = f(a.d[i][j], b.d[i][j]);
        }
    }
    m
}
macro_rules! zipop {
    ($tr:ident, $f:ident, $e:expr) => {
        impl<const R: usize, const C: usize> $tr for Mat<S, R, C> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                zip(&self, &o, $e)
            }
        }
        impl<'a, const R: usize, const C: usize> $tr<&'a Mat<S, R, C>> for Mat<S, R, C> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                zip(&self, o, $e)
            }
        }
        impl<'a, 'b, const R: usize, const C: usize> $tr<&'b Mat<S, R, C>> for &'a Mat<S, R, C> {
            type Output = Mat<S, R, C>;
            fn $f(self, o: &'b Mat<S, R, C>) -> Mat<S, R, C> {
                zip(self, o, $e)
            }
        }
    };
}
zipop!(Add, add, |a, b| a + b);
zipop!(Sub, sub, |a, b| a - b);
impl<const R: usize, const C: usize> Neg for Mat<S, R, C> {
    type Output = Self;
    fn neg(self) -> Self {
        self.map(|x| -x)
    }
}
impl<const R: usize, const C: usize> Mul<S> for Mat<S, R, C> {
    type Output = Self;
    fn mul(self, k: S) -> Self {
        self.map(|x| x * k)
    }
}
impl<const R: usize, const C: usize> Div<S> for Mat<S, R, C> {
    type Output = Self;
    fn div(self, k: S) -> Self {
        self.map(|x| x / k)
    }
}
impl<const R: usize, const C: usize> Mul<Mat<S, R, C>> for S {
    type Output = Mat<S, R, C>;
    fn mul(self, m: Mat<S, R, C>) -> Mat<S, R, C> {
        m.map(|x| self * x)
    }
}
fn mm<const R: usize, const K: usize, const C: usize>(a: &Mat<S, R, K>, b: &Mat<S, K, C>) -> Mat<S, R, C> {
    let mut m = Mat::<S, R, C>::zeros();
    for i in 0..R {
        for j in 0..C {
            let mut s = Z;
            for k in 0..K {
                s = s + a.d[i][k] * b.d[k][j];
            }
            m.d[i][j] = s;
        }
    }
    m
}
impl<const R: usize, const K: usize, const C: usize> Mul<Mat<S, K, C>> for Mat<S, R, K> {
    type Output = Mat<S, R, C>;
    fn mul(self, o: Mat<S, K, C>) -> Mat<S, R, C> {
        mm(&self, &o)
    }
}
impl<'a, const R: usize, const K: usize, const C: usize> Mul<&'a Mat<S, K, C>> for Mat<S, R, K> {
    type Output = Mat<S, R, C>;
    fn mul(self, o: &'a Mat<S, K, C>) -> Mat<S, R, C> {
        mm(&self, o)
    }
}
impl<'a, 'b, const R: usize, const K: usize, const C: usize> Mul<&'b Mat<S, K, C>> for &'a Mat<S, R, K> {
    type Output = Mat<S, R, C>;
    fn mul(self, o: &'b Mat<S, K, C>) -> Mat<S, R, C> {
        mm(self, o)
    }
}

impl<'a, const R: usize, const C: usize> Neg for &'a Mat<S, R, C> {
    type Output = Mat<S, R, C>;
    fn neg(self) -> Mat<S, R, C> {
        self.map(|x| -x)
    }
}
impl<'a, const R: usize, const C: usize> Mul<S> for &'a Mat<S, R, C> {
    type Output = Mat<S, R, C>;
    fn mul(self, k: S) -> Mat<S, R, C> {
        self.map(|x| x * k)
    }
}
impl<'a, const R: usize, const C: usize> Div<S> for &'a Mat<S, R, C> {
    type Output = Mat<S, R, C>;
    fn div(self, k: S) -> Mat<S, R, C> {
        self.map(|x| x / k)
    }
}
impl<'a, const R: usize, const C: usize> Mul<&'a Mat<S, R, C>> for S {
    type Output = Mat<S, R, C>;
    fn mul(self, m: &'a Mat<S, R, C>) -> Mat<S, R, C> {
        m.map(|x| self * x)
    }
}
impl<'a, const R: usize, const K: usize, const C: usize> Mul<Mat<S, K, C>> for &'a Mat<S, R, K> {
    type Output = Mat<S, R, C>;
    fn mul(self, o: Mat<S, K, C>) -> Mat<S, R, C> {
        mm(self, &o)
    }
}
impl<'a, const R: usize, const C: usize> Add<Mat<S, R, C>> for &'a Mat<S, R, C> {
    type Output = Mat<S, R, C>;
    fn add(self, o: Mat<S, R, C>) -> Mat<S, R, C> {
        zip(self, &o, |a, b| a + b)
    }
}
impl<'a, const R: usize, const C: usize> Sub<Mat<S, R, C>> for &'a Mat<S, R, C> {
    type Output = Mat<S, R, C>;
    fn sub(self, o: Mat<S, R, C>) -> Mat<S, R, C> {
        zip(self, &o, |a, b| a - b)
    }
}
impl<const R: usize, const C: usize> AddAssign for Mat<S, R, C> {
    fn add_assign(&mut self, o: Self) {
        *self = zip(self, &o, |a, b| a + b);
    }
}
impl<const R: usize, const C: usize> SubAssign for Mat<S, R, C> {
    fn sub_assign(&mut self, o: Self) {
        *self = zip(self, &o, |a, b| a - b);
    }
}
impl<const R: usize, const C: usize> MulAssign<S> for Mat<S, R, C> {
    fn mul_assign(&mut self, k: S) {
        *self = self.map(|x| x * k);
    }
}
impl<const R: usize, const C: usize> DivAssign<S> for Mat<S, R, C> {
    fn div_assign(&mut self, k: S) {
        *self = self.map(|x| x / k);
    }
}
