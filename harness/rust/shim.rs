// Stand-ins for the crates /repo/rust/lib.rs uses (none of them can be installed offline); this file is
// appended to lib.rs and compiled with it. Matrices are column-major as in nalgebra; arrays of Python
// keep their memory order as in rust-numpy (to_vec: memory order; reshape: same order).
#[allow(dead_code, unused)]
pub mod pyo3 {
    use std::collections::BTreeMap;
    #[derive(Clone, Debug)]
    pub enum Obj { None, Float(f64), Bool(bool), Int(i64), Array(super::numpy::Arr), Dict(BTreeMap<String, Obj>), Call(extern "C" fn(i64, i64, i64, f64, f64, f64, i32)) }
    #[derive(Clone, Copy)]
    pub struct Python<'py>(pub std::marker::PhantomData<&'py ()>);
    pub type PyObject = Obj;
    #[derive(Debug)]
    pub struct PyErr(pub String);
    impl std::fmt::Display for PyErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl std::error::Error for PyErr {}
    pub type PyResult<T> = Result<T, PyErr>;
    impl PyErr { pub fn new<E: exceptions::Kind, A: ToString>(a: A) -> PyErr { PyErr(format!("{}:{}", E::NAME, a.to_string())) } }
    pub mod exceptions {
        pub trait Kind { const NAME: &'static str; fn new_err<A: ToString>(a: A) -> super::PyErr where Self: Sized { super::PyErr::new::<Self, A>(a) } }
        pub struct PyRuntimeError; impl Kind for PyRuntimeError { const NAME: &'static str = "RuntimeError"; }
        pub struct PyValueError; impl Kind for PyValueError { const NAME: &'static str = "ValueError"; }
        impl PyRuntimeError { pub fn new_err<A: ToString>(a: A) -> super::PyErr { super::PyErr::new::<Self, A>(a) } }
        impl PyValueError { pub fn new_err<A: ToString>(a: A) -> super::PyErr { super::PyErr::new::<Self, A>(a) } }
    }
    pub trait ToObj { fn to_obj(self) -> Obj; }
    impl ToObj for Obj { fn to_obj(self) -> Obj { self } }
    impl ToObj for super::numpy::Arr { fn to_obj(self) -> Obj { Obj::Array(self) } }
    impl ToObj for f64 { fn to_obj(self) -> Obj { Obj::Float(self) } }
    impl ToObj for f32 { fn to_obj(self) -> Obj { Obj::Float(self as f64) } }
    impl ToObj for bool { fn to_obj(self) -> Obj { Obj::Bool(self) } }
    impl ToObj for i32 { fn to_obj(self) -> Obj { Obj::Int(self as i64) } }
    impl ToObj for i64 { fn to_obj(self) -> Obj { Obj::Int(self) } }
    impl ToObj for usize { fn to_obj(self) -> Obj { Obj::Int(self as i64) } }
    pub mod types {
        use super::{Obj, Python, PyResult, ToObj};
        use std::cell::RefCell;
        use std::collections::BTreeMap;
        pub struct PyFloat; pub struct PyBool; pub struct PyInt;
        impl PyFloat { pub fn new(_p: Python, x: f64) -> Obj { Obj::Float(x) } }
        impl PyBool { pub fn new(_p: Python, x: bool) -> Obj { Obj::Bool(x) } }
        impl PyInt { pub fn new<T: Into<i64>>(_p: Python, x: T) -> Obj { Obj::Int(x.into()) } }
        impl Obj { pub fn into_any(self) -> Obj { self } }
        pub struct PyDict(RefCell<BTreeMap<String, Obj>>);
        impl PyDict {
            pub fn new(_p: Python) -> PyDict { PyDict(RefCell::new(BTreeMap::new())) }
            pub fn set_item<V: ToObj>(&self, k: &str, v: V) -> PyResult<()> { self.0.borrow_mut().insert(k.to_string(), v.to_obj()); Ok(()) }
        }
        impl From<PyDict> for Obj { fn from(d: PyDict) -> Obj { Obj::Dict(d.0.into_inner()) } }
    }
    pub trait CallArgs { fn run(self, f: extern "C" fn(i64, i64, i64, f64, f64, f64, i32)); }
    impl<A: Into<i64>, B: Into<i64>, C: Into<i64>, D: Into<f64>, E: Into<f64>, F: Into<f64>> CallArgs for (A, B, C, D, E, F, bool) {
        fn run(self, f: extern "C" fn(i64, i64, i64, f64, f64, f64, i32)) {
            f(self.0.into(), self.1.into(), self.2.into(), self.3.into(), self.4.into(), self.5.into(), self.6 as i32)
        }
    }
    impl Obj { pub fn call1<A: CallArgs>(&self, _p: Python, a: A) -> PyResult<Obj> { if let Obj::Call(f) = self { a.run(*f) } Ok(Obj::None) } }
    pub mod prelude { pub use super::{Python, PyErr, PyResult, PyObject}; pub use esat_macros::{pyfunction, pymodule, pyo3}; }
    macro_rules! wrap_pyfunction { ($($t:tt)*) => { () } }
    pub(crate) use wrap_pyfunction;
}
#[allow(dead_code, unused)]
pub mod numpy {
    use super::pyo3::{PyResult, PyErr, Python};
    /// mem holds the values in memory order; f: the memory is in Fortran order
    #[derive(Clone, Debug)]
    pub struct Arr { pub shape: Vec<usize>, pub f: bool, pub mem: Vec<f64> }
    fn contiguous_both(s: &[usize]) -> bool { s.iter().filter(|x| **x != 1).count() <= 1 }
    impl Arr {
        pub fn reshape<S: AsRef<[usize]>>(&self, s: S) -> PyResult<Arr> {
            let s = s.as_ref().to_vec();
            if s.iter().product::<usize>() != self.mem.len() { return Err(PyErr("ValueError:cannot reshape array".into())) }
            Ok(Arr { f: self.f && !contiguous_both(&self.shape), shape: s, mem: self.mem.clone() })
        }
        pub fn reshape_with_order<S: AsRef<[usize]>, O>(&self, s: S, _o: O) -> PyResult<Arr> { self.reshape(s) }
    }
    pub struct PyReadonlyArrayDyn<'py, T> { pub shape: Vec<usize>, pub f: bool, pub mem: Vec<T>, pub p: std::marker::PhantomData<&'py ()> }
    #[derive(Debug)] pub struct NotContiguousError;
    impl<'py, T: Copy> PyReadonlyArrayDyn<'py, T> {
        pub fn dims(&self) -> Vec<usize> { self.shape.clone() }
        pub fn shape(&self) -> &[usize] { &self.shape }
        pub fn len(&self) -> usize { self.mem.len() }
        pub fn is_fortran_contiguous(&self) -> bool { self.f || contiguous_both(&self.shape) }
        pub fn is_c_contiguous(&self) -> bool { !self.f || contiguous_both(&self.shape) }
        pub fn to_vec(&self) -> Result<Vec<T>, NotContiguousError> { Ok(self.mem.clone()) }
        pub fn as_slice(&self) -> Result<&[T], NotContiguousError> { Ok(&self.mem) }
        pub fn as_array(&self) -> super::ndarray::Array2<T> { super::ndarray::Array2::with_order((self.shape[0], self.shape[1]), self.f, self.mem.clone()) }
        pub fn to_owned_array(&self) -> super::ndarray::Array2<T> { self.as_array() }
    }
    pub trait PyArrayMethods {} 
    pub trait IntoPyArray {}
    pub trait ToPyArray { fn to_pyarray(&self, p: Python) -> Arr; }
    impl<T: Copy + Into<f64>> ToPyArray for Vec<T> { fn to_pyarray(&self, _p: Python) -> Arr { Arr { shape: vec![self.len()], f: false, mem: self.iter().map(|x| (*x).into()).collect() } } }
    impl<T: Copy + Into<f64>> ToPyArray for [T] { fn to_pyarray(&self, _p: Python) -> Arr { Arr { shape: vec![self.len()], f: false, mem: self.iter().map(|x| (*x).into()).collect() } } }
    impl<T: Copy + Into<f64>> ToPyArray for super::ndarray::Array2<T> {
        fn to_pyarray(&self, _p: Python) -> Arr {
            let (r, c) = self.dim();
            // contiguous arrays keep their memory order, others are copied in C order
            if self.order() == Some('F') { Arr { shape: vec![r, c], f: true, mem: self.memory().into_iter().map(|x| x.into()).collect() } }
            else { Arr { shape: vec![r, c], f: false, mem: self.iter().map(|x| (*x).into()).collect() } }
        }
    }
}
#[allow(dead_code, unused)]
pub mod ndarray {
    #[derive(Clone, Debug)]
    pub struct Array2<T> { dim: (usize, usize), stride: (usize, usize), data: Vec<T> }
    pub struct Ix2;
    #[derive(Debug)] pub struct ShapeError;
    impl std::fmt::Display for ShapeError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "incompatible shapes") } }
    impl std::error::Error for ShapeError {}
    impl<T: Copy> Array2<T> {
        pub fn with_order(d: (usize, usize), f: bool, data: Vec<T>) -> Self { Array2 { dim: d, stride: if f { (1, d.0) } else { (d.1, 1) }, data } }
        pub fn from_shape_vec(d: (usize, usize), data: Vec<T>) -> Result<Self, ShapeError> { if d.0 * d.1 != data.len() { Err(ShapeError) } else { Ok(Self::with_order(d, false, data)) } }
        pub fn from_shape_fn<F: FnMut((usize, usize)) -> T>(d: (usize, usize), mut f: F) -> Self { let mut v = vec![]; for i in 0..d.0 { for j in 0..d.1 { v.push(f((i, j))) } } Self::with_order(d, false, v) }
        pub fn dim(&self) -> (usize, usize) { self.dim }
        pub fn shape(&self) -> [usize; 2] { [self.dim.0, self.dim.1] }
        pub fn nrows(&self) -> usize { self.dim.0 }
        pub fn ncols(&self) -> usize { self.dim.1 }
        pub fn len(&self) -> usize { self.data.len() }
        pub fn t(&self) -> Self { Array2 { dim: (self.dim.1, self.dim.0), stride: (self.stride.1, self.stride.0), data: self.data.clone() } }
        pub fn view(&self) -> Self { self.clone() }
        pub fn to_owned(&self) -> Self { self.clone() }
        pub fn into_dimensionality<D>(self) -> Result<Self, ShapeError> { Ok(self) }
        fn at(&self, i: usize, j: usize) -> &T { &self.data[i * self.stride.0 + j * self.stride.1] }
        pub fn iter(&self) -> std::vec::IntoIter<&T> { let mut v = vec![]; for i in 0..self.dim.0 { for j in 0..self.dim.1 { v.push(self.at(i, j)) } } v.into_iter() }
        pub fn order(&self) -> Option<char> {
            let (r, c) = self.dim;
            if (c == 1 || self.stride.1 == 1) && (r == 1 || self.stride.0 == c) { Some('C') }
            else if (r == 1 || self.stride.0 == 1) && (c == 1 || self.stride.1 == r) { Some('F') } else { None }
        }
        pub fn memory(&self) -> Vec<T> { self.data.clone() }
    }
    impl<T: Copy> std::ops::Index<(usize, usize)> for Array2<T> { type Output = T; fn index(&self, i: (usize, usize)) -> &T { self.at(i.0, i.1) } }
    impl<T: Copy> std::ops::Index<[usize; 2]> for Array2<T> { type Output = T; fn index(&self, i: [usize; 2]) -> &T { self.at(i[0], i[1]) } }
}
#[allow(dead_code, unused, non_camel_case_types)]
pub mod nalgebra {
    use std::marker::PhantomData;
    use std::ops::*;
    #[derive(Clone, Copy, Debug, PartialEq)] pub struct Dyn;
    #[derive(Clone, Copy, Debug, PartialEq)] pub struct U1;
    #[derive(Clone, Debug, PartialEq)]
    pub struct OMatrix<T, R = Dyn, C = Dyn> { r: usize, c: usize, d: Vec<T>, p: PhantomData<(R, C)> }
    pub type DMatrix<T> = OMatrix<T, Dyn, Dyn>;
    pub type DVector<T> = OMatrix<T, Dyn, U1>;
    pub type RowDVector<T> = OMatrix<T, U1, Dyn>;
    pub type Matrix<T, R, C> = OMatrix<T, R, C>;
    fn mk<R, C>(r: usize, c: usize, d: Vec<f32>) -> OMatrix<f32, R, C> { assert_eq!(r * c, d.len()); OMatrix { r, c, d, p: PhantomData } }
    impl OMatrix<f32, Dyn, Dyn> {
        pub fn from_vec(r: usize, c: usize, d: Vec<f32>) -> Self { mk(r, c, d) }
        pub fn from_column_slice(r: usize, c: usize, d: &[f32]) -> Self { mk(r, c, d.to_vec()) }
        pub fn from_row_slice(r: usize, c: usize, d: &[f32]) -> Self { Self::from_row_iterator(r, c, d.iter().cloned()) }
        pub fn from_iterator<I: IntoIterator<Item = f32>>(r: usize, c: usize, d: I) -> Self { mk(r, c, d.into_iter().take(r * c).collect()) }
        pub fn from_row_iterator<I: IntoIterator<Item = f32>>(r: usize, c: usize, d: I) -> Self {
            let v: Vec<f32> = d.into_iter().take(r * c).collect(); Self::from_fn(r, c, |i, j| v[i * c + j]) }
        pub fn from_fn<F: FnMut(usize, usize) -> f32>(r: usize, c: usize, mut f: F) -> Self { let mut d = vec![]; for j in 0..c { for i in 0..r { d.push(f(i, j)) } } mk(r, c, d) }
        pub fn from_element(r: usize, c: usize, x: f32) -> Self { mk(r, c, vec![x; r * c]) }
        pub fn zeros(r: usize, c: usize) -> Self { mk(r, c, vec![0.0; r * c]) }
        pub fn identity(r: usize, c: usize) -> Self { Self::from_fn(r, c, |i, j| if i == j { 1.0 } else { 0.0 }) }
        pub fn from_diagonal<R, C>(v: &OMatrix<f32, R, C>) -> Self { let n = v.d.len(); Self::from_fn(n, n, |i, j| if i == j { v.d[i] } else { 0.0 }) }
    }
    impl OMatrix<f32, Dyn, U1> {
        pub fn from_vec(d: Vec<f32>) -> Self { mk(d.len(), 1, d) }
        pub fn from_row_slice(d: &[f32]) -> Self { mk(d.len(), 1, d.to_vec()) }
        pub fn from_column_slice(d: &[f32]) -> Self { mk(d.len(), 1, d.to_vec()) }
        pub fn from_iterator<I: IntoIterator<Item = f32>>(n: usize, d: I) -> Self { mk(n, 1, d.into_iter().take(n).collect()) }
        pub fn zeros(n: usize) -> Self { mk(n, 1, vec![0.0; n]) }
    }
    impl OMatrix<f32, U1, Dyn> {
        pub fn from_vec(d: Vec<f32>) -> Self { mk(1, d.len(), d) }
        pub fn from_row_slice(d: &[f32]) -> Self { mk(1, d.len(), d.to_vec()) }
        pub fn from_iterator<I: IntoIterator<Item = f32>>(n: usize, d: I) -> Self { mk(1, n, d.into_iter().take(n).collect()) }
        pub fn zeros(n: usize) -> Self { mk(1, n, vec![0.0; n]) }
    }
    impl<R, C> OMatrix<f32, R, C> {
        pub fn shape(&self) -> (usize, usize) { (self.r, self.c) }
        pub fn nrows(&self) -> usize { self.r }
        pub fn ncols(&self) -> usize { self.c }
        pub fn len(&self) -> usize { self.d.len() }
        pub fn iter(&self) -> std::slice::Iter<'_, f32> { self.d.iter() }
        pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, f32> { self.d.iter_mut() }
        pub fn as_slice(&self) -> &[f32] { &self.d }
        pub fn data(&self) -> &[f32] { &self.d }
        pub fn clone_owned(&self) -> Self { mk(self.r, self.c, self.d.clone()) }
        pub fn into_owned(self) -> Self { self }
        pub fn transpose(&self) -> OMatrix<f32, C, R> { let mut d = vec![]; for i in 0..self.r { for j in 0..self.c { d.push(self.d[j * self.r + i]) } } mk(self.c, self.r, d) }
        pub fn map<F: FnMut(f32) -> f32>(&self, f: F) -> Self { mk(self.r, self.c, self.d.iter().cloned().map(f).collect()) }
        pub fn zip_map<R2, C2, F: FnMut(f32, f32) -> f32>(&self, o: &OMatrix<f32, R2, C2>, mut f: F) -> Self {
            assert_eq!(self.shape(), o.shape()); mk(self.r, self.c, self.d.iter().zip(o.d.iter()).map(|(a, b)| f(*a, *b)).collect()) }
        pub fn component_mul<R2, C2>(&self, o: &OMatrix<f32, R2, C2>) -> Self { self.zip_map(o, |a, b| a * b) }
        pub fn component_div<R2, C2>(&self, o: &OMatrix<f32, R2, C2>) -> Self { self.zip_map(o, |a, b| a / b) }
        pub fn component_mul_assign<R2, C2>(&mut self, o: &OMatrix<f32, R2, C2>) { *self = self.component_mul(o) }
        pub fn component_div_assign<R2, C2>(&mut self, o: &OMatrix<f32, R2, C2>) { *self = self.component_div(o) }
        pub fn abs(&self) -> Self { self.map(|x| x.abs()) }
        pub fn sum(&self) -> f32 { self.d.iter().sum() }
        pub fn norm_squared(&self) -> f32 { self.d.iter().map(|x| x * x).sum() }
        pub fn norm(&self) -> f32 { self.norm_squared().sqrt() }
        pub fn max(&self) -> f32 { self.d.iter().cloned().fold(f32::NEG_INFINITY, f32::max) }
        pub fn min(&self) -> f32 { self.d.iter().cloned().fold(f32::INFINITY, f32::min) }
        pub fn scale(&self, x: f32) -> Self { self.map(|y| y * x) }
        pub fn add_scalar(&self, x: f32) -> Self { self.map(|y| y + x) }
        pub fn dot<R2, C2>(&self, o: &OMatrix<f32, R2, C2>) -> f32 { self.d.iter().zip(o.d.iter()).map(|(a, b)| a * b).sum() }
        pub fn fill(&mut self, x: f32) { for y in self.d.iter_mut() { *y = x } }
        pub fn copy_from(&mut self, o: &Self) { assert_eq!(self.shape(), o.shape()); self.d = o.d.clone() }
        pub fn row(&self, i: usize) -> OMatrix<f32, U1, C> { assert!(i < self.r); mk(1, self.c, (0..self.c).map(|j| self.d[j * self.r + i]).collect()) }
        pub fn column(&self, j: usize) -> OMatrix<f32, R, U1> { assert!(j < self.c); mk(self.r, 1, self.d[j * self.r..(j + 1) * self.r].to_vec()) }
        pub fn set_row<R2, C2>(&mut self, i: usize, v: &OMatrix<f32, R2, C2>) { assert_eq!(v.shape(), (1, self.c)); for j in 0..self.c { self.d[j * self.r + i] = v.d[j] } }
        pub fn set_column<R2, C2>(&mut self, j: usize, v: &OMatrix<f32, R2, C2>) { assert_eq!(v.shape(), (self.r, 1)); for i in 0..self.r { self.d[j * self.r + i] = v.d[i] } }
        pub fn mul_to<R2, C2>(&self, o: &OMatrix<f32, R2, C2>, out: &mut OMatrix<f32, R, C2>) { *out = mul(self, o) }
        pub fn tr_mul<R2, C2>(&self, o: &OMatrix<f32, R2, C2>) -> OMatrix<f32, C, C2> { mul(&self.transpose(), o) }
        pub fn try_inverse(self) -> Option<Self> {
            assert_eq!(self.r, self.c);
            let n = self.r;
            let mut a: Vec<Vec<f64>> = (0..n).map(|i| (0..2 * n).map(|j| if j < n { self.d[j * n + i] as f64 } else if j - n == i { 1.0 } else { 0.0 }).collect()).collect();
            for c in 0..n {
                let p = (c..n).max_by(|x, y| a[*x][c].abs().partial_cmp(&a[*y][c].abs()).unwrap_or(std::cmp::Ordering::Equal)).unwrap();
                if a[p][c] == 0.0 || a[p][c].is_nan() { return None }
                a.swap(p, c);
                let d = a[c][c];
                for j in 0..2 * n { a[c][j] /= d }
                for i in 0..n { if i != c { let f = a[i][c]; for j in 0..2 * n { let x = a[c][j]; a[i][j] -= f * x } } }
            }
            let mut d = vec![];
            for j in 0..n { for i in 0..n { d.push(a[i][n + j] as f32) } }
            Some(mk(n, n, d))
        }
        pub fn pseudo_inverse(self, eps: f32) -> Result<OMatrix<f32, C, R>, &'static str> {
            // eigenvalues of A^T A by Jacobi rotations
            let (m, n) = (self.r, self.c);
            let at = |i: usize, j: usize| self.d[j * m + i] as f64;
            let mut b: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| (0..m).map(|k| at(k, i) * at(k, j)).sum()).collect()).collect();
            let mut v: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
            for _ in 0..60 { for p in 0..n { for q in (p + 1)..n {
                if b[p][q].abs() < 1e-300 { continue }
                let t = (b[q][q] - b[p][p]) / (2.0 * b[p][q]);
                let t = (if t >= 0.0 { 1.0 } else { -1.0 }) / (t.abs() + (t * t + 1.0).sqrt());
                let c = 1.0 / (t * t + 1.0).sqrt(); let s = t * c;
                for k in 0..n { let (x, y) = (b[k][p], b[k][q]); b[k][p] = c * x - s * y; b[k][q] = s * x + c * y; }
                for k in 0..n { let (x, y) = (b[p][k], b[q][k]); b[p][k] = c * x - s * y; b[q][k] = s * x + c * y; }
                for k in 0..n { let (x, y) = (v[k][p], v[k][q]); v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
            } } }
            let mut d = vec![];
            for j in 0..m { for i in 0..n { let mut x = 0.0; for e in 0..n { if b[e][e] > 0.0 && b[e][e].sqrt() > (eps as f64) {
                let w: f64 = (0..n).map(|k| v[k][e] * at(j, k)).sum(); x += v[i][e] * w / b[e][e] } } d.push(x as f32) } }
            Ok(mk(n, m, d))
        }
    }
    fn mul<A, B, C, D>(x: &OMatrix<f32, A, B>, y: &OMatrix<f32, C, D>) -> OMatrix<f32, A, D> {
        assert_eq!(x.c, y.r, "matrix product dimensions");
        let mut d = vec![0.0; x.r * y.c];
        for j in 0..y.c { for k in 0..x.c { let f = y.d[j * y.r + k]; for i in 0..x.r { d[j * x.r + i] += x.d[k * x.r + i] * f } } }
        mk(x.r, y.c, d)
    }
    macro_rules! prod { ($a:ty, $b:ty) => { impl<A, B, C, D> Mul<$b> for $a { type Output = OMatrix<f32, A, D>; fn mul(self, o: $b) -> Self::Output { mul(&self, &o) } } } }
    prod!(OMatrix<f32, A, B>, OMatrix<f32, C, D>); prod!(&OMatrix<f32, A, B>, OMatrix<f32, C, D>);
    prod!(OMatrix<f32, A, B>, &OMatrix<f32, C, D>); prod!(&OMatrix<f32, A, B>, &OMatrix<f32, C, D>);
    macro_rules! elem { ($t:ident, $f:ident, $o:tt, $a:ty, $b:ty) => { impl<A, B> $t<$b> for $a { type Output = OMatrix<f32, A, B>; fn $f(self, o: $b) -> Self::Output { self.zip_map(&o, |x, y| x $o y) } } } }
    macro_rules! elems { ($t:ident, $f:ident, $o:tt) => {
        elem!($t, $f, $o, OMatrix<f32, A, B>, OMatrix<f32, A, B>); elem!($t, $f, $o, &OMatrix<f32, A, B>, OMatrix<f32, A, B>);
        elem!($t, $f, $o, OMatrix<f32, A, B>, &OMatrix<f32, A, B>); elem!($t, $f, $o, &OMatrix<f32, A, B>, &OMatrix<f32, A, B>); } }
    elems!(Add, add, +); elems!(Sub, sub, -);
    macro_rules! scal { ($t:ident, $f:ident, $o:tt) => {
        impl<A, B> $t<f32> for OMatrix<f32, A, B> { type Output = OMatrix<f32, A, B>; fn $f(self, o: f32) -> Self::Output { self.map(|x| x $o o) } }
        impl<A, B> $t<f32> for &OMatrix<f32, A, B> { type Output = OMatrix<f32, A, B>; fn $f(self, o: f32) -> Self::Output { self.map(|x| x $o o) } } } }
    scal!(Mul, mul, *); scal!(Div, div, /);
    impl<A, B> Mul<OMatrix<f32, A, B>> for f32 { type Output = OMatrix<f32, A, B>; fn mul(self, o: OMatrix<f32, A, B>) -> Self::Output { o.map(|x| x * self) } }
    impl<A, B> Mul<&OMatrix<f32, A, B>> for f32 { type Output = OMatrix<f32, A, B>; fn mul(self, o: &OMatrix<f32, A, B>) -> Self::Output { o.map(|x| x * self) } }
    impl<A, B> Index<(usize, usize)> for OMatrix<f32, A, B> { type Output = f32; fn index(&self, i: (usize, usize)) -> &f32 { assert!(i.0 < self.r && i.1 < self.c); &self.d[i.1 * self.r + i.0] } }
    impl<A, B> IndexMut<(usize, usize)> for OMatrix<f32, A, B> { fn index_mut(&mut self, i: (usize, usize)) -> &mut f32 { assert!(i.0 < self.r && i.1 < self.c); let r = self.r; &mut self.d[i.1 * r + i.0] } }
    impl<A, B> Index<usize> for OMatrix<f32, A, B> { type Output = f32; fn index(&self, i: usize) -> &f32 { &self.d[i] } }
    impl<A, B> IndexMut<usize> for OMatrix<f32, A, B> { fn index_mut(&mut self, i: usize) -> &mut f32 { &mut self.d[i] } }
    impl<A, B> AddAssign<&OMatrix<f32, A, B>> for OMatrix<f32, A, B> { fn add_assign(&mut self, o: &OMatrix<f32, A, B>) { *self = self.zip_map(o, |x, y| x + y) } }
    impl<A, B> AddAssign<OMatrix<f32, A, B>> for OMatrix<f32, A, B> { fn add_assign(&mut self, o: OMatrix<f32, A, B>) { *self = self.zip_map(&o, |x, y| x + y) } }
}
#[allow(dead_code, unused)]
pub mod console {
    #[derive(Clone)] pub struct Term;
    impl Term {
        pub fn buffered_stdout() -> Term { Term } pub fn stdout() -> Term { Term }
        pub fn move_cursor_to(&self, _x: usize, _y: usize) -> std::io::Result<()> { Ok(()) }
        pub fn clear_screen(&self) -> std::io::Result<()> { Ok(()) } pub fn flush(&self) -> std::io::Result<()> { Ok(()) }
        pub fn clear_line(&self) -> std::io::Result<()> { Ok(()) }
    }
}
#[allow(dead_code, unused)]
pub mod indicatif {
    pub struct ProgressBar; pub struct ProgressStyle; pub struct ProgressDrawTarget;
    impl ProgressDrawTarget { pub fn term(_t: super::console::Term, _r: u8) -> Self { ProgressDrawTarget } pub fn hidden() -> Self { ProgressDrawTarget } }
    impl ProgressStyle { pub fn with_template(_s: &str) -> Result<Self, String> { Ok(ProgressStyle) } pub fn progress_chars(self, _s: &str) -> Self { self } }
    impl ProgressBar {
        pub fn with_draw_target(_n: Option<u64>, _t: ProgressDrawTarget) -> Self { ProgressBar } pub fn new(_n: u64) -> Self { ProgressBar }
        pub fn set_style(&self, _s: ProgressStyle) {} pub fn set_position(&self, _p: u64) {} pub fn inc(&self, _p: u64) {}
        pub fn set_message<S: ToString>(&self, _s: S) {} pub fn abandon_with_message<S: ToString>(&self, _s: S) {} pub fn finish_with_message<S: ToString>(&self, _s: S) {}
        pub fn abandon(&self) {} pub fn finish(&self) {}
    }
}
// Never used for a calculation: candle is built without CUDA, so the CPU implementation is always chosen.
#[allow(dead_code, unused)]
pub mod candle_core {
    #[derive(Clone, Debug)] pub enum Device { Cpu }
    impl Device { pub fn cuda_if_available(_i: usize) -> Result<Device> { Ok(Device::Cpu) } pub fn is_cuda(&self) -> bool { false } pub fn is_cpu(&self) -> bool { true } }
    #[derive(Debug)] pub struct Error(String);
    impl Error { pub fn msg<S: ToString>(s: S) -> Error { Error(s.to_string()) } }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    #[derive(Clone, Copy)] pub enum DType { F64, F32, U32, U8, I64 }
    #[derive(Clone, Debug)] pub struct Tensor;
    #[derive(Clone, Debug)] pub struct Shape;
    fn no<T>() -> Result<T> { Err(Error("no GPU".into())) }
    impl Shape { pub fn dims1(&self) -> Result<usize> { no() } pub fn dims2(&self) -> Result<(usize, usize)> { no() } pub fn elem_count(&self) -> usize { 0 } }
    macro_rules! un { ($($n:ident)*) => { $(pub fn $n(&self) -> Result<Tensor> { no() })* } }
    macro_rules! bin { ($($n:ident)*) => { $(pub fn $n(&self, _o: &Tensor) -> Result<Tensor> { no() })* } }
    impl Tensor {
        pub fn from_vec<S, T>(_v: Vec<T>, _s: S, _d: &Device) -> Result<Tensor> { no() }
        pub fn eye(_n: usize, _t: DType, _d: &Device) -> Result<Tensor> { no() }
        pub fn zeros<S>(_n: S, _t: DType, _d: &Device) -> Result<Tensor> { no() }
        un!(t abs sqrt sqr sum_all); bin!(matmul mul div sub add lt gt le ge);
        pub fn sum(&self, _d: usize) -> Result<Tensor> { no() }
        pub fn get(&self, _i: usize) -> Result<Tensor> { no() }
        pub fn get_on_dim(&self, _i: usize, _j: usize) -> Result<Tensor> { no() }
        pub fn shape(&self) -> Shape { Shape }
        pub fn device(&self) -> &Device { &Device::Cpu }
        pub fn to_dtype(&self, _t: DType) -> Result<Tensor> { no() }
        pub fn to_scalar<T>(&self) -> Result<T> { no() }
        pub fn to_vec1<T>(&self) -> Result<Vec<T>> { no() }
        pub fn to_vec2<T>(&self) -> Result<Vec<Vec<T>>> { no() }
        pub fn slice_set(&self, _t: &Tensor, _i: usize, _j: usize) -> Result<()> { no() }
        pub fn where_cond(&self, _a: &Tensor, _b: &Tensor) -> Result<Tensor> { no() }
    }
    macro_rules! op { ($t:ident, $f:ident, $a:ty, $b:ty) => { impl std::ops::$t<$b> for $a { type Output = Result<Tensor>; fn $f(self, _o: $b) -> Result<Tensor> { no() } } } }
    macro_rules! ops { ($t:ident, $f:ident) => { op!($t, $f, Tensor, Tensor); op!($t, $f, &Tensor, Tensor); op!($t, $f, Tensor, &Tensor); op!($t, $f, &Tensor, &Tensor); } }
    ops!(Add, add); ops!(Sub, sub); ops!(Mul, mul); ops!(Div, div);
}
#[allow(dead_code)]
mod verif_ffi {
    use super::pyo3::*;
    use super::numpy::{Arr, PyReadonlyArrayDyn};
    #[repr(C)] pub struct In { p: *const f32, r: i64, c: i64, f: i32 }
    #[repr(C)] pub struct Out { w: *mut f64, wf: i32, wr: i64, wc: i64, h: *mut f64, hf: i32, hr: i64, hc: i64, q: f64, converged: i32, converge_i: i64, ql: *mut f64, nq: i64, err: [u8; 256] }
    fn arr<'a>(x: &In) -> PyReadonlyArrayDyn<'a, f32> {
        let s = unsafe { std::slice::from_raw_parts(x.p, (x.r * x.c) as usize) };
        PyReadonlyArrayDyn { shape: vec![x.r as usize, x.c as usize], f: x.f != 0, mem: s.to_vec(), p: std::marker::PhantomData }
    }
    // a Python integer that does not fit the parameter cannot be passed
    fn int<T: TryFrom<i64>>(x: i64) -> PyResult<T> { T::try_from(x).map_err(|_| PyErr("OverflowError:out of range integral type conversion attempted".into())) }
    fn flag(x: i32) -> Option<bool> { if x < 0 { None } else { Some(x != 0) } }
    fn put(a: Option<&Obj>, p: *mut f64, n: usize) -> PyResult<Arr> {
        match a { Some(Obj::Array(a)) => { if a.mem.len() > n { return Err(PyErr("SystemError:array too long".into())) }
                    unsafe { std::ptr::copy_nonoverlapping(a.mem.as_ptr(), p, a.mem.len()) }; Ok(a.clone()) }
                  _ => Err(PyErr("KeyError:result".into())) }
    }
    fn go(m: i32, v: &In, u: &In, we: &In, w: &In, h: &In, it: i64, cd: f64, cn: i64, ra: f64, mi: i64, hold: i32, delay: i64, cb: Option<extern "C" fn(i64, i64, i64, f64, f64, f64, i32)>, gpu: i32, o: &mut Out) -> PyResult<()> {
        let py = Python(std::marker::PhantomData);
        let cb = cb.map(Obj::Call);
        let delay = if delay == i64::MIN { None } else { Some(int(delay)?) };
        let n = (v.r * v.c + w.r * w.c + h.r * h.c) as usize;
        let (nw, nh) = ((w.r * w.c) as usize, (h.r * h.c) as usize);
        let _ = n;
        let res = if m == 0 { super::ls_nmf(py, arr(v), arr(u), arr(we), arr(w), arr(h), int(it)?, cd as f32, int(cn)?, ra as f32, int(mi)?, flag(hold), delay, cb, flag(gpu))? }
                  else { super::ws_nmf(py, arr(v), arr(u), arr(we), arr(w), arr(h), int(it)?, cd as f32, int(cn)?, ra as f32, int(mi)?, flag(hold), delay, cb, flag(gpu))? };
        let d = match res { Obj::Dict(d) => d, _ => return Err(PyErr("TypeError:result".into())) };
        let a = put(d.get("w"), o.w, nw)?; o.wf = a.f as i32; o.wr = a.shape[0] as i64; o.wc = a.shape[1] as i64;
        let a = put(d.get("h"), o.h, nh)?; o.hf = a.f as i32; o.hr = a.shape[0] as i64; o.hc = a.shape[1] as i64;
        let a = put(d.get("q_list"), o.ql, it.max(0) as usize)?; o.nq = a.mem.len() as i64;
        if let Some(Obj::Float(x)) = d.get("q") { o.q = *x } else { return Err(PyErr("KeyError:q".into())) }
        if let Some(Obj::Bool(x)) = d.get("converged") { o.converged = *x as i32 } else { return Err(PyErr("KeyError:converged".into())) }
        if let Some(Obj::Int(x)) = d.get("converge_i") { o.converge_i = *x } else { return Err(PyErr("KeyError:converge_i".into())) }
        Ok(())
    }
    #[no_mangle]
    pub extern "C" fn esat_train(m: i32, v: &In, u: &In, we: &In, w: &In, h: &In, it: i64, cd: f64, cn: i64, ra: f64, mi: i64, hold: i32, delay: i64, cb: Option<extern "C" fn(i64, i64, i64, f64, f64, f64, i32)>, gpu: i32, o: &mut Out) -> i32 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(m, v, u, we, w, h, it, cd, cn, ra, mi, hold, delay, cb, gpu, o)));
        let msg = match r { Ok(Ok(())) => return 0, Ok(Err(e)) => e.0, Err(_) => "PanicException:panicked".to_string() };
        let b = msg.as_bytes(); let k = b.len().min(255);
        o.err[..k].copy_from_slice(&b[..k]); o.err[k] = 0;
        1
    }
}
