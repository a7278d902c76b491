//! Minimal stand-in for the subset of rust-numpy 0.29 the crate under test uses.
#![allow(clippy::all, dead_code)]
use pyo3::{Bound, FromPyObject, Py, PyAny, PyErr, PyResult, PyTypeCheck, Python, ffi};
use std::marker::PhantomData;

pub mod ndarray {
    use std::marker::PhantomData;
    #[derive(Clone, Copy)]
    pub struct ArrayView1<'a, T> {
        ptr: *const T,
        n: usize,
        stride: isize, // in bytes
        _p: PhantomData<&'a T>,
    }
    pub struct Iter<'a, T> {
        v: ArrayView1<'a, T>,
        i: usize,
    }
    impl<'a, T> ArrayView1<'a, T> {
        pub unsafe fn from_raw(ptr: *const T, n: usize, stride: isize) -> Self {
            ArrayView1 { ptr, n, stride, _p: PhantomData }
        }
        pub fn len(&self) -> usize {
            self.n
        }
        pub fn is_empty(&self) -> bool {
            self.n == 0
        }
        pub fn get(&self, i: usize) -> Option<&'a T> {
            if i < self.n {
                Some(unsafe { &*((self.ptr as *const u8).offset(self.stride * i as isize) as *const T) })
            } else {
                None
            }
        }
        pub fn iter(&self) -> Iter<'a, T> {
            Iter { v: ArrayView1 { ptr: self.ptr, n: self.n, stride: self.stride, _p: PhantomData }, i: 0 }
        }
        pub fn to_vec(&self) -> Vec<T>
        where
            T: Clone,
        {
            self.iter().cloned().collect()
        }
        pub fn as_slice(&self) -> Option<&'a [T]> {
            if self.n <= 1 || self.stride == std::mem::size_of::<T>() as isize {
                if self.n == 0 {
                    return Some(&[]);
                }
                Some(unsafe { std::slice::from_raw_parts(self.ptr, self.n) })
            } else {
                None
            }
        }
        pub fn map<U>(&self, f: impl FnMut(&T) -> U) -> Array1<U> {
            Array1 { data: self.iter().map(f).collect() }
        }
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            let r = self.v.get(self.i);
            self.i += 1;
            r
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.v.n.saturating_sub(self.i);
            (n, Some(n))
        }
    }
    impl<T> ExactSizeIterator for Iter<'_, T> {}
    impl<'a, T> IntoIterator for ArrayView1<'a, T> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<'a, 'b, T> IntoIterator for &'b ArrayView1<'a, T> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T> std::ops::Index<usize> for ArrayView1<'_, T> {
        type Output = T;
        fn index(&self, i: usize) -> &T {
            self.get(i).expect("ndarray: index out of bounds")
        }
    }
    pub struct Array1<T> {
        pub(crate) data: Vec<T>,
    }
    impl<T> Array1<T> {
        pub fn from_vec(data: Vec<T>) -> Self {
            Array1 { data }
        }
        pub fn from_iter(it: impl IntoIterator<Item = T>) -> Self {
            Array1 { data: it.into_iter().collect() }
        }
        pub fn zeros(n: usize) -> Self
        where
            T: Default + Clone,
        {
            Array1 { data: vec![T::default(); n] }
        }
    }
    impl<T> From<Vec<T>> for Array1<T> {
        fn from(data: Vec<T>) -> Self {
            Array1 { data }
        }
    }
    impl<T> std::ops::Index<usize> for Array1<T> {
        type Output = T;
        fn index(&self, i: usize) -> &T {
            &self.data[i]
        }
    }
    impl<T> std::ops::IndexMut<usize> for Array1<T> {
        fn index_mut(&mut self, i: usize) -> &mut T {
            &mut self.data[i]
        }
    }
    #[derive(Debug)]
    pub struct ShapeError;
    impl std::fmt::Display for ShapeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("ShapeError/IncompatibleShape: incompatible shapes")
        }
    }
    pub struct Array2<T> {
        pub(crate) data: Vec<T>,
        pub(crate) shape: (usize, usize),
    }
    impl<T> Array2<T> {
        pub fn from_shape_vec(shape: (usize, usize), data: Vec<T>) -> Result<Self, ShapeError> {
            if shape.0 * shape.1 == data.len() {
                Ok(Array2 { data, shape })
            } else {
                Err(ShapeError)
            }
        }
        pub fn zeros(shape: (usize, usize)) -> Self
        where
            T: Default + Clone,
        {
            Array2 { data: vec![T::default(); shape.0 * shape.1], shape }
        }
        pub fn from_shape_fn(shape: (usize, usize), mut f: impl FnMut((usize, usize)) -> T) -> Self {
            let mut data = Vec::with_capacity(shape.0 * shape.1);
            for i in 0..shape.0 {
                for j in 0..shape.1 {
                    data.push(f((i, j)));
                }
            }
            Array2 { data, shape }
        }
    }
    impl<T> std::ops::Index<[usize; 2]> for Array2<T> {
        type Output = T;
        fn index(&self, i: [usize; 2]) -> &T {
            assert!(i[0] < self.shape.0 && i[1] < self.shape.1, "ndarray: index out of bounds");
            &self.data[i[0] * self.shape.1 + i[1]]
        }
    }
    impl<T> std::ops::IndexMut<[usize; 2]> for Array2<T> {
        fn index_mut(&mut self, i: [usize; 2]) -> &mut T {
            assert!(i[0] < self.shape.0 && i[1] < self.shape.1, "ndarray: index out of bounds");
            &mut self.data[i[0] * self.shape.1 + i[1]]
        }
    }
    impl<T> std::ops::Index<(usize, usize)> for Array2<T> {
        type Output = T;
        fn index(&self, i: (usize, usize)) -> &T {
            &self[[i.0, i.1]]
        }
    }
    impl<T> std::ops::IndexMut<(usize, usize)> for Array2<T> {
        fn index_mut(&mut self, i: (usize, usize)) -> &mut T {
            &mut self[[i.0, i.1]]
        }
    }
}

pub struct PyUntypedArray;
pub struct PyArrayDescr;
pub struct PyArray<T, D>(PhantomData<(T, D)>);
pub struct Ix1;
pub struct Ix2;
pub type PyArray1<T> = PyArray<T, Ix1>;
pub type PyArray2<T> = PyArray<T, Ix2>;

pub trait PyUntypedArrayMethods<'py> {
    fn ndim(&self) -> usize;
    fn dtype(&self) -> Bound<'py, PyArrayDescr>;
    fn shape_vec(&self) -> Vec<usize>;
    fn len(&self) -> usize {
        self.shape_vec().iter().product()
    }
}
pub trait PyArrayMethods {}
pub trait PyArrayDescrMethods {}

fn numpy_attr<'py>(py: Python<'py>, name: &str) -> Bound<'py, PyAny> {
    py.import("numpy").expect("Failed to access NumPy array API capsule").getattr(name).unwrap()
}
fn is_ndarray(ptr: *mut ffi::PyObject) -> bool {
    unsafe {
        let py = Python::assume();
        let t = numpy_attr(py, "ndarray");
        ffi::PyObject_IsInstance(ptr, t.as_ptr()) == 1
    }
}
fn is_f64(ptr: *mut ffi::PyObject) -> bool {
    unsafe {
        let py = Python::assume();
        let a: Bound<'_, PyAny> = Bound::from_borrowed(py, ptr);
        let dt = a.getattr("dtype").unwrap();
        let want = numpy_attr(py, "dtype").call1(("float64",)).unwrap();
        ffi::PyObject_RichCompareBool(dt.as_ptr(), want.as_ptr(), 2) == 1
    }
}
fn ndim(ptr: *mut ffi::PyObject) -> usize {
    unsafe {
        let a: Bound<'_, PyAny> = Bound::from_borrowed(Python::assume(), ptr);
        a.getattr("ndim").unwrap().extract::<usize>().unwrap()
    }
}
impl PyTypeCheck for PyUntypedArray {
    const NAME: &'static str = "PyUntypedArray";
    fn check(ptr: *mut ffi::PyObject) -> bool {
        is_ndarray(ptr)
    }
}
impl PyTypeCheck for PyArray<f64, Ix1> {
    const NAME: &'static str = "PyArray<T, D>";
    fn check(ptr: *mut ffi::PyObject) -> bool {
        is_ndarray(ptr) && ndim(ptr) == 1 && is_f64(ptr)
    }
}
impl PyTypeCheck for PyArray<f64, Ix2> {
    const NAME: &'static str = "PyArray<T, D>";
    fn check(ptr: *mut ffi::PyObject) -> bool {
        is_ndarray(ptr) && ndim(ptr) == 2 && is_f64(ptr)
    }
}
impl<'py, T> PyUntypedArrayMethods<'py> for Bound<'py, T> {
    fn ndim(&self) -> usize {
        ndim(self.as_ptr())
    }
    fn dtype(&self) -> Bound<'py, PyArrayDescr> {
        let d = self.getattr("dtype").unwrap();
        unsafe { Bound::from_owned(self.py(), d.into_ptr()) }
    }
    fn shape_vec(&self) -> Vec<usize> {
        self.getattr("shape").unwrap().extract::<Vec<usize>>().unwrap()
    }
}

/// A read-only 1-D `float64` view; keeps the array alive through the buffer.
pub struct PyReadonlyArray<'py, T, D> {
    buf: Box<ffi::Py_buffer>,
    _p: PhantomData<(&'py (), T, D)>,
}
pub type PyReadonlyArray1<'py, T> = PyReadonlyArray<'py, T, Ix1>;

impl<T, D> Drop for PyReadonlyArray<'_, T, D> {
    fn drop(&mut self) {
        unsafe { ffi::PyBuffer_Release(&mut *self.buf) }
    }
}
impl<'py> PyReadonlyArray<'py, f64, Ix1> {
    fn new(o: &Bound<'py, PyAny>) -> PyResult<Self> {
        unsafe {
            let mut buf: Box<ffi::Py_buffer> = Box::new(std::mem::zeroed());
            if ffi::PyObject_GetBuffer(o.as_ptr(), &mut *buf, ffi::PyBUF_STRIDES) != 0 {
                return Err(PyErr::fetch(o.py()));
            }
            Ok(PyReadonlyArray { buf, _p: PhantomData })
        }
    }
    pub fn as_array(&self) -> ndarray::ArrayView1<'_, f64> {
        unsafe {
            ndarray::ArrayView1::from_raw(
                self.buf.buf as *const f64,
                *self.buf.shape as usize,
                *self.buf.strides,
            )
        }
    }
    pub fn as_slice(&self) -> Result<&[f64], NotContiguousError> {
        self.as_array().as_slice().ok_or(NotContiguousError)
    }
    pub fn len(&self) -> usize {
        self.as_array().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn to_vec(&self) -> Result<Vec<f64>, NotContiguousError> {
        self.as_slice().map(|s| s.to_vec())
    }
}
#[derive(Debug)]
pub struct NotContiguousError;
impl std::fmt::Display for NotContiguousError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("The given array is not contiguous")
    }
}
impl From<NotContiguousError> for PyErr {
    fn from(e: NotContiguousError) -> PyErr {
        pyo3::exceptions::PyValueError::new_err(e.to_string())
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for PyReadonlyArray<'py, f64, Ix1> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        let a = o.cast::<PyArray1<f64>>()?;
        PyReadonlyArray::new(a.as_any())
    }
}
impl<'py> PyArray<f64, Ix1> {
    pub fn from_vec(py: Python<'py>, v: Vec<f64>) -> Bound<'py, PyArray1<f64>> {
        v.into_pyarray(py)
    }
    pub fn from_slice(py: Python<'py>, v: &[f64]) -> Bound<'py, PyArray1<f64>> {
        v.to_vec().into_pyarray(py)
    }
    pub fn from_iter(py: Python<'py>, v: impl IntoIterator<Item = f64>) -> Bound<'py, PyArray1<f64>> {
        v.into_iter().collect::<Vec<_>>().into_pyarray(py)
    }
}

fn filled<'py>(py: Python<'py>, data: &[f64], shape: &[usize]) -> *mut ffi::PyObject {
    unsafe {
        let shp: Vec<usize> = shape.to_vec();
        let a = numpy_attr(py, "empty").call1((pyo3::types::PyTuple::new(py, shp).unwrap(),)).unwrap();
        let mut buf: ffi::Py_buffer = std::mem::zeroed();
        let rc = ffi::PyObject_GetBuffer(a.as_ptr(), &mut buf, ffi::PyBUF_WRITABLE | ffi::PyBUF_STRIDES);
        assert_eq!(rc, 0);
        assert_eq!(buf.len as usize, std::mem::size_of_val(data));
        if !data.is_empty() {
            std::ptr::copy_nonoverlapping(data.as_ptr(), buf.buf as *mut f64, data.len());
        }
        ffi::PyBuffer_Release(&mut buf);
        a.into_ptr()
    }
}

pub trait IntoPyArray {
    type Dim;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray<f64, Self::Dim>>;
}
impl IntoPyArray for Vec<f64> {
    type Dim = Ix1;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> {
        unsafe { Bound::from_owned(py, filled(py, &self, &[self.len()])) }
    }
}
impl IntoPyArray for ndarray::Array1<f64> {
    type Dim = Ix1;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> {
        self.data.into_pyarray(py)
    }
}
impl IntoPyArray for ndarray::Array2<f64> {
    type Dim = Ix2;
    fn into_pyarray<'py>(self, py: Python<'py>) -> Bound<'py, PyArray2<f64>> {
        unsafe { Bound::from_owned(py, filled(py, &self.data, &[self.shape.0, self.shape.1])) }
    }
}
pub trait ToPyArray {
    fn to_pyarray<'py>(&self, py: Python<'py>) -> Bound<'py, PyArray1<f64>>;
}
impl ToPyArray for [f64] {
    fn to_pyarray<'py>(&self, py: Python<'py>) -> Bound<'py, PyArray1<f64>> {
        self.to_vec().into_pyarray(py)
    }
}
#[allow(unused)]
type _Unused = Py<PyAny>;
