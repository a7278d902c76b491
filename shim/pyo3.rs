//! Minimal stand-in for the subset of pyo3 0.29 the crate under test uses,
//! over the plain CPython C API.  It exists because the real pyo3 cannot be
//! fetched offline; with it the crate's *own* sources, glue included, compile
//! unmodified into a loadable `hazma._core`.
#![allow(clippy::all, dead_code)]

pub use pyo3_macros::{pyfunction, pymodule};

pub mod ffi {
    use std::ffi::{c_char, c_int, c_void};
    #[repr(C)]
    pub struct PyObject {
        _p: [u8; 0],
    }
    #[repr(C)]
    pub struct PyMethodDef {
        pub ml_name: *const c_char,
        pub ml_meth: *const c_void,
        pub ml_flags: c_int,
        pub ml_doc: *const c_char,
    }
    #[repr(C)]
    pub struct PyModuleDef {
        pub ob_refcnt: isize,
        pub ob_type: *mut c_void,
        pub m_init: *mut c_void,
        pub m_index: isize,
        pub m_copy: *mut c_void,
        pub m_name: *const c_char,
        pub m_doc: *const c_char,
        pub m_size: isize,
        pub m_methods: *mut c_void,
        pub m_slots: *mut c_void,
        pub m_traverse: *mut c_void,
        pub m_clear: *mut c_void,
        pub m_free: *mut c_void,
    }
    #[repr(C)]
    pub struct Py_buffer {
        pub buf: *mut c_void,
        pub obj: *mut PyObject,
        pub len: isize,
        pub itemsize: isize,
        pub readonly: c_int,
        pub ndim: c_int,
        pub format: *mut c_char,
        pub shape: *mut isize,
        pub strides: *mut isize,
        pub suboffsets: *mut isize,
        pub internal: *mut c_void,
    }
    pub const METH_FASTCALL: c_int = 0x0080;
    pub const METH_KEYWORDS: c_int = 0x0002;
    pub const PyBUF_WRITABLE: c_int = 1;
    pub const PyBUF_STRIDES: c_int = 0x18;
    unsafe extern "C" {
        pub static mut PyExc_TypeError: *mut PyObject;
        pub static mut PyExc_ValueError: *mut PyObject;
        pub static mut PyExc_OverflowError: *mut PyObject;
        pub static mut PyExc_RuntimeError: *mut PyObject;
        pub static mut PyExc_ZeroDivisionError: *mut PyObject;
        pub static mut PyExc_ArithmeticError: *mut PyObject;
        pub static mut PyExc_IndexError: *mut PyObject;
        pub static mut PyExc_KeyError: *mut PyObject;
        pub static mut PyExc_AttributeError: *mut PyObject;
        pub static mut PyExc_AssertionError: *mut PyObject;
        pub static mut PyExc_NotImplementedError: *mut PyObject;
        pub static mut PyExc_ImportError: *mut PyObject;
        pub static mut PyExc_Exception: *mut PyObject;
        pub static mut PyExc_BaseException: *mut PyObject;
        pub static mut PyExc_FloatingPointError: *mut PyObject;
        pub static mut PyFloat_Type: PyObject;
        pub static mut PyTuple_Type: PyObject;
        pub static mut PyUnicode_Type: PyObject;
        pub static mut PyList_Type: PyObject;
        pub static mut PyLong_Type: PyObject;
        pub static mut PyDict_Type: PyObject;
        pub static mut PyModule_Type: PyObject;
        pub static mut _Py_NoneStruct: PyObject;
        pub fn Py_IncRef(o: *mut PyObject);
        pub fn Py_DecRef(o: *mut PyObject);
        pub fn PyObject_IsInstance(o: *mut PyObject, t: *mut PyObject) -> c_int;
        pub fn PyObject_GetAttrString(o: *mut PyObject, n: *const c_char) -> *mut PyObject;
        pub fn PyObject_HasAttrStringWithError_dummy();
        pub fn PyObject_SetAttrString(o: *mut PyObject, n: *const c_char, v: *mut PyObject)
        -> c_int;
        pub fn PyObject_SetItem(o: *mut PyObject, k: *mut PyObject, v: *mut PyObject) -> c_int;
        pub fn PyObject_GetItem(o: *mut PyObject, k: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Call(
            o: *mut PyObject,
            args: *mut PyObject,
            kw: *mut PyObject,
        ) -> *mut PyObject;
        pub fn PyObject_Str(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Repr(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_Size(o: *mut PyObject) -> isize;
        pub fn PyObject_Type(o: *mut PyObject) -> *mut PyObject;
        pub fn PyObject_IsTrue(o: *mut PyObject) -> c_int;
        pub fn PyObject_RichCompareBool(a: *mut PyObject, b: *mut PyObject, op: c_int) -> c_int;
        pub fn PyObject_GetBuffer(o: *mut PyObject, b: *mut Py_buffer, flags: c_int) -> c_int;
        pub fn PyBuffer_Release(b: *mut Py_buffer);
        pub fn PyCallable_Check(o: *mut PyObject) -> c_int;
        pub fn PySequence_Check(o: *mut PyObject) -> c_int;
        pub fn PySequence_Size(o: *mut PyObject) -> isize;
        pub fn PySequence_GetItem(o: *mut PyObject, i: isize) -> *mut PyObject;
        pub fn PyFloat_FromDouble(x: f64) -> *mut PyObject;
        pub fn PyFloat_AsDouble(o: *mut PyObject) -> f64;
        pub fn PyLong_FromLongLong(x: i64) -> *mut PyObject;
        pub fn PyLong_FromUnsignedLongLong(x: u64) -> *mut PyObject;
        pub fn PyLong_AsLongLong(o: *mut PyObject) -> i64;
        pub fn PyNumber_Index(o: *mut PyObject) -> *mut PyObject;
        pub fn PyBool_FromLong(x: i64) -> *mut PyObject;
        pub fn PyTuple_New(n: isize) -> *mut PyObject;
        pub fn PyTuple_SetItem(t: *mut PyObject, i: isize, o: *mut PyObject) -> c_int;
        pub fn PyTuple_GetItem(t: *mut PyObject, i: isize) -> *mut PyObject;
        pub fn PyTuple_Size(t: *mut PyObject) -> isize;
        pub fn PyList_New(n: isize) -> *mut PyObject;
        pub fn PyList_SetItem(t: *mut PyObject, i: isize, o: *mut PyObject) -> c_int;
        pub fn PyUnicode_FromStringAndSize(s: *const c_char, n: isize) -> *mut PyObject;
        pub fn PyUnicode_AsUTF8AndSize(o: *mut PyObject, n: *mut isize) -> *const c_char;
        pub fn PyErr_SetString(t: *mut PyObject, s: *const c_char);
        pub fn PyErr_SetObject(t: *mut PyObject, v: *mut PyObject);
        pub fn PyErr_Occurred() -> *mut PyObject;
        pub fn PyErr_Clear();
        pub fn PyErr_GetRaisedException() -> *mut PyObject;
        pub fn PyErr_SetRaisedException(e: *mut PyObject);
        pub fn PyErr_NewException(
            n: *const c_char,
            base: *mut PyObject,
            dict: *mut PyObject,
        ) -> *mut PyObject;
        pub fn PyImport_ImportModule(n: *const c_char) -> *mut PyObject;
        pub fn PyModule_New(n: *const c_char) -> *mut PyObject;
        pub fn PyModule_Create2(d: *mut PyModuleDef, v: c_int) -> *mut PyObject;
        pub fn PyModule_GetNameObject(m: *mut PyObject) -> *mut PyObject;
        pub fn PyCMethod_New(
            d: *mut PyMethodDef,
            slf: *mut PyObject,
            module: *mut PyObject,
            cls: *mut PyObject,
        ) -> *mut PyObject;
        pub fn PyEval_SaveThread() -> *mut c_void;
        pub fn PyEval_RestoreThread(s: *mut c_void);
        pub fn PyGILState_Ensure() -> c_int;
        pub fn PyGILState_Release(s: c_int);
    }
}

use ffi::PyObject;
use std::ffi::CString;
use std::fmt;
use std::marker::PhantomData;

pub type PyResult<T> = Result<T, PyErr>;

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);

impl<'py> Python<'py> {
    pub unsafe fn assume() -> Python<'py> {
        Python(PhantomData)
    }
    pub fn attach<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        unsafe {
            let s = ffi::PyGILState_Ensure();
            let r = f(Python(PhantomData));
            ffi::PyGILState_Release(s);
            r
        }
    }
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        Self::attach(f)
    }
    pub fn detach<R>(self, f: impl FnOnce() -> R) -> R {
        unsafe {
            let s = ffi::PyEval_SaveThread();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            ffi::PyEval_RestoreThread(s);
            match r {
                Ok(r) => r,
                Err(e) => std::panic::resume_unwind(e),
            }
        }
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        self.detach(f)
    }
    pub fn import(self, name: &str) -> PyResult<Bound<'py, PyModule>> {
        let c = cstr(name);
        unsafe { Bound::from_owned_or_err(self, ffi::PyImport_ImportModule(c.as_ptr())) }
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> Py<PyAny> {
        unsafe { Bound::<PyAny>::from_borrowed(self, &raw mut ffi::_Py_NoneStruct).unbind() }
    }
}

fn cstr(s: &str) -> CString {
    CString::new(s.replace('\0', " ")).unwrap()
}

// ---------------------------------------------------------------- handles
pub struct Bound<'py, T> {
    ptr: *mut PyObject,
    _p: PhantomData<(&'py (), T)>,
}
pub struct Py<T> {
    ptr: *mut PyObject,
    _p: PhantomData<T>,
}
pub type Borrowed<'a, 'py, T> = &'a Bound<'py, T>;

impl<T> Drop for Bound<'_, T> {
    fn drop(&mut self) {
        unsafe { ffi::Py_DecRef(self.ptr) }
    }
}
impl<T> Drop for Py<T> {
    fn drop(&mut self) {
        unsafe { ffi::Py_DecRef(self.ptr) }
    }
}
impl<T> Clone for Bound<'_, T> {
    fn clone(&self) -> Self {
        unsafe { ffi::Py_IncRef(self.ptr) };
        Bound { ptr: self.ptr, _p: PhantomData }
    }
}

impl<T> Py<T> {
    pub fn into_ptr(self) -> *mut PyObject {
        let p = self.ptr;
        std::mem::forget(self);
        p
    }
    pub fn bind<'a, 'py>(&'a self, _py: Python<'py>) -> &'a Bound<'py, T> {
        unsafe { &*(self as *const Py<T> as *const Bound<'py, T>) }
    }
    pub fn into_bound<'py>(self, _py: Python<'py>) -> Bound<'py, T> {
        Bound { ptr: self.into_ptr(), _p: PhantomData }
    }
    pub fn into_any(self) -> Py<PyAny> {
        Py { ptr: self.into_ptr(), _p: PhantomData }
    }
    pub fn clone_ref(&self, _py: Python<'_>) -> Py<T> {
        unsafe { ffi::Py_IncRef(self.ptr) };
        Py { ptr: self.ptr, _p: PhantomData }
    }
}

pub struct PyAny;
pub type PyObjectAlias = Py<PyAny>;
pub struct PyModule;

/// Types a `Bound` can be checked against.
pub trait PyTypeCheck {
    const NAME: &'static str;
    fn check(ptr: *mut PyObject) -> bool;
}

macro_rules! by_type {
    ($t:ty, $name:literal, $ty:ident) => {
        impl PyTypeCheck for $t {
            const NAME: &'static str = $name;
            fn check(ptr: *mut PyObject) -> bool {
                unsafe { ffi::PyObject_IsInstance(ptr, &raw mut ffi::$ty) == 1 }
            }
        }
    };
}
by_type!(types::PyFloat, "float", PyFloat_Type);
by_type!(types::PyTuple, "tuple", PyTuple_Type);
by_type!(types::PyString, "str", PyUnicode_Type);
by_type!(types::PyList, "list", PyList_Type);
by_type!(types::PyInt, "int", PyLong_Type);
by_type!(types::PyDict, "dict", PyDict_Type);
by_type!(PyModule, "module", PyModule_Type);
impl PyTypeCheck for PyAny {
    const NAME: &'static str = "object";
    fn check(_: *mut PyObject) -> bool {
        true
    }
}

pub struct CastError {
    msg: String,
}
pub type DowncastError = CastError;
impl fmt::Display for CastError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl fmt::Debug for CastError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl From<CastError> for PyErr {
    fn from(e: CastError) -> PyErr {
        exceptions::PyTypeError::new_err(e.msg)
    }
}

impl<'py, T> Bound<'py, T> {
    pub unsafe fn from_owned(_py: Python<'py>, ptr: *mut PyObject) -> Self {
        Bound { ptr, _p: PhantomData }
    }
    pub unsafe fn from_borrowed(_py: Python<'py>, ptr: *mut PyObject) -> Self {
        unsafe { ffi::Py_IncRef(ptr) };
        Bound { ptr, _p: PhantomData }
    }
    pub unsafe fn from_owned_or_err(py: Python<'py>, ptr: *mut PyObject) -> PyResult<Self> {
        if ptr.is_null() {
            Err(PyErr::fetch(py))
        } else {
            Ok(Bound { ptr, _p: PhantomData })
        }
    }
    pub fn as_ptr(&self) -> *mut PyObject {
        self.ptr
    }
    pub fn into_ptr(self) -> *mut PyObject {
        let p = self.ptr;
        std::mem::forget(self);
        p
    }
    pub fn py(&self) -> Python<'py> {
        Python(PhantomData)
    }
    pub fn as_any(&self) -> &Bound<'py, PyAny> {
        unsafe { &*(self as *const Bound<'py, T> as *const Bound<'py, PyAny>) }
    }
    pub fn into_any(self) -> Bound<'py, PyAny> {
        Bound { ptr: self.into_ptr(), _p: PhantomData }
    }
    pub fn unbind(self) -> Py<T> {
        Py { ptr: self.into_ptr(), _p: PhantomData }
    }
    pub fn cast<U: PyTypeCheck>(&self) -> Result<&Bound<'py, U>, CastError> {
        if U::check(self.ptr) {
            Ok(unsafe { &*(self as *const Bound<'py, T> as *const Bound<'py, U>) })
        } else {
            unsafe { ffi::PyErr_Clear() };
            Err(CastError { msg: format!("object cannot be converted to '{}'", U::NAME) })
        }
    }
    pub fn downcast<U: PyTypeCheck>(&self) -> Result<&Bound<'py, U>, CastError> {
        self.cast::<U>()
    }
    pub fn cast_into<U: PyTypeCheck>(self) -> Result<Bound<'py, U>, CastError> {
        self.cast::<U>()?;
        Ok(Bound { ptr: self.into_ptr(), _p: PhantomData })
    }
    pub fn is_instance_of<U: PyTypeCheck>(&self) -> bool {
        U::check(self.ptr)
    }
    pub fn is_none(&self) -> bool {
        std::ptr::eq(self.ptr, &raw const ffi::_Py_NoneStruct)
    }
    pub fn extract<'a, U: FromPyObject<'a, 'py>>(&'a self) -> PyResult<U>
    where
        'py: 'a,
    {
        U::extract(self.as_any())
    }
    pub fn hasattr(&self, name: &str) -> PyResult<bool> {
        match self.getattr(name) {
            Ok(_) => Ok(true),
            Err(e) if e.is_attribute_error() => Ok(false),
            Err(e) => Err(e),
        }
    }
    pub fn getattr(&self, name: &str) -> PyResult<Bound<'py, PyAny>> {
        let c = cstr(name);
        unsafe {
            Bound::from_owned_or_err(self.py(), ffi::PyObject_GetAttrString(self.ptr, c.as_ptr()))
        }
    }
    pub fn setattr<'a, V: IntoPyObject<'py>>(&self, name: &str, v: V) -> PyResult<()> {
        let c = cstr(name);
        let v = v.into_py_any(self.py())?;
        unsafe { check_rc(self.py(), ffi::PyObject_SetAttrString(self.ptr, c.as_ptr(), v.ptr)) }
    }
    pub fn get_item<K: IntoPyObject<'py>>(&self, k: K) -> PyResult<Bound<'py, PyAny>> {
        let k = k.into_py_any(self.py())?;
        unsafe { Bound::from_owned_or_err(self.py(), ffi::PyObject_GetItem(self.ptr, k.ptr)) }
    }
    pub fn set_item<K: IntoPyObject<'py>, V: IntoPyObject<'py>>(&self, k: K, v: V) -> PyResult<()> {
        let k = k.into_py_any(self.py())?;
        let v = v.into_py_any(self.py())?;
        unsafe { check_rc(self.py(), ffi::PyObject_SetItem(self.ptr, k.ptr, v.ptr)) }
    }
    pub fn call0(&self) -> PyResult<Bound<'py, PyAny>> {
        self.call1(())
    }
    pub fn call1<A: IntoPyTuple<'py>>(&self, args: A) -> PyResult<Bound<'py, PyAny>> {
        let t = args.into_tuple(self.py())?;
        unsafe {
            Bound::from_owned_or_err(
                self.py(),
                ffi::PyObject_Call(self.ptr, t.ptr, std::ptr::null_mut()),
            )
        }
    }
    pub fn call_method1<A: IntoPyTuple<'py>>(
        &self,
        name: &str,
        args: A,
    ) -> PyResult<Bound<'py, PyAny>> {
        self.getattr(name)?.call1(args)
    }
    pub fn call_method0(&self, name: &str) -> PyResult<Bound<'py, PyAny>> {
        self.getattr(name)?.call1(())
    }
    pub fn len(&self) -> PyResult<usize> {
        let n = unsafe { ffi::PyObject_Size(self.ptr) };
        if n < 0 { Err(PyErr::fetch(self.py())) } else { Ok(n as usize) }
    }
    pub fn is_callable(&self) -> bool {
        unsafe { ffi::PyCallable_Check(self.ptr) == 1 }
    }
    pub fn is_truthy(&self) -> PyResult<bool> {
        match unsafe { ffi::PyObject_IsTrue(self.ptr) } {
            -1 => Err(PyErr::fetch(self.py())),
            n => Ok(n == 1),
        }
    }
    pub fn str(&self) -> PyResult<Bound<'py, types::PyString>> {
        unsafe { Bound::from_owned_or_err(self.py(), ffi::PyObject_Str(self.ptr)) }
    }
    pub fn repr(&self) -> PyResult<Bound<'py, types::PyString>> {
        unsafe { Bound::from_owned_or_err(self.py(), ffi::PyObject_Repr(self.ptr)) }
    }
    pub fn get_type(&self) -> Bound<'py, PyAny> {
        unsafe { Bound::from_owned(self.py(), ffi::PyObject_Type(self.ptr)) }
    }
}

unsafe fn check_rc(py: Python<'_>, rc: i32) -> PyResult<()> {
    if rc < 0 { Err(PyErr::fetch(py)) } else { Ok(()) }
}

impl<T> fmt::Display for Bound<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.str().and_then(|s| s.extract::<String>()) {
            Ok(s) => f.write_str(&s),
            Err(_) => Err(fmt::Error),
        }
    }
}
impl<T> fmt::Debug for Bound<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.repr().and_then(|s| s.extract::<String>()) {
            Ok(s) => f.write_str(&s),
            Err(_) => Err(fmt::Error),
        }
    }
}

impl<'py> Bound<'py, types::PyFloat> {
    pub fn value(&self) -> f64 {
        unsafe { ffi::PyFloat_AsDouble(self.as_ptr()) }
    }
}

// ---------------------------------------------------------------- errors
pub struct PyErr {
    value: *mut PyObject,
}
unsafe impl Send for PyErr {}
impl Drop for PyErr {
    fn drop(&mut self) {
        unsafe { ffi::Py_DecRef(self.value) }
    }
}
impl PyErr {
    fn from_type(ty: *mut PyObject, msg: &str) -> PyErr {
        unsafe {
            let c = cstr(msg);
            ffi::PyErr_SetString(ty, c.as_ptr());
            PyErr { value: ffi::PyErr_GetRaisedException() }
        }
    }
    pub fn fetch(_py: Python<'_>) -> PyErr {
        unsafe {
            let v = ffi::PyErr_GetRaisedException();
            if v.is_null() {
                return PyErr::from_type(
                    ffi::PyExc_RuntimeError,
                    "attempted to fetch exception but none was set",
                );
            }
            PyErr { value: v }
        }
    }
    pub fn take(_py: Python<'_>) -> Option<PyErr> {
        unsafe {
            let v = ffi::PyErr_GetRaisedException();
            if v.is_null() { None } else { Some(PyErr { value: v }) }
        }
    }
    pub fn restore(self, _py: Python<'_>) {
        unsafe { ffi::PyErr_SetRaisedException(self.value) };
        std::mem::forget(self);
    }
    pub fn is_attribute_error(&self) -> bool {
        unsafe { ffi::PyObject_IsInstance(self.value, ffi::PyExc_AttributeError) == 1 }
    }
    pub fn is_instance_of<T: exceptions::ExceptionType>(&self, _py: Python<'_>) -> bool {
        unsafe { ffi::PyObject_IsInstance(self.value, T::ty()) == 1 }
    }
    pub fn value<'py>(&self, py: Python<'py>) -> Bound<'py, PyAny> {
        unsafe { Bound::from_borrowed(py, self.value) }
    }
    pub fn new<T: exceptions::ExceptionType, A: exceptions::PyErrArguments>(args: A) -> PyErr {
        PyErr::from_type(T::ty(), &args.text())
    }
}
impl fmt::Debug for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let b: Bound<'_, PyAny> = unsafe { Bound::from_borrowed(Python(PhantomData), self.value) };
        write!(f, "{b:?}")
    }
}
impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let b: Bound<'_, PyAny> = unsafe { Bound::from_borrowed(Python(PhantomData), self.value) };
        write!(f, "{b}")
    }
}
impl std::error::Error for PyErr {}

pub mod exceptions {
    use super::{PyErr, ffi};
    pub trait ExceptionType {
        fn ty() -> *mut ffi::PyObject;
    }
    pub trait PyErrArguments {
        fn text(&self) -> String;
    }
    impl<T: std::fmt::Display> PyErrArguments for T {
        fn text(&self) -> String {
            self.to_string()
        }
    }
    macro_rules! exc {
        ($($name:ident => $c:ident),* $(,)?) => {$(
            pub struct $name;
            impl ExceptionType for $name {
                fn ty() -> *mut ffi::PyObject { unsafe { ffi::$c } }
            }
            impl $name {
                pub fn new_err<A: PyErrArguments>(args: A) -> PyErr {
                    PyErr::from_type(<Self as ExceptionType>::ty(), &args.text())
                }
            }
        )*};
    }
    exc! {
        PyTypeError => PyExc_TypeError, PyValueError => PyExc_ValueError,
        PyOverflowError => PyExc_OverflowError, PyRuntimeError => PyExc_RuntimeError,
        PyZeroDivisionError => PyExc_ZeroDivisionError,
        PyArithmeticError => PyExc_ArithmeticError, PyIndexError => PyExc_IndexError,
        PyKeyError => PyExc_KeyError, PyAttributeError => PyExc_AttributeError,
        PyAssertionError => PyExc_AssertionError,
        PyNotImplementedError => PyExc_NotImplementedError, PyImportError => PyExc_ImportError,
        PyException => PyExc_Exception, PyFloatingPointError => PyExc_FloatingPointError,
    }
}

// ---------------------------------------------------------------- types
pub mod types {
    use super::*;
    pub use super::PyAny;
    pub use super::PyModule;
    pub struct PyFloat;
    pub struct PyTuple;
    pub struct PyString;
    pub struct PyList;
    pub struct PyInt;
    pub struct PyDict;
    pub struct PyCFunction;
    // Real pyo3 spells these as traits; here the methods are inherent.
    pub trait PyAnyMethods {}
    pub trait PyModuleMethods {}
    pub trait PyFloatMethods {}
    pub trait PyTupleMethods {}
    pub trait PyStringMethods {}
    pub trait PyListMethods {}
    pub trait PyDictMethods {}

    impl PyFloat {
        pub fn new<'py>(py: Python<'py>, v: f64) -> Bound<'py, PyFloat> {
            unsafe { Bound::from_owned(py, ffi::PyFloat_FromDouble(v)) }
        }
    }
    impl PyString {
        pub fn new<'py>(py: Python<'py>, s: &str) -> Bound<'py, PyString> {
            unsafe {
                Bound::from_owned(
                    py,
                    ffi::PyUnicode_FromStringAndSize(s.as_ptr() as *const _, s.len() as isize),
                )
            }
        }
    }
    impl PyTuple {
        pub fn new<'py, T, U>(py: Python<'py>, it: U) -> PyResult<Bound<'py, PyTuple>>
        where
            T: IntoPyObject<'py>,
            U: IntoIterator<Item = T>,
        {
            let mut v = vec![];
            for x in it {
                v.push(x.into_py_any(py)?);
            }
            Ok(tuple_of(py, v))
        }
        pub fn empty<'py>(py: Python<'py>) -> Bound<'py, PyTuple> {
            tuple_of(py, vec![])
        }
    }
    impl PyList {
        pub fn new<'py, T, U>(py: Python<'py>, it: U) -> PyResult<Bound<'py, PyList>>
        where
            T: IntoPyObject<'py>,
            U: IntoIterator<Item = T>,
        {
            let mut v = vec![];
            for x in it {
                v.push(x.into_py_any(py)?);
            }
            unsafe {
                let l = ffi::PyList_New(v.len() as isize);
                for (i, x) in v.into_iter().enumerate() {
                    ffi::PyList_SetItem(l, i as isize, x.into_ptr());
                }
                Ok(Bound::from_owned(py, l))
            }
        }
    }
    pub(crate) fn tuple_of<'py>(
        py: Python<'py>,
        v: Vec<Bound<'py, PyAny>>,
    ) -> Bound<'py, PyTuple> {
        unsafe {
            let t = ffi::PyTuple_New(v.len() as isize);
            for (i, x) in v.into_iter().enumerate() {
                ffi::PyTuple_SetItem(t, i as isize, x.into_ptr());
            }
            Bound::from_owned(py, t)
        }
    }
}

impl PyModule {
    pub fn new<'py>(py: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> {
        let c = cstr(name);
        unsafe { Bound::from_owned_or_err(py, ffi::PyModule_New(c.as_ptr())) }
    }
    pub fn import<'py>(py: Python<'py>, name: &str) -> PyResult<Bound<'py, PyModule>> {
        py.import(name)
    }
}
impl<'py> Bound<'py, PyModule> {
    pub fn add<V: IntoPyObject<'py>>(&self, name: &str, v: V) -> PyResult<()> {
        self.setattr(name, v)
    }
    pub fn name(&self) -> PyResult<Bound<'py, types::PyString>> {
        unsafe { Bound::from_owned_or_err(self.py(), ffi::PyModule_GetNameObject(self.as_ptr())) }
    }
    pub fn add_function(&self, f: Bound<'py, types::PyCFunction>) -> PyResult<()> {
        let name: String = f.getattr("__name__")?.extract()?;
        self.setattr(&name, f)
    }
    pub fn add_submodule(&self, m: &Bound<'py, PyModule>) -> PyResult<()> {
        let name: String = m.name()?.extract()?;
        self.setattr(&name, m.clone())
    }
}

// ---------------------------------------------------------------- conversion
pub trait IntoPyObject<'py>: Sized {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>>;
}
impl<'py, T> IntoPyObject<'py> for Bound<'py, T> {
    fn into_py_any(self, _py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(self.into_any())
    }
}
impl<'py, T> IntoPyObject<'py> for &Bound<'py, T> {
    fn into_py_any(self, _py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(self.clone().into_any())
    }
}
impl<'py, T> IntoPyObject<'py> for Py<T> {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(self.into_bound(py).into_any())
    }
}
impl<'py> IntoPyObject<'py> for f64 {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(types::PyFloat::new(py, self).into_any())
    }
}
impl<'py> IntoPyObject<'py> for &f64 {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        (*self).into_py_any(py)
    }
}
impl<'py> IntoPyObject<'py> for bool {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        unsafe { Ok(Bound::from_owned(py, ffi::PyBool_FromLong(self as i64))) }
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl<'py> IntoPyObject<'py> for $t {
            fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
                unsafe { Ok(Bound::from_owned(py, ffi::PyLong_FromLongLong(self as i64))) }
            }
        }
        impl<'a, 'py> FromPyObject<'a, 'py> for $t {
            fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
                unsafe {
                    let idx: Bound<'py, PyAny> = Bound::from_owned_or_err(o.py(), ffi::PyNumber_Index(o.as_ptr()))?;
                    let v = ffi::PyLong_AsLongLong(idx.as_ptr());
                    if v == -1 && !ffi::PyErr_Occurred().is_null() {
                        return Err(PyErr::fetch(o.py()));
                    }
                    <$t>::try_from(v).map_err(|e| exceptions::PyOverflowError::new_err(e.to_string()))
                }
            }
        }
    )*};
}
ints!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);
impl<'py> IntoPyObject<'py> for &str {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(types::PyString::new(py, self).into_any())
    }
}
impl<'py> IntoPyObject<'py> for String {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.as_str().into_py_any(py)
    }
}
impl<'py> IntoPyObject<'py> for &String {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        self.as_str().into_py_any(py)
    }
}
impl<'py> IntoPyObject<'py> for () {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(py.None().into_bound(py))
    }
}
impl<'py, T: IntoPyObject<'py>> IntoPyObject<'py> for Option<T> {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        match self {
            Some(v) => v.into_py_any(py),
            None => Ok(py.None().into_bound(py)),
        }
    }
}
impl<'py, T: IntoPyObject<'py>> IntoPyObject<'py> for Vec<T> {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(types::PyList::new(py, self)?.into_any())
    }
}
impl<'py, T: IntoPyObject<'py>, const N: usize> IntoPyObject<'py> for [T; N] {
    fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
        Ok(types::PyList::new(py, self)?.into_any())
    }
}

pub trait IntoPyTuple<'py> {
    fn into_tuple(self, py: Python<'py>) -> PyResult<Bound<'py, types::PyTuple>>;
}
impl<'py> IntoPyTuple<'py> for () {
    fn into_tuple(self, py: Python<'py>) -> PyResult<Bound<'py, types::PyTuple>> {
        Ok(types::tuple_of(py, vec![]))
    }
}
macro_rules! tuples {
    ($(($($n:ident . $i:tt),+)),*) => {$(
        impl<'py, $($n: IntoPyObject<'py>),+> IntoPyTuple<'py> for ($($n,)+) {
            fn into_tuple(self, py: Python<'py>) -> PyResult<Bound<'py, types::PyTuple>> {
                Ok(types::tuple_of(py, vec![$(self.$i.into_py_any(py)?),+]))
            }
        }
        impl<'py, $($n: IntoPyObject<'py>),+> IntoPyObject<'py> for ($($n,)+) {
            fn into_py_any(self, py: Python<'py>) -> PyResult<Bound<'py, PyAny>> {
                Ok(self.into_tuple(py)?.into_any())
            }
        }
    )*};
}
tuples!(
    (A.0),
    (A.0, B.1),
    (A.0, B.1, C.2),
    (A.0, B.1, C.2, D.3),
    (A.0, B.1, C.2, D.3, E.4),
    (A.0, B.1, C.2, D.3, E.4, F.5),
    (A.0, B.1, C.2, D.3, E.4, F.5, G.6)
);

pub trait FromPyObject<'a, 'py>: Sized {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self>;
}
impl<'a, 'py> FromPyObject<'a, 'py> for f64 {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<f64> {
        unsafe {
            let v = ffi::PyFloat_AsDouble(o.as_ptr());
            if v == -1.0 {
                if let Some(e) = PyErr::take(o.py()) {
                    return Err(e);
                }
            }
            Ok(v)
        }
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for bool {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<bool> {
        o.is_truthy()
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for &'a str {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<&'a str> {
        unsafe {
            if !<types::PyString as PyTypeCheck>::check(o.as_ptr()) {
                return Err(exceptions::PyTypeError::new_err("object is not a str"));
            }
            let mut n = 0isize;
            let p = ffi::PyUnicode_AsUTF8AndSize(o.as_ptr(), &mut n);
            if p.is_null() {
                return Err(PyErr::fetch(o.py()));
            }
            let s = std::slice::from_raw_parts(p as *const u8, n as usize);
            Ok(std::str::from_utf8_unchecked(s))
        }
    }
}
impl<'a, 'py> FromPyObject<'a, 'py> for String {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<String> {
        <&str as FromPyObject>::extract(o).map(|s| s.to_string())
    }
}
impl<'a, 'py, T: PyTypeCheck> FromPyObject<'a, 'py> for &'a Bound<'py, T> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        Ok(o.cast::<T>()?)
    }
}
impl<'a, 'py, T: PyTypeCheck> FromPyObject<'a, 'py> for Bound<'py, T> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        Ok(o.cast::<T>()?.clone())
    }
}
impl<'a, 'py, T: PyTypeCheck> FromPyObject<'a, 'py> for Py<T> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        Ok(o.cast::<T>()?.clone().unbind())
    }
}
impl<'a, 'py, T: FromPyObject<'a, 'py>> FromPyObject<'a, 'py> for Option<T> {
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        if o.is_none() { Ok(None) } else { T::extract(o).map(Some) }
    }
}
impl<'a, 'py, T> FromPyObject<'a, 'py> for Vec<T>
where
    T: for<'b> FromPyObject<'b, 'py>,
{
    fn extract(o: &'a Bound<'py, PyAny>) -> PyResult<Self> {
        unsafe {
            if <types::PyString as PyTypeCheck>::check(o.as_ptr()) {
                return Err(exceptions::PyTypeError::new_err("Can't extract `str` to `Vec`"));
            }
            if ffi::PySequence_Check(o.as_ptr()) == 0 {
                return Err(exceptions::PyTypeError::new_err("object is not a sequence"));
            }
            let n = ffi::PySequence_Size(o.as_ptr());
            if n < 0 {
                return Err(PyErr::fetch(o.py()));
            }
            let mut out = Vec::with_capacity(n as usize);
            for i in 0..n {
                let item: Bound<'py, PyAny> =
                    Bound::from_owned_or_err(o.py(), ffi::PySequence_GetItem(o.as_ptr(), i))?;
                out.push(T::extract(&item)?);
            }
            Ok(out)
        }
    }
}

// ---------------------------------------------------------------- machinery
pub mod impl_ {
    use super::*;
    use std::ffi::{c_char, c_int, c_void};

    pub type RawFn =
        unsafe extern "C" fn(*mut PyObject, *const *mut PyObject, isize, *mut PyObject) -> *mut PyObject;
    pub struct Def {
        pub name: &'static str,
        pub doc: &'static str,
        pub raw: RawFn,
    }
    pub struct RawArgs {
        args: *const *mut PyObject,
        nargs: isize,
        kw: *mut PyObject,
    }
    impl RawArgs {
        pub fn bind<'py, const N: usize>(
            &self,
            py: Python<'py>,
            fname: &str,
            names: &[&str; N],
        ) -> PyResult<[Option<Bound<'py, PyAny>>; N]> {
            let mut out: [Option<Bound<'py, PyAny>>; N] = std::array::from_fn(|_| None);
            unsafe {
                if self.nargs as usize > N {
                    return Err(exceptions::PyTypeError::new_err(format!(
                        "{fname}() takes {N} positional arguments but {} were given",
                        self.nargs
                    )));
                }
                for i in 0..self.nargs {
                    out[i as usize] = Some(Bound::from_borrowed(py, *self.args.offset(i)));
                }
                if !self.kw.is_null() {
                    let nk = ffi::PyTuple_Size(self.kw);
                    for k in 0..nk {
                        let key: Bound<'py, PyAny> =
                            Bound::from_borrowed(py, ffi::PyTuple_GetItem(self.kw, k));
                        let key: String = key.extract()?;
                        let Some(pos) = names.iter().position(|n| *n == key) else {
                            return Err(exceptions::PyTypeError::new_err(format!(
                                "{fname}() got an unexpected keyword argument '{key}'"
                            )));
                        };
                        if out[pos].is_some() {
                            return Err(exceptions::PyTypeError::new_err(format!(
                                "{fname}() got multiple values for argument '{key}'"
                            )));
                        }
                        out[pos] = Some(Bound::from_borrowed(py, *self.args.offset(self.nargs + k)));
                    }
                }
            }
            Ok(out)
        }
    }
    pub fn required<'a, 'py, const N: usize>(
        slots: &'a [Option<Bound<'py, PyAny>>; N],
        i: usize,
        fname: &str,
        _names: &[&str; N],
        name: &str,
    ) -> PyResult<&'a Bound<'py, PyAny>> {
        slots[i].as_ref().ok_or_else(|| {
            exceptions::PyTypeError::new_err(format!(
                "{fname}() missing 1 required positional argument: '{name}'"
            ))
        })
    }
    pub fn extract_argument<'a, 'py, T: FromPyObject<'a, 'py>>(
        o: &'a Bound<'py, PyAny>,
        name: &str,
    ) -> PyResult<T> {
        T::extract(o).map_err(|e| {
            if e.is_instance_of::<exceptions::PyTypeError>(o.py()) {
                exceptions::PyTypeError::new_err(format!("argument '{name}': {e}"))
            } else {
                e
            }
        })
    }
    pub trait CallbackOut<'py> {
        fn into_raw(self, py: Python<'py>) -> PyResult<*mut PyObject>;
    }
    impl<'py, T: IntoPyObject<'py>> CallbackOut<'py> for T {
        fn into_raw(self, py: Python<'py>) -> PyResult<*mut PyObject> {
            Ok(self.into_py_any(py)?.into_ptr())
        }
    }
    impl<'py, T: IntoPyObject<'py>> CallbackOut<'py> for PyResult<T> {
        fn into_raw(self, py: Python<'py>) -> PyResult<*mut PyObject> {
            Ok(self?.into_py_any(py)?.into_ptr())
        }
    }
    fn panic_exception() -> *mut PyObject {
        static mut T: *mut PyObject = std::ptr::null_mut();
        unsafe {
            if T.is_null() {
                T = ffi::PyErr_NewException(
                    c"pyo3_runtime.PanicException".as_ptr(),
                    ffi::PyExc_BaseException,
                    std::ptr::null_mut(),
                );
            }
            T
        }
    }
    fn raise_panic(e: Box<dyn std::any::Any + Send>) {
        let msg = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic from Rust code".to_string()
        };
        let c = cstr(&msg);
        unsafe { ffi::PyErr_SetString(panic_exception(), c.as_ptr()) };
    }
    pub unsafe fn trampoline(
        args: *const *mut PyObject,
        nargs: isize,
        kw: *mut PyObject,
        f: impl for<'py> FnOnce(Python<'py>, RawArgs) -> PyResult<*mut PyObject>,
    ) -> *mut PyObject {
        let raw = RawArgs { args, nargs, kw };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let py = unsafe { Python::assume() };
            match f(py, raw) {
                Ok(p) => p,
                Err(e) => {
                    e.restore(py);
                    std::ptr::null_mut()
                }
            }
        }));
        match r {
            Ok(p) => p,
            Err(e) => {
                raise_panic(e);
                std::ptr::null_mut()
            }
        }
    }
    pub fn wrap<'py>(
        m: &Bound<'py, PyModule>,
        def: &Def,
    ) -> PyResult<Bound<'py, types::PyCFunction>> {
        unsafe {
            let md = Box::leak(Box::new(ffi::PyMethodDef {
                ml_name: cstr(def.name).into_raw(),
                ml_meth: def.raw as *const c_void,
                ml_flags: ffi::METH_FASTCALL | ffi::METH_KEYWORDS,
                ml_doc: cstr(def.doc).into_raw(),
            }));
            let name = ffi::PyModule_GetNameObject(m.as_ptr());
            let f = ffi::PyCMethod_New(md, m.as_ptr(), name, std::ptr::null_mut());
            if !name.is_null() {
                ffi::Py_DecRef(name);
            }
            Bound::from_owned_or_err(m.py(), f)
        }
    }
    pub unsafe fn init_module(
        name: &str,
        doc: &str,
        f: impl for<'a, 'py> FnOnce(Python<'py>, &'a Bound<'py, PyModule>) -> PyResult<()>,
    ) -> *mut PyObject {
        unsafe {
            let d = Box::leak(Box::new(ffi::PyModuleDef {
                ob_refcnt: 1,
                ob_type: std::ptr::null_mut(),
                m_init: std::ptr::null_mut(),
                m_index: 0,
                m_copy: std::ptr::null_mut(),
                m_name: cstr(name).into_raw() as *const c_char,
                m_doc: cstr(doc).into_raw() as *const c_char,
                m_size: -1,
                m_methods: std::ptr::null_mut(),
                m_slots: std::ptr::null_mut(),
                m_traverse: std::ptr::null_mut(),
                m_clear: std::ptr::null_mut(),
                m_free: std::ptr::null_mut(),
            }));
            let m = ffi::PyModule_Create2(d, 1013 as c_int);
            if m.is_null() {
                return m;
            }
            let py = Python::assume();
            let b: Bound<'_, PyModule> = Bound::from_owned(py, m);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(py, &b)));
            match r {
                Ok(Ok(())) => b.into_ptr(),
                Ok(Err(e)) => {
                    e.restore(py);
                    std::ptr::null_mut()
                }
                Err(e) => {
                    raise_panic(e);
                    std::ptr::null_mut()
                }
            }
        }
    }
}

#[macro_export]
macro_rules! wrap_pyfunction {
    ($function:path, $m:expr) => {{
        use $function as wrapped_pyfunction;
        $crate::impl_::wrap($m, &wrapped_pyfunction::_PYO3_DEF)
    }};
}

pub mod prelude {
    pub use crate::wrap_pyfunction;
    pub use crate::types::{PyAnyMethods, PyModuleMethods};
    pub use crate::{
        Borrowed, Bound, FromPyObject, IntoPyObject, Py, PyAny, PyErr, PyModule, PyResult, Python,
        pyfunction, pymodule,
    };
}
