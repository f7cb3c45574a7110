//! As much of pyo3 as the Python wrapper uses, without Python, for the checks in /verif.  The objects that come from
//! Python are made by the harness; errors and warnings are kept with their type.
#![allow(static_mut_refs)]
pub use pyo3_macros::*;
use std::{
    any::Any,
    cell::RefCell,
    fmt,
    marker::PhantomData,
    ops::{Deref, DerefMut},
    sync::Arc,
};

pub type PyResult<T> = Result<T, PyErr>;

#[derive(Clone, Debug)]
pub struct PyErr {
    pub kind: &'static str,
    pub msg: String,
}

impl PyErr {
    /// the warning is an error if the harness says so
    pub fn warn(_: Python, category: &PyType, msg: &str, _level: i32) -> PyResult<()> {
        unsafe {
            WARNINGS.push(category.0);
            match STRICT {
                true => Err(PyErr { kind: category.0, msg: msg.into() }),
                false => Ok(()),
            }
        }
    }
    pub fn new<T: exceptions::Exception, A: Into<String>>(msg: A) -> Self {
        PyErr { kind: T::NAME, msg: msg.into() }
    }
}
impl fmt::Display for PyErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}: {}", self.kind, self.msg)
    }
}
impl std::error::Error for PyErr {}

pub static mut WARNINGS: Vec<&'static str> = vec![];
pub static mut STRICT: bool = false;

#[derive(Clone, Copy)]
pub struct Python<'py>(PhantomData<&'py ()>);

impl<'py> Python<'py> {
    pub fn any() -> Self {
        Python(PhantomData)
    }
    pub fn with_gil<R>(f: impl for<'a> FnOnce(Python<'a>) -> R) -> R {
        f(Python::any())
    }
    pub fn allow_threads<R>(self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn get_type<T: exceptions::Exception>(self) -> &'static PyType {
        T::TYPE
    }
}

pub struct PyType(pub &'static str);

pub trait PyClass: Any {
    const NAME: &'static str;
}

/// What an object can be.
#[derive(Clone)]
pub enum Value {
    None,
    Float(f64),
    /// an instance of a class
    Instance(Arc<dyn Any + Send + Sync>),
    /// whose method of that name returns that
    Method(&'static str, PyResult<Box<Value>>),
    /// such a method of an instance
    Bound(PyResult<Box<Value>>),
    Graph(Vec<Vec<(usize, Vec<usize>)>>),
    /// a function of floats
    Function(Arc<dyn Fn(&[f64]) -> PyResult<Value> + Send + Sync>),
}

pub struct PyAny(pub Value);

pub struct Py<T>(pub Arc<Value>, PhantomData<fn() -> T>);
pub type PyObject = Py<PyAny>;
impl<T> Clone for Py<T> {
    fn clone(&self) -> Self {
        Py(self.0.clone(), PhantomData)
    }
}

fn wrong<T>(what: &str) -> PyResult<T> {
    Err(PyErr { kind: "PyTypeError", msg: what.into() })
}

impl Value {
    fn method(&self, name: &str) -> PyResult<Value> {
        match self {
            Value::Method(n, r) if *n == name => r.clone().map(|v| *v),
            _ => Err(PyErr { kind: "PyAttributeError", msg: name.into() }),
        }
    }
    fn apply(&self, args: &[f64]) -> PyResult<Value> {
        match self {
            Value::Function(f) => f(args),
            Value::Bound(r) if args.is_empty() => r.clone().map(|v| *v),
            _ => wrong("not callable"),
        }
    }
}

/// values from Python's
pub trait FromPyObject<'a>: Sized {
    fn extract(v: &'a Value) -> PyResult<Self>;
}
impl FromPyObject<'_> for f64 {
    fn extract(v: &Value) -> PyResult<Self> {
        match v {
            Value::Float(x) => Ok(*x),
            _ => wrong("not a float"),
        }
    }
}
impl FromPyObject<'_> for Vec<Vec<(usize, Vec<usize>)>> {
    fn extract(v: &Value) -> PyResult<Self> {
        match v {
            Value::Graph(g) => Ok(g.clone()),
            _ => wrong("not a list"),
        }
    }
}
impl<'a, T: PyClass> FromPyObject<'a> for PyRef<'a, T> {
    fn extract(v: &'a Value) -> PyResult<Self> {
        match v {
            Value::Instance(x) => x.downcast_ref::<T>().map(PyRef).map_or_else(|| wrong("another class"), Ok),
            _ => wrong("no class"),
        }
    }
}

/// the arguments of a call
pub trait Args {
    fn floats(self) -> Vec<f64>;
}
impl Args for () {
    fn floats(self) -> Vec<f64> {
        vec![]
    }
}
macro_rules! tuple {
    ($($t:ident $i:tt)*) => {
        impl<$($t: Into<f64>),*> Args for ($($t,)*) {
            fn floats(self) -> Vec<f64> {
                vec![$(self.$i.into()),*]
            }
        }
    };
}
tuple!(A 0);
tuple!(A 0 B 1);
tuple!(A 0 B 1 C 2);
tuple!(A 0 B 1 C 2 D 3);
tuple!(A 0 B 1 C 2 D 3 E 4);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6);
tuple!(A 0 B 1 C 2 D 3 E 4 F 5 G 6 H 7);

impl PyAny {
    pub fn is_instance_of<T: PyClass>(&self) -> bool {
        matches!(&self.0, Value::Instance(x) if x.is::<T>())
    }
    pub fn extract<'a, T: FromPyObject<'a>>(&'a self) -> PyResult<T> {
        T::extract(&self.0)
    }
    pub fn call_method(&self, name: &str, _: impl Args, _: Option<&types::PyDict>) -> PyResult<&'static PyAny> {
        Ok(Box::leak(Box::new(PyAny(self.0.method(name)?))))
    }
    pub fn call_method1(&self, name: &str, a: impl Args) -> PyResult<&'static PyAny> {
        self.call_method(name, a, None)
    }
    pub fn call_method0(&self, name: &str) -> PyResult<&'static PyAny> {
        self.call_method(name, (), None)
    }
    pub fn getattr(&self, name: &str) -> PyResult<&'static PyAny> {
        match &self.0 {
            Value::Method(n, r) if *n == name => Ok(Box::leak(Box::new(PyAny(Value::Bound(r.clone()))))),
            _ => Err(PyErr { kind: "PyAttributeError", msg: name.into() }),
        }
    }
    pub fn call(&self, a: impl Args, _: Option<&types::PyDict>) -> PyResult<&'static PyAny> {
        Ok(Box::leak(Box::new(PyAny(self.0.apply(&a.floats())?))))
    }
    pub fn call1(&self, a: impl Args) -> PyResult<&'static PyAny> {
        self.call(a, None)
    }
    pub fn call0(&self) -> PyResult<&'static PyAny> {
        self.call((), None)
    }
    pub fn is_none(&self) -> bool {
        matches!(self.0, Value::None)
    }
    pub fn is_callable(&self) -> bool {
        matches!(self.0, Value::Function(_) | Value::Bound(_))
    }
    pub fn hasattr(&self, name: &str) -> PyResult<bool> {
        Ok(matches!(&self.0, Value::Method(n, _) if *n == name))
    }
}

impl<T> Py<T> {
    pub fn of(v: Value) -> Self {
        Py(Arc::new(v), PhantomData)
    }
    pub fn clone_ref(&self, _: Python) -> Self {
        Py(self.0.clone(), PhantomData)
    }
    pub fn call(&self, _: Python, a: impl Args, _: Option<&types::PyDict>) -> PyResult<PyObject> {
        self.0.apply(&a.floats()).map(Py::of)
    }
    pub fn call1(&self, py: Python, a: impl Args) -> PyResult<PyObject> {
        self.call(py, a, None)
    }
    pub fn call0(&self, py: Python) -> PyResult<PyObject> {
        self.call(py, (), None)
    }
    pub fn as_ref(&self, _: Python) -> &'static PyAny {
        Box::leak(Box::new(PyAny((*self.0).clone())))
    }
    pub fn is_none(&self, _: Python) -> bool {
        matches!(*self.0, Value::None)
    }
    pub fn extract<'a, 'py, D: FromPyObject<'a>>(&'a self, _: Python<'py>) -> PyResult<D> {
        D::extract(&self.0)
    }
}

pub struct PyRef<'a, T>(&'a T);
impl<T> Deref for PyRef<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
pub struct PyRefMut<'a, T>(&'a mut T);
impl<T> Deref for PyRefMut<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.0
    }
}
impl<T> DerefMut for PyRefMut<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.0
    }
}

pub struct PyCFunction(pub &'static str);

#[macro_export]
macro_rules! wrap_pyfunction {
    ($f:path, $m:expr) => {{
        let _ = ($f, &$m);
        $crate::PyResult::Ok($crate::PyCFunction(stringify!($f)))
    }};
    ($f:path) => {{
        let _ = $f;
        $crate::PyResult::Ok($crate::PyCFunction(stringify!($f)))
    }};
}

pub mod types {
    use super::*;
    pub struct PyDict;
    pub struct PyTuple(pub Vec<f64>);
    impl PyTuple {
        pub fn new<'a, T: Into<f64>>(_: Python<'_>, v: impl IntoIterator<Item = T>) -> &'a PyTuple {
            Box::leak(Box::new(PyTuple(v.into_iter().map(|x| x.into()).collect())))
        }
    }
    impl Args for &PyTuple {
        fn floats(self) -> Vec<f64> {
            self.0.clone()
        }
    }

    pub struct PyModule {
        pub name: String,
        /// the names of its classes, functions and (with a dot) modules
        pub members: RefCell<Vec<String>>,
    }
    impl PyModule {
        pub fn new<'a>(_: Python<'_>, name: &str) -> PyResult<&'a PyModule> {
            Ok(Box::leak(Box::new(PyModule { name: name.into(), members: Default::default() })))
        }
        pub fn add_class<T: PyClass>(&self) -> PyResult<()> {
            self.members.borrow_mut().push(T::NAME.into());
            Ok(())
        }
        pub fn add_function(&self, f: PyCFunction) -> PyResult<()> {
            self.members.borrow_mut().push(f.0.into());
            Ok(())
        }
        pub fn add_submodule(&self, m: &PyModule) -> PyResult<()> {
            for x in m.members.borrow().iter() {
                self.members.borrow_mut().push(m.name.clone() + "." + x);
            }
            Ok(())
        }
    }
}

pub mod exceptions {
    use super::*;
    pub trait Exception {
        const NAME: &'static str;
        const TYPE: &'static PyType;
    }
    macro_rules! exceptions {
        ($($n:ident)*) => {$(
            pub struct $n;
            impl Exception for $n {
                const NAME: &'static str = stringify!($n);
                const TYPE: &'static PyType = &PyType(stringify!($n));
            }
            impl $n {
                pub fn new_err(msg: impl Into<String>) -> PyErr {
                    PyErr { kind: stringify!($n), msg: msg.into() }
                }
            }
        )*};
    }
    exceptions!(PyValueError PyTypeError PyRuntimeError PyException PyKeyError PyIndexError PyOSError PyIOError
        PyNotImplementedError PyOverflowError PyAttributeError PyAssertionError PyTimeoutError
        PyWarning PyUserWarning PyDeprecationWarning PyRuntimeWarning PyFutureWarning);
}

pub mod prelude {
    pub use crate::{
        pyclass, pyfunction, pymethods, pymodule, types::PyModule, wrap_pyfunction, Py, PyAny, PyErr, PyObject, PyRef,
        PyRefMut, PyResult, Python,
    };
}
