//! As much of the package pauli_tracker_pyo3 as the Python wrapper uses, for the checks in /verif.
use pyo3::{types::PyModule, PyResult, Python};

pub mod frames {
    #[pyo3::pyclass(subclass)]
    #[derive(Clone)]
    pub struct PartialOrderGraph(pub Vec<Vec<(usize, Vec<usize>)>>);
}

pub struct Module<'m> {
    pub pymodule: &'m PyModule,
    pub path: String,
}

impl<'m> Module<'m> {
    pub fn new(py: Python<'_>, name: &str, parent_path: String) -> PyResult<Self> {
        Ok(Module { pymodule: PyModule::new(py, name)?, path: format!("{parent_path}.{name}") })
    }
    pub fn add_submodule(&self, _: Python<'_>, module: Module<'_>) -> PyResult<()> {
        self.pymodule.add_submodule(module.pymodule)
    }
}

#[macro_export]
macro_rules! serde {
    ($($t:tt)*) => {};
}
#[macro_export]
macro_rules! transform {
    () => {
        ""
    };
}
#[macro_export]
macro_rules! take_transform {
    () => {
        ""
    };
}
