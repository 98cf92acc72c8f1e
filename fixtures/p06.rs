//! Positive examples for the shared-state rule: every item here must be reported.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::AtomicUsize;
use std::sync::{Arc, Mutex, OnceLock};

pub static mut COUNTER: usize = 0;
pub static ATOMIC: AtomicUsize = AtomicUsize::new(0);
pub static CACHE: OnceLock<Vec<f64>> = OnceLock::new();
pub static TABLE: Mutex<Vec<f64>> = Mutex::new(Vec::new());

thread_local! {
    pub static SCRATCH: RefCell<Vec<f64>> = RefCell::new(Vec::new());
    pub static FLAG: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone)]
pub struct SharedBuffer {
    pub data: Rc<RefCell<Vec<f64>>>,
}

#[derive(Clone)]
pub struct SharedTable {
    pub data: Option<Arc<Mutex<Vec<f64>>>>,
}

#[derive(Clone)]
pub struct RawShare {
    pub data: *mut f64,
}

pub fn environment() {
    unsafe { std::env::set_var("OMP_NUM_THREADS", "1") };
}
