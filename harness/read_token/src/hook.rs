//! Hook of the verification harness, called at the head of each read operation.

use std::cell::Cell;

thread_local! {
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static POINT: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Sets the number of read operations this thread may still make.
pub fn set_budget(n: u64) { BUDGET.with(|b| b.set(n)); }

/// The number of read operations this thread may still make.
pub fn budget() -> u64 { BUDGET.with(|b| b.get()) }

/// Sets a function called at every read operation of this thread.
pub fn set_point(f: Option<fn()>) { POINT.with(|p| p.set(f)); }

/// Called at the head of each read operation.
#[inline(always)]
pub fn tick() {
    BUDGET.with(|b| {
        let n = b.get();
        if n == 0 { panic!("read operation budget exceeded: the parse does not end"); }
        b.set(n - 1);
    });
    if let Some(f) = POINT.with(|p| p.get()) { f() }
}
