//! Not part of rand: answers of uniform integer sampling given by an explorer.
use core::cell::RefCell;
use std::boxed::Box;

std::thread_local! {
    static HOOK: RefCell<Option<Box<dyn FnMut(u64) -> u64>>> = const { RefCell::new(None) };
}

/// From now on, a sample of a range of `n` integers in this thread is the one with the index given by the function.
pub fn set(hook: Option<Box<dyn FnMut(u64) -> u64>>) {
    HOOK.with(|h| *h.borrow_mut() = hook);
}

pub(crate) fn ask(n: u64) -> Option<u64> {
    HOOK.with(|h| h.borrow_mut().as_mut().map(|f| f(n)))
}
