pub use std::time::Duration;

/// Time is not modelled: sleeping only lets other tasks run.
pub fn sleep(_d: Duration) -> crate::mc::YieldNow {
    crate::mc::yield_now()
}
