use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use crate::mc;

pub use crate::mc::yield_now;

#[derive(Debug)]
pub struct JoinError(String, bool);
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "task failed: {}", self.0)
    }
}
impl std::error::Error for JoinError {}
impl JoinError {
    pub fn is_panic(&self) -> bool {
        !self.1
    }
    pub fn is_cancelled(&self) -> bool {
        self.1
    }
}

struct Slot<T> {
    value: Option<Result<T, JoinError>>,
    done: bool,
    wakers: Vec<Waker>,
}

pub struct JoinHandle<T> {
    slot: Arc<Mutex<Slot<T>>>,
    id: usize,
    yielded: bool,
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.id)
    }
}

fn finish<T>(slot: &Arc<Mutex<Slot<T>>>, v: Result<T, JoinError>) {
    let wakers = {
        let mut s = slot.lock().unwrap();
        if s.done {
            return;
        }
        s.value = Some(v);
        s.done = true;
        std::mem::take(&mut s.wakers)
    };
    for w in wakers {
        w.wake();
    }
}

impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        self.slot.lock().unwrap().done
    }
    pub fn abort(&self) {
        mc::sched().kill(self.id);
        finish(&self.slot, Err(JoinError("aborted".into(), true)));
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        let slot = this.slot.clone();
        mc::poll_op(
            &mut this.yielded,
            cx,
            || slot.lock().unwrap().done,
            || slot.lock().unwrap().value.take().expect("JoinHandle polled after completion"),
            |w| slot.lock().unwrap().wakers.push(w.clone()),
        )
    }
}

struct CatchUnwind<F>(F);
impl<F: Future> Future for CatchUnwind<F> {
    type Output = Result<F::Output, String>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        // Safety: structural pinning of the only field.
        let f = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        match catch_unwind(AssertUnwindSafe(|| f.poll(cx))) {
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Ok(Poll::Pending) => Poll::Pending,
            Err(e) => {
                mc::note_panic(&*e);
                Poll::Ready(Err(mc::panic_text(&*e)))
            }
        }
    }
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let slot = Arc::new(Mutex::new(Slot { value: None, done: false, wakers: Vec::new() }));
    let s2 = slot.clone();
    let sched = mc::sched();
    let id = sched.add_async(
        format!("task {}", sched.task_count()),
        Box::pin(async move {
            let v = CatchUnwind(f).await;
            finish(&s2, v.map_err(|e| JoinError(e, false)));
        }),
    );
    JoinHandle { slot, id, yielded: false }
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let slot = Arc::new(Mutex::new(Slot { value: None, done: false, wakers: Vec::new() }));
    let s2 = slot.clone();
    let sched = mc::sched();
    let id = sched.add_blocking(
        format!("blocking {}", sched.task_count()),
        Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => finish(&s2, Ok(v)),
                Err(e) if mc::is_abort(&*e) => {}
                Err(e) => {
                    mc::note_panic(&*e);
                    finish(&s2, Err(JoinError(mc::panic_text(&*e), false)))
                }
            }
        }),
    );
    JoinHandle { slot, id, yielded: false }
}

/// A collection of tasks.
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self { handles: Vec::new() }
    }
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) {
        self.handles.push(spawn(f));
    }
    pub fn spawn_blocking<F: FnOnce() -> T + Send + 'static>(&mut self, f: F) {
        self.handles.push(spawn_blocking(f));
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.handles.is_empty() {
            return None;
        }
        let k = self.handles.iter().position(|h| h.is_finished()).unwrap_or(0);
        let h = self.handles.remove(k);
        Some(h.await)
    }
}
