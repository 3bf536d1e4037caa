//! The scheduler and the interface to the explorer.
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::future::{Future, IntoFuture};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// What kind of choice is made.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    /// Which runnable task continues (option 0: the running one if it can and has not given way).
    Task,
    /// Which ready branch of a `select!` is taken.
    Branch,
    /// A choice of the harness.
    Env,
    /// Whether the pending fault happens now (option 1).
    Fault,
}

pub trait Chooser: Send {
    /// Called with at least two options.
    fn choose(&mut self, kind: Kind, n: usize) -> usize;
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Outcome {
    /// The root future is complete.
    Done,
    /// No task can continue.
    Deadlock(String),
    /// The step horizon was reached.
    Livelock,
}

enum Body {
    Async(Pin<Box<dyn Future<Output = ()> + Send>>),
    /// Waiting for its first activation.
    Fresh(Box<dyn FnOnce() + Send>),
    /// Running on a worker thread.
    Worker(Arc<Baton>),
    Running,
    Gone,
}

struct TaskSt {
    body: Body,
    name: String,
}

struct Inner {
    tasks: Vec<TaskSt>,
    runnable: BTreeSet<usize>,
    current: usize,
    steps: usize,
}

pub struct Sched {
    inner: Mutex<Inner>,
    chooser: Mutex<Box<dyn Chooser>>,
    pub panics: Mutex<Vec<String>>,
    fault: Mutex<Option<Box<dyn FnOnce() + Send>>>,
    setup: Setup,
}

/// Circumstances of an execution.
#[derive(Clone, Default)]
pub struct Setup {
    /// Called on every worker thread before it runs a task.
    pub worker_init: Option<Arc<dyn Fn() + Send + Sync>>,
    /// Channels with at least this capacity get the other one instead.
    pub capacity: Option<(usize, usize)>,
}

/// Registers something that may happen before any step.
pub fn on_fault(f: impl FnOnce() + Send + 'static) {
    *sched().fault.lock().unwrap() = Some(Box::new(f));
}
pub(crate) fn capacity(cap: usize) -> usize {
    let s = CTX.with(|c| c.borrow().as_ref().and_then(|s| s.setup.capacity));
    match s {
        Some((at_least, other)) if cap >= at_least => other,
        _ => cap,
    }
}

/// Hand-over between the exploring thread and a worker.
struct Baton {
    st: Mutex<(u8, bool)>, // 0: worker may not run, 1: worker runs, 2: worker finished; abort flag
    cv: Condvar,
}

struct Aborted;

thread_local! {
    static CTX: RefCell<Option<Arc<Sched>>> = const { RefCell::new(None) };
    static MODE: Cell<u8> = const { Cell::new(0) };
    static READY: Cell<bool> = const { Cell::new(false) };
    static WORKER: RefCell<Option<(usize, Arc<Baton>)>> = const { RefCell::new(None) };
    static GAVE_WAY: Cell<bool> = const { Cell::new(false) };
}

pub fn sched() -> Arc<Sched> {
    CTX.with(|c| c.borrow().clone()).expect("not within mc::run")
}

/// A choice of the harness itself.
pub fn choose(n: usize) -> usize {
    sched().pick(Kind::Env, n)
}

impl Sched {
    fn pick(&self, kind: Kind, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let c = self.chooser.lock().unwrap().choose(kind, n);
        assert!(c < n, "choice out of range");
        c
    }
    pub(crate) fn add_async(self: &Arc<Self>, name: String, f: Pin<Box<dyn Future<Output = ()> + Send>>) -> usize {
        let mut i = self.inner.lock().unwrap();
        i.tasks.push(TaskSt { body: Body::Async(f), name });
        let id = i.tasks.len() - 1;
        i.runnable.insert(id);
        id
    }
    pub(crate) fn add_blocking(self: &Arc<Self>, name: String, f: Box<dyn FnOnce() + Send>) -> usize {
        let mut i = self.inner.lock().unwrap();
        i.tasks.push(TaskSt { body: Body::Fresh(f), name });
        let id = i.tasks.len() - 1;
        i.runnable.insert(id);
        id
    }
    pub(crate) fn waker(self: &Arc<Self>, id: usize) -> Waker {
        Waker::from(Arc::new(TaskWaker { sched: self.clone(), id }))
    }
    pub(crate) fn kill(&self, id: usize) {
        let body = {
            let mut i = self.inner.lock().unwrap();
            i.runnable.remove(&id);
            match &i.tasks[id].body {
                Body::Async(_) | Body::Fresh(_) => std::mem::replace(&mut i.tasks[id].body, Body::Gone),
                _ => Body::Gone,
            }
        };
        drop(body);
    }
    pub fn task_count(&self) -> usize {
        self.inner.lock().unwrap().tasks.len()
    }
}

struct TaskWaker {
    sched: Arc<Sched>,
    id: usize,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        let mut i = self.sched.inner.lock().unwrap();
        if i.tasks.get(self.id).is_some_and(|t| !matches!(t.body, Body::Gone)) {
            i.runnable.insert(self.id);
        }
    }
}

/// In the middle of probing the branches of a `select!`: says that this future would be ready.
pub fn probing() -> bool {
    MODE.with(|m| m.get() == 1)
}
pub fn mark_ready() {
    READY.with(|r| r.set(true))
}
/// Whether a primitive makes itself a scheduling point before acting.
pub fn yields() -> bool {
    MODE.with(|m| m.get() == 0)
}
fn with_mode<T>(mode: u8, f: impl FnOnce() -> T) -> T {
    let old = MODE.with(|m| m.replace(mode));
    struct G(u8);
    impl Drop for G {
        fn drop(&mut self) {
            MODE.with(|m| m.set(self.0));
        }
    }
    let _g = G(old);
    f()
}

/// Polls a primitive: a scheduling point first, then `try_op`, which registers the waker if it cannot act.
pub fn poll_op<T>(
    yielded: &mut bool,
    cx: &mut Context<'_>,
    ready: impl FnOnce() -> bool,
    act: impl FnOnce() -> T,
    register: impl FnOnce(&Waker),
) -> Poll<T> {
    if probing() {
        if ready() {
            mark_ready();
        }
        return Poll::Pending;
    }
    if yields() && !*yielded {
        *yielded = true;
        cx.waker().wake_by_ref();
        return Poll::Pending;
    }
    *yielded = true;
    if ready() {
        Poll::Ready(act())
    } else {
        register(cx.waker());
        Poll::Pending
    }
}

/// Called by a blocking operation on a worker: a scheduling point.
pub fn blocking_yield(runnable: bool) {
    let (id, baton) = WORKER.with(|w| w.borrow().clone()).expect("blocking operation outside of a blocking task");
    let s = sched();
    if runnable {
        s.inner.lock().unwrap().runnable.insert(id);
    }
    let mut st = baton.st.lock().unwrap();
    st.0 = 0;
    baton.cv.notify_all();
    while st.0 != 1 && !st.1 {
        st = baton.cv.wait(st).unwrap();
    }
    if st.1 {
        drop(st);
        std::panic::resume_unwind(Box::new(Aborted));
    }
}
pub fn blocking_waker() -> Waker {
    let (id, _) = WORKER.with(|w| w.borrow().clone()).expect("blocking operation outside of a blocking task");
    sched().waker(id)
}
pub fn in_worker() -> bool {
    WORKER.with(|w| w.borrow().is_some())
}

// Worker thread pool.
type Job = Box<dyn FnOnce() + Send>;
struct PoolWorker {
    tx: std::sync::mpsc::Sender<Job>,
}
static POOL: Mutex<Vec<PoolWorker>> = Mutex::new(Vec::new());

fn pool_run(job: Job) {
    let w = POOL.lock().unwrap().pop();
    let w = w.unwrap_or_else(|| {
        let (tx, rx) = std::sync::mpsc::channel::<Job>();
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn(move || {
                for job in rx {
                    job();
                }
            })
            .unwrap();
        PoolWorker { tx }
    });
    let tx2 = w.tx.clone();
    w.tx.send(Box::new(move || {
        job();
        POOL.lock().unwrap().push(PoolWorker { tx: tx2 });
    }))
    .unwrap();
}

fn run_worker(sched: &Arc<Sched>, id: usize, f: Box<dyn FnOnce() + Send>) -> Arc<Baton> {
    let baton = Arc::new(Baton { st: Mutex::new((1, false)), cv: Condvar::new() });
    let b = baton.clone();
    let s = sched.clone();
    pool_run(Box::new(move || {
        if let Some(f) = &s.setup.worker_init {
            f();
        }
        CTX.with(|c| *c.borrow_mut() = Some(s));
        WORKER.with(|w| *w.borrow_mut() = Some((id, b.clone())));
        let _ = catch_unwind(AssertUnwindSafe(f));
        WORKER.with(|w| *w.borrow_mut() = None);
        CTX.with(|c| *c.borrow_mut() = None);
        let mut st = b.st.lock().unwrap();
        st.0 = 2;
        b.cv.notify_all();
    }));
    baton
}

/// Runs `root` (and everything it spawns) under the chooser until the root is complete.
pub fn run<T: Send + 'static>(
    chooser: Box<dyn Chooser>,
    setup: Setup,
    max_steps: usize,
    root: impl Future<Output = T> + Send + 'static,
) -> (Outcome, Option<T>, Vec<String>) {
    let sched = Arc::new(Sched {
        inner: Mutex::new(Inner { tasks: Vec::new(), runnable: BTreeSet::new(), current: 0, steps: 0 }),
        chooser: Mutex::new(chooser),
        panics: Mutex::new(Vec::new()),
        fault: Mutex::new(None),
        setup,
    });
    CTX.with(|c| *c.borrow_mut() = Some(sched.clone()));
    GAVE_WAY.with(|g| g.set(false));
    let result = Arc::new(Mutex::new(None));
    let r2 = result.clone();
    sched.add_async(
        "root".into(),
        Box::pin(async move {
            let v = root.await;
            *r2.lock().unwrap() = Some(v);
        }),
    );
    let outcome = loop {
        if matches!(sched.inner.lock().unwrap().tasks[0].body, Body::Gone) {
            break Outcome::Done;
        }
        // Whether something happens first.
        if sched.fault.lock().unwrap().is_some() {
            let stuck = sched.inner.lock().unwrap().runnable.is_empty();
            if stuck || sched.pick(Kind::Fault, 2) == 1 {
                let f = sched.fault.lock().unwrap().take();
                f.unwrap()();
            }
        }
        // Who can run: the current task, and then the following ones in a circle.
        // A task that has given way is the last option.
        let (options, steps, cur, last) = {
            let mut i = sched.inner.lock().unwrap();
            i.steps += 1;
            let given_way = GAVE_WAY.with(|g| g.replace(false));
            let cur = i.current;
            (i.runnable.len(), i.steps, cur, given_way || !i.runnable.contains(&cur))
        };
        if options == 0 {
            let i = sched.inner.lock().unwrap();
            let names: Vec<_> =
                i.tasks.iter().filter(|t| !matches!(t.body, Body::Gone)).map(|t| t.name.clone()).collect();
            break Outcome::Deadlock(names.join(", "));
        }
        if steps > max_steps {
            break Outcome::Livelock;
        }
        let option = sched.pick(Kind::Task, options);
        let id = match option {
            0 if !last => cur,
            k => {
                let i = sched.inner.lock().unwrap();
                let mut others = i.runnable.range(cur + 1..).chain(i.runnable.range(..cur));
                others.nth(k - !last as usize).copied().unwrap_or(cur)
            }
        };
        let body = {
            let mut i = sched.inner.lock().unwrap();
            i.current = id;
            i.runnable.remove(&id);
            std::mem::replace(&mut i.tasks[id].body, Body::Running)
        };
        let new_body = match body {
            Body::Async(mut f) => {
                let waker = sched.waker(id);
                let mut cx = Context::from_waker(&waker);
                match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))) {
                    Ok(Poll::Pending) => Body::Async(f),
                    Ok(Poll::Ready(())) => {
                        drop(f);
                        Body::Gone
                    }
                    Err(e) => {
                        let name = sched.inner.lock().unwrap().tasks[id].name.clone();
                        sched.panics.lock().unwrap().push(format!("{name}: {}", panic_text(&*e)));
                        let _ = catch_unwind(AssertUnwindSafe(|| drop(f)));
                        Body::Gone
                    }
                }
            }
            Body::Fresh(f) => {
                let b = run_worker(&sched, id, f);
                wait_worker(b)
            }
            Body::Worker(b) => {
                {
                    let mut st = b.st.lock().unwrap();
                    st.0 = 1;
                    b.cv.notify_all();
                }
                wait_worker(b)
            }
            Body::Running | Body::Gone => Body::Gone,
        };
        let mut i = sched.inner.lock().unwrap();
        if matches!(new_body, Body::Gone) {
            i.runnable.remove(&id);
        }
        i.tasks[id].body = new_body;
    };
    // Stop what is left.
    let n = sched.inner.lock().unwrap().tasks.len();
    for id in 0..n {
        let body = {
            let mut i = sched.inner.lock().unwrap();
            i.runnable.remove(&id);
            std::mem::replace(&mut i.tasks[id].body, Body::Gone)
        };
        match body {
            Body::Worker(b) => {
                let mut st = b.st.lock().unwrap();
                st.1 = true;
                b.cv.notify_all();
                while st.0 != 2 {
                    st = b.cv.wait(st).unwrap();
                }
            }
            other => {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(other)));
            }
        }
    }
    CTX.with(|c| *c.borrow_mut() = None);
    let panics = sched.panics.lock().unwrap().clone();
    let v = result.lock().unwrap().take();
    (outcome, v, panics)
}

pub(crate) fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub(crate) fn note_panic(e: &(dyn std::any::Any + Send)) {
    if !e.is::<Aborted>() {
        sched().panics.lock().unwrap().push(panic_text(e));
    }
}
pub(crate) fn is_abort(e: &(dyn std::any::Any + Send)) -> bool {
    e.is::<Aborted>()
}

fn wait_worker(b: Arc<Baton>) -> Body {
    let mut st = b.st.lock().unwrap();
    while st.0 == 1 {
        st = b.cv.wait(st).unwrap();
    }
    let done = st.0 == 2;
    drop(st);
    if done {
        Body::Gone
    } else {
        Body::Worker(b)
    }
}

/// A future that yields to the scheduler once.
pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow {
    YieldNow(false)
}
impl Future for YieldNow {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if probing() {
            mark_ready();
            return Poll::Pending;
        }
        if self.0 || !yields() {
            Poll::Ready(())
        } else {
            self.0 = true;
            GAVE_WAY.with(|g| g.set(true));
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

pub fn never() -> std::future::Pending<()> {
    std::future::pending()
}

pub enum S5<A, B = (), C = (), D = (), E = ()> {
    A(A),
    B(B),
    C(C),
    D(D),
    E(E),
}

pub struct Sel1<'a, F0> {
    pub biased: bool,
    pub c: [bool; 5],
    pub f0: Pin<&'a mut F0>,
}
impl<'a, F0: Future + 'a> IntoFuture for Sel1<'a, F0> {
    type Output = S5<F0::Output>;
    type IntoFuture = Pin<Box<dyn Future<Output = Self::Output> + 'a>>;
    fn into_future(self) -> Self::IntoFuture {
        Box::pin(async move { S5::A(self.f0.await) })
    }
}

pub struct Sel5<'a, F0, F1, F2, F3, F4> {
    pub biased: bool,
    pub yielded: bool,
    pub c: [bool; 5],
    pub f0: Pin<&'a mut F0>,
    pub f1: Pin<&'a mut F1>,
    pub f2: Pin<&'a mut F2>,
    pub f3: Pin<&'a mut F3>,
    pub f4: Pin<&'a mut F4>,
}

impl<'a, F0: Future, F1: Future, F2: Future, F3: Future, F4: Future> Future for Sel5<'a, F0, F1, F2, F3, F4> {
    type Output = S5<F0::Output, F1::Output, F2::Output, F3::Output, F4::Output>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        if yields() && !this.yielded {
            this.yielded = true;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        this.yielded = true;
        let mut ready = Vec::new();
        macro_rules! probe {
            ($i:expr, $f:ident, $v:ident) => {
                if this.c[$i] {
                    READY.with(|r| r.set(false));
                    if let Poll::Ready(x) = with_mode(1, || this.$f.as_mut().poll(cx)) {
                        return Poll::Ready(S5::$v(x));
                    }
                    if READY.with(|r| r.replace(false)) {
                        ready.push($i);
                    }
                }
            };
        }
        probe!(0, f0, A);
        probe!(1, f1, B);
        probe!(2, f2, C);
        probe!(3, f3, D);
        probe!(4, f4, E);
        if !ready.is_empty() {
            let k = if this.biased { 0 } else { sched().pick(Kind::Branch, ready.len()) };
            macro_rules! take {
                ($i:expr, $f:ident, $v:ident) => {
                    if ready[k] == $i {
                        if let Poll::Ready(x) = with_mode(2, || this.$f.as_mut().poll(cx)) {
                            return Poll::Ready(S5::$v(x));
                        }
                    }
                };
            }
            take!(0, f0, A);
            take!(1, f1, B);
            take!(2, f2, C);
            take!(3, f3, D);
            take!(4, f4, E);
        }
        macro_rules! register {
            ($i:expr, $f:ident, $v:ident) => {
                if this.c[$i] {
                    if let Poll::Ready(x) = with_mode(2, || this.$f.as_mut().poll(cx)) {
                        return Poll::Ready(S5::$v(x));
                    }
                }
            };
        }
        register!(0, f0, A);
        register!(1, f1, B);
        register!(2, f2, C);
        register!(3, f3, D);
        register!(4, f4, E);
        Poll::Pending
    }
}
