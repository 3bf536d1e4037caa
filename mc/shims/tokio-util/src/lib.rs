//! Stand-in for `tokio_util::sync::CancellationToken` under the explorer.
pub mod sync {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    use tokio::mc;

    #[derive(Default)]
    struct St {
        cancelled: bool,
        wakers: Vec<Waker>,
        children: Vec<CancellationToken>,
    }
    #[derive(Clone, Default)]
    pub struct CancellationToken(Arc<Mutex<St>>);
    impl std::fmt::Debug for CancellationToken {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "CancellationToken")
        }
    }
    impl CancellationToken {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn cancel(&self) {
            let (ws, ch) = {
                let mut s = self.0.lock().unwrap();
                s.cancelled = true;
                (std::mem::take(&mut s.wakers), s.children.clone())
            };
            for w in ws {
                w.wake();
            }
            for c in ch {
                c.cancel();
            }
        }
        pub fn is_cancelled(&self) -> bool {
            self.0.lock().unwrap().cancelled
        }
        pub fn child_token(&self) -> Self {
            let c = Self::new();
            if self.is_cancelled() {
                c.cancel();
            }
            self.0.lock().unwrap().children.push(c.clone());
            c
        }
        pub fn cancelled(&self) -> WaitForCancellationFuture<'_> {
            WaitForCancellationFuture { token: self, yielded: false }
        }
        pub fn cancelled_owned(self) -> WaitForCancellationFutureOwned {
            WaitForCancellationFutureOwned { token: self, yielded: false }
        }
    }
    pub struct WaitForCancellationFuture<'a> {
        token: &'a CancellationToken,
        yielded: bool,
    }
    impl Future for WaitForCancellationFuture<'_> {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let this = self.get_mut();
            let t = this.token;
            mc::poll_op(
                &mut this.yielded,
                cx,
                || t.is_cancelled(),
                || (),
                |w| t.0.lock().unwrap().wakers.push(w.clone()),
            )
        }
    }
    pub struct WaitForCancellationFutureOwned {
        token: CancellationToken,
        yielded: bool,
    }
    impl Future for WaitForCancellationFutureOwned {
        type Output = ();
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let this = self.get_mut();
            let t = this.token.clone();
            mc::poll_op(
                &mut this.yielded,
                cx,
                || t.is_cancelled(),
                || (),
                |w| t.0.lock().unwrap().wakers.push(w.clone()),
            )
        }
    }
}
