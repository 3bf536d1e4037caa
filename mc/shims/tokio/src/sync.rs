pub mod mpsc {
    use std::collections::VecDeque;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    use crate::mc;

    pub mod error {
        use std::fmt;
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub struct SendError<T>(pub T);
        impl<T> fmt::Debug for SendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "SendError {{ .. }}")
            }
        }
        impl<T> fmt::Display for SendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "channel closed")
            }
        }
        impl<T> std::error::Error for SendError<T> {}
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub enum TrySendError<T> {
            Full(T),
            Closed(T),
        }
        impl<T> fmt::Debug for TrySendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "TrySendError")
            }
        }
        impl<T> fmt::Display for TrySendError<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "cannot send")
            }
        }
        #[derive(PartialEq, Eq, Clone, Copy, Debug)]
        pub enum TryRecvError {
            Empty,
            Disconnected,
        }
        impl fmt::Display for TryRecvError {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "cannot receive")
            }
        }
    }
    use error::*;

    struct Chan<T> {
        q: VecDeque<T>,
        cap: usize,
        senders: usize,
        closed: bool,
        rx_wakers: Vec<Waker>,
        tx_wakers: Vec<Waker>,
    }
    impl<T> Chan<T> {
        fn wake_rx(&mut self) -> Vec<Waker> {
            std::mem::take(&mut self.rx_wakers)
        }
        fn wake_tx(&mut self) -> Vec<Waker> {
            std::mem::take(&mut self.tx_wakers)
        }
    }
    fn wake(ws: Vec<Waker>) {
        for w in ws {
            w.wake();
        }
    }

    macro_rules! impl_rx {
        ($rx:ident) => {
            pub struct $rx<T>(Arc<Mutex<Chan<T>>>);
            impl<T> fmt::Debug for $rx<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, stringify!($rx))
                }
            }
            impl<T> Drop for $rx<T> {
                fn drop(&mut self) {
                    let (ws, q) = {
                        let mut c = self.0.lock().unwrap();
                        c.closed = true;
                        (c.wake_tx(), std::mem::take(&mut c.q))
                    };
                    wake(ws);
                    drop(q);
                }
            }
            impl<T> $rx<T> {
                pub fn recv(&mut self) -> Recv<'_, T> {
                    Recv { chan: &self.0, yielded: false }
                }
                pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                    let (v, ws) = {
                        let mut c = self.0.lock().unwrap();
                        let v = c.q.pop_front();
                        if v.is_none() {
                            return Err(if c.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty });
                        }
                        (v, c.wake_tx())
                    };
                    wake(ws);
                    Ok(v.unwrap())
                }
                pub fn close(&mut self) {
                    let ws = {
                        let mut c = self.0.lock().unwrap();
                        c.closed = true;
                        c.wake_tx()
                    };
                    wake(ws);
                }
                pub fn is_empty(&self) -> bool {
                    self.0.lock().unwrap().q.is_empty()
                }
                pub fn len(&self) -> usize {
                    self.0.lock().unwrap().q.len()
                }
                pub fn is_closed(&self) -> bool {
                    let c = self.0.lock().unwrap();
                    c.closed || c.senders == 0
                }
                pub fn blocking_recv(&mut self) -> Option<T> {
                    mc::blocking_yield(true);
                    loop {
                        match self.try_recv() {
                            Ok(v) => return Some(v),
                            Err(TryRecvError::Disconnected) => return None,
                            Err(TryRecvError::Empty) => {
                                self.0.lock().unwrap().rx_wakers.push(mc::blocking_waker());
                                mc::blocking_yield(false);
                            }
                        }
                    }
                }
            }
        };
    }
    impl_rx!(Receiver);
    impl_rx!(UnboundedReceiver);

    macro_rules! impl_tx {
        ($tx:ident) => {
            pub struct $tx<T>(Arc<Mutex<Chan<T>>>);
            impl<T> fmt::Debug for $tx<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, stringify!($tx))
                }
            }
            impl<T> Clone for $tx<T> {
                fn clone(&self) -> Self {
                    self.0.lock().unwrap().senders += 1;
                    Self(self.0.clone())
                }
            }
            impl<T> Drop for $tx<T> {
                fn drop(&mut self) {
                    let ws = {
                        let mut c = self.0.lock().unwrap();
                        c.senders -= 1;
                        if c.senders == 0 {
                            c.wake_rx()
                        } else {
                            Vec::new()
                        }
                    };
                    wake(ws);
                }
            }
            impl<T> $tx<T> {
                pub fn is_closed(&self) -> bool {
                    self.0.lock().unwrap().closed
                }
            }
        };
    }
    impl_tx!(Sender);
    impl_tx!(UnboundedSender);

    fn push<T>(chan: &Arc<Mutex<Chan<T>>>, v: T) -> Result<(), SendError<T>> {
        let ws = {
            let mut c = chan.lock().unwrap();
            if c.closed {
                return Err(SendError(v));
            }
            c.q.push_back(v);
            c.wake_rx()
        };
        wake(ws);
        Ok(())
    }

    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            if mc::in_worker() {
                mc::blocking_yield(true);
            }
            let r = push(&self.0, v);
            if mc::in_worker() {
                mc::blocking_yield(true);
            }
            r
        }
    }

    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Send<'_, T> {
            Send { chan: &self.0, v: Some(v), yielded: false }
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            {
                let c = self.0.lock().unwrap();
                if c.closed {
                    return Err(TrySendError::Closed(v));
                }
                if c.q.len() >= c.cap {
                    return Err(TrySendError::Full(v));
                }
            }
            push(&self.0, v).map_err(|e| TrySendError::Closed(e.0))
        }
        pub fn capacity(&self) -> usize {
            let c = self.0.lock().unwrap();
            c.cap - c.q.len()
        }
        /// Blocks the worker; a scheduling point before and after.
        pub fn blocking_send(&self, v: T) -> Result<(), SendError<T>> {
            mc::blocking_yield(true);
            loop {
                let full = {
                    let mut c = self.0.lock().unwrap();
                    if !c.closed && c.q.len() >= c.cap {
                        c.tx_wakers.push(mc::blocking_waker());
                        true
                    } else {
                        false
                    }
                };
                if full {
                    mc::blocking_yield(false);
                } else {
                    break;
                }
            }
            let r = push(&self.0, v);
            mc::blocking_yield(true);
            r
        }
    }

    pub struct Send<'a, T> {
        chan: &'a Arc<Mutex<Chan<T>>>,
        v: Option<T>,
        yielded: bool,
    }
    impl<T> Unpin for Send<'_, T> {}
    impl<T> Future for Send<'_, T> {
        type Output = Result<(), SendError<T>>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let this = self.get_mut();
            let chan = this.chan;
            let v = &mut this.v;
            mc::poll_op(
                &mut this.yielded,
                cx,
                || {
                    let c = chan.lock().unwrap();
                    c.closed || c.q.len() < c.cap
                },
                || push(chan, v.take().expect("polled after completion")),
                |w| chan.lock().unwrap().tx_wakers.push(w.clone()),
            )
        }
    }

    pub struct Recv<'a, T> {
        chan: &'a Arc<Mutex<Chan<T>>>,
        yielded: bool,
    }
    impl<T> Future for Recv<'_, T> {
        type Output = Option<T>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let this = self.get_mut();
            let chan = this.chan;
            mc::poll_op(
                &mut this.yielded,
                cx,
                || {
                    let c = chan.lock().unwrap();
                    !c.q.is_empty() || c.senders == 0 || c.closed
                },
                || {
                    let (v, ws) = {
                        let mut c = chan.lock().unwrap();
                        (c.q.pop_front(), c.wake_tx())
                    };
                    wake(ws);
                    v
                },
                |w| chan.lock().unwrap().rx_wakers.push(w.clone()),
            )
        }
    }

    fn chan<T>(cap: usize) -> Arc<Mutex<Chan<T>>> {
        Arc::new(Mutex::new(Chan {
            q: VecDeque::new(),
            cap,
            senders: 1,
            closed: false,
            rx_wakers: Vec::new(),
            tx_wakers: Vec::new(),
        }))
    }
    pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
        let c = chan(mc::capacity(cap));
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let c = chan(usize::MAX);
        (UnboundedSender(c.clone()), UnboundedReceiver(c))
    }
}

pub mod oneshot {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    use super::mpsc;

    pub mod error {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct RecvError(pub(super) ());
        impl std::fmt::Display for RecvError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "channel closed")
            }
        }
    }

    #[derive(Debug)]
    pub struct Sender<T>(mpsc::UnboundedSender<T>);
    #[derive(Debug)]
    pub struct Receiver<T>(mpsc::UnboundedReceiver<T>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let (a, b) = mpsc::unbounded_channel();
        (Sender(a), Receiver(b))
    }
    impl<T> Sender<T> {
        pub fn send(self, v: T) -> Result<(), T> {
            self.0.send(v).map_err(|e| e.0)
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut f = self.0.recv();
            Pin::new(&mut f).poll(cx).map(|v| v.ok_or(error::RecvError(())))
        }
    }
}
