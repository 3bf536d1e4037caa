//! A stand-in for the parts of tokio that manul uses, in which every operation is a scheduling point of an explorer.
//!
//! One logical task runs at a time. Async tasks are polled on the exploring thread; blocking tasks run on worker
//! threads that hand a baton back and forth. All choices (which runnable task continues, which ready branch of a
//! `select!` is taken) are made by the `Chooser` given to `mc::run`.
#![allow(clippy::all)]

pub mod mc;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;

#[doc(hidden)]
pub mod macros {
    pub use std::pin::pin;
}

/// See `tokio::select`.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__sel!(@norm biased=true; [] $($t)*) };
    ($($t:tt)*) => { $crate::__sel!(@norm biased=false; [] $($t)*) };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __sel {
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr, if $c:expr => $h:block, $($rest:tt)*) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) ($c) ($h)}] $($rest)*)
    };
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr, if $c:expr => $h:block $($rest:tt)*) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) ($c) ($h)}] $($rest)*)
    };
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr, if $c:expr => $h:expr, $($rest:tt)*) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) ($c) ($h)}] $($rest)*)
    };
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr, if $c:expr => $h:expr) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) ($c) ($h)}])
    };
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr => $h:block, $($rest:tt)*) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) (true) ($h)}] $($rest)*)
    };
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr => $h:block $($rest:tt)*) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) (true) ($h)}] $($rest)*)
    };
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr => $h:expr, $($rest:tt)*) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) (true) ($h)}] $($rest)*)
    };
    (@norm biased=$b:tt; [$($acc:tt)*] $p:pat = $f:expr => $h:expr) => {
        $crate::__sel!(@norm biased=$b; [$($acc)* {($p) ($f) (true) ($h)}])
    };
    (@norm biased=$b:tt; [{($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)}]) => {{
        let out = {
            let c = [$c0, false, false, false, false];
            let mut f0 = $crate::macros::pin!(async { $f0.await });
            $crate::mc::Sel1 { biased: $b, c, f0: f0.as_mut() }.await
        };
        match out { $crate::mc::S5::A($p0) => $h0, _ => unreachable!() }
    }};
    (@norm biased=$b:tt; [{($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)} {($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)}]) => {
        $crate::__sel!(@go $b; {($p0) ($f0) ($c0) ($h0)} {($p1) ($f1) ($c1) ($h1)}
            {(_) ($crate::mc::never()) (false) (unreachable!())} {(_) ($crate::mc::never()) (false) (unreachable!())}
            {(_) ($crate::mc::never()) (false) (unreachable!())})
    };
    (@norm biased=$b:tt; [{($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)} {($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)}]) => {
        $crate::__sel!(@go $b; {($p0) ($f0) ($c0) ($h0)} {($p1) ($f1) ($c1) ($h1)} {($p2) ($f2) ($c2) ($h2)}
            {(_) ($crate::mc::never()) (false) (unreachable!())} {(_) ($crate::mc::never()) (false) (unreachable!())})
    };
    (@norm biased=$b:tt; [{($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)} {($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)} {($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)}]) => {
        $crate::__sel!(@go $b; {($p0) ($f0) ($c0) ($h0)} {($p1) ($f1) ($c1) ($h1)} {($p2) ($f2) ($c2) ($h2)} {($p3) ($f3) ($c3) ($h3)}
            {(_) ($crate::mc::never()) (false) (unreachable!())})
    };
    (@norm biased=$b:tt; [{($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)} {($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)} {($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)} {($p4:pat) ($f4:expr) ($c4:expr) ($h4:expr)}]) => {
        $crate::__sel!(@go $b; {($p0) ($f0) ($c0) ($h0)} {($p1) ($f1) ($c1) ($h1)} {($p2) ($f2) ($c2) ($h2)} {($p3) ($f3) ($c3) ($h3)} {($p4) ($f4) ($c4) ($h4)})
    };
    (@go $b:tt; {($p0:pat) ($f0:expr) ($c0:expr) ($h0:expr)} {($p1:pat) ($f1:expr) ($c1:expr) ($h1:expr)} {($p2:pat) ($f2:expr) ($c2:expr) ($h2:expr)} {($p3:pat) ($f3:expr) ($c3:expr) ($h3:expr)} {($p4:pat) ($f4:expr) ($c4:expr) ($h4:expr)}) => {{
        let out = {
            let c = [$c0, $c1, $c2, $c3, $c4];
            let f0 = $f0;
            let f1 = $f1;
            let f2 = $f2;
            let f3 = $f3;
            let f4 = $f4;
            let mut f0 = $crate::macros::pin!(f0);
            let mut f1 = $crate::macros::pin!(f1);
            let mut f2 = $crate::macros::pin!(f2);
            let mut f3 = $crate::macros::pin!(f3);
            let mut f4 = $crate::macros::pin!(f4);
            $crate::mc::Sel5 {
                biased: $b,
                yielded: false,
                c,
                f0: f0.as_mut(),
                f1: f1.as_mut(),
                f2: f2.as_mut(),
                f3: f3.as_mut(),
                f4: f4.as_mut(),
            }
            .await
        };
        #[allow(unreachable_code)]
        match out {
            $crate::mc::S5::A($p0) => $h0,
            $crate::mc::S5::B($p1) => $h1,
            $crate::mc::S5::C($p2) => $h2,
            $crate::mc::S5::D($p3) => $h3,
            $crate::mc::S5::E($p4) => $h4,
        }
    }};
}
