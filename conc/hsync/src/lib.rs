//! Stand-ins for the synchronization primitives hyper and h2 use. Each one is the real primitive with one
//! scheduling point in front of every operation on it (including dropping it), so that a controlled scheduler
//! decides how the operations of different threads interleave. Mutexes and atomics are shuttle's.
use shuttle_engine::runtime::thread::continuation::switch;

pub fn pt() {
    if !std::thread::panicking() {
        switch();
    }
}

macro_rules! deref {
    ($n:ident<$($t:ident),*>, $in:ty) => {
        impl<$($t),*> std::ops::Deref for $n<$($t),*> {
            type Target = $in;
            fn deref(&self) -> &$in {
                pt();
                self.0.as_ref().unwrap()
            }
        }
        impl<$($t),*> std::ops::DerefMut for $n<$($t),*> {
            fn deref_mut(&mut self) -> &mut $in {
                pt();
                self.0.as_mut().unwrap()
            }
        }
        impl<$($t),*> Drop for $n<$($t),*> {
            fn drop(&mut self) {
                if let Some(x) = self.0.take() {
                    pt();
                    drop(x);
                }
            }
        }
        impl<$($t),*> Unpin for $n<$($t),*> {}
        impl<$($t),*> std::fmt::Debug for $n<$($t),*> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
    };
}

macro_rules! cl {
    ($n:ident<$($t:ident),*>) => {
        impl<$($t),*> Clone for $n<$($t),*> {
            fn clone(&self) -> Self {
                pt();
                $n(self.0.clone())
            }
        }
    };
}

pub mod sync {
    pub use shuttle::sync::{atomic, Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::{mpsc, Arc, LazyLock, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult, Weak};
}

pub mod tokio_sync {
    pub mod mpsc {
        use crate::pt;
        use tokio::sync::mpsc as r;
        pub use tokio::sync::mpsc::error;
        pub struct UnboundedSender<T>(Option<r::UnboundedSender<T>>);
        pub struct UnboundedReceiver<T>(Option<r::UnboundedReceiver<T>>);
        pub struct Sender<T>(Option<r::Sender<T>>);
        pub struct Receiver<T>(Option<r::Receiver<T>>);
        deref!(UnboundedSender<T>, r::UnboundedSender<T>);
        deref!(UnboundedReceiver<T>, r::UnboundedReceiver<T>);
        deref!(Sender<T>, r::Sender<T>);
        deref!(Receiver<T>, r::Receiver<T>);
        cl!(UnboundedSender<T>);
        cl!(Sender<T>);
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let (a, b) = r::unbounded_channel();
            (UnboundedSender(Some(a)), UnboundedReceiver(Some(b)))
        }
        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            let (a, b) = r::channel(n);
            (Sender(Some(a)), Receiver(Some(b)))
        }
    }
    pub mod oneshot {
        use crate::pt;
        use std::{future::Future, pin::Pin, task::{Context, Poll}};
        use tokio::sync::oneshot as r;
        pub use tokio::sync::oneshot::error;
        pub struct Sender<T>(Option<r::Sender<T>>);
        pub struct Receiver<T>(Option<r::Receiver<T>>);
        deref!(Sender<T>, r::Sender<T>);
        deref!(Receiver<T>, r::Receiver<T>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (a, b) = r::channel();
            (Sender(Some(a)), Receiver(Some(b)))
        }
        impl<T> Sender<T> {
            pub fn send(mut self, t: T) -> Result<(), T> {
                pt();
                self.0.take().unwrap().send(t)
            }
        }
        impl<T> Future for Receiver<T> {
            type Output = Result<T, error::RecvError>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                Pin::new(&mut **self).poll(cx)
            }
        }
    }
    pub use tokio::sync::{Notify, Semaphore};
}

pub mod futures_channel {
    pub mod mpsc {
        use crate::pt;
        use futures_channel::mpsc as r;
        pub use futures_channel::mpsc::{SendError, TrySendError};
        use futures_core::{FusedStream, Stream};
        use std::{pin::Pin, task::{Context, Poll}};
        pub struct Sender<T>(Option<r::Sender<T>>);
        pub struct Receiver<T>(Option<r::Receiver<T>>);
        pub struct UnboundedSender<T>(Option<r::UnboundedSender<T>>);
        pub struct UnboundedReceiver<T>(Option<r::UnboundedReceiver<T>>);
        deref!(Sender<T>, r::Sender<T>);
        deref!(Receiver<T>, r::Receiver<T>);
        deref!(UnboundedSender<T>, r::UnboundedSender<T>);
        deref!(UnboundedReceiver<T>, r::UnboundedReceiver<T>);
        cl!(Sender<T>);
        cl!(UnboundedSender<T>);
        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            let (a, b) = r::channel(n);
            (Sender(Some(a)), Receiver(Some(b)))
        }
        pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let (a, b) = r::unbounded();
            (UnboundedSender(Some(a)), UnboundedReceiver(Some(b)))
        }
        macro_rules! stream {
            ($n:ident) => {
                impl<T> Stream for $n<T> {
                    type Item = T;
                    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
                        Pin::new(&mut **self).poll_next(cx)
                    }
                    fn size_hint(&self) -> (usize, Option<usize>) {
                        self.0.as_ref().unwrap().size_hint()
                    }
                }
                impl<T> FusedStream for $n<T> {
                    fn is_terminated(&self) -> bool {
                        self.0.as_ref().unwrap().is_terminated()
                    }
                }
            };
        }
        stream!(Receiver);
        stream!(UnboundedReceiver);
    }
    pub mod oneshot {
        use crate::pt;
        use futures_channel::oneshot as r;
        pub use futures_channel::oneshot::Canceled;
        use futures_core::FusedFuture;
        use std::{future::Future, pin::Pin, task::{Context, Poll}};
        pub struct Sender<T>(Option<r::Sender<T>>);
        pub struct Receiver<T>(Option<r::Receiver<T>>);
        deref!(Sender<T>, r::Sender<T>);
        deref!(Receiver<T>, r::Receiver<T>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let (a, b) = r::channel();
            (Sender(Some(a)), Receiver(Some(b)))
        }
        impl<T> Sender<T> {
            pub fn send(mut self, t: T) -> Result<(), T> {
                pt();
                self.0.take().unwrap().send(t)
            }
        }
        impl<T> Future for Receiver<T> {
            type Output = Result<T, Canceled>;
            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                Pin::new(&mut **self).poll(cx)
            }
        }
        impl<T> FusedFuture for Receiver<T> {
            fn is_terminated(&self) -> bool {
                self.0.as_ref().unwrap().is_terminated()
            }
        }
    }
}

pub mod want {
    use crate::pt;
    use std::task::{Context, Poll};
    use want as r;
    pub use want::Closed;
    pub struct Giver(Option<r::Giver>);
    pub struct SharedGiver(Option<r::SharedGiver>);
    pub struct Taker(Option<r::Taker>);
    deref!(Giver<>, r::Giver);
    deref!(SharedGiver<>, r::SharedGiver);
    deref!(Taker<>, r::Taker);
    cl!(SharedGiver<>);
    pub fn new() -> (Giver, Taker) {
        let (a, b) = r::new();
        (Giver(Some(a)), Taker(Some(b)))
    }
    impl Giver {
        pub fn shared(mut self) -> SharedGiver {
            SharedGiver(Some(self.0.take().unwrap().shared()))
        }
        pub fn poll_want(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
            pt();
            self.0.as_mut().unwrap().poll_want(cx)
        }
    }
}

pub mod atomic_waker {
    use crate::pt;
    use std::task::Waker;
    #[derive(Debug, Default)]
    pub struct AtomicWaker(atomic_waker::AtomicWaker);
    impl AtomicWaker {
        pub const fn new() -> Self {
            AtomicWaker(atomic_waker::AtomicWaker::new())
        }
        pub fn register(&self, w: &Waker) {
            pt();
            self.0.register(w)
        }
        pub fn wake(&self) {
            pt();
            self.0.wake()
        }
        pub fn take(&self) -> Option<Waker> {
            pt();
            self.0.take()
        }
    }
}
