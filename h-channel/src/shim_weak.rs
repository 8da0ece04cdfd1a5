//! What the channel's sources see as `std` and `futures` in the `weak` variant: the real
//! crates, with the synchronisation primitives of loom in place of the real ones.
pub mod std {
    pub use ::std::*;

    pub mod sync {
        pub use ::std::sync::*;
        pub use loom::sync::{Arc, Condvar, Mutex, MutexGuard, RwLock};

        pub mod atomic {
            pub use ::std::sync::atomic::*;
            pub use loom::sync::atomic::{
                fence, AtomicBool, AtomicI32, AtomicI64, AtomicIsize, AtomicPtr, AtomicU32, AtomicU64, AtomicU8,
                AtomicUsize,
            };
            pub use loom::hint::spin_loop as spin_loop_hint;
        }
    }

    pub mod thread {
        pub use ::std::thread::*;
        pub use loom::thread::{current, park, yield_now};
    }

    pub mod hint {
        pub use ::std::hint::*;
        pub use loom::hint::spin_loop;
    }
}

pub mod futures {
    pub use ::futures::*;

    pub mod task {
        pub use ::futures::task::*;

        /// loom's waker cell behind the interface of the real one
        #[derive(Debug)]
        pub struct AtomicWaker(loom::future::AtomicWaker);

        impl AtomicWaker {
            pub fn new() -> Self {
                AtomicWaker(loom::future::AtomicWaker::new())
            }
            pub fn register(&self, waker: &Waker) {
                self.0.register_by_ref(waker)
            }
            pub fn wake(&self) {
                self.0.wake()
            }
            pub fn take(&self) -> Option<Waker> {
                self.0.take_waker()
            }
        }
    }
}
