//! What the channel's sources see as `std` and `futures` in the `sc` variant: the real crates,
//! with a scheduling point before every operation on a synchronisation primitive.
pub mod std {
    pub use ::std::*;

    pub mod sync {
        pub use self::mutex::{Mutex, MutexGuard};
        pub use ::std::sync::*;

        mod mutex {
            use crate::sc;
            use std::ops::{Deref, DerefMut};
            use std::sync::{LockResult, TryLockError, TryLockResult};

            #[derive(Debug, Default)]
            pub struct Mutex<T>(std::sync::Mutex<T>);
            pub struct MutexGuard<'a, T>(Option<std::sync::MutexGuard<'a, T>>, usize);

            impl<T> Mutex<T> {
                pub fn new(t: T) -> Self {
                    Mutex(std::sync::Mutex::new(t))
                }
                fn addr(&self) -> usize {
                    self as *const _ as usize
                }
                pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
                    sc::point();
                    loop {
                        match self.0.try_lock() {
                            Ok(g) => return Ok(MutexGuard(Some(g), self.addr())),
                            Err(TryLockError::WouldBlock) => sc::lock_wait(self.addr()),
                            Err(TryLockError::Poisoned(_)) => panic!("poisoned lock"),
                        }
                    }
                }
                pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
                    sc::point();
                    match self.0.try_lock() {
                        Ok(g) => Ok(MutexGuard(Some(g), self.addr())),
                        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                        Err(TryLockError::Poisoned(_)) => panic!("poisoned lock"),
                    }
                }
                pub fn into_inner(self) -> LockResult<T> {
                    Ok(self.0.into_inner().unwrap())
                }
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    Ok(self.0.get_mut().unwrap())
                }
            }
            impl<T> Deref for MutexGuard<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    self.0.as_ref().unwrap()
                }
            }
            impl<T> DerefMut for MutexGuard<'_, T> {
                fn deref_mut(&mut self) -> &mut T {
                    self.0.as_mut().unwrap()
                }
            }
            impl<T> Drop for MutexGuard<'_, T> {
                fn drop(&mut self) {
                    self.0 = None;
                    sc::lock_free(self.1);
                }
            }
        }

        pub mod atomic {
            use crate::sc::point;
            pub use ::std::sync::atomic::*;
            pub use crate::sc::yield_now as spin_loop_hint;

            macro_rules! common {
                ($name:ident, $real:ty, $t:ty) => {
                    #[derive(Debug, Default)]
                    pub struct $name($real);
                    impl $name {
                        pub const fn new(v: $t) -> Self {
                            $name(<$real>::new(v))
                        }
                        pub fn load(&self, o: Ordering) -> $t {
                            point();
                            self.0.load(o)
                        }
                        pub fn store(&self, v: $t, o: Ordering) {
                            point();
                            self.0.store(v, o)
                        }
                        pub fn swap(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.swap(v, o)
                        }
                        pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                            point();
                            self.0.compare_exchange(a, b, s, f)
                        }
                        pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                            point();
                            self.0.compare_exchange(a, b, s, f)
                        }
                        pub fn compare_and_swap(&self, a: $t, b: $t, _: Ordering) -> $t {
                            point();
                            match self.0.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) {
                                Ok(x) | Err(x) => x,
                            }
                        }
                        pub fn fetch_update(
                            &self,
                            s: Ordering,
                            f: Ordering,
                            mut g: impl FnMut($t) -> Option<$t>,
                        ) -> Result<$t, $t> {
                            let mut cur = self.load(f);
                            loop {
                                match g(cur) {
                                    None => return Err(cur),
                                    Some(n) => match self.compare_exchange(cur, n, s, f) {
                                        Ok(x) => return Ok(x),
                                        Err(x) => cur = x,
                                    },
                                }
                            }
                        }
                        pub fn get_mut(&mut self) -> &mut $t {
                            self.0.get_mut()
                        }
                        pub fn into_inner(self) -> $t {
                            self.0.into_inner()
                        }
                    }
                };
            }
            macro_rules! number {
                ($name:ident, $t:ty) => {
                    common!($name, ::std::sync::atomic::$name, $t);
                    impl $name {
                        pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_add(v, o)
                        }
                        pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_sub(v, o)
                        }
                        pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_and(v, o)
                        }
                        pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_or(v, o)
                        }
                        pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_xor(v, o)
                        }
                        pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_max(v, o)
                        }
                        pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                            point();
                            self.0.fetch_min(v, o)
                        }
                    }
                };
            }
            number!(AtomicUsize, usize);
            number!(AtomicIsize, isize);
            number!(AtomicU64, u64);
            number!(AtomicI64, i64);
            number!(AtomicU32, u32);
            number!(AtomicI32, i32);
            number!(AtomicU8, u8);
            common!(AtomicBool, ::std::sync::atomic::AtomicBool, bool);
            impl AtomicBool {
                pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                    point();
                    self.0.fetch_and(v, o)
                }
                pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                    point();
                    self.0.fetch_or(v, o)
                }
            }

            #[derive(Debug)]
            pub struct AtomicPtr<T>(::std::sync::atomic::AtomicPtr<T>);
            impl<T> AtomicPtr<T> {
                pub const fn new(v: *mut T) -> Self {
                    AtomicPtr(::std::sync::atomic::AtomicPtr::new(v))
                }
                pub fn load(&self, o: Ordering) -> *mut T {
                    point();
                    self.0.load(o)
                }
                pub fn store(&self, v: *mut T, o: Ordering) {
                    point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T {
                    point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
                    point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
                    point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn get_mut(&mut self) -> &mut *mut T {
                    self.0.get_mut()
                }
            }
        }
    }

    pub mod thread {
        pub use crate::sc::yield_now;
        pub use ::std::thread::{panicking, sleep};
    }

    pub mod hint {
        pub use crate::sc::yield_now as spin_loop;
        pub use ::std::hint::{black_box, unreachable_unchecked};
    }
}

pub mod futures {
    pub use ::futures::*;

    pub mod task {
        pub use ::futures::task::*;

        #[derive(Debug, Default)]
        pub struct AtomicWaker(::futures::task::AtomicWaker);

        impl AtomicWaker {
            pub fn new() -> Self {
                AtomicWaker(::futures::task::AtomicWaker::new())
            }
            pub fn register(&self, waker: &Waker) {
                crate::sc::point();
                self.0.register(waker)
            }
            pub fn wake(&self) {
                crate::sc::point();
                self.0.wake()
            }
            pub fn take(&self) -> Option<Waker> {
                crate::sc::point();
                self.0.take()
            }
        }
    }
}
