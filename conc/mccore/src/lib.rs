//! `core`, with atomic operations that the scheduler gets to order.
#![no_std]
pub use core::*;

pub mod hint {
    pub use core::hint::*;
    pub fn spin_loop() {
        sched::spin()
    }
}

pub mod sync {
    pub use core::sync::*;
    pub mod atomic {
        pub use core::sync::atomic::*;
        use core::fmt;

        pub fn spin_loop_hint() {
            sched::spin()
        }
        pub fn fence(o: Ordering) {
            core::sync::atomic::fence(o)
        }

        macro_rules! common {
            ($name:ident, $t:ty) => {
                pub struct $name {
                    v: core::sync::atomic::$name,
                }
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self { v: core::sync::atomic::$name::new(v) }
                    }
                    fn at(&self, write: bool) {
                        sched::atomic(&self.v as *const _ as *const u8, core::mem::size_of::<$t>(), write)
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        self.at(false);
                        self.v.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        self.at(true);
                        self.v.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.swap(v, o)
                    }
                    pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                        self.at(true);
                        match self.v.compare_exchange(a, b, Ordering::SeqCst, Ordering::SeqCst) {
                            Ok(x) | Err(x) => x,
                        }
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.at(true);
                        self.v.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        self.at(true);
                        self.v.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.fetch_and(v, o)
                    }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.fetch_or(v, o)
                    }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.fetch_xor(v, o)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange(prev, next, s, f) {
                                Ok(x) => return Ok(x),
                                Err(x) => prev = x,
                            }
                        }
                        Err(prev)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.v.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.v.into_inner()
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.v.fmt(f)
                    }
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self::new(Default::default())
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
            };
        }
        macro_rules! int {
            ($name:ident, $t:ty) => {
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.fetch_add(v, o)
                    }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.fetch_sub(v, o)
                    }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.fetch_max(v, o)
                    }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                        self.at(true);
                        self.v.fetch_min(v, o)
                    }
                }
            };
        }
        int!(AtomicU8, u8);
        int!(AtomicU16, u16);
        int!(AtomicU32, u32);
        int!(AtomicU64, u64);
        int!(AtomicUsize, usize);
        int!(AtomicI8, i8);
        int!(AtomicI16, i16);
        int!(AtomicI32, i32);
        int!(AtomicI64, i64);
        int!(AtomicIsize, isize);
        common!(AtomicBool, bool);
    }
}
