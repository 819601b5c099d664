//! Atomics with a scheduling point before every access (sequentially consistent interleavings).
use simcore::{site::ATOMIC, yield_point};
use std::fmt;
use std::sync::atomic::Ordering;

macro_rules! common {
    ($name:ident, $real:path, $t:ty) => {
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name(<$real>::new(v))
            }
            pub fn load(&self, o: Ordering) -> $t {
                yield_point(ATOMIC);
                self.0.load(o)
            }
            pub fn store(&self, v: $t, o: Ordering) {
                yield_point(ATOMIC);
                self.0.store(v, o)
            }
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                yield_point(ATOMIC);
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                yield_point(ATOMIC);
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                yield_point(ATOMIC);
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn fetch_update<F>(&self, s: Ordering, f: Ordering, mut op: F) -> Result<$t, $t>
            where
                F: FnMut($t) -> Option<$t>,
            {
                let mut prev = self.load(f);
                while let Some(next) = op(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        Ok(x) => return Ok(x),
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
    };
}

macro_rules! int {
    ($($name:ident $t:ty),*) => {$(
        #[derive(Default)]
        pub struct $name(std::sync::atomic::$name);
        common!($name, std::sync::atomic::$name, $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { yield_point(ATOMIC); self.0.fetch_add(v, o) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { yield_point(ATOMIC); self.0.fetch_sub(v, o) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { yield_point(ATOMIC); self.0.fetch_and(v, o) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { yield_point(ATOMIC); self.0.fetch_or(v, o) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { yield_point(ATOMIC); self.0.fetch_xor(v, o) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { yield_point(ATOMIC); self.0.fetch_max(v, o) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { yield_point(ATOMIC); self.0.fetch_min(v, o) }
        }
    )*};
}
int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

#[derive(Default)]
pub struct AtomicBool(std::sync::atomic::AtomicBool);
common!(AtomicBool, std::sync::atomic::AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        yield_point(ATOMIC);
        self.0.fetch_and(v, o)
    }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        yield_point(ATOMIC);
        self.0.fetch_or(v, o)
    }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        yield_point(ATOMIC);
        self.0.fetch_xor(v, o)
    }
    pub fn fetch_not(&self, o: Ordering) -> bool {
        yield_point(ATOMIC);
        self.0.fetch_xor(true, o)
    }
}

pub use std::sync::atomic::AtomicPtr;
