//! Atomics with a scheduling point before every access.
use crate::sim::{point, Kind};
use ::std::fmt;
use ::std::sync::atomic as real;
use ::std::sync::atomic::Ordering;

pub use ::std::sync::atomic::AtomicPtr;

macro_rules! common {
    ($name:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $name {
            inner: real::$name,
        }
        impl $name {
            pub const fn new(v: $t) -> Self {
                $name { inner: real::$name::new(v) }
            }
            #[track_caller]
            pub fn load(&self, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.load(o)
            }
            #[track_caller]
            pub fn store(&self, v: $t, o: Ordering) {
                point(Kind::Atomic);
                self.inner.store(v, o)
            }
            #[track_caller]
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.swap(v, o)
            }
            #[track_caller]
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point(Kind::Atomic);
                self.inner.compare_exchange(a, b, s, f)
            }
            #[track_caller]
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point(Kind::Atomic);
                self.inner.compare_exchange(a, b, s, f)
            }
            #[track_caller]
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                point(Kind::Atomic);
                self.inner.fetch_update(s, f, g)
            }
            #[track_caller]
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                self.fetch_update(s, f, g)
            }
            #[track_caller]
            pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, f: Ordering, mut g: F) -> $t {
                match self.fetch_update(s, f, |x| Some(g(x))) {
                    Ok(x) | Err(x) => x,
                }
            }
            #[track_caller]
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_nand(v, o)
            }
            pub const fn as_ptr(&self) -> *mut $t {
                self.inner.as_ptr()
            }
            #[track_caller]
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_and(v, o)
            }
            #[track_caller]
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_or(v, o)
            }
            #[track_caller]
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_xor(v, o)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.inner.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.inner.into_inner()
            }
        }
        impl Default for $name {
            fn default() -> Self {
                $name::new(Default::default())
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                $name::new(v)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.inner.fmt(f)
            }
        }
    };
}
macro_rules! int {
    ($name:ident, $t:ty) => {
        common!($name, $t);
        impl $name {
            #[track_caller]
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_add(v, o)
            }
            #[track_caller]
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_sub(v, o)
            }
            #[track_caller]
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_max(v, o)
            }
            #[track_caller]
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                point(Kind::Atomic);
                self.inner.fetch_min(v, o)
            }
        }
    };
}
common!(AtomicBool, bool);
impl AtomicBool {
    #[track_caller]
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}
int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicUsize, usize);
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
int!(AtomicIsize, isize);
