//! `simstd`: a facade over the real standard library.
//!
//! The crates under test are compiled with `--extern std=libsimstd.rlib`, so that `std::...` in their
//! source resolves here. Everything is re-exported from the real `std`, except blocking and atomic
//! primitives of `std::sync` (and `thread::sleep`/`yield_now` and the clocks of `std::time`), which ask the deterministic
//! scheduler in [`sim`] before every operation. Outside of a simulated thread they behave exactly like
//! the real ones.
#![allow(clippy::all, deprecated)]

pub use ::std::*;

pub mod sim;

pub mod thread {
    pub use ::std::thread::*;

    pub fn sleep(duration: ::std::time::Duration) {
        if crate::sim::active() {
            crate::sim::sleep_us(duration.as_micros() as u64);
        } else {
            ::std::thread::sleep(duration)
        }
    }

    pub fn yield_now() {
        if crate::sim::active() {
            crate::sim::point(crate::sim::Kind::Yield);
        } else {
            ::std::thread::yield_now()
        }
    }
}

pub mod time {
    pub use crate::clock::{Instant, SystemTime, UNIX_EPOCH};
    pub use ::std::time::{Duration, SystemTimeError, TryFromFloatSecsError};
}

pub mod sync {
    pub use ::std::sync::*;

    pub use crate::locks::{
        Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, RwLock, RwLockReadGuard,
        RwLockWriteGuard, WaitTimeoutResult,
    };

    pub mod atomic {
        pub use crate::atomics::*;
        pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
    }
}

mod atomics;
mod clock;
mod locks;
