//! `std`, as the crate under test sees it when /verif builds it: everything is
//! re-exported, and the shared-memory primitives of `std::sync` first ask the
//! schedule (rayon-core's `mc_yield`) whether another piece of parallel work
//! runs before they take effect. Away from a controlled schedule they do
//! exactly what the real ones do.
#![no_std]
extern crate std as real;
pub use real::*;

unsafe extern "Rust" {
    /// 0: about to touch shared memory. 1: the lock is taken, somebody else has to run.
    /// Returns whether a schedule is in control.
    safe fn mc_yield(kind: u32) -> bool;
    /// Nothing else may run until `mc_atomic(false)`.
    safe fn mc_atomic(on: bool);
}

pub mod sync {
    pub use real::sync::*;
    use super::{mc_atomic, mc_yield};
    use real::{fmt, ops::Deref};

    struct Alone;
    impl Alone {
        fn new() -> Self {
            mc_atomic(true);
            Alone
        }
    }
    impl Drop for Alone {
        fn drop(&mut self) {
            mc_atomic(false);
        }
    }

    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(real::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self(real::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            mc_yield(0);
            loop {
                match self.0.try_lock() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => {
                        if !mc_yield(1) {
                            return self.0.lock();
                        }
                    }
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            mc_yield(0);
            self.0.try_lock()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    #[derive(Default)]
    pub struct RwLock<T: ?Sized>(real::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self(real::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            mc_yield(0);
            loop {
                match self.0.try_read() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => {
                        if !mc_yield(1) {
                            return self.0.read();
                        }
                    }
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            mc_yield(0);
            loop {
                match self.0.try_write() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => {
                        if !mc_yield(1) {
                            return self.0.write();
                        }
                    }
                }
            }
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            mc_yield(0);
            self.0.try_read()
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            mc_yield(0);
            self.0.try_write()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    #[derive(Clone, PartialEq, Eq)]
    pub struct OnceLock<T>(real::sync::OnceLock<T>);
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            Self(real::sync::OnceLock::new())
        }
        pub fn get(&self) -> Option<&T> {
            mc_yield(0);
            self.0.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.0.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            mc_yield(0);
            self.0.set(t)
        }
        pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
            mc_yield(0);
            let _alone = Alone::new();
            self.0.get_or_init(f)
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.0.take()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            Self(real::sync::OnceLock::from(t))
        }
    }

    pub struct LazyLock<T, F = fn() -> T>(real::sync::LazyLock<T, F>);
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            Self(real::sync::LazyLock::new(f))
        }
        pub fn force(this: &Self) -> &T {
            let _alone = Alone::new();
            real::sync::LazyLock::force(&this.0)
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }

    pub mod atomic {
        pub use real::sync::atomic::*;
        use super::mc_yield;
        use real::{fmt, ops::Deref};

        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[derive(Default)]
                #[repr(transparent)]
                pub struct $name(real::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(real::sync::atomic::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        mc_yield(0);
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        mc_yield(0);
                        self.0.store(v, o)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    two!($t; swap);
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        mc_yield(0);
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        mc_yield(0);
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        mc_yield(0);
                        let mut prev = self.0.load(f);
                        while let Some(next) = g(prev) {
                            mc_yield(0);
                            match self.0.compare_exchange(prev, next, s, f) {
                                Ok(v) => return Ok(v),
                                Err(v) => prev = v,
                            }
                        }
                        Err(prev)
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl Deref for $name {
                    type Target = real::sync::atomic::$name;
                    fn deref(&self) -> &Self::Target {
                        &self.0
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }
        macro_rules! two {
            ($t:ty; $($f:ident)*) => {
                $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                    mc_yield(0);
                    self.0.$f(v, o)
                })*
            };
        }
        macro_rules! ints {
            ($($name:ident $t:ty,)*) => {
                $(common!($name, $t);
                impl $name {
                    two!($t; fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
                })*
            };
        }
        ints! {
            AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32,
            AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8,
        }
        common!(AtomicBool, bool);
        impl AtomicBool {
            two!(bool; fetch_and fetch_nand fetch_or fetch_xor);
        }
    }
}
