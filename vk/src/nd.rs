//! Source of nondeterminism. Under Kani every call is a fresh symbolic value;
//! in the native replay build the calls pop the values of a solver model.

/// A situation the harness has to be able to reach: guards against vacuity.
#[cfg(kani)]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        kani::cover!($c, $m)
    };
}
#[cfg(not(kani))]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        if $c {
            println!("REACHED {}", $m)
        }
    };
}

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn arr<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// The model is large enough.
    pub fn limit(c: bool) {
        assert!(c, "limit of the model");
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    thread_local! {
        pub static VALS: RefCell<VecDeque<Vec<u8>>> = const { RefCell::new(VecDeque::new()) };
    }
    /// Exit code of a replay whose model does not meet an assumption, or has
    /// too few values: it reproduces nothing.
    pub const NOT_REPRODUCED: i32 = 3;

    /// Exit code of a replay that leaves the bounds of the model.
    pub const LIMIT: i32 = 4;

    fn raw<const N: usize>() -> [u8; N] {
        let v = VALS.with(|q| q.borrow_mut().pop_front());
        match v {
            Some(v) if v.len() == N => {
                let mut a = [0; N];
                a.copy_from_slice(&v);
                a
            }
            other => {
                eprintln!("replay: wanted {N} bytes, model has {other:?}");
                std::process::exit(NOT_REPRODUCED)
            }
        }
    }
    pub fn u8() -> u8 {
        raw::<1>()[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(raw())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(raw())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(raw())
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(raw())
    }
    pub fn arr<const N: usize>() -> [u8; N] {
        [(); N].map(|_| u8())
    }
    pub fn limit(c: bool) {
        if !c {
            eprintln!("replay: limit of the model");
            std::process::exit(LIMIT)
        }
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("replay: an assumption of the harness does not hold for this model");
            std::process::exit(NOT_REPRODUCED)
        }
    }
}

pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}

/// Arbitrary value below `n`.
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}

/// Arbitrary length up to and including `n`.
pub fn len(n: usize) -> usize {
    let v = usize();
    assume(v <= n);
    v
}
