//! Nondeterministic values. Under Kani they are symbolic; natively they are taken from a queue of
//! concrete bytes, so that a counterexample found by Kani is replayed on the real code.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn usize() -> usize {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// A value below `n`
    pub fn below(n: u8) -> u8 {
        let v = u8();
        assume(v < n);
        v
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static QUEUE: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
        /// Values made up instead, and what they were
        pub static GEN: RefCell<Option<Box<dyn FnMut(usize) -> u64>>> = RefCell::new(None);
        pub static MADE: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
    }
    fn made(n: usize, x: u64) -> u64 {
        MADE.with(|m| m.borrow_mut().push(x.to_le_bytes()[..n].to_vec()));
        x
    }
    fn make(n: usize) -> Option<u64> {
        GEN.with(|g| g.borrow_mut().as_mut().map(|f| f(n)))
    }
    pub fn below(n: u8) -> u8 {
        if let Some(x) = make(1) {
            return made(1, (x & 255) % n.max(1) as u64) as u8;
        }
        let v = u8();
        assume(v < n);
        v
    }
    fn pop(n: usize) -> u64 {
        if let Some(x) = make(n) {
            return made(n, if n < 8 { x & ((1 << (8 * n)) - 1) } else { x });
        }
        let v = QUEUE.with(|q| q.borrow_mut().pop_front()).unwrap_or_default();
        let mut x = 0u64;
        for (i, b) in v.iter().take(n).enumerate() {
            x |= (*b as u64) << (8 * i);
        }
        x
    }
    pub fn u8() -> u8 {
        pop(1) as u8
    }
    pub fn u16() -> u16 {
        pop(2) as u16
    }
    pub fn u32() -> u32 {
        pop(4) as u32
    }
    pub fn u64() -> u64 {
        pop(8)
    }
    pub fn usize() -> usize {
        pop(8) as usize
    }
    /// Natively a violated assumption means that the values are no counterexample
    pub struct Assume;
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Assume)
        }
    }
}

pub use imp::*;

pub fn bool() -> bool {
    u8() & 1 == 1
}

/// Reachability check: must be satisfiable, otherwise the harness is vacuous
#[macro_export]
macro_rules! reach {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    };
}

/// Declare proof harnesses. Natively they are ordinary functions listed in `registry`.
#[macro_export]
macro_rules! proofs {
    ($( $(#[$a:meta])* [$u:literal] $name:ident => $body:expr; )*) => {
        $(
            $(#[$a])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $name() { $body }
        )*
        #[cfg(not(kani))]
        pub fn registry(v: &mut Vec<(&'static str, fn())>) {
            $( v.push((concat!(module_path!(), "::", stringify!($name)), $name as fn())); )*
        }
    };
}
