//! Nondeterminism and assertion layer.
//!
//! Under Kani every `any*` is a fresh symbolic value, `chk!` is an assertion
//! that does not constrain the paths after it and `witness!` is a reachability
//! cover. In the native build (the `replay` binary) the same calls consume the
//! values of a solver counterexample, in order, and record which checks fail,
//! so that every counterexample is re-executed against the compiled code.

#[cfg(kani)]
mod imp {
    #[inline(never)]
    #[kanitool::fn_marker = "CheckHook"]
    pub const fn check(cond: bool, msg: &'static str) {
        let _ = cond;
        let _ = msg;
    }
    pub fn u8() -> u8 {
        kani::any()
    }
    pub fn u16() -> u16 {
        kani::any()
    }
    pub fn u32() -> u32 {
        kani::any()
    }
    pub fn u64() -> u64 {
        kani::any()
    }
    pub fn bool() -> bool {
        kani::any()
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        pub static INPUT: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
        pub static FAILED: RefCell<Vec<String>> = RefCell::new(Vec::new());
        pub static WITNESSED: RefCell<Vec<String>> = RefCell::new(Vec::new());
    }
    fn pop(n: usize) -> Vec<u8> {
        if n == 0 {
            return Vec::new();
        }
        let v = INPUT.with(|q| q.borrow_mut().pop_front());
        let mut v = match v {
            Some(v) => v,
            // the counterexample does not depend on values the trace never produced
            None => vec![0; n],
        };
        if v.len() != n {
            eprintln!("REPLAY-DESYNC wanted {} bytes, trace has {}", n, v.len());
            std::process::exit(4);
        }
        v.truncate(n);
        v
    }
    pub fn u8() -> u8 {
        pop(1)[0]
    }
    pub fn bool() -> bool {
        pop(1)[0] & 1 != 0
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(pop(2).try_into().unwrap())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(pop(4).try_into().unwrap())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(pop(8).try_into().unwrap())
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        pop(N).try_into().unwrap()
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY-ASSUME-FALSE");
            std::process::exit(5);
        }
    }
    pub fn check(cond: bool, msg: &'static str) {
        if !cond {
            FAILED.with(|f| f.borrow_mut().push(msg.to_string()));
        }
    }
    pub fn witnessed(msg: &'static str) {
        WITNESSED.with(|f| f.borrow_mut().push(msg.to_string()));
    }
}

pub use imp::*;

/// `chk!(cond, "[Cxx] message")`: the property assertion.
#[macro_export]
macro_rules! chk {
    ($c:expr, $m:expr) => {
        $crate::nd::check($c, $m)
    };
}

/// `witness!("[Cxx] message")`: this point must be reachable (vacuity guard).
#[macro_export]
macro_rules! witness {
    ($m:expr) => {{
        #[cfg(kani)]
        kani::cover!(true, $m);
        #[cfg(not(kani))]
        $crate::nd::witnessed($m);
    }};
    ($c:expr, $m:expr) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        if $c {
            $crate::nd::witnessed($m);
        }
    }};
}

/// Declares harness functions; each becomes a CBMC entry point `vh_<name>` and
/// an entry of the native registry.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$a:meta])* fn $n:ident() $b:block )*) => {
        $( $(#[$a])* #[inline(never)] #[export_name = concat!("vh_", stringify!($n))] pub fn $n() $b )*
        #[cfg(kani)]
        pub fn reach() { $( if kani::any() { $n(); } )* }
        pub const ALL: &[(&str, fn())] = &[ $( (stringify!($n), $n as fn()) ),* ];
    };
}
