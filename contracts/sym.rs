//! Input source and check macros shared by the verifier build and the native build of the contracts.
//! Under the verifier `any` is a symbolic value over the whole type; natively it is read from a replay
//! queue (a verifier counterexample) or drawn from a seeded generator biased towards boundary values.

#[cfg(kani)]
mod imp {
    pub trait Sym: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Sym for T {}
    #[inline(always)] pub fn any<T: Sym>() -> T { kani::any() }
    #[inline(always)] pub fn assume(b: bool) { kani::assume(b) }
    #[macro_export] macro_rules! check { ($c:expr, $l:literal $(, $t:expr)* $(,)?) => { assert!($c, $l) } }
    #[macro_export] macro_rules! reach { () => { kani::cover!(true, "reachable") } }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    pub enum Src { Queue(Vec<Vec<u8>>, usize), Rng(u64) }
    thread_local! {
        pub static SRC: RefCell<Src> = RefCell::new(Src::Rng(1));
        pub static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
    }
    pub struct Discard;
    pub struct Failed(pub String);
    pub fn next(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub trait Sym: Sized + std::fmt::Debug { fn gen_(r: &mut u64) -> Self; fn bytes(b: &[u8]) -> Self; }
    macro_rules! int { ($($t:ty),*) => {$(impl Sym for $t {
        fn gen_(r: &mut u64) -> Self {
            let x = next(r);
            match x % 8 {
                0 => (next(r) % 5) as $t,
                1 => <$t>::MAX.wrapping_sub((next(r) % 3) as $t),
                2 => <$t>::MIN.wrapping_add((next(r) % 3) as $t),
                3 => (1 as $t).wrapping_shl((next(r) % <$t>::BITS as u64) as u32).wrapping_sub(1).wrapping_add((next(r) % 3) as $t),
                4 => (next(r) % 300) as $t,
                5 => (next(r) >> (next(r) % 64)) as $t,
                _ => next(r) as $t,
            }
        }
        fn bytes(b: &[u8]) -> Self { let mut a = [0u8; std::mem::size_of::<$t>()]; let n = a.len().min(b.len()); a[..n].copy_from_slice(&b[..n]); <$t>::from_le_bytes(a) }
    })*} }
    int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128);
    impl Sym for bool { fn gen_(r: &mut u64) -> Self { next(r) & 1 == 1 } fn bytes(b: &[u8]) -> Self { b.first().map_or(false, |x| *x != 0) } }
    impl Sym for f64 {
        fn gen_(r: &mut u64) -> Self {
            const P: &[f64] = &[0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, 3.0, 60.0, 127.0, 128.0, 255.0, 256.0, 257.0, 360.0, -360.0, 90.0, 1e-300, -1e-300, 5e-324, f64::MAX, f64::MIN, f64::MIN_POSITIVE,
                9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 9223372036854775807.0, 9223372036854774784.0, 18446744073709551615.0, 4294967295.0, 4294967296.0, 2147483647.0, 2147483648.0, 1e16, 1e17, 1e21, 0.1, 1e15, 65536.0];
            let x = next(r);
            match x % 8 {
                0 | 1 => P[(next(r) % P.len() as u64) as usize] * if next(r) & 1 == 0 { 1.0 } else { -1.0 },
                2 => (next(r) % 12) as f64 - 3.0,
                3 => (next(r) % 2000) as f64 / 4.0 - 250.0,
                4 => (next(r) as i64 >> (next(r) % 64)) as f64,
                5 => ((next(r) % 1000) as f64) * 10f64.powi((next(r) % 40) as i32 - 20),
                _ => f64::from_bits(next(r)),
            }
        }
        fn bytes(b: &[u8]) -> Self { f64::from_bits(u64::bytes(b)) }
    }
    pub fn any<T: Sym>() -> T {
        let v = SRC.with(|s| match &mut *s.borrow_mut() {
            Src::Queue(q, i) => { *i += 1; q.get(*i - 1).map(|b| T::bytes(b)).unwrap_or_else(|| T::bytes(&[0u8; 16])) }
            Src::Rng(r) => T::gen_(r),
        });
        LOG.with(|l| l.borrow_mut().push(format!("{v:?}")));
        v
    }
    pub fn assume(b: bool) { if !b { std::panic::panic_any(Discard) } }
    #[macro_export] macro_rules! check { ($c:expr, $l:literal $(, $t:expr)* $(,)?) => { if !($c) { std::panic::panic_any($crate::sym::Failed(format!("{}{}", $l, String::new() $(+ &format!(" | {} = {:?}", stringify!($t), $t))*))) } } }
    #[macro_export] macro_rules! reach { () => { } }
}
pub use imp::*;

/// Declares contract obligations: each is a proof harness for the verifier and a replayable function natively.
#[macro_export]
macro_rules! contracts {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $(
            $(#[cfg_attr(kani, $m)])*
            #[cfg_attr(kani, kani::proof)]
            #[allow(dead_code)]
            pub fn $n() { $b; $crate::reach!(); }
        )*
        #[cfg(not(kani))]
        pub const ALL: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    }
}
/// Runs `$f` inside an arena (the real one natively; the shimmed one under the verifier).
#[macro_export]
macro_rules! arena { ($mc:ident => $b:block) => { gc_arena::rootless_arena(|$mc| $b) } }
