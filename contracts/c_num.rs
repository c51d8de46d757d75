//! Numbers and scalar blocks.
use crate::*;
use crate::sym::*;
use netsblox_vm::runtime::*;
use netsblox_vm::process::verif as v;
use netsblox_vm::bytecode::verif as b;
#[allow(unused_imports)] use crate::dummy::*;

pub type V<'gc> = Value<'gc, C, S>;
pub fn num<'gc>(f: f64) -> V<'gc> { Value::Number(Number::new(f).unwrap()) }
pub fn same(a: f64, b: f64) -> bool { a == b && !(a == 0.0 && a.is_sign_negative()) }
/// An arbitrary storable number.
pub fn anum() -> f64 { let f = any::<f64>(); assume(f.is_finite() && !(f == 0.0 && f.is_sign_negative())); f }
/// The block succeeds with `want` when that is finite and fails otherwise; the result is never a negative zero.
pub fn bin(op: u8, x: f64, y: f64) -> Option<f64> {
    arena!(mc => {
        let r = std::mem::ManuallyDrop::new(v::binary_op(mc, &S, &num(x), &num(y), op));
        match &*r { Ok(Value::Number(n)) => Some(n.get()), _ => None }
    })
}
pub fn una(op: u8, x: f64) -> Option<f64> {
    arena!(mc => {
        let r = std::mem::ManuallyDrop::new(v::unary_op(mc, &S, &num(x), op));
        match &*r { Ok(Value::Number(n)) => Some(n.get()), _ => None }
    })
}
/// Floating-point operations as uninterpreted functions: a call records its operands and yields one arbitrary number chosen by the proof.
pub mod un {
    pub const MUL: u8 = 1; pub const DIV: u8 = 2; pub const POW: u8 = 3; pub const LOG: u8 = 4; pub const SQRT: u8 = 5;
    #[cfg(kani)] static mut CALLS: (usize, u8, [f64; 2], f64) = (0, 0, [0.0; 2], 0.0);
    #[cfg(kani)] fn call(op: u8, a: f64, b: f64) -> f64 { unsafe { CALLS.0 += 1; CALLS.1 = op; CALLS.2 = [a, b]; CALLS.3 } }
    #[cfg(kani)] pub fn mul(a: f64, b: f64) -> f64 { call(MUL, a, b) }
    #[cfg(kani)] pub fn div(a: f64, b: f64) -> f64 { call(DIV, a, b) }
    #[cfg(kani)] pub fn powf(a: f64, b: f64) -> f64 { call(POW, a, b) }
    #[cfg(kani)] pub fn log(a: f64, b: f64) -> f64 { call(LOG, a, b) }
    #[cfg(kani)] pub fn sqrt(a: f64) -> f64 { call(SQRT, a, 0.0) }
    #[cfg(kani)] pub fn reset() { unsafe { CALLS = (0, 0, [0.0; 2], kani::any()) } }
    #[cfg(not(kani))] pub fn reset() { }
    /// Natively `f()`. Under the verifier the number the operation yielded, after checking that it was asked once, with these operands in one of the two orders; code that computes otherwise is outside this contract (the proof is then vacuous and says so).
    #[cfg(not(kani))] pub fn result(_: u8, _: &[f64], _: &[f64], f: impl Fn() -> f64) -> f64 { f() }
    #[cfg(kani)] pub fn result(op: u8, a: &[f64], b: &[f64], _: impl Fn() -> f64) -> f64 {
        let (n, o, x, r) = unsafe { CALLS };
        kani::assume(n == 1 && o == op);
        let is = |w: &[f64]| w[0] == x[0] && (w.len() < 2 || w[1] == x[1]);
        crate::check!(is(a) || is(b), "number/the operation gets the operands of the block");
        r
    }
}
contracts! {
    // @begin num_new
    fn num_new() {
        let f = any::<f64>();
        match Number::new(f) {
            Ok(n) => check!(f.is_finite() && n.get() == f && !(n.get() == 0.0 && n.get().is_sign_negative()), "number/accepted numbers are finite, unchanged and not negative zero", f),
            Err(_) => check!(!f.is_finite(), "number/every finite number is accepted", f),
        }
    }
    // @end
    // @begin num_add
    #[kani::unwind(4)]
    fn num_add() {
        let (x, y) = (anum(), anum());
        let (r, e) = (bin(0, x, y), x + y);
        check!(r.is_some() == e.is_finite(), "number/add fails exactly when the sum is not finite", x, y);
        if let Some(r) = r { check!(same(r, e), "number/add yields the rounded sum", x, y); }
    }
    // @end
    // @begin num_sub
    #[kani::unwind(4)]
    fn num_sub() {
        let (x, y) = (anum(), anum());
        let (r, e) = (bin(1, x, y), x - y);
        check!(r.is_some() == e.is_finite(), "number/subtract fails exactly when the difference is not finite", x, y);
        if let Some(r) = r { check!(same(r, e), "number/subtract yields the rounded difference", x, y); }
    }
    // @end
    // @begin num_mul
    #[kani::unwind(4)]
    #[kani::stub(<f64 as core::ops::Mul<f64>>::mul, crate::c_num::un::mul)] // need
    fn num_mul() {
        // the IEEE product itself is an uninterpreted function here: the block applies it once, to its operands, and checks what comes out
        let (x, y) = (anum(), anum());
        un::reset();
        let r = bin(2, x, y);
        let e = un::result(un::MUL, &[x, y], &[y, x], || x * y);
        check!(r.is_some() == e.is_finite(), "number/multiply fails exactly when the product is not finite", x, y);
        if let Some(r) = r { check!(same(r, e), "number/multiply yields the rounded product", x, y); }
    }
    // @end
    // @begin num_div
    #[kani::unwind(4)]
    #[kani::stub(<f64 as core::ops::Div<f64>>::div, crate::c_num::un::div)] // need
    fn num_div() {
        let (x, y) = (anum(), anum());
        un::reset();
        let r = bin(3, x, y);
        let e = un::result(un::DIV, &[x, y], &[x, y], || x / y);
        check!(r.is_some() == e.is_finite(), "number/divide fails exactly when the quotient is not finite", x, y);
        if let Some(r) = r { check!(same(r, e), "number/divide yields the rounded quotient", x, y); }
    }
    // @end
    // @begin num_pow
    #[kani::unwind(4)]
    #[kani::stub(<f64 as num_traits::Float>::powf, crate::c_num::un::powf)] // need
    fn num_pow() {
        let (x, y) = (anum(), anum());
        un::reset();
        let r = bin(5, x, y);
        let e = un::result(un::POW, &[x, y], &[x, y], || num_traits::Float::powf(x, y));
        check!(r.is_some() == e.is_finite(), "number/power fails exactly when the power is not finite", x, y);
        if let Some(r) = r { check!(same(r, e), "number/power yields the power", x, y); }
    }
    // @end
    // @begin num_log
    #[kani::unwind(4)]
    #[kani::stub(<f64 as num_traits::Float>::log, crate::c_num::un::log)] // need
    fn num_log() {
        let (x, y) = (anum(), anum());
        un::reset();
        let r = bin(6, x, y);
        let e = un::result(un::LOG, &[y, x], &[y, x], || num_traits::Float::log(y, x));
        check!(r.is_some() == e.is_finite(), "number/logarithm fails exactly when it is not finite", x, y);
        if let Some(r) = r { check!(same(r, e), "number/logarithm takes the base first", x, y); }
    }
    // @end
    // @begin num_sqrt
    #[kani::unwind(4)]
    #[kani::stub(<f64 as num_traits::Float>::sqrt, crate::c_num::un::sqrt)] // need
    fn num_sqrt() {
        let x = anum();
        un::reset();
        let r = una(4, x);
        let e = un::result(un::SQRT, &[x], &[x], || num_traits::Float::sqrt(x));
        check!(r.is_some() == e.is_finite(), "number/square root fails exactly when there is none", x);
        if let Some(r) = r { check!(same(r, e), "number/square root", x); }
    }
    // @end
    // @begin num_neg_abs
    #[kani::unwind(4)]
    fn num_neg_abs() {
        let x = anum();
        check!(una(3, x).is_some_and(|r| same(r, -x)), "number/negation", x);
        check!(una(2, x).is_some_and(|r| same(r, if x < 0.0 { -x } else { x })), "number/absolute value", x);
    }
    // @end
    // @begin num_round
    #[kani::unwind(4)]
    fn num_round() {
        let x = anum();
        let (r, f, c) = (una(5, x), una(6, x), una(7, x));
        check!(r.is_some() && f.is_some() && c.is_some(), "number/rounding never fails", x);
        let (r, f, c) = (r.unwrap(), f.unwrap(), c.unwrap());
        check!(same(r, r) && same(f, f) && same(c, c), "number/rounding never yields a negative zero", x);
        let big = x >= 4503599627370496.0 || x <= -4503599627370496.0;
        if big { check!(r == x && f == x && c == x, "number/large numbers are integers already", x); }
        else {
            let (ri, fi, ci) = (r as i64, f as i64, c as i64);
            check!(ri as f64 == r && fi as f64 == f && ci as f64 == c, "number/rounding yields integers", x);
            check!(f <= x && x < f + 1.0, "number/floor is the largest integer not above", x);
            check!(c >= x && x > c - 1.0, "number/ceiling is the smallest integer not below", x);
            let t = x as i64; let d = x - t as f64;
            let e = if d >= 0.5 { t + 1 } else if d <= -0.5 { t - 1 } else { t };
            check!(ri == e, "number/round goes to the nearest integer, halves away from zero", x);
        }
    }
    // @end
    // @begin num_mod
    fn num_mod() {
        let (x, y) = (anum(), anum());
        let r = bin(4, x, y);
        check!(r.is_some() == (y != 0.0), "number/modulus fails exactly for a zero divisor", x, y);
        if let Some(r) = r {
            check!(same(r, r) && (r == 0.0 || (r > 0.0) == (y > 0.0)), "number/modulus takes the sign of the divisor", x, y, r);
            check!(r.abs() <= y.abs(), "number/modulus never exceeds the divisor", x, y, r);
            let q = x % y;
            check!((r == 0.0) == (q == 0.0) || r == 0.0 && (q + y).abs() < 1e-300, "number/modulus is zero on multiples", x, y, r);
            check!(r == q || same(r, q + y), "number/modulus differs from the remainder by the divisor at most", x, y, r);
        }
    }
    // @end
    // @begin num_bool
    #[kani::unwind(4)]
    fn num_bool() {
        // booleans are not numbers: every arithmetic block fails on them, and `not` negates
        let p = any::<bool>();
        arena!(mc => {
            let r = std::mem::ManuallyDrop::new(v::unary_op(mc, &S, &Value::Bool(p), 1));
            check!(matches!(&*r, Ok(Value::Bool(q)) if *q == !p), "number/not negates", p);
            let r = std::mem::ManuallyDrop::new(v::binary_op(mc, &S, &Value::Bool(p), &num(1.0), 0));
            check!(r.is_err(), "number/a boolean is not a number", p);
        });
        let val: V<'static> = Value::Bool(p);
        let r = std::mem::ManuallyDrop::new(val.as_number());
        check!(r.is_err(), "number/a boolean has no number", p);
    }
    // @end
    // @begin num_convert
    fn num_convert() {
        let f = anum();
        let x: V<'static> = num(f);
        check!(matches!(x.as_number(), Ok(n) if n.get().to_bits() == f.to_bits()), "number/a number converts to itself", f);
        let r = std::mem::ManuallyDrop::new(x.as_bool());
        check!(r.is_err(), "number/a number is not a boolean", f);
    }
    // @end
    // @begin text_roundtrip
    fn text_roundtrip() {
        let f = anum();
        let t = SimpleValue::stringify_number(Number::new(f).unwrap());
        let back = SimpleValue::parse_number(&t);
        check!(back.is_some(), "text/a displayed number is readable", f);
        check!(back.unwrap().get().to_bits() == f.to_bits(), "text/a displayed number reads back unchanged", f);
        let padded = format!(" \t{}\n ", &*t);
        check!(SimpleValue::parse_number(&padded).is_some_and(|x| x.get() == f), "text/surrounding blanks are ignored", f);
    }
    // @end
    // @begin text_radix
    fn text_radix() {
        let x = any::<i64>();
        assume(x >= 0);
        for (p, s) in [("0x", format!("{x:x}")), ("0X", format!("{x:X}")), ("0o", format!("{x:o}")), ("0b", format!("{x:b}")), ("0O", format!("{x:o}")), ("0B", format!("{x:b}"))] {
            let s = format!("{p}{s}");
            check!(SimpleValue::parse_number(&s).is_some_and(|y| y.get() == x as f64), "text/a radix literal denotes its integer", x, s);
        }
        check!(SimpleValue::parse_number(&format!("0b{x:o}")).is_some() == format!("{x:o}").bytes().all(|c| c < b'2'), "text/digits outside the radix are rejected", x);
    }
    // @end
}
