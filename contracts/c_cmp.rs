//! Comparison.
use crate::*;
use crate::sym::*;
use crate::c_num::*;
use core::cmp::Ordering;
use netsblox_vm::runtime::*;
use netsblox_vm::process::verif as v;
use netsblox_vm::bytecode::verif as b;
use std::mem::ManuallyDrop;
#[allow(unused_imports)] use crate::dummy::*;

/// Relations of a pair: equal, unequal, less, at most, greater, at least; `None` when the block fails.
pub fn rel<'gc>(x: &V<'gc>, y: &V<'gc>, i: u8) -> Option<bool> { let r = ManuallyDrop::new(v::check_relation(x, y, i)); match &*r { Ok(x) => Some(*x), Err(_) => None } }
pub fn ord<'gc>(x: &V<'gc>, y: &V<'gc>) -> Option<Option<Ordering>> { let r = ManuallyDrop::new(v::cmp(x, y)); match &*r { Ok(x) => Some(*x), Err(_) => None } }
contracts! {
    // @begin cmp_numbers
    #[kani::unwind(6)]
    fn cmp_numbers() {
        let (x, y) = (anum(), anum());
        let (a, c): (V<'static>, V<'static>) = (num(x), num(y));
        check!(ord(&a, &c) == Some(x.partial_cmp(&y)), "compare/numbers compare by value", x, y);
    }
    // @end
    // @begin cmp_bools
    #[kani::unwind(6)]
    fn cmp_bools() {
        let (x, y, f) = (any::<bool>(), any::<bool>(), anum());
        let (a, c, n): (V<'static>, V<'static>, V<'static>) = (Value::Bool(x), Value::Bool(y), num(f));
        check!(ord(&a, &c) == Some(Some(x.cmp(&y))), "compare/booleans compare by value", x, y);
        check!(ord(&a, &n) == Some(None) && ord(&n, &a) == Some(None), "compare/a boolean and a number are incomparable", x, f);
    }
    // @end
    // @begin cmp_relations
    #[kani::unwind(9)]
    #[kani::stub(netsblox_vm::process::ops::cmp, crate::c_cmp::cmp_any)] // need
    fn cmp_relations() {
        // over the contract of the ordering alone: whatever order it reports, the six relations agree on it
        let o = any::<u8>();
        assume(o < 4);
        #[cfg(kani)] ORD.store(o, core::sync::atomic::Ordering::Relaxed);
        let (x, y): (V<'static>, V<'static>) = match o { 0 => (num(1.0), num(2.0)), 1 => (num(2.0), num(2.0)), 2 => (num(2.0), num(1.0)), _ => (Value::Bool(true), num(1.0)) };
        let r = [rel(&x, &y, RELS[0]), rel(&x, &y, RELS[1]), rel(&x, &y, RELS[2]), rel(&x, &y, RELS[3]), rel(&x, &y, RELS[4]), rel(&x, &y, RELS[5])];
        let want = match o { 0 => [Some(false), Some(true), Some(true), Some(true), Some(false), Some(false)], 1 => [Some(true), Some(false), Some(false), Some(true), Some(false), Some(true)], 2 => [Some(false), Some(true), Some(false), Some(false), Some(true), Some(true)], _ => [Some(false), Some(true), None, None, None, None] };
        check!(r == want, "compare/the six relations agree with the order and with one another", o);
    }
    // @end
    // @begin cmp_identical
    #[kani::unwind(6)]
    fn cmp_identical() {
        let (x, y, p, q) = (anum(), anum(), any::<bool>(), any::<bool>());
        let (a, c): (V<'static>, V<'static>) = (num(x), num(y));
        check!(v::identical(&a, &c) == (x == y), "compare/numbers are identical exactly when equal", x, y);
        let (d, e): (V<'static>, V<'static>) = (Value::Bool(p), Value::Bool(q));
        check!(v::identical(&d, &e) == (p == q) && !v::identical(&a, &d) && !v::identical(&d, &a), "compare/identity of booleans", p, q);
    }
    // @end
    // @begin cmp_text
    fn cmp_text() {
        // text against text and number: order is antisymmetric, reflexive, case-insensitive, and numeric when both sides denote numbers
        fn word() -> String { let n = any::<u8>() % 5; let k = ["a", "A", "b", "B", "1", "2", "0", "x", " ", ".", "-", "e", "é", "É", "ß", "9"]; (0..n).map(|_| k[any::<u8>() as usize % k.len()]).collect() }
        let (s, t) = (word(), word());
        let f = if any::<bool>() { anum() } else { (any::<u8>() % 12) as f64 };
        let (a, c, n): (V<'static>, V<'static>, V<'static>) = (Value::Text(s.as_str().into()), Value::Text(t.as_str().into()), num(f));
        for (x, y) in [(&a, &c), (&a, &n), (&n, &c), (&a, &a), (&n, &n)] {
            let (o, r) = (ord(x, y).unwrap(), ord(y, x).unwrap());
            check!(o.map(|x| x.reverse()) == r, "compare/order is antisymmetric", s, t, f);
        }
        check!(ord(&a, &a) == Some(Some(Ordering::Equal)), "compare/text equals itself", s);
        let up: V<'static> = Value::Text(s.to_ascii_uppercase().as_str().into());
        check!(ord(&a, &up) == Some(Some(Ordering::Equal)), "compare/text compares without case", s);
        match (SimpleValue::parse_number(&s), SimpleValue::parse_number(&t)) {
            (Some(x), Some(y)) => check!(ord(&a, &c) == Some(x.get().partial_cmp(&y.get())), "compare/numeric text compares as numbers", s, t),
            _ => (),
        }
        if let Some(x) = SimpleValue::parse_number(&s) { check!(ord(&a, &n) == Some(x.get().partial_cmp(&f)), "compare/numeric text against a number compares as numbers", s, f) }
    }
    // @end
}
pub static ORD: core::sync::atomic::AtomicU8 = core::sync::atomic::AtomicU8::new(0);
pub const RELS: [u8; 6] = [0, 1, 2, 3, 4, 5];
/// Contract of the ordering: any of its four outcomes, the same one for every call of a proof.
#[cfg(kani)] pub fn cmp_any<'gc, C: CustomTypes<S>, S: System<C>>(_: &Value<'gc, C, S>, _: &Value<'gc, C, S>) -> Result<Option<Ordering>, ErrorCause<C, S>> {
    Ok(match ORD.load(core::sync::atomic::Ordering::Relaxed) { 0 => Some(Ordering::Less), 1 => Some(Ordering::Equal), 2 => Some(Ordering::Greater), _ => None })
}
