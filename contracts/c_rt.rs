//! Answer cells, barriers, shared storage, clocks and routing.
use crate::*;
use crate::sym::*;
use crate::c_num::*;
use netsblox_vm::runtime::*;
use netsblox_vm::runtime::verif as r;
use netsblox_vm::gc::*;
use std::mem::ManuallyDrop;
#[allow(unused_imports)] use crate::dummy::*;

contracts! {
    // @begin async_once
    fn async_once() {
        // any state: 0 pending, 1 answered, 2 consumed
        let (st, old, new) = (any::<u8>(), any::<u64>(), any::<u64>());
        assume(st < 3);
        let mut c = match st { 0 => AsyncResult::new(), 1 => AsyncResult::Completed(old), _ => AsyncResult::Consumed };
        if any::<bool>() {
            let res = c.complete(new);
            check!(res == if st == 0 { Ok(()) } else { Err(new) }, "answer/only the first answer is taken", st, new);
            check!(match c { AsyncResult::Completed(x) => st == 0 && x == new || st == 1 && x == old, AsyncResult::Consumed => st == 2, AsyncResult::Pending => false }, "answer/an answer is never overwritten", st, old, new);
        } else {
            let res = c.poll();
            check!(match res { AsyncResult::Pending => st == 0, AsyncResult::Completed(x) => st == 1 && x == old, AsyncResult::Consumed => st == 2 }, "answer/polling yields the answer", st, old);
            check!(match c { AsyncResult::Pending => st == 0, AsyncResult::Completed(_) => false, AsyncResult::Consumed => st != 0 }, "answer/an answer is yielded once", st);
        }
    }
    // @end
    // @begin barrier_waits
    #[kani::unwind(6)]
    fn barrier_waits() {
        // a condition is met exactly when no handle of its barrier is left, in whatever order the handles go
        let (first, extra, late) = (any::<bool>(), any::<bool>(), any::<bool>());
        let a = Barrier::new();
        let other = Barrier::new();
        let cond = a.get_condition();
        let b = if extra { Some(a.clone()) } else { None };
        check!(!cond.is_completed(), "barrier/waits while a handle lives");
        let c2 = if late { Some(a.get_condition()) } else { None };
        if first { drop(a); check!(cond.is_completed() == !extra, "barrier/met exactly when the last handle is gone", first, extra); drop(b); }
        else { drop(b); check!(!cond.is_completed(), "barrier/waits for the handle that is left", extra); drop(a); }
        check!(cond.is_completed(), "barrier/met when every handle is gone", first, extra);
        if let Some(c) = c2 { check!(c.is_completed(), "barrier/every condition of a barrier agrees"); }
        let oc = other.get_condition();
        check!(!oc.is_completed(), "barrier/barriers are independent");
        core::mem::forget(other);
    }
    // @end
    // @begin shared_store
    #[kani::unwind(4)]
    fn shared_store() {
        arena!(mc => {
            let (x, y, z, w) = (any::<u64>(), any::<u64>(), any::<u64>(), any::<bool>());
            let mut a: Shared<'_, u64> = if any::<bool>() { Shared::Unique(x) } else { Shared::Aliased(Gc::new(mc, RefLock::new(x))) };
            check!(*a.get() == x, "shared/reads what was stored", x);
            a.set(mc, y);
            check!(*a.get() == y, "shared/reads what was written", y);
            let mut b = a.alias(mc);
            check!(*a.get() == y && *b.get() == y, "shared/aliasing keeps the value", y);
            if w { a.set(mc, z) } else { b.set(mc, z) }
            check!(*a.get() == z && *b.get() == z, "shared/aliases see one another's writes", z, w);
            let c = b.alias(mc);
            check!(*c.get() == z, "shared/an alias of an alias is the same variable", z);
            a.set(mc, x);
            check!(*c.get() == x && *b.get() == x, "shared/all aliases see every write", x);
        })
    }
    // @end
    // @begin shared_separate
    #[kani::unwind(4)]
    fn shared_separate() {
        arena!(mc => {
            let (x, y, z) = (any::<u64>(), any::<u64>(), any::<u64>());
            let (mut a, mut b): (Shared<'_, u64>, Shared<'_, u64>) = (Shared::Unique(x), Shared::Unique(y));
            if any::<bool>() { let k = a.alias(mc); core::mem::forget(k); }
            if any::<bool>() { let k = b.alias(mc); core::mem::forget(k); }
            a.set(mc, z);
            check!(*b.get() == y && *a.get() == z, "shared/distinct variables do not share storage", x, y, z);
        })
    }
    // @end
    // @begin clock_ms
    #[kani::unwind(4)]
    fn clock_ms() {
        let t = any::<u64>();
        let res = ManuallyDrop::new(SysTime::Arbitrary { ms: t }.to_arbitrary_ms::<C, S>());
        check!(matches!(&*res, Ok(x) if *x == t), "clock/an arbitrary clock reads its milliseconds", t);
        let res = ManuallyDrop::new(SysTime::Timeless.to_arbitrary_ms::<C, S>());
        check!(res.is_err(), "clock/no clock is an error");
        let res = ManuallyDrop::new(SysTime::Timeless.to_real_local::<C, S>());
        check!(res.is_err(), "clock/no clock has no calendar");
        let res = ManuallyDrop::new(SysTime::Arbitrary { ms: t }.to_real_local::<C, S>());
        check!(res.is_err(), "clock/an arbitrary clock has no calendar", t);
    }
    // @end
}
