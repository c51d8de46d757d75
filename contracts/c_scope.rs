//! Symbol tables and scoped lookup.
use crate::*;
use crate::sym::*;
use crate::c_num::*;
use netsblox_vm::runtime::*;
use netsblox_vm::runtime::verif as r;
use netsblox_vm::gc::*;
use std::mem::ManuallyDrop;
#[allow(unused_imports)] use crate::dummy::*;

fn val<'gc>(x: u32) -> V<'gc> { num(x as f64) }
fn is<'gc>(v: &Option<V<'gc>>, x: u32) -> bool { matches!(v, Some(Value::Number(n)) if n.get() == x as f64) }
contracts! {
    // @begin scope_lookup
    #[kani::unwind(5)]
    fn scope_lookup() {
        // any placement of two names over three nested scopes
        arena!(mc => {
            let (a, c) = (any::<u8>(), any::<u8>());
            assume(a < 8 && c < 8);
            let mut t: ManuallyDrop<[SymbolTable<'_, C, S>; 3]> = ManuallyDrop::new([SymbolTable::default(), SymbolTable::default(), SymbolTable::default()]);
            for i in 0..3 {
                if a >> i & 1 == 1 { t[i].define_or_redefine("x", val(10 + i as u32).into()); }
                if c >> i & 1 == 1 { t[i].define_or_redefine("y", val(20 + i as u32).into()); }
            }
            let inner = |m: u8| if m & 4 != 0 { Some(2) } else if m & 2 != 0 { Some(1) } else if m & 1 != 0 { Some(0) } else { None };
            let [t0, t1, t2] = &mut *t;
            let (x, y) = (ManuallyDrop::new(r::group_read(t0, t1, t2, "x")), ManuallyDrop::new(r::group_read(t0, t1, t2, "y")));
            check!(match inner(a) { Some(i) => is(&x, 10 + i), None => x.is_none() }, "scope/a name reads its innermost definition", a, c);
            check!(match inner(c) { Some(i) => is(&y, 20 + i), None => y.is_none() }, "scope/each name reads its own definition", a, c);
            let ok = r::group_write(mc, t0, t1, t2, "x", val(99));
            check!(ok == (a != 0), "scope/writing succeeds exactly for a defined name", a);
            let mut good = true;
            for i in 0..3 {
                let tab = match i { 0 => &*t0, 1 => &*t1, _ => &*t2 };
                let (gx, gy) = (tab.lookup("x").map(|v| ManuallyDrop::new(v.get().clone())), tab.lookup("y").map(|v| ManuallyDrop::new(v.get().clone())));
                let want = if inner(a) == Some(i as u32) { 99 } else { 10 + i as u32 };
                good &= match gx { Some(v) => a >> i & 1 == 1 && matches!(&*v, Value::Number(n) if n.get() == want as f64), None => a >> i & 1 == 0 };
                good &= match gy { Some(v) => c >> i & 1 == 1 && matches!(&*v, Value::Number(n) if n.get() == 20.0 + i as f64), None => c >> i & 1 == 0 };
            }
            check!(good, "scope/writing touches the innermost definition only", a, c);
        })
    }
    // @end
    // @begin scope_table
    #[kani::unwind(5)]
    fn scope_table() {
        arena!(mc => {
            let names = ["a", "b", "c"];
            let (i, j, k) = (any::<u8>() as usize, any::<u8>() as usize, any::<u8>() as usize);
            assume(i < 3 && j < 3 && k < 3);
            let (x, y) = (any::<u32>(), any::<u32>());
            let mut t = ManuallyDrop::new(SymbolTable::<C, S>::default());
            t.define_or_redefine(names[i], val(x).into());
            t.define_or_redefine(names[j], val(y).into());
            check!(t.len() == if i == j { 1 } else { 2 } && !t.is_empty(), "scope/one entry per name", i, j);
            let got = t.lookup(names[k]).map(|v| ManuallyDrop::new(v.get().clone()));
            let want = if k == j { Some(y) } else if k == i { Some(x) } else { None };
            check!(match (&got, want) { (Some(v), Some(w)) => matches!(&**v, Value::Number(n) if n.get() == w as f64), (None, None) => true, _ => false }, "scope/a name reads its last definition", i, j, k);
            let c = ManuallyDrop::new((*t).clone());
            if let Some(v) = t.lookup_mut(names[j]) { v.set(mc, val(7)); }
            let got = c.lookup(names[j]).map(|v| ManuallyDrop::new(v.get().clone()));
            check!(matches!(&got, Some(v) if matches!(&**v, Value::Number(n) if n.get() == y as f64)), "scope/a copied table does not alias", j, y);
        })
    }
    // @end
    // @begin scope_redefine_alias
    #[kani::unwind(5)]
    fn scope_redefine_alias() {
        // redefining a captured variable makes a new one: the capture keeps the old storage
        arena!(mc => {
            let (x, y) = (any::<u32>(), any::<u32>());
            let mut t = ManuallyDrop::new(SymbolTable::<C, S>::default());
            t.define_or_redefine("v", val(x).into());
            let cap = ManuallyDrop::new(t.lookup_mut("v").unwrap().alias(mc));
            t.define_or_redefine("v", val(y).into());
            check!(matches!(&*cap.get(), Value::Number(n) if n.get() == x as f64), "scope/redefinition leaves captures alone", x, y);
            check!(matches!(&*t.lookup("v").unwrap().get(), Value::Number(n) if n.get() == y as f64), "scope/redefinition is seen by name", x, y);
        })
    }
    // @end
}
