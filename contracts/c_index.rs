//! List indices.
use crate::*;
use crate::sym::*;
use crate::c_num::*;
use netsblox_vm::runtime::*;
use netsblox_vm::process::verif as v;
#[allow(unused_imports)] use crate::dummy::*;
use std::mem::ManuallyDrop;

contracts! {
    // @begin index_number
    #[kani::unwind(4)]
    fn index_number() {
        let (f, len) = (anum(), any::<usize>());
        assume(len <= isize::MAX as usize / 2); // no list occupies four exbibytes
        let val: V<'static> = num(f);
        let r = ManuallyDrop::new(v::prep_index(&val, len));
        let integer = f >= 1.0 && f < 9223372036854775808.0 && (f as u64) as f64 == f;
        let valid = integer && f as u64 <= len as u64;
        check!(r.is_ok() == valid, "index/accepted exactly when an integer from 1 to the length", f, len);
        if let Ok(i) = &*r { check!(*i < len && *i as u64 + 1 == f as u64, "index/selects the item it names", f, len); }
    }
    // @end
    // @begin index_bool
    #[kani::unwind(4)]
    fn index_bool() {
        let (p, len) = (any::<bool>(), any::<usize>());
        let val: V<'static> = Value::Bool(p);
        let r = ManuallyDrop::new(v::prep_index(&val, len));
        check!(r.is_err(), "index/a boolean is no index", p, len);
    }
    // @end
    // @begin index_text
    fn index_text() {
        let (f, len) = (anum(), any::<usize>());
        assume(len <= isize::MAX as usize / 2); // no list occupies four exbibytes
        let (a, c): (V<'static>, V<'static>) = (num(f), Value::Text(SimpleValue::stringify_number(Number::new(f).unwrap())));
        let (a, c) = (v::prep_index(&a, len), v::prep_index(&c, len));
        check!(a.as_ref().ok() == c.as_ref().ok(), "index/the text of an index selects what the index selects", f, len);
    }
    // @end
}
