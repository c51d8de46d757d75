//! Step contracts: one instruction of the real interpreter against its pre/postcondition.
use crate::*;
use crate::sym::*;
use netsblox_vm::runtime::*;
use netsblox_vm::process::*;
use netsblox_vm::process::verif as v;
use netsblox_vm::bytecode::verif as b;
use netsblox_vm::gc::*;
use std::rc::Rc;
use std::mem::ManuallyDrop;
#[allow(unused_imports)] use crate::dummy::*;

use crate::mk::mk;
contracts! {
    // @begin step_warp
    #[kani::unwind(8)]
            #[kani::stub(netsblox_vm::process::ops::binary_op, netsblox_vm::process::verif::no_binary_op)]
            #[kani::stub(netsblox_vm::process::ops::unary_op, netsblox_vm::process::verif::no_unary_op)]
            #[kani::stub(netsblox_vm::process::ops::index_list, netsblox_vm::process::verif::no_index_list)]
            #[kani::stub(netsblox_vm::process::ops::cmp, netsblox_vm::process::verif::no_cmp)]
            #[kani::stub(netsblox_vm::process::ops::check_relation, netsblox_vm::process::verif::no_check_relation)]
            #[kani::stub(netsblox_vm::process::ops::find, netsblox_vm::process::verif::no_find)]
            #[kani::stub(netsblox_vm::process::ops::flatten, netsblox_vm::process::verif::no_flatten)]
            #[kani::stub(netsblox_vm::process::ops::dimensions, netsblox_vm::process::verif::no_dimensions)]
            #[kani::stub(netsblox_vm::process::ops::reshape, netsblox_vm::process::verif::no_reshape)]
            #[kani::stub(netsblox_vm::process::ops::columns, netsblox_vm::process::verif::no_columns)]
            #[kani::stub(netsblox_vm::process::ops::cartesian_product, netsblox_vm::process::verif::no_cartesian_product)]
            #[kani::stub(netsblox_vm::process::ops::from_csv, netsblox_vm::process::verif::no_from_csv)]
            #[kani::stub(netsblox_vm::process::ops::to_csv, netsblox_vm::process::verif::no_to_csv)]
            #[kani::stub(netsblox_vm::process::ops::prep_index_set, netsblox_vm::process::verif::no_prep_index_set)]
            #[kani::stub(netsblox_vm::process::ops::prep_note, netsblox_vm::process::verif::no_prep_note)]
            #[kani::stub(netsblox_vm::runtime::SimpleValue::from_json, crate::stubs::no_from_json)]
            #[kani::stub(netsblox_vm::runtime::SimpleValue::from_netsblox_json, crate::stubs::no_from_netsblox_json)]
            #[kani::stub(netsblox_vm::runtime::SimpleValue::into_netsblox_json, crate::stubs::no_into_netsblox_json)]
            #[kani::stub(netsblox_vm::runtime::SimpleValue::into_json, crate::stubs::no_into_json)]
            #[kani::stub(netsblox_vm::runtime::SimpleValue::parse_number, crate::stubs::no_parse_number)]
            #[kani::stub(netsblox_vm::runtime::SimpleValue::stringify_number, crate::stubs::no_stringify_number)]
            #[kani::stub(netsblox_vm::runtime::Value::to_simple, crate::stubs::no_to_simple)]
            #[kani::stub(netsblox_vm::runtime::Value::from_simple, crate::stubs::no_from_simple)]
            #[kani::stub(std::fmt::format, crate::stubs::fmt_empty)]
    #[kani::stub(<netsblox_vm::bytecode::Instruction as netsblox_vm::bytecode::BinaryRead>::read, netsblox_vm::bytecode::verif::read_warp)]
    fn step_warp() {
        arena!(mc => {
            let mut p = ManuallyDrop::new(mk(mc));
            let (w, pos) = (any::<usize>(), any::<usize>());
            assume(w < 1000 && pos < 1000);
            *v::warp(&mut p) = w; *v::pos(&mut p) = pos;
            b::OP.store(0, std::sync::atomic::Ordering::Relaxed);
            let r = ManuallyDrop::new(p.step(mc));
            check!(matches!(&*r, Ok(ProcessStep::Normal)) && *v::warp(&mut p) == w + 1 && *v::pos(&mut p) == pos + 1, "warp/entering");
            b::OP.store(2, std::sync::atomic::Ordering::Relaxed);
            let r = ManuallyDrop::new(p.step(mc));
            check!(matches!(&*r, Ok(ProcessStep::Normal)) && *v::warp(&mut p) == w + 1 && *v::pos(&mut p) == pos + 2, "warp/no yield inside");
            b::OP.store(1, std::sync::atomic::Ordering::Relaxed);
            let r = ManuallyDrop::new(p.step(mc));
            check!(matches!(&*r, Ok(ProcessStep::Normal)) && *v::warp(&mut p) == w && *v::pos(&mut p) == pos + 3, "warp/leaving");
            b::OP.store(2, std::sync::atomic::Ordering::Relaxed);
            let r = ManuallyDrop::new(p.step(mc));
            check!(matches!(&*r, Ok(ProcessStep::Yield)) == (w == 0) && *v::pos(&mut p) == pos + 4, "warp/yield outside");
        })
    }
    // @end
}
