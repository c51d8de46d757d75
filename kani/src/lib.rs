#![recursion_limit = "1024"]
#![allow(unused)]
#[path = "../../contracts/sym.rs"] #[macro_use] pub mod sym;
#[path = "../../contracts/dummy.rs"] pub mod dummy;
#[path = "../../contracts/stubs.rs"] pub mod stubs;
#[path = "../../contracts/mk.rs"] pub mod mk;
#[path = "../../contracts/c_note.rs"] pub mod c_note;
#[path = "../../contracts/c_code.rs"] pub mod c_code;
#[path = "../../contracts/c_num.rs"] pub mod c_num;
#[path = "../../contracts/c_index.rs"] pub mod c_index;
#[path = "../../contracts/c_cmp.rs"] pub mod c_cmp;
#[path = "../../contracts/c_rt.rs"] pub mod c_rt;
#[path = "../../contracts/c_scope.rs"] pub mod c_scope;
#[path = "../../contracts/c_idle.rs"] pub mod c_idle;
#[path = "../../contracts/c_slot.rs"] pub mod c_slot;
#[path = "../../contracts/c_color.rs"] pub mod c_color;
#[path = "../../contracts/c_prop.rs"] pub mod c_prop;
#[path = "../../contracts/c_step.rs"] pub mod c_step;
