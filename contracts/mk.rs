//! A process at rest in an empty project.
use crate::*;
use netsblox_vm::runtime::*;
use netsblox_vm::process::*;
use netsblox_vm::bytecode::verif as b;
use netsblox_vm::gc::*;
use std::rc::Rc;
#[allow(unused_imports)] use crate::dummy::*;

pub fn mk<'gc>(mc: &'gc Mutation<'gc>) -> Process<'gc, C, S> {
    let entity = Gc::new(mc, RefLock::new(Entity { name: Text::from(""), sound_list: Default::default(), costume_list: Default::default(), costume: None, state: ES, original: None, fields: Default::default() }));
    let g = Gc::new(mc, RefLock::new(GlobalContext { bytecode: Rc::new(b::bc(Box::new([]), Box::new([]))), settings: Settings::default(), system: Rc::new(S), timer_start: 0, proj_name: Text::from(""), globals: Default::default(), entities: Default::default() }));
    Process::new(ProcContext { global_context: g, entity, locals: Default::default(), state: PS, start_pos: 0, barrier: None, reply_key: None, local_message: None })
}
