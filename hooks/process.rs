// @begin op_prep_note
#[allow(dead_code)] pub fn prep_note<'gc, C: CustomTypes<S>, S: System<C>>(value: &Value<'gc, C, S>) -> Result<Note, ErrorCause<C, S>> { ops::prep_note(value) }
// @end
// @begin op_prep_index
#[allow(dead_code)] pub fn prep_index<'gc, C: CustomTypes<S>, S: System<C>>(index: &Value<'gc, C, S>, len: usize) -> Result<usize, ErrorCause<C, S>> { ops::prep_index(index, len) }
// @end
// @begin op_prep_rand_index
#[allow(dead_code)] pub fn prep_rand_index<'gc, C: CustomTypes<S>, S: System<C>>(system: &S, len: usize) -> Result<usize, ErrorCause<C, S>> { ops::prep_rand_index(system, len) }
// @end
// @begin op_prep_index_set
#[allow(dead_code)] pub fn prep_index_set<'gc, C: CustomTypes<S>, S: System<C>>(index: &Value<'gc, C, S>, len: usize) -> Result<BTreeSet<usize>, ErrorCause<C, S>> { ops::prep_index_set(index, len) }
// @end
// @begin op_flatten
#[allow(dead_code)] pub fn flatten<'gc, C: CustomTypes<S>, S: System<C>>(value: &Value<'gc, C, S>) -> Result<VecDeque<Value<'gc, C, S>>, ErrorCause<C, S>> { ops::flatten(value) }
// @end
// @begin op_dimensions
#[allow(dead_code)] pub fn dimensions<'gc, C: CustomTypes<S>, S: System<C>>(value: &Value<'gc, C, S>) -> Result<Vec<usize>, ErrorCause<C, S>> { ops::dimensions(value) }
// @end
// @begin op_reshape
#[allow(dead_code)] pub fn reshape<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, src: &Value<'gc, C, S>, dims: &[usize]) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { ops::reshape(mc, src, dims) }
// @end
// @begin op_columns
#[allow(dead_code)] pub fn columns<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, src: &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { ops::columns(mc, src) }
// @end
// @begin op_cartesian_product
#[allow(dead_code)] pub fn cartesian_product<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, sources: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) -> VecDeque<Value<'gc, C, S>> { ops::cartesian_product(mc, sources) }
// @end
// @begin op_from_csv
#[allow(dead_code)] pub fn from_csv<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, value: &str) -> Result<VecDeque<Value<'gc, C, S>>, ErrorCause<C, S>> { ops::from_csv(mc, value) }
// @end
// @begin op_to_csv
#[allow(dead_code)] pub fn to_csv<'gc, C: CustomTypes<S>, S: System<C>>(value: &Value<'gc, C, S>) -> Result<Text, ErrorCause<C, S>> { ops::to_csv(value) }
// @end
// @begin op_binary_op
#[allow(dead_code)] pub fn binary_op<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, op: u8) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { ops::binary_op(mc, system, a, b, crate::bytecode::verif::binop(op)) }
// @end
// @begin op_unary_op
#[allow(dead_code)] pub fn unary_op<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, x: &Value<'gc, C, S>, op: u8) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { ops::unary_op(mc, system, x, crate::bytecode::verif::unop(op)) }
// @end
// @begin op_index_list
#[allow(dead_code)] pub fn index_list<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, list: &Value<'gc, C, S>, index: &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { ops::index_list(mc, system, list, index) }
// @end
// @begin op_cmp
#[allow(dead_code)] pub fn cmp<'gc, C: CustomTypes<S>, S: System<C>>(a: &Value<'gc, C, S>, b: &Value<'gc, C, S>) -> Result<Option<core::cmp::Ordering>, ErrorCause<C, S>> { ops::cmp(a, b) }
// @end
// @begin op_check_relation
#[allow(dead_code)] pub fn check_relation<'gc, C: CustomTypes<S>, S: System<C>>(a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, relation: u8) -> Result<bool, ErrorCause<C, S>> { ops::check_relation(a, b, crate::bytecode::verif::relation(relation)) }
// @end
// @begin op_identical
#[allow(dead_code)] pub fn identical<'gc, C: CustomTypes<S>, S: System<C>>(a: &Value<'gc, C, S>, b: &Value<'gc, C, S>) -> bool { ops::identical(a, b) }
// @end
// @begin op_find
#[allow(dead_code)] pub fn find<'gc, C: CustomTypes<S>, S: System<C>>(list: Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>, value: &Value<'gc, C, S>) -> Result<Option<usize>, ErrorCause<C, S>> { ops::find(list, value) }
// @end
// @begin st_stack
#[allow(dead_code)] pub fn stack<'a, 'gc, C: CustomTypes<S>, S: System<C>>(p: &'a mut Process<'gc, C, S>) -> &'a mut Vec<Value<'gc, C, S>> { &mut p.value_stack }
// @end
// @begin st_pos
#[allow(dead_code)] pub fn pos<'a, 'gc, C: CustomTypes<S>, S: System<C>>(p: &'a mut Process<'gc, C, S>) -> &'a mut usize { &mut p.pos }
// @end
// @begin st_warp
#[allow(dead_code)] pub fn warp<'a, 'gc, C: CustomTypes<S>, S: System<C>>(p: &'a mut Process<'gc, C, S>) -> &'a mut usize { &mut p.warp_counter }
// @end
// @begin st_handlers
#[allow(dead_code)] pub fn handlers<'gc, C: CustomTypes<S>, S: System<C>>(p: &Process<'gc, C, S>) -> usize { p.handler_stack.len() }
// @end
// @begin st_frames
#[allow(dead_code)] pub fn frames<'gc, C: CustomTypes<S>, S: System<C>>(p: &Process<'gc, C, S>) -> usize { p.call_stack.len() }
// @end
// @begin st_locals
#[allow(dead_code)] pub fn locals<'a, 'gc, C: CustomTypes<S>, S: System<C>>(p: &'a mut Process<'gc, C, S>) -> &'a mut SymbolTable<'gc, C, S> { &mut p.call_stack.last_mut().unwrap().locals }
// @end
// @begin st_frame_ret
#[allow(dead_code)] pub fn frame_ret<'gc, C: CustomTypes<S>, S: System<C>>(p: &Process<'gc, C, S>) -> usize { p.call_stack.last().unwrap().return_to }
// @end
// @begin st_deferred
#[allow(dead_code)] pub fn deferred<'gc, C: CustomTypes<S>, S: System<C>>(p: &Process<'gc, C, S>) -> bool { p.defer.is_some() }
// @end
// @begin st_reply
#[allow(dead_code)] pub fn has_barrier<'gc, C: CustomTypes<S>, S: System<C>>(p: &Process<'gc, C, S>) -> bool { p.barrier.is_some() }
#[allow(dead_code)] pub fn has_reply_key<'gc, C: CustomTypes<S>, S: System<C>>(p: &Process<'gc, C, S>) -> bool { p.reply_key.is_some() }
// @end
// @begin no_binary_op
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_binary_op<'gc, 'a, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: &S, _: &'a Value<'gc, C, S>, _: &'a Value<'gc, C, S>, _: BinaryOp) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { panic!("stubbed callee reached: binary_op") }
// @end
// @begin no_unary_op
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_unary_op<'gc, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: &S, _: &Value<'gc, C, S>, _: UnaryOp) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { panic!("stubbed callee reached: unary_op") }
// @end
// @begin no_index_list
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_index_list<'gc, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: &S, _: &Value<'gc, C, S>, _: &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { panic!("stubbed callee reached: index_list") }
// @end
// @begin no_cmp
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_cmp<'gc, C: CustomTypes<S>, S: System<C>>(_: &Value<'gc, C, S>, _: &Value<'gc, C, S>) -> Result<Option<core::cmp::Ordering>, ErrorCause<C, S>> { panic!("stubbed callee reached: cmp") }
// @end
// @begin no_check_relation
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_check_relation<'gc, C: CustomTypes<S>, S: System<C>>(_: &Value<'gc, C, S>, _: &Value<'gc, C, S>, _: Relation) -> Result<bool, ErrorCause<C, S>> { panic!("stubbed callee reached: check_relation") }
// @end
// @begin no_find
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_find<'gc, C: CustomTypes<S>, S: System<C>>(_: Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>, _: &Value<'gc, C, S>) -> Result<Option<usize>, ErrorCause<C, S>> { panic!("stubbed callee reached: find") }
// @end
// @begin no_flatten
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_flatten<'gc, C: CustomTypes<S>, S: System<C>>(_: &Value<'gc, C, S>) -> Result<VecDeque<Value<'gc, C, S>>, ErrorCause<C, S>> { panic!("stubbed callee reached: flatten") }
// @end
// @begin no_dimensions
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_dimensions<C: CustomTypes<S>, S: System<C>>(_: &Value<'_, C, S>) -> Result<Vec<usize>, ErrorCause<C, S>> { panic!("stubbed callee reached: dimensions") }
// @end
// @begin no_reshape
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_reshape<'gc, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: &Value<'gc, C, S>, _: &[usize]) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { panic!("stubbed callee reached: reshape") }
// @end
// @begin no_columns
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_columns<'gc, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> { panic!("stubbed callee reached: columns") }
// @end
// @begin no_cartesian_product
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_cartesian_product<'gc, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: &[Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>]) -> VecDeque<Value<'gc, C, S>> { panic!("stubbed callee reached: cartesian_product") }
// @end
// @begin no_from_csv
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_from_csv<'gc, C: CustomTypes<S>, S: System<C>>(_: &Mutation<'gc>, _: &str) -> Result<VecDeque<Value<'gc, C, S>>, ErrorCause<C, S>> { panic!("stubbed callee reached: from_csv") }
// @end
// @begin no_to_csv
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_to_csv<C: CustomTypes<S>, S: System<C>>(_: &Value<C, S>) -> Result<Text, ErrorCause<C, S>> { panic!("stubbed callee reached: to_csv") }
// @end
// @begin no_prep_index_set
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_prep_index_set<'gc, C: CustomTypes<S>, S: System<C>>(_: &Value<'gc, C, S>, _: usize) -> Result<BTreeSet<usize>, ErrorCause<C, S>> { panic!("stubbed callee reached: prep_index_set") }
// @end
// @begin no_prep_note
#[cfg(kani)] #[allow(dead_code)] pub(crate) fn no_prep_note<C: CustomTypes<S>, S: System<C>>(_: &Value<'_, C, S>) -> Result<Note, ErrorCause<C, S>> { panic!("stubbed callee reached: prep_note") }
// @end
