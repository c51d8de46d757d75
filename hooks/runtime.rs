// @begin lookup_group
#[allow(dead_code)] pub fn group_read<'gc, C: CustomTypes<S>, S: System<C>>(outer: &mut SymbolTable<'gc, C, S>, mid: &mut SymbolTable<'gc, C, S>, inner: &mut SymbolTable<'gc, C, S>, var: &str) -> Option<Value<'gc, C, S>> {
    let mut tabs = [outer, mid, inner];
    let g = LookupGroup::new(&mut tabs);
    g.lookup(var).map(|x| x.get().clone())
}
#[allow(dead_code)] pub fn group_write<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, outer: &mut SymbolTable<'gc, C, S>, mid: &mut SymbolTable<'gc, C, S>, inner: &mut SymbolTable<'gc, C, S>, var: &str, v: Value<'gc, C, S>) -> bool {
    let mut tabs = [outer, mid, inner];
    let mut g = LookupGroup::new(&mut tabs);
    match g.lookup_mut(var) { Some(x) => { x.set(mc, v); true } None => false }
}
// @end
