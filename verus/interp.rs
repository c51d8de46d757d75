#![feature(allocator_api)]
//! The interpreter: what one instruction does to the process that executes it.
//@split world data proc
use vstd::prelude::*;
verus! {
pub mod world {
//! What the interpreter only passes around, and the heap and the environment as ghost state.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::rc::Rc;
use std::collections::VecDeque;
use super::data::*;
use super::proc::*;
pub trait Unwindable: Sized { type UnwindPoint; fn get_unwind_point(&self) -> Self::UnwindPoint; fn unwind_to(&mut self, point: &Self::UnwindPoint); }
pub trait GetType { type Output; }
pub trait CustomTypes<S>: Sized { type ProcessState: Unwindable; type EntityState; type NativeValue: GetType; }
pub trait System<C>: Sized { type RequestKey; type CommandKey; }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Gc<'gc, T> { p: PhantomData<&'gc T> }
impl<'gc, T> Clone for Gc<'gc, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'gc, T> Copy for Gc<'gc, T> { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct GcWeak<'gc, T> { p: PhantomData<&'gc T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefLock<T> { p: PhantomData<T> }
impl<T> RefLock<T> {
    pub uninterp spec fn inside(self) -> T;
    #[verifier::external_body] pub fn new(x: T) -> (r: Self) ensures r.inside() == x { unimplemented!() }
}
#[verifier::external_body] pub struct Text { }
#[verifier::external_body] pub struct CompactString { }
#[verifier::external_body] pub struct Image { }
#[verifier::external_body] pub struct Audio { }
#[verifier::external_body] pub struct Barrier { }
impl Barrier {
    pub uninterp spec fn cond(self) -> BarrierCondition;
    #[verifier::external_body] pub fn new() -> (r: Barrier) { unimplemented!() }
    #[verifier::external_body] pub fn get_condition(&self) -> (r: BarrierCondition) ensures r == self.cond() { unimplemented!() }
}
#[verifier::external_body] pub struct BarrierCondition { }
impl BarrierCondition {
    pub uninterp spec fn done(self) -> bool;
    #[verifier::external_body] pub fn is_completed(&self) -> (r: bool) ensures r == self.done() { unimplemented!() }
}
#[verifier::external_body] pub struct InternReplyKey { }
#[verifier::external_body] pub struct ExternReplyKey { }
#[verifier::external_body] pub struct ByteCode { }
impl Clone for Barrier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for BarrierCondition { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for InternReplyKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ExternReplyKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Note { }
#[verifier::external_body] pub struct Json { }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct ToSimpleError<C, S> { p: PhantomData<(C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct IntoJsonError<C, S> { p: PhantomData<(C, S)> }
#[verifier::external_body] pub struct FromJsonError { }
#[verifier::external_body] pub struct FromNetsBloxJsonError { }
#[verifier::external_body] #[derive(Debug)] pub struct NumberError { }
#[verifier::external_body] pub struct Feature { }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct VecMap<K, V, const SORTED: bool> { p: PhantomData<(K, V)> }
/// Copies of what is shared are the same.
pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl Dup for Option<Rc<Image>> { #[verifier::external_body] fn dup(&self) -> (r: Self) { unimplemented!() } }
/// Things that have a spelling.
pub trait Named { spec fn chars(&self) -> Seq<char>; }
impl Named for str { open spec fn chars(&self) -> Seq<char> { self@ } }
impl Named for CompactString { uninterp spec fn chars(&self) -> Seq<char>; }
impl Named for Text { uninterp spec fn chars(&self) -> Seq<char>; }
impl Text {
    #[verifier::external_body] pub fn from(x: &str) -> (r: Text) ensures r.chars() == x@ { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.chars() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.chars().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Text) ensures r.chars().len() == 0 { unimplemented!() }
}
impl CompactString {
    #[verifier::external_body] pub fn new(x: &str) -> (r: CompactString) ensures r.chars() == x@ { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.chars() { unimplemented!() }
}
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CompactString { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Clone, Copy)] pub struct Number(pub f64);
/// The numbers the machine can hold.
pub uninterp spec fn valid(x: f64) -> bool;
impl Number {
    #[verifier::external_body] pub fn new(x: f64) -> (r: Result<Number, NumberError>) ensures r is Ok <==> valid(x), r is Ok ==> r->Ok_0.0 == x { unimplemented!() }
    pub fn get(self) -> (r: f64) ensures r == self.0 { self.0 }
}
/// Conversions by `into` that the interpreter uses.
pub trait Into_<T>: Sized { spec fn to(self) -> T; fn into_(self) -> (r: T) ensures r == self.to(); }
impl<'gc, C: CustomTypes<S>, S: System<C>> Into_<Value<'gc, C, S>> for bool { open spec fn to(self) -> Value<'gc, C, S> { Value::Bool(self) } fn into_(self) -> Value<'gc, C, S> { Value::Bool(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Into_<Value<'gc, C, S>> for Number { open spec fn to(self) -> Value<'gc, C, S> { Value::Number(self) } fn into_(self) -> Value<'gc, C, S> { Value::Number(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Into_<Value<'gc, C, S>> for Text { open spec fn to(self) -> Value<'gc, C, S> { Value::Text(self) } fn into_(self) -> Value<'gc, C, S> { Value::Text(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Into_<Value<'gc, C, S>> for List<'gc, C, S> { open spec fn to(self) -> Value<'gc, C, S> { Value::List(self) } fn into_(self) -> Value<'gc, C, S> { Value::List(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Into_<Value<'gc, C, S>> for Gc<'gc, RefLock<Closure<'gc, C, S>>> { open spec fn to(self) -> Value<'gc, C, S> { Value::Closure(self) } fn into_(self) -> Value<'gc, C, S> { Value::Closure(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Into_<Value<'gc, C, S>> for Sprite<'gc, C, S> { open spec fn to(self) -> Value<'gc, C, S> { Value::Entity(self) } fn into_(self) -> Value<'gc, C, S> { Value::Entity(self) } }
impl<'gc, T> Into_<Shared<'gc, T>> for T { open spec fn to(self) -> Shared<'gc, T> { Shared::Unique(self) } fn into_(self) -> Shared<'gc, T> { Shared::Unique(self) } }
pub uninterp spec fn spelled(x: Seq<char>) -> CompactString;
/// Names are spelled as they are written.
#[verifier::external_body] pub broadcast proof fn spelled_is(x: Seq<char>) ensures #[trigger] spelled(x).chars() == x { }
impl Into_<CompactString> for &str { open spec fn to(self) -> CompactString { spelled(self@) } #[verifier::external_body] fn into_(self) -> (r: CompactString) { unimplemented!() } }
pub type List<'gc, C, S> = Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>;
pub type Sprite<'gc, C, S> = Gc<'gc, RefLock<Entity<'gc, C, S>>>;
pub type Lambda<'gc, C, S> = Gc<'gc, RefLock<Closure<'gc, C, S>>>;
pub type Cell<'gc, C, S> = Gc<'gc, RefLock<Value<'gc, C, S>>>;
/// The heap.
#[verifier::external_body] pub struct Mutation<'gc> { p: PhantomData<&'gc ()> }
impl<'gc> Mutation<'gc> {
    /// What is stored behind a reference.
    pub uninterp spec fn at<T>(self, g: Gc<'gc, RefLock<T>>) -> T;
    pub uninterp spec fn live<T>(self, g: Gc<'gc, RefLock<T>>) -> bool;
    pub open spec fn list<C: CustomTypes<S>, S: System<C>>(self, g: List<'gc, C, S>) -> Seq<Value<'gc, C, S>> { self.at(g)@ }
    pub open spec fn lists<C: CustomTypes<S>, S: System<C>>(self, o: Self) -> bool { forall|g: List<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] self.at(g) == o.at(g) && self.live(g) == o.live(g) }
    pub open spec fn sprites<C: CustomTypes<S>, S: System<C>>(self, o: Self) -> bool { forall|g: Sprite<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] self.at(g) == o.at(g) && self.live(g) == o.live(g) }
    pub open spec fn closures<C: CustomTypes<S>, S: System<C>>(self, o: Self) -> bool { forall|g: Lambda<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] self.at(g) == o.at(g) && self.live(g) == o.live(g) }
    pub open spec fn cells<C: CustomTypes<S>, S: System<C>>(self, o: Self) -> bool { forall|g: Cell<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] self.at(g) == o.at(g) && self.live(g) == o.live(g) }
    /// The same heap.
    pub open spec fn like<C: CustomTypes<S>, S: System<C>>(self, o: Self) -> bool { self.lists::<C, S>(o) && self.sprites::<C, S>(o) && self.closures::<C, S>(o) && self.cells::<C, S>(o) }
    /// The heap has only grown.
    pub open spec fn grew<C: CustomTypes<S>, S: System<C>>(self, o: Self) -> bool {
        &&& forall|g: List<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] o.live(g) ==> self.at(g) == o.at(g) && self.live(g)
        &&& forall|g: Sprite<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] o.live(g) ==> self.at(g) == o.at(g) && self.live(g)
        &&& forall|g: Lambda<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] o.live(g) ==> self.at(g) == o.at(g) && self.live(g)
        &&& forall|g: Cell<'gc, C, S>| #![trigger self.at(g)] #![trigger self.live(g)] o.live(g) ==> self.at(g) == o.at(g) && self.live(g)
    }
    /// The heap with the list `g` having the content `x`.
    pub open spec fn with_list<C: CustomTypes<S>, S: System<C>>(self, o: Self, g: List<'gc, C, S>, x: Seq<Value<'gc, C, S>>) -> bool {
        self.list(g) == x && (forall|h: List<'gc, C, S>| h != g ==> #[trigger] self.at(h) == o.at(h)) && self.sprites::<C, S>(o) && self.closures::<C, S>(o) && self.cells::<C, S>(o)
    }
}
/// What the heap stores.
pub trait Kept<'gc>: Sized {
    /// `self` is now stored behind `g` and nothing else has changed.
    spec fn put(g: Gc<'gc, RefLock<Self>>, x: Self, o: Mutation<'gc>, n: Mutation<'gc>) -> bool;
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Kept<'gc> for VecDeque<Value<'gc, C, S>> {
    open spec fn put(g: Gc<'gc, RefLock<Self>>, x: Self, o: Mutation<'gc>, n: Mutation<'gc>) -> bool { n.at(g) == x && (forall|h: Gc<'gc, RefLock<Self>>| #![trigger n.at(h)] #![trigger n.live(h)] h != g ==> n.at(h) == o.at(h) && n.live(h) == o.live(h)) && n.sprites::<C, S>(o) && n.closures::<C, S>(o) && n.cells::<C, S>(o) }
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Kept<'gc> for Entity<'gc, C, S> {
    open spec fn put(g: Gc<'gc, RefLock<Self>>, x: Self, o: Mutation<'gc>, n: Mutation<'gc>) -> bool { n.at(g) == x && (forall|h: Gc<'gc, RefLock<Self>>| #![trigger n.at(h)] #![trigger n.live(h)] h != g ==> n.at(h) == o.at(h) && n.live(h) == o.live(h)) && n.lists::<C, S>(o) && n.closures::<C, S>(o) && n.cells::<C, S>(o) }
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Kept<'gc> for Closure<'gc, C, S> {
    open spec fn put(g: Gc<'gc, RefLock<Self>>, x: Self, o: Mutation<'gc>, n: Mutation<'gc>) -> bool { n.at(g) == x && (forall|h: Gc<'gc, RefLock<Self>>| #![trigger n.at(h)] #![trigger n.live(h)] h != g ==> n.at(h) == o.at(h) && n.live(h) == o.live(h)) && n.lists::<C, S>(o) && n.sprites::<C, S>(o) && n.cells::<C, S>(o) }
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Kept<'gc> for Value<'gc, C, S> {
    open spec fn put(g: Gc<'gc, RefLock<Self>>, x: Self, o: Mutation<'gc>, n: Mutation<'gc>) -> bool { n.at(g) == x && (forall|h: Gc<'gc, RefLock<Self>>| #![trigger n.at(h)] #![trigger n.live(h)] h != g ==> n.at(h) == o.at(h) && n.live(h) == o.live(h)) && n.lists::<C, S>(o) && n.sprites::<C, S>(o) && n.closures::<C, S>(o) }
}
impl<'gc, T: Kept<'gc>> RefLock<T> {
    #[verifier::external_body] pub fn alloc(self, mc: &mut Mutation<'gc>) -> (r: Gc<'gc, RefLock<T>>) ensures T::put(r, self.inside(), *old(mc), *final(mc)), !old(mc).live(r), final(mc).live(r) { unimplemented!() }
}
impl<'gc, T: Kept<'gc>> Gc<'gc, RefLock<T>> {
    #[verifier::external_body] pub fn borrow(self, mc: &Mutation<'gc>) -> (r: &'gc T) ensures *r == mc.at(self) { unimplemented!() }
    #[verifier::external_body] pub fn borrow_mut(self, mc: &mut Mutation<'gc>) -> (r: &'gc mut T) ensures *r == old(mc).at(self), T::put(self, *final(r), *old(mc), *final(mc)), final(mc).live(self) == old(mc).live(self) { unimplemented!() }
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Clone for Value<'gc, C, S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn number_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>) -> Option<Number>;
pub uninterp spec fn text_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>) -> Option<Text>;
impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S> {
    #[verifier::external_body] pub fn get_type(&self) -> (r: Type<C, S>) ensures r == type_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_number(&self) -> (r: Result<Number, ConversionError<C, S>>) ensures r == match number_of(*self) { Some(x) => Ok(x), None => Err(not_a::<C, S>(*self, Type::Number)) } { unimplemented!() }
    #[verifier::external_body] pub fn as_text(&self) -> (r: Result<Text, ConversionError<C, S>>) ensures r == match text_of(*self) { Some(x) => Ok(x), None => Err(not_a::<C, S>(*self, Type::Text)) } { unimplemented!() }
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_bool -> r
    //| ensures r is Ok <==> self is Bool, r is Ok ==> r->Ok_0 == self->Bool_0,
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_list -> r
    //| ensures r is Ok <==> self is List, r is Ok ==> r->Ok_0 == self->List_0,
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_closure -> r
    //| ensures r is Ok <==> self is Closure, r is Ok ==> r->Ok_0 == self->Closure_0,
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_entity -> r
    //| ensures r is Ok <==> self is Entity, r is Ok ==> r->Ok_0 == self->Entity_0,
    //@end
}
pub uninterp spec fn not_a<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, t: Type<C, S>) -> ConversionError<C, S>;
impl<C: CustomTypes<S>, S: System<C>> From<ConversionError<C, S>> for ErrorCause<C, S> { #[verifier::external_body] fn from(e: ConversionError<C, S>) -> Self { unimplemented!() } }
impl<C: CustomTypes<S>, S: System<C>> From<ToSimpleError<C, S>> for ErrorCause<C, S> { #[verifier::external_body] fn from(e: ToSimpleError<C, S>) -> Self { unimplemented!() } }
impl<C: CustomTypes<S>, S: System<C>> From<NumberError> for ErrorCause<C, S> { #[verifier::external_body] fn from(e: NumberError) -> Self { unimplemented!() } }
impl<'gc, C: CustomTypes<S>, S: System<C>> SymbolTable<'gc, C, S> {
    pub uninterp spec fn map(self) -> Map<Seq<char>, Shared<'gc, Value<'gc, C, S>>>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.map() == Map::<Seq<char>, Shared<'gc, Value<'gc, C, S>>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn copy(&self, mc: &Mutation<'gc>) -> (r: Self) ensures r.map().dom() =~= self.map().dom(), forall|x: Seq<char>| #[trigger] r.map().contains_key(x) ==> r.map()[x] == Shared::Unique(held(*mc, self.map()[x])) { unimplemented!() }
    #[verifier::external_body] pub fn lookup_mut<'a>(&'a mut self, var: &str) -> (r: Option<&'a mut Shared<'gc, Value<'gc, C, S>>>) ensures r is Some <==> old(self).map().contains_key(var@), match r { Some(x) => *x == old(self).map()[var@] && final(self).map() == old(self).map().insert(var@, *final(x)), None => *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body] pub fn define_or_redefine<N: Named + ?Sized>(&mut self, name: &N, value: Shared<'gc, Value<'gc, C, S>>) ensures final(self).map() == old(self).map().insert(name.chars(), value) { unimplemented!() }
}
/// What a variable holds.
pub open spec fn held<'gc, C: CustomTypes<S>, S: System<C>>(mc: Mutation<'gc>, x: Shared<'gc, Value<'gc, C, S>>) -> Value<'gc, C, S> { match x { Shared::Unique(v) => v, Shared::Aliased(g) => mc.at(g) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Shared<'gc, Value<'gc, C, S>> {
    #[verifier::external_body] pub fn get(&self, mc: &Mutation<'gc>) -> (r: &Value<'gc, C, S>) ensures *r == held(*mc, *self) { unimplemented!() }
    //@fn src/runtime.rs "impl<'gc, T: 'gc + Collect> Shared<'gc, T>" set
    //@sub \bT\b ==> Value<'gc, C, S>
    //@sub mc: &Mutation ==> mc: &mut Mutation
    //| ensures match *old(self) { Shared::Unique(_) => *final(self) == Shared::Unique(value) && final(mc).like::<C, S>(*old(mc)), Shared::Aliased(g) => *final(self) == *old(self) && Kept::put(g, value, *old(mc), *final(mc)) && final(mc).live(g) == old(mc).live(g) },
    //@end
    //@fn src/runtime.rs "impl<'gc, T: 'gc + Collect> Shared<'gc, T>" alias_inner -> r
    //@sub \bT\b ==> Value<'gc, C, S>
    //@sub mc: &Mutation ==> mc: &mut Mutation
    //@sub replace_with::replace_with\(self, \|\| unreachable!\(\), \|myself\| ==> let myself = stolen(self); *self = (
    //@sub Gc::new\(mc, RefLock::new\(x\)\) ==> RefLock::new(x).alloc(mc)
    //@sub unreachable!\(\) ==> vstd::pervasive::unreached()
    //| ensures *final(self) == Shared::Aliased(r), match *old(self) { Shared::Unique(x) => Kept::put(r, x, *old(mc), *final(mc)) && !old(mc).live(r) && final(mc).live(r), Shared::Aliased(g) => r == g && final(mc).like::<C, S>(*old(mc)) },
    //@end
    //@fn src/runtime.rs "impl<'gc, T: 'gc + Collect> Shared<'gc, T>" alias -> r
    //@sub \bT\b ==> Value<'gc, C, S>
    //@sub mc: &Mutation ==> mc: &mut Mutation
    //| ensures *final(self) == r, r is Aliased, match *old(self) { Shared::Unique(x) => Kept::put(r->Aliased_0, x, *old(mc), *final(mc)) && !old(mc).live(r->Aliased_0) && final(mc).live(r->Aliased_0), Shared::Aliased(g) => r == *old(self) && final(mc).like::<C, S>(*old(mc)) },
    //@end
}
/// mem::replace, the replacement being unusable.
#[verifier::external_body] pub fn stolen<T>(x: &mut T) -> (r: T) ensures r == *old(x) { unimplemented!() }
pub type Vars<'gc, C, S> = Map<Seq<char>, Shared<'gc, Value<'gc, C, S>>>;
/// Where a name is found: in the innermost of three tables that has it.
pub open spec fn place<'gc, C: CustomTypes<S>, S: System<C>>(a: Vars<'gc, C, S>, b: Vars<'gc, C, S>, c: Vars<'gc, C, S>, name: Seq<char>) -> int { if c.contains_key(name) { 2 } else if b.contains_key(name) { 1 } else if a.contains_key(name) { 0 } else { -1 } }
#[verifier::external_body] pub fn lookup<'gc, 'a, C: CustomTypes<S>, S: System<C>>(a: &'a SymbolTable<'gc, C, S>, b: &'a SymbolTable<'gc, C, S>, c: &'a SymbolTable<'gc, C, S>, name: &str) -> (r: Option<&'a Shared<'gc, Value<'gc, C, S>>>)
    ensures ({ let k = place(a.map(), b.map(), c.map(), name@); (r is Some <==> k >= 0) && (k == 2 ==> *r->Some_0 == c.map()[name@]) && (k == 1 ==> *r->Some_0 == b.map()[name@]) && (k == 0 ==> *r->Some_0 == a.map()[name@]) })
{ unimplemented!() }
#[verifier::external_body] pub fn lookup_mut<'gc, 'a, C: CustomTypes<S>, S: System<C>>(a: &'a mut SymbolTable<'gc, C, S>, b: &'a mut SymbolTable<'gc, C, S>, c: &'a mut SymbolTable<'gc, C, S>, name: &str) -> (r: Option<&'a mut Shared<'gc, Value<'gc, C, S>>>)
    ensures ({ let k = place(old(a).map(), old(b).map(), old(c).map(), name@);
        (r is Some <==> k >= 0) && (k == 2 ==> *r->Some_0 == old(c).map()[name@] && final(c).map() == old(c).map().insert(name@, *final(r->Some_0))) && (k == 1 ==> *r->Some_0 == old(b).map()[name@] && final(b).map() == old(b).map().insert(name@, *final(r->Some_0))) && (k == 0 ==> *r->Some_0 == old(a).map()[name@] && final(a).map() == old(a).map().insert(name@, *final(r->Some_0)))
        && (k != 2 ==> *final(c) == *old(c)) && (k != 1 ==> *final(b) == *old(b)) && (k != 0 ==> *final(a) == *old(a)) })
{ unimplemented!() }
/// What has been asked of the environment.
pub enum Asked<'gc, C: CustomTypes<S>, S: System<C>> {
    Request(Request<'gc, C, S>), Print(PrintStyle, Option<Value<'gc, C, S>>), SetProperty(Property, Value<'gc, C, S>), ChangeProperty(Property, Value<'gc, C, S>), ClearEffects, ClearDrawings, SetCostume,
    PlaySound(Rc<Audio>, bool), PlayNotes(Vec<Note>, Number, bool), StopSounds, GotoXY(Number, Number), GotoEntity(Entity<'gc, C, S>), PointTowardsXY(Number, Number), PointTowardsEntity(Entity<'gc, C, S>), Forward(Number),
    Message(Seq<char>, VecMap<CompactString, Json, false>, Vec<CompactString>, bool), Reply(InternReplyKey, Json),
}
pub open spec fn command<'gc, C: CustomTypes<S>, S: System<C>>(c: Command<'gc, '_, C, S>) -> Asked<'gc, C, S> {
    match c {
        Command::Print { style, value } => Asked::Print(style, value), Command::SetProperty { prop, value } => Asked::SetProperty(prop, value), Command::ChangeProperty { prop, delta } => Asked::ChangeProperty(prop, delta),
        Command::ClearEffects => Asked::ClearEffects, Command::ClearDrawings => Asked::ClearDrawings, Command::SetCostume => Asked::SetCostume, Command::PlaySound { sound, blocking } => Asked::PlaySound(sound, blocking), Command::PlayNotes { notes, beats, blocking } => Asked::PlayNotes(notes, beats, blocking), Command::StopSounds => Asked::StopSounds,
        Command::GotoXY { x, y } => Asked::GotoXY(x, y), Command::GotoEntity { target } => Asked::GotoEntity(*target), Command::PointTowardsXY { x, y } => Asked::PointTowardsXY(x, y), Command::PointTowardsEntity { target } => Asked::PointTowardsEntity(*target), Command::Forward { distance } => Asked::Forward(distance),
    }
}
/// The environment. It sees the whole process but can change only its public part, and the heap.
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Env<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
impl<'gc, C: CustomTypes<S>, S: System<C>> Env<'gc, C, S> {
    /// Everything asked so far, in order, and the key last given out for it.
    pub uninterp spec fn log(self) -> Seq<Asked<'gc, C, S>>;
    pub uninterp spec fn request_key(self) -> S::RequestKey;
    pub uninterp spec fn command_key(self) -> S::CommandKey;
    pub uninterp spec fn reply_key(self) -> ExternReplyKey;
    /// The costume that the sprite of the process had when it was last asked to be shown.
    pub uninterp spec fn shown(self) -> Option<Rc<Image>>;
    #[verifier::external_body] pub fn perform_request(&mut self, mc: &mut Mutation<'gc>, request: Request<'gc, C, S>, proc: &mut Process<'gc, C, S>) -> (r: Result<S::RequestKey, ErrorCause<C, S>>)
        ensures final(self).log() == old(self).log().push(Asked::Request(request)), r is Ok ==> r->Ok_0 == final(self).request_key(), final(proc).private(*old(proc)) { unimplemented!() }
    #[verifier::external_body] pub fn perform_command(&mut self, mc: &mut Mutation<'gc>, command: Command<'gc, '_, C, S>, proc: &mut Process<'gc, C, S>) -> (r: Result<S::CommandKey, ErrorCause<C, S>>)
        ensures final(self).log() == old(self).log().push(super::world::command(command)), command is SetCostume ==> final(self).shown() == old(mc).at(old(proc).call_stack@.last().entity).costume, r is Ok ==> r->Ok_0 == final(self).command_key(), final(proc).private(*old(proc)) { unimplemented!() }
    #[verifier::external_body] pub fn send_message(&mut self, msg_type: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> (r: Result<Option<ExternReplyKey>, ErrorCause<C, S>>)
        ensures final(self).log() == old(self).log().push(Asked::Message(msg_type.chars(), values, targets, expect_reply)), r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0 == final(self).reply_key() { unimplemented!() }
    #[verifier::external_body] pub fn send_reply(&mut self, key: InternReplyKey, value: Json) -> (r: Result<(), ErrorCause<C, S>>)
        ensures final(self).log() == old(self).log().push(Asked::Reply(key, value)) { unimplemented!() }
    /// The answer that polling for a key gives now.
    pub uninterp spec fn request_answer(self, key: S::RequestKey) -> AsyncResult<Result<Value<'gc, C, S>, CompactString>>;
    pub uninterp spec fn command_answer(self, key: S::CommandKey) -> AsyncResult<Result<(), CompactString>>;
    pub uninterp spec fn reply_answer(self, key: ExternReplyKey) -> AsyncResult<Option<Json>>;
    #[verifier::external_body] pub fn poll_request(&mut self, mc: &mut Mutation<'gc>, key: &S::RequestKey, proc: &mut Process<'gc, C, S>) -> (r: Result<AsyncResult<Result<Value<'gc, C, S>, CompactString>>, ErrorCause<C, S>>)
        ensures final(self).log() == old(self).log(), r is Ok ==> r->Ok_0 == old(self).request_answer(*key) && !(r->Ok_0 is Consumed), final(proc).private(*old(proc)) { unimplemented!() }
    #[verifier::external_body] pub fn poll_command(&mut self, mc: &mut Mutation<'gc>, key: &S::CommandKey, proc: &mut Process<'gc, C, S>) -> (r: Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, S>>)
        ensures final(self).log() == old(self).log(), r is Ok ==> r->Ok_0 == old(self).command_answer(*key) && !(r->Ok_0 is Consumed), final(proc).private(*old(proc)) { unimplemented!() }
    #[verifier::external_body] pub fn poll_reply(&mut self, key: &ExternReplyKey) -> (r: AsyncResult<Option<Json>>)
        ensures final(self).log() == old(self).log(), r == old(self).reply_answer(*key) && !(r is Consumed) { unimplemented!() }
    pub uninterp spec fn clock(self) -> SysTime;
    #[verifier::external_body] pub fn time(&self, precision: Precision) -> (r: SysTime) ensures r == self.clock() { unimplemented!() }
}
#[verifier::external_body] pub struct OffsetDateTime { }
#[verifier::external_body] pub struct Date { }
#[verifier::external_body] pub struct Weekday { }
impl OffsetDateTime {
    pub uninterp spec fn nanos(self) -> i128;
    pub uninterp spec fn y(self) -> i32;
    pub uninterp spec fn mo(self) -> u8;
    pub uninterp spec fn d(self) -> u8;
    pub uninterp spec fn wd(self) -> u8;
    pub uninterp spec fn h(self) -> u8;
    pub uninterp spec fn mi(self) -> u8;
    pub uninterp spec fn sec(self) -> u8;
    #[verifier::external_body] pub fn unix_timestamp_nanos(self) -> (r: i128) ensures r == self.nanos() { unimplemented!() }
    #[verifier::external_body] pub fn year(self) -> (r: i32) ensures r == self.y() { unimplemented!() }
    #[verifier::external_body] pub fn month(self) -> (r: u8) ensures r == self.mo() { unimplemented!() }
    #[verifier::external_body] pub fn day(self) -> (r: u8) ensures r == self.d() { unimplemented!() }
    #[verifier::external_body] pub fn hour(self) -> (r: u8) ensures r == self.h() { unimplemented!() }
    #[verifier::external_body] pub fn minute(self) -> (r: u8) ensures r == self.mi() { unimplemented!() }
    #[verifier::external_body] pub fn second(self) -> (r: u8) ensures r == self.sec() { unimplemented!() }
    #[verifier::external_body] pub fn number_from_sunday(self) -> (r: u8) ensures r == self.wd() { unimplemented!() }
}
impl SysTime {
    pub uninterp spec fn ms(self) -> Option<u64>;
    pub uninterp spec fn local(self) -> Option<OffsetDateTime>;
    #[verifier::external_body] pub fn to_arbitrary_ms<C: CustomTypes<S>, S: System<C>>(&self) -> (r: Result<u64, ErrorCause<C, S>>) ensures r is Ok <==> self.ms() is Some, r is Ok ==> r->Ok_0 == self.ms()->Some_0 { unimplemented!() }
    #[verifier::external_body] pub fn to_real_local<C: CustomTypes<S>, S: System<C>>(&self) -> (r: Result<OffsetDateTime, ErrorCause<C, S>>) ensures r is Ok <==> self.local() is Some, r is Ok ==> r->Ok_0 == self.local()->Some_0 { unimplemented!() }
}
#[verifier::external_body] pub struct Property { }
/// Numbers of the machine.
pub trait Whole: Copy { spec fn int(self) -> int; }
impl Whole for i32 { open spec fn int(self) -> int { self as int } }
impl Whole for u32 { open spec fn int(self) -> int { self as int } }
impl Whole for u64 { open spec fn int(self) -> int { self as int } }
impl Whole for i128 { open spec fn int(self) -> int { self as int } }
impl Whole for usize { open spec fn int(self) -> int { self as int } }
impl Whole for u8 { open spec fn int(self) -> int { self as int } }
pub uninterp spec fn real_of(x: int) -> f64;
#[verifier::external_body] pub fn real_f<T: Whole>(x: T) -> (r: f64) ensures r == real_of(x.int()) { unimplemented!() }
pub uninterp spec fn product(a: f64, b: f64) -> f64;
pub trait Real: Sized { spec fn v(self) -> f64; fn times(self, b: f64) -> (r: f64) ensures r == product(self.v(), b); fn over(self, b: f64) -> (r: f64) ensures r == quotient(self.v(), b); }
impl Real for f64 { open spec fn v(self) -> f64 { self } #[verifier::external_body] fn times(self, b: f64) -> (r: f64) { unimplemented!() } #[verifier::external_body] fn over(self, b: f64) -> (r: f64) { unimplemented!() } }
pub trait ToReal: Sized { spec fn i(self) -> int; fn real_(self) -> (r: f64) ensures r == real_of(self.i()); }
impl ToReal for u64 { open spec fn i(self) -> int { self as int } #[verifier::external_body] fn real_(self) -> (r: f64) { unimplemented!() } }
pub uninterp spec fn ms_of(x: i128) -> int;
#[verifier::external_body] pub fn to_ms(x: i128) -> (r: i128) ensures r as int == ms_of(x) { unimplemented!() }
pub uninterp spec fn quotient(a: f64, b: f64) -> f64;
pub uninterp spec fn floor_of(a: f64) -> u64;
#[verifier::external_body] pub fn floor(a: f64) -> (r: u64) ensures r == floor_of(a) { unimplemented!() }
pub uninterp spec fn packed(a: u8, r: u8, g: u8, b: u8) -> u32;
#[verifier::external_body] pub fn pack(x: [u8; 4]) -> (r: u32) ensures r == packed(x@[0], x@[1], x@[2], x@[3]) { unimplemented!() }
pub uninterp spec fn spell_int(x: int) -> Text;
#[verifier::external_body] pub fn spell_int_(x: i32) -> (r: Text) ensures r == spell_int(x as int) { unimplemented!() }
/// What `drain` accepts as its start.
pub trait Pos { spec fn n(&self) -> int; fn n_(&self) -> (r: usize) ensures r == self.n(); }
impl Pos for usize { open spec fn n(&self) -> int { *self as int } fn n_(&self) -> (r: usize) { *self } }
#[verifier::external_body] pub fn blank_(x: &str) -> (r: bool) ensures r == (x@.len() == 0) { unimplemented!() }
pub uninterp spec fn names_in(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn split_tokens<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.len() == names_in(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == names_in(s@)[i] { unimplemented!() }
#[verifier::external_body] pub fn zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>) ensures r@.len() == if a@.len() < b@.len() { a@.len() } else { b@.len() }, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (a@[i], b@[i]) { unimplemented!() }
/// Vec::drain(n..) with its result dropped.
#[verifier::external_body] pub fn cut<T>(v: &mut Vec<T>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.take(n as int) { unimplemented!() }
/// CompactString::new of each.
#[verifier::external_body] pub fn spell(v: Vec<&str>) -> (r: Vec<CompactString>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).chars() == v@[i]@ { unimplemented!() }
/// `iter.by_ref().take(n)` of what is left.
#[verifier::external_body] pub fn take_front<T>(v: &mut Vec<T>, n: usize) -> (r: Vec<T>) ensures n <= old(v)@.len() ==> r@ == old(v)@.take(n as int) && final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
/// The map with these pairs.
pub uninterp spec fn pairs<'gc, C: CustomTypes<S>, S: System<C>>(k: Seq<Seq<char>>, v: Seq<Value<'gc, C, S>>) -> VecMap<CompactString, Value<'gc, C, S>, false>;
#[verifier::external_body] pub fn zip_map<'gc, C: CustomTypes<S>, S: System<C>>(k: Vec<CompactString>, v: Vec<Value<'gc, C, S>>) -> (r: VecMap<CompactString, Value<'gc, C, S>, false>) ensures r == pairs(k@.map_values(|x: CompactString| x.chars()), v@) { unimplemented!() }
/// The same with the values turned into JSON.
pub uninterp spec fn json_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, mc: Mutation<'gc>) -> Option<Json>;
pub uninterp spec fn json_pairs<'gc, C: CustomTypes<S>, S: System<C>>(k: Seq<Seq<char>>, v: Seq<Value<'gc, C, S>>, mc: Mutation<'gc>) -> VecMap<CompactString, Json, false>;
#[verifier::external_body] pub fn zip_json<'gc, C: CustomTypes<S>, S: System<C>>(k: Vec<CompactString>, v: Vec<Value<'gc, C, S>>, mc: &Mutation<'gc>) -> (r: Result<VecMap<CompactString, Json, false>, ToSimpleError<C, S>>) ensures r is Ok ==> r->Ok_0 == json_pairs(k@.map_values(|x: CompactString| x.chars()), v@, *mc) { unimplemented!() }
#[verifier::external_body] pub fn to_json<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, mc: &Mutation<'gc>) -> (r: Result<Json, ToSimpleError<C, S>>) ensures r is Ok <==> json_of(v, *mc) is Some, r is Ok ==> r->Ok_0 == json_of(v, *mc)->Some_0 { unimplemented!() }
/// The sprites named by a list.
#[verifier::external_body] pub fn entities_of<'gc, C: CustomTypes<S>, S: System<C>>(v: &VecDeque<Value<'gc, C, S>>) -> (r: Result<Vec<Sprite<'gc, C, S>>, ConversionError<C, S>>)
    ensures r is Ok <==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Entity, r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] r->Ok_0@[i] == v@[i]->Entity_0 { unimplemented!() }
#[verifier::external_body] pub fn reversed_list<T>(v: &VecDeque<T>) -> (r: VecDeque<T>) ensures r@ == v@.reverse() { unimplemented!() }
#[verifier::external_body] pub fn reversed(v: Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@.reverse() { unimplemented!() }
pub trait Listed<T> { spec fn all(&self) -> Seq<T>; fn listed(&self) -> (r: Vec<T>) ensures r@ == self.all(); }
impl<T> Listed<T> for VecDeque<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn listed(&self) -> (r: Vec<T>) { unimplemented!() } }
#[verifier::external_body] pub fn items<'gc, C: CustomTypes<S>, S: System<C>>(v: &VecDeque<Value<'gc, C, S>>) -> (r: Vec<Value<'gc, C, S>>) ensures r@ == v@ { unimplemented!() }
pub assume_specification<T> [<[T]>::swap] (v: &mut [T], a: usize, b: usize) requires a < old(v)@.len(), b < old(v)@.len() ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]);
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (v: &VecDeque<T, A>) -> (r: bool) ensures r == (v@.len() == 0);
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::back] (v: &VecDeque<T, A>) -> (r: Option<&T>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->Some_0 == v@.last();
#[verifier::external_body] pub fn set_at<T>(v: &mut VecDeque<T>, i: usize, x: T) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { unimplemented!() }
/// Ascending positions below `len`.
pub open spec fn rising(s: Seq<usize>, len: int) -> bool { (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < len) && forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j] }
/// The list from position `p` on, with `v` inserted before each of the chosen positions.
pub open spec fn inserted<T>(l: Seq<T>, s: Seq<usize>, v: T, p: int) -> Seq<T> decreases l.len() + 1 - p {
    if p > l.len() { Seq::empty() } else { (if s.contains(p as usize) { seq![v] } else { Seq::empty() }) + (if p < l.len() { seq![l[p]] } else { Seq::empty() }) + inserted(l, s, v, p + 1) }
}
/// The list from position `p` on, without the chosen positions.
pub open spec fn kept<T>(l: Seq<T>, s: Seq<usize>, p: int) -> Seq<T> decreases l.len() - p { if p >= l.len() { Seq::empty() } else { (if s.contains(p as usize) { Seq::empty() } else { seq![l[p]] }) + kept(l, s, p + 1) } }
/// Where the part begins that has been worked on when the first `n` positions are still to do.
pub open spec fn upto_<T>(l: Seq<T>, s: Seq<usize>, n: int) -> int { if n < s.len() { s[n] as int } else { l.len() as int + 1 } }
pub open spec fn upto<T>(l: Seq<T>, s: Seq<usize>, n: int) -> int { if n < s.len() { s[n] as int } else { l.len() as int } }
pub proof fn insert_gap<T>(l: Seq<T>, s: Seq<usize>, v: T, a: int, b: int) requires 0 <= a <= b <= l.len() + 1, l.len() < usize::MAX, forall|i: int| a <= i < b ==> !s.contains(#[trigger] (i as usize)) ensures inserted(l, s, v, a) =~= l.subrange(if a > l.len() { l.len() as int } else { a }, if b > l.len() { l.len() as int } else { b }) + inserted(l, s, v, b) decreases b - a
{ if a < b { insert_gap(l, s, v, a + 1, b); assert(!s.contains(a as usize)); } }
pub proof fn insert_step<T>(l: Seq<T>, s: Seq<usize>, v: T, n: int) requires 0 < n <= s.len(), rising(s, l.len() as int + 1), l.len() < usize::MAX ensures (l.take(upto(l, s, n)) + inserted(l, s, v, upto_(l, s, n))).insert(s[n - 1] as int, v) =~= l.take(upto(l, s, n - 1)) + inserted(l, s, v, upto_(l, s, n - 1)), s[n - 1] <= upto(l, s, n)
{
    let (q, p) = (s[n - 1] as int, upto_(l, s, n));
    assert(s.contains(q as usize));
    assert forall|i: int| q + 1 <= i < p implies !s.contains(#[trigger] (i as usize)) by { if s.contains(i as usize) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i as usize; if j < n - 1 { } else if j >= n { if j > n { assert(s[n] < s[j]); } } } }
    insert_gap(l, s, v, q + 1, p);
}
pub proof fn insert_end<T>(l: Seq<T>, s: Seq<usize>, v: T) requires rising(s, l.len() as int + 1), l.len() < usize::MAX ensures l.take(upto(l, s, 0)) + inserted(l, s, v, upto_(l, s, 0)) =~= inserted(l, s, v, 0)
{ let p = upto_(l, s, 0); assert forall|i: int| 0 <= i < p implies !s.contains(#[trigger] (i as usize)) by { if s.contains(i as usize) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i as usize; if j > 0 { assert(s[0] < s[j]); } } } insert_gap(l, s, v, 0, p); }
pub proof fn remove_gap<T>(l: Seq<T>, s: Seq<usize>, a: int, b: int) requires 0 <= a <= b <= l.len(), l.len() <= usize::MAX, forall|i: int| a <= i < b ==> !s.contains(#[trigger] (i as usize)) ensures kept(l, s, a) =~= l.subrange(a, b) + kept(l, s, b) decreases b - a
{ if a < b { remove_gap(l, s, a + 1, b); assert(!s.contains(a as usize)); } }
pub proof fn remove_step<T>(l: Seq<T>, s: Seq<usize>, n: int) requires 0 < n <= s.len(), rising(s, l.len() as int), l.len() <= usize::MAX ensures (l.take(upto(l, s, n)) + kept(l, s, upto(l, s, n))).remove(s[n - 1] as int) =~= l.take(upto(l, s, n - 1)) + kept(l, s, upto(l, s, n - 1)), s[n - 1] < upto(l, s, n)
{
    let (q, p) = (s[n - 1] as int, upto(l, s, n));
    assert(s.contains(q as usize));
    assert forall|i: int| q + 1 <= i < p implies !s.contains(#[trigger] (i as usize)) by { if s.contains(i as usize) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i as usize; if j < n - 1 { } else if j >= n { if j > n { assert(s[n] < s[j]); } } } }
    remove_gap(l, s, q + 1, p);
}
pub proof fn remove_end<T>(l: Seq<T>, s: Seq<usize>) requires rising(s, l.len() as int), l.len() <= usize::MAX ensures l.take(upto(l, s, 0)) + kept(l, s, upto(l, s, 0)) =~= kept(l, s, 0)
{ let p = upto(l, s, 0); assert forall|i: int| 0 <= i < p implies !s.contains(#[trigger] (i as usize)) by { if s.contains(i as usize) { let j = choose|j: int| 0 <= j < s.len() && s[j] == i as usize; if j > 0 { assert(s[0] < s[j]); } } } remove_gap(l, s, 0, p); }
pub proof fn pushed<T>(a: Seq<T>, x: T) ensures forall|y: T| #[trigger] a.push(x).contains(y) <==> a.contains(y) || y == x { assert forall|y: T| #[trigger] a.push(x).contains(y) <==> a.contains(y) || y == x by { if a.contains(y) { let j = choose|j: int| 0 <= j < a.len() && a[j] == y; assert(a.push(x)[j] == y); } assert(a.push(x)[a.len() as int] == x); } }
pub uninterp spec fn type_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>) -> Type<C, S>;
pub uninterp spec fn type_named<C: CustomTypes<S>, S: System<C>>(v: BasicType) -> Type<C, S>;
#[verifier::external_body] pub fn same_type<C: CustomTypes<S>, S: System<C>>(a: &Type<C, S>, b: &Type<C, S>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
impl BasicType { #[verifier::external_body] pub fn to_type<C: CustomTypes<S>, S: System<C>>(self) -> (r: Type<C, S>) ensures r == type_named::<C, S>(self) { unimplemented!() } }
#[verifier::external_body] pub fn next_or_zero(x: Option<usize>) -> (r: usize) ensures r == match x { Some(i) => i + 1, None => 0 } { unimplemented!() }
/// What the operations on values compute (their own contracts are checked elsewhere).
pub uninterp spec fn chosen<'gc, C: CustomTypes<S>, S: System<C>>(mc: Mutation<'gc>, index: Value<'gc, C, S>, len: int) -> Option<Seq<usize>>;
pub uninterp spec fn related<'gc, C: CustomTypes<S>, S: System<C>>(mc: Mutation<'gc>, a: Value<'gc, C, S>, b: Value<'gc, C, S>, r: Relation) -> Option<bool>;
pub uninterp spec fn identical<'gc, C: CustomTypes<S>, S: System<C>>(a: Value<'gc, C, S>, b: Value<'gc, C, S>) -> bool;
pub uninterp spec fn found<'gc, C: CustomTypes<S>, S: System<C>>(mc: Mutation<'gc>, l: List<'gc, C, S>, v: Value<'gc, C, S>) -> Option<usize>;
pub uninterp spec fn binary<'gc, C: CustomTypes<S>, S: System<C>>(op: BinaryOp, a: Value<'gc, C, S>, b: Value<'gc, C, S>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool;
pub uninterp spec fn unary<'gc, C: CustomTypes<S>, S: System<C>>(op: UnaryOp, a: Value<'gc, C, S>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool;
pub uninterp spec fn indexed<'gc, C: CustomTypes<S>, S: System<C>>(l: Value<'gc, C, S>, i: Value<'gc, C, S>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool;
pub open spec fn spelled_all(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }
impl<K, V, const B: bool> VecMap<K, V, B> {
    pub uninterp spec fn entry(self, k: Seq<char>) -> Option<V>;
    #[verifier::external_body] pub fn find<N: Named + ?Sized>(&self, k: &N) -> (r: Option<V>) ensures r == self.entry(k.chars()) { unimplemented!() }
    #[verifier::external_body] pub fn get<N: Named + ?Sized>(&self, k: &N) -> (r: Option<&V>) ensures match r { Some(x) => self.entry(k.chars()) == Some(*x), None => self.entry(k.chars()) is None } { unimplemented!() }
}
pub uninterp spec fn strong<'gc, T>(w: GcWeak<'gc, T>) -> Gc<'gc, T>;
#[verifier::external_body] pub fn downgrade<'gc, T>(g: Gc<'gc, T>) -> (r: GcWeak<'gc, T>) ensures strong(r) == g { unimplemented!() }
/// Calling `f` with `args` gives these variables: the captured ones, and on top of them the parameters.
pub open spec fn called<'gc, C: CustomTypes<S>, S: System<C>>(f: Closure<'gc, C, S>, args: Seq<Value<'gc, C, S>>, o: Mutation<'gc>, vars: Vars<'gc, C, S>, n: Mutation<'gc>) -> bool {
    let names = f.params@.map_values(|x: CompactString| x.chars());
    &&& names.len() == args.len()
    &&& forall|x: Seq<char>| vars.contains_key(x) <==> #[trigger] names.contains(x) || f.captures.map().contains_key(x)
    &&& forall|x: Seq<char>| names.contains(x) ==> #[trigger] vars[x] == bound(names, args)[x]
    &&& forall|x: Seq<char>| f.captures.map().contains_key(x) && !names.contains(x) ==> (#[trigger] vars[x]) is Aliased && held(n, vars[x]) == held(o, f.captures.map()[x]) && (f.captures.map()[x] is Aliased ==> vars[x] == f.captures.map()[x])
}
#[verifier::external_body] pub fn twin_state<'gc, C: CustomTypes<S>, S: System<C>>(p: &Entity<'gc, C, S>) -> C::EntityState { unimplemented!() }
#[verifier::external_body] pub fn as_image<'gc, C: CustomTypes<S>, S: System<C>>(x: Option<Rc<Image>>) -> (r: Option<Value<'gc, C, S>>) ensures r == match x { Some(x) => Some(Value::<'gc, C, S>::Image(x)), None => None } { unimplemented!() }
pub uninterp spec fn name_of(x: Option<Rc<Image>>) -> Text;
#[verifier::external_body] pub fn costume_name(x: Option<Rc<Image>>) -> (r: Text) ensures r == name_of(x) { unimplemented!() }
/// Not the same picture.
pub uninterp spec fn different(a: Option<Rc<Image>>, b: Option<Rc<Image>>) -> bool;
#[verifier::external_body] pub fn differs(a: &Option<Rc<Image>>, b: &Option<Rc<Image>>) -> (r: bool) ensures r == different(*a, *b) { unimplemented!() }
pub uninterp spec fn note_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>) -> Option<Note>;
pub uninterp spec fn dims_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, mc: Mutation<'gc>) -> Option<Seq<usize>>;
pub uninterp spec fn flat<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, mc: Mutation<'gc>) -> Option<Seq<Value<'gc, C, S>>>;
pub uninterp spec fn csv_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, mc: Mutation<'gc>) -> Option<Text>;
pub uninterp spec fn columns<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool;
/// Which of the costumes is worn.
pub uninterp spec fn place_of(x: Option<Rc<Image>>, l: VecMap<CompactString, Rc<Image>, false>) -> Option<usize>;
#[verifier::external_body] pub fn worn<'gc, C: CustomTypes<S>, S: System<C>>(e: &Entity<'gc, C, S>) -> (r: Option<usize>) ensures r == place_of(e.costume, *e.costume_list), r is Some ==> r->Some_0 < e.costume_list.size() { unimplemented!() }
impl<K, V, const B: bool> VecMap<K, V, B> {
    pub uninterp spec fn all(self) -> Seq<V>;
    pub open spec fn size(self) -> nat { self.all().len() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body] pub fn value_at(&self, i: usize) -> (r: V) requires i < self.size() ensures r == self.all()[i as int] { unimplemented!() }
}
#[verifier::external_body] pub fn images<'gc, C: CustomTypes<S>, S: System<C>>(l: &VecMap<CompactString, Rc<Image>, false>) -> (r: VecDeque<Value<'gc, C, S>>) ensures r@ =~= l.all().map_values(|x: Rc<Image>| Value::<'gc, C, S>::Image(x)) { unimplemented!() }
#[verifier::external_body] pub fn sounds<'gc, C: CustomTypes<S>, S: System<C>>(l: &VecMap<CompactString, Rc<Audio>, false>) -> (r: VecDeque<Value<'gc, C, S>>) ensures r@ =~= l.all().map_values(|x: Rc<Audio>| Value::<'gc, C, S>::Audio(x)) { unimplemented!() }
pub uninterp spec fn sound_name(x: Rc<Audio>) -> Text;
#[verifier::external_body] pub fn sound_name_(x: Rc<Audio>) -> (r: Text) ensures r == sound_name(x) { unimplemented!() }
#[verifier::external_body] pub fn numbers<'gc, C: CustomTypes<S>, S: System<C>>(v: Vec<usize>) -> (r: Result<VecDeque<Value<'gc, C, S>>, NumberError>) ensures r is Ok ==> r->Ok_0@ =~= v@.map_values(|x: usize| Value::<'gc, C, S>::Number(Number(real_of(x as int)))) { unimplemented!() }
pub open spec fn lists_in<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> Seq<List<'gc, C, S>> { v.map_values(|x: Value<'gc, C, S>| x->List_0) }
/// as_list of each.
#[verifier::external_body] pub fn lists_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Vec<Value<'gc, C, S>>) -> (r: Result<Vec<List<'gc, C, S>>, ConversionError<C, S>>) ensures r is Ok <==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is List, r is Ok ==> r->Ok_0@ =~= lists_in(v@) { unimplemented!() }
/// A size must be a whole number that the machine can count to.
pub uninterp spec fn size_of_(x: f64) -> Option<usize>;
#[verifier::external_body] pub fn size_(x: f64) -> (r: Option<usize>) ensures r == size_of_(x) { unimplemented!() }
pub uninterp spec fn reshaped<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, dims: Seq<usize>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool;
pub uninterp spec fn product_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<List<'gc, C, S>>, o: Mutation<'gc>, r: Seq<Value<'gc, C, S>>, n: Mutation<'gc>) -> bool;
pub uninterp spec fn json_text<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, mc: Mutation<'gc>) -> Option<Text>;
#[verifier::external_body] pub fn json_text_<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, mc: &Mutation<'gc>) -> (r: Result<Text, ErrorCause<C, S>>) ensures r is Ok <==> json_text(v, *mc) is Some, r is Ok ==> r->Ok_0 == json_text(v, *mc)->Some_0 { unimplemented!() }
/// The first of what is left.
#[verifier::external_body] pub fn next_of<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures match r { Some(x) => old(v)@.len() > 0 && x == old(v)@[0] && final(v)@ =~= old(v)@.skip(1), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }
/// A text under construction.
#[verifier::external_body] pub struct Draft { }
impl Draft {
    pub uninterp spec fn is(self) -> Seq<char>;
    #[verifier::external_body] pub fn of(x: Text) -> (r: Draft) ensures r.is() == x.chars() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self).is() == old(self).is().push(c) { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, x: &Text) ensures final(self).is() == old(self).is() + x.chars() { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: Text) ensures r.chars() == self.is() { unimplemented!() }
}
/// The texts as lines.
pub open spec fn lines_of<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { text_of(v[0])->Some_0.chars() } else { lines_of(v.drop_last()).push('\n') + text_of(v.last())->Some_0.chars() } }
/// What a JSON answer means as a value.
pub uninterp spec fn meaning<'gc, C: CustomTypes<S>, S: System<C>>(x: Json) -> Option<spec_fn(Mutation<'gc>, Value<'gc, C, S>, Mutation<'gc>) -> bool>;
#[verifier::external_body] pub fn from_json<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, x: Json) -> (r: Result<Value<'gc, C, S>, FromNetsBloxJsonError>) ensures final(mc).grew::<C, S>(*old(mc)), r is Ok <==> meaning::<C, S>(x) is Some, r is Ok ==> meaning::<C, S>(x)->Some_0(*old(mc), r->Ok_0, *final(mc)) { unimplemented!() }
impl<C: CustomTypes<S>, S: System<C>> From<FromNetsBloxJsonError> for ErrorCause<C, S> { #[verifier::external_body] fn from(e: FromNetsBloxJsonError) -> Self { unimplemented!() } }
/// What a completed request hands over.
pub trait Given<'gc, C: CustomTypes<S>, S: System<C>>: Sized { spec fn v(self) -> Option<Value<'gc, C, S>>; fn given(self) -> (r: Option<Value<'gc, C, S>>) ensures r == self.v(); }
impl<'gc, C: CustomTypes<S>, S: System<C>> Given<'gc, C, S> for Value<'gc, C, S> { open spec fn v(self) -> Option<Value<'gc, C, S>> { Some(self) } fn given(self) -> (r: Option<Value<'gc, C, S>>) { Some(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Given<'gc, C, S> for () { open spec fn v(self) -> Option<Value<'gc, C, S>> { None } fn given(self) -> (r: Option<Value<'gc, C, S>>) { None } }
pub fn must_(x: bool) requires x { }
pub uninterp spec fn error_text(x: CompactString) -> Text;
#[verifier::external_body] pub fn error_text_(x: &CompactString) -> (r: Text) ensures r == error_text(*x) { unimplemented!() }
/// How a value is shown as a text.
pub uninterp spec fn shown<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, m: Mutation<'gc>) -> Seq<char>;
#[verifier::external_body] pub fn shown_<'gc, C: CustomTypes<S>, S: System<C>>(v: &Value<'gc, C, S>, mc: &Mutation<'gc>) -> (r: Text) ensures r.chars() == shown(*v, *mc) { unimplemented!() }
#[verifier::external_body] pub fn tail_of<T>(v: &Vec<T>, k: usize) -> (r: Vec<T>) requires k <= v@.len() ensures r@ == v@.skip(k as int) { unimplemented!() }
#[verifier::external_body] pub fn queue_of<T>(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn add_all<T>(a: &mut VecDeque<T>, v: Vec<T>) ensures final(a)@ == old(a)@ + v@ { unimplemented!() }
/// How an error is described to the program.
pub uninterp spec fn description<C: CustomTypes<S>, S: System<C>>(x: ErrorCause<C, S>) -> CompactString;
#[verifier::external_body] pub fn describe<C: CustomTypes<S>, S: System<C>>(x: &ErrorCause<C, S>) -> (r: CompactString) ensures r == description(*x) { unimplemented!() }
/// A text as the value of the message block.
#[verifier::external_body] pub fn message_value<'gc, C: CustomTypes<S>, S: System<C>>(t: Option<Text>) -> (r: Option<Value<'gc, C, S>>) ensures t is None <==> r is None, t is Some ==> r->Some_0 is Text && r->Some_0->Text_0.chars() == t->Some_0.chars() { unimplemented!() }
pub enum Tops<'a, T> { None, One, Two(&'a mut T, &'a mut T) }
/// The two innermost elements.
#[verifier::external_body] pub fn tops<'a, T>(v: &'a mut Vec<T>) -> (r: Tops<'a, T>)
    ensures match r { Tops::Two(x, y) => old(v)@.len() >= 2 && final(v)@ == old(v)@.update(old(v)@.len() - 2, *final(x)).update(old(v)@.len() - 1, *final(y)) && *x == old(v)@[old(v)@.len() - 2] && *y == old(v)@[old(v)@.len() - 1], Tops::None => old(v)@.len() == 0 && final(v)@ == old(v)@, Tops::One => old(v)@.len() == 1 && final(v)@ == old(v)@ } { unimplemented!() }
}
pub mod ops {
use vstd::prelude::*;
use std::collections::VecDeque;
use super::world::*;
use super::data::*;
#[verifier::external_body] pub fn find<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, list: List<'gc, C, S>, value: &Value<'gc, C, S>) -> (r: Result<Option<usize>, ErrorCause<C, S>>) ensures r is Ok ==> r->Ok_0 == found(*mc, list, *value) && (r->Ok_0 is Some ==> r->Ok_0->Some_0 < mc.list(list).len()) { unimplemented!() }
#[verifier::external_body] pub fn check_relation<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, relation: Relation) -> (r: Result<bool, ErrorCause<C, S>>) ensures r is Ok <==> related(*mc, *a, *b, relation) is Some, r is Ok ==> r->Ok_0 == related(*mc, *a, *b, relation)->Some_0 { unimplemented!() }
#[verifier::external_body] pub fn identical<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>) -> (r: bool) ensures r == super::world::identical(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn prep_rand_index<'gc, C: CustomTypes<S>, S: System<C>>(system: &Env<'gc, C, S>, len: usize) -> (r: Result<usize, ErrorCause<C, S>>) ensures r is Ok <==> len > 0, r is Ok ==> r->Ok_0 < len { unimplemented!() }
#[verifier::external_body] pub fn prep_index_set<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, index: &Value<'gc, C, S>, len: usize) -> (r: Result<Vec<usize>, ErrorCause<C, S>>) ensures r is Ok <==> chosen(*mc, *index, len as int) is Some, r is Ok ==> r->Ok_0@ == chosen(*mc, *index, len as int)->Some_0 && rising(r->Ok_0@, len as int) { unimplemented!() }
#[verifier::external_body] pub fn binary_op<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, system: &Env<'gc, C, S>, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, op: BinaryOp) -> (r: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> binary(op, *a, *b, *old(mc), r->Ok_0, *final(mc)) { unimplemented!() }
#[verifier::external_body] pub fn unary_op<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, system: &Env<'gc, C, S>, a: &Value<'gc, C, S>, op: UnaryOp) -> (r: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> unary(op, *a, *old(mc), r->Ok_0, *final(mc)) { unimplemented!() }
#[verifier::external_body] pub fn prep_note<'gc, C: CustomTypes<S>, S: System<C>>(v: &Value<'gc, C, S>) -> (r: Result<Note, ErrorCause<C, S>>) ensures r is Ok ==> note_of(*v) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn prep_notes<'gc, C: CustomTypes<S>, S: System<C>>(v: &VecDeque<Value<'gc, C, S>>) -> (r: Result<Vec<Note>, ErrorCause<C, S>>) ensures r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> Some(#[trigger] r->Ok_0@[i]) == note_of(v@[i]) { unimplemented!() }
#[verifier::external_body] pub fn dimensions<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, v: &Value<'gc, C, S>) -> (r: Result<Vec<usize>, ErrorCause<C, S>>) ensures r is Ok ==> dims_of(*v, *mc) == Some(r->Ok_0@) { unimplemented!() }
#[verifier::external_body] pub fn flatten<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, v: &Value<'gc, C, S>) -> (r: Result<VecDeque<Value<'gc, C, S>>, ErrorCause<C, S>>) ensures r is Ok ==> flat(*v, *mc) == Some(r->Ok_0@) { unimplemented!() }
#[verifier::external_body] pub fn to_csv<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, v: &Value<'gc, C, S>) -> (r: Result<Text, ErrorCause<C, S>>) ensures r is Ok ==> csv_of(*v, *mc) == Some(r->Ok_0) { unimplemented!() }
#[verifier::external_body] pub fn columns<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, v: &Value<'gc, C, S>) -> (r: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> super::world::columns(*v, *old(mc), r->Ok_0, *final(mc)) { unimplemented!() }
#[verifier::external_body] pub fn reshape<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, v: &Value<'gc, C, S>, dims: &Vec<usize>) -> (r: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> reshaped(*v, dims@, *old(mc), r->Ok_0, *final(mc)) { unimplemented!() }
#[verifier::external_body] pub fn cartesian_product<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, v: &Vec<List<'gc, C, S>>) -> (r: VecDeque<Value<'gc, C, S>>) ensures final(mc).grew::<C, S>(*old(mc)), product_of(v@, *old(mc), r@, *final(mc)) { unimplemented!() }
#[verifier::external_body] pub fn index_list<'gc, C: CustomTypes<S>, S: System<C>>(mc: &mut Mutation<'gc>, system: &Env<'gc, C, S>, list: &Value<'gc, C, S>, index: &Value<'gc, C, S>) -> (r: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> indexed(*list, *index, *old(mc), r->Ok_0, *final(mc)) { unimplemented!() }
}
pub mod data {
use vstd::prelude::*;
use std::rc::Rc;
use std::collections::VecDeque;
use super::world::*;
//@type src/runtime.rs Type
//@type src/runtime.rs ConversionError
//@type src/runtime.rs ErrorCause
//@type src/runtime.rs Value
//@type src/runtime.rs Closure
//@type src/runtime.rs Entity
//@type src/runtime.rs Shared sub=/ \+ Collect//
//@type src/runtime.rs Settings
#[derive(Clone, Copy)]
//@type src/runtime.rs ErrorScheme
//@type src/runtime.rs GlobalContext
//@type src/runtime.rs Request
//@type src/runtime.rs Command
//@type src/runtime.rs PrintStyle
//@type src/runtime.rs SysTime
//@type src/runtime.rs Precision
//@type src/runtime.rs ImageProperty
//@type src/runtime.rs AudioProperty
//@type src/runtime.rs Color
//@type src/bytecode.rs TimeQuery
//@type src/bytecode.rs BasicType
#[derive(Clone, Copy)]
//@type src/bytecode.rs Relation
//@type src/bytecode.rs VariadicLen
#[derive(Clone, Copy)]
//@type src/bytecode.rs BinaryOp
#[derive(Clone, Copy)]
//@type src/bytecode.rs UnaryOp
//@type src/bytecode.rs VariadicOp
//@type src/bytecode.rs AbortMode
//@type src/bytecode.rs Instruction
//@type src/runtime.rs AsyncResult
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct SymbolTable<'gc, C, S> { p: std::marker::PhantomData<&'gc (C, S)> }
}
pub mod proc {
use vstd::prelude::*;
use super::world::*;
use super::data::*;
use super::ops;
use std::rc::Rc;
use std::collections::VecDeque;
broadcast use super::world::spelled_is;
//@type src/process.rs RequestAction
//@type src/process.rs Defer
//@type src/process.rs Handler
//@type src/process.rs CallFrame
//@type src/process.rs Process
//@type src/runtime.rs Watcher
//@type src/process.rs ProcessStep
//@type src/process.rs ProcContext
//@type src/process.rs ExecError
pub open spec fn ends<'gc, C: CustomTypes<S>, S: System<C>, E>(r: Result<ProcessStep<'gc, C, S>, E>) -> bool {
    r is Err || r->Ok_0 is Terminate || r->Ok_0 is Abort && (r->Ok_0->mode is Current || r->Ok_0->mode is All)
}
/// The same calls, but for the values of their variables.
pub open spec fn alike<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<CallFrame<'gc, C, S>>, b: Seq<CallFrame<'gc, C, S>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).entity == b[i].entity && a[i].called_from == b[i].called_from && a[i].return_to == b[i].return_to && a[i].warp_counter == b[i].warp_counter && a[i].value_stack_size == b[i].value_stack_size && a[i].handler_stack_size == b[i].handler_stack_size
}
/// The variables `names` with the values `args`.
pub open spec fn bound<'gc, C: CustomTypes<S>, S: System<C>>(names: Seq<Seq<char>>, args: Seq<Value<'gc, C, S>>) -> Map<Seq<char>, Shared<'gc, Value<'gc, C, S>>> decreases names.len() {
    if names.len() == 0 { Map::empty() } else { bound(names.drop_last(), args).insert(names.last(), Shared::Unique(args[names.len() - 1])) }
}
/// Every captured variable becomes an alias, and `locals` gets them all.
#[verifier::external_body] pub fn alias_all<'gc, C: CustomTypes<S>, S: System<C>>(from: &mut SymbolTable<'gc, C, S>, locals: &mut SymbolTable<'gc, C, S>, mc: &mut Mutation<'gc>)
    ensures forall|x: Seq<char>| #[trigger] final(locals).map().contains_key(x) <==> old(locals).map().contains_key(x) || old(from).map().contains_key(x),
        forall|x: Seq<char>| !old(from).map().contains_key(x) ==> #[trigger] final(locals).map()[x] == old(locals).map()[x],
        forall|x: Seq<char>| old(from).map().contains_key(x) ==> (#[trigger] final(locals).map()[x]) is Aliased && held(*final(mc), final(locals).map()[x]) == held(*old(mc), old(from).map()[x]) && (old(from).map()[x] is Aliased ==> final(locals).map()[x] == old(from).map()[x]),
        final(mc).sprites::<C, S>(*old(mc)),
{ unimplemented!() }
#[verifier::external_body] pub fn zip_ref<'a, A, B>(a: &'a Vec<A>, b: Vec<B>) -> (r: Vec<(&'a A, B)>) ensures r@.len() == if a@.len() < b@.len() { a@.len() } else { b@.len() }, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (&a@[i], b@[i]) { unimplemented!() }
/// What a completed request of the environment leaves: a value or, under the soft error scheme, the error as a text.
pub open spec fn outcome<'gc, C: CustomTypes<S>, S: System<C>, T: Given<'gc, C, S>>(x: Result<T, CompactString>, scheme: ErrorScheme) -> Option<Option<Value<'gc, C, S>>> { match x { Ok(x) => Some(x.v()), Err(e) => if scheme is Soft { Some(Some(Value::Text(error_text(e)))) } else { None } } }
//@fn src/process.rs "" process_result -> r
//@sub S: System<C>, T> ==> S: System<C>, T: Given<'gc, C, S>>
//@sub , to_value: fn\(T\) -> Option<Value<'gc, C, S>> ==>
//@sub to_value\(x\) ==> x.given()
//@sub assert!\((.*?)\),\n ==> must_(\1),\n
//@sub x\.as_str\(\)\.into\(\) ==> error_text_(&x)
//| requires result is Ok && result->Ok_0.v() is None ==> last_ok is None && stack is None,
//| ensures r is Err <==> outcome::<C, S, T>(result, error_scheme) is None,
//|     stack is Some ==> final(stack->Some_0)@ == match outcome::<C, S, T>(result, error_scheme) { Some(Some(v)) => old(stack->Some_0)@.push(v), _ => old(stack->Some_0)@ },
//|     last_ok is Some ==> *final(last_ok->Some_0) == if r is Err || result is Ok && result->Ok_0.v() is None { *last_ok->Some_0 } else if result is Ok { Some(result->Ok_0.v()->Some_0) } else { None },
//|     last_err is Some ==> *final(last_err->Some_0) == if r is Err || result is Ok && result->Ok_0.v() is None { *last_err->Some_0 } else if result is Ok { None } else { Some(Value::Text(error_text(result->Err_0))) },
//@end
//@fn src/process.rs "" prep_call_closure -> r
//@sub mc: &Mutation ==> mc: &mut Mutation
//@sub let mut values = value_stack\.drain\((.*?)\.\.\); ==> let mut values = value_stack.split_off(\1);
//@sub values\.next\(\)\.unwrap\(\) ==> values.remove(0)
//@sub for \(k, v\) in closure\.captures\.iter_mut\(\) \{\s*locals\.define_or_redefine\(k, v\.alias\(mc\)\);\s*\} ==> alias_all(&mut closure.captures, &mut locals, mc);
//@sub for \(var, value\) in iter::zip\(&closure\.params, values\) \{ ==> let ghost caught_ = locals.map(); let pairs_ = zip_ref(&closure.params, values); let ghost all_ = pairs_@; for (var, value) in pairs_ {
//@sub \.into\(\) ==> .into_()
//@attr #[verifier::loop_isolation(false)]
//| requires args < old(value_stack)@.len(),
//| ensures r is Ok <==> ({ let f = old(value_stack)@[old(value_stack)@.len() - 1 - args]; f is Closure && old(mc).at(f->Closure_0).params@.len() == args }), final(value_stack)@ =~= old(value_stack)@.take(old(value_stack)@.len() - 1 - args), final(mc).sprites::<C, S>(*old(mc)),
//|     r is Ok ==> ({ let f = old(mc).at(old(value_stack)@[old(value_stack)@.len() - 1 - args]->Closure_0); r->Ok_0.0 == f.pos && called(f, old(value_stack)@.skip(old(value_stack)@.len() - args), *old(mc), r->Ok_0.1.map(), *final(mc)) }),
//@loop 1
//| invariant rest_pairs_@.len() <= all_.len(), rest_pairs_@ =~= all_.skip(all_.len() - rest_pairs_@.len()), locals.map() =~= caught_.union_prefer_right(bound(names_.take(all_.len() - rest_pairs_@.len()), args_)),
//| decreases rest_pairs_@.len()
//@top 1
//| proof { let k = all_.len() - was_pairs_.len(); assert(was_pairs_[0] == all_[k]); assert(rest_pairs_@ =~= was_pairs_.skip(1)); assert(names_.take(k + 1).drop_last() =~= names_.take(k)); assert(names_.take(k + 1).last() == names_[k]); }
//@ghost "let ghost all_ = pairs_@;"
//| let ghost names_ = closure.params@.map_values(|x: CompactString| x.chars()); let ghost args_ = old(value_stack)@.skip(old(value_stack)@.len() - args); proof { assert(names_.take(0) =~= Seq::empty()); }
//@ghost BEFORE "Ok((closure.pos, locals))"
//| proof { assert(names_.take(all_.len() as int) =~= names_); assert forall|x: Seq<char>| bound(names_, args_).contains_key(x) <==> #[trigger] names_.contains(x) by { bound_has(names_, args_, x); } }
//@end
/// The values combined from the left, one after the other.
pub open spec fn chain<'gc, C: CustomTypes<S>, S: System<C>>(op: BinaryOp, v: Seq<Value<'gc, C, S>>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool decreases v.len() {
    if v.len() <= 2 { v.len() == 2 && binary(op, v[0], v[1], o, r, n) } else { exists|a: Value<'gc, C, S>, m: Mutation<'gc>| chain(op, v.drop_last(), o, a, m) && #[trigger] binary(op, a, v.last(), m, r, n) }
}
pub proof fn chained<'gc, C: CustomTypes<S>, S: System<C>>(op: BinaryOp, v: Seq<Value<'gc, C, S>>, o: Mutation<'gc>, a: Value<'gc, C, S>, m: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>)
    requires v.len() > 2, chain(op, v.drop_last(), o, a, m), binary(op, a, v.last(), m, r, n) ensures chain(op, v, o, r, n) { }
pub open spec fn folded<'gc, C: CustomTypes<S>, S: System<C>>(op: BinaryOp, one: UnaryOp, none: f64, v: Seq<Value<'gc, C, S>>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool {
    if v.len() == 0 { r == Value::<'gc, C, S>::Number(Number(none)) && n == o } else if v.len() == 1 { unary(one, v[0], o, r, n) } else { chain(op, v, o, r, n) }
}
/// The first of the values that no other of them beats.
pub open spec fn best<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>, k: Relation, m: Mutation<'gc>) -> Value<'gc, C, S> decreases v.len() {
    if v.len() <= 1 { v[0] } else { let b = best(v.drop_last(), k, m); if related(m, v.last(), b, k) == Some(true) { v.last() } else { b } }
}
pub open spec fn written<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>, m: Mutation<'gc>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { written(v.drop_last(), m) + shown(v.last(), m) } }
pub open spec fn joined<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>, m: Mutation<'gc>) -> Seq<Value<'gc, C, S>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { joined(v.drop_last(), m) + m.list(v.last()->List_0) } }
/// The result of an operator with any number of operands.
pub open spec fn combined<'gc, C: CustomTypes<S>, S: System<C>>(op: VariadicOp, v: Seq<Value<'gc, C, S>>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool {
    match op {
        VariadicOp::Add => folded(BinaryOp::Add, UnaryOp::ToNumber, 0.0f64, v, o, r, n),
        VariadicOp::Mul => folded(BinaryOp::Mul, UnaryOp::ToNumber, 1.0f64, v, o, r, n),
        VariadicOp::Min => v.len() > 0 && r == best(v, Relation::Less, o) && n == o,
        VariadicOp::Max => v.len() > 0 && r == best(v, Relation::Greater, o) && n == o,
        VariadicOp::StrCat => r is Text && r->Text_0.chars() == written(v, o) && n == o,
        VariadicOp::MakeList => r is List && !o.live(r->List_0) && n.list(r->List_0) == v,
        VariadicOp::ListCat => r is List && !o.live(r->List_0) && n.list(r->List_0) == joined(v, o) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is List,
    }
}
//@fn src/process.rs "" combine_as_binary -> r
//@sub mc: &Mutation ==> mc: &mut Mutation
//@sub system: &S ==> system: &Env<'gc, C, S>
//@sub values: &mut dyn Iterator<Item = &Value<'gc, C, S>> ==> values: Vec<Value<'gc, C, S>>
//@sub empty_case: CombineEmpty<'gc, C, S> ==> empty_case: f64
//@sub match values\.next\(\) ==> match next_of(&mut values)
//@sub \b(first|second|item)\b(?=,) ==> &\1
//@sub empty_case\(mc\) ==> Ok(Number::new(empty_case)?.into_())
//@attr #[verifier::loop_isolation(false)]
//| ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> folded(combine_op, singleton_op, empty_case, values@, *old(mc), r->Ok_0, *final(mc)),
//@enter
//| let ghost all_ = values@; let mut values = values;
//@loop 1
//| invariant mc.grew::<C, S>(*old(mc)), 2 <= all_.len() - rest_values@.len() <= all_.len(), rest_values@ =~= all_.skip(all_.len() - rest_values@.len()), chain(combine_op, all_.take(all_.len() - rest_values@.len()), *old(mc), acc, *mc),
//| decreases rest_values@.len()
//@top 1
//| let ghost was_mc = *mc; let ghost was_acc = acc; let ghost k_ = all_.len() - was_values.len(); proof { assert(was_values[0] == all_[k_]); assert(rest_values@ =~= was_values.skip(1)); assert(all_.take(k_ + 1).drop_last() =~= all_.take(k_)); assert(all_.take(k_ + 1).last() == all_[k_]); }
//@bottom 1
//| proof { assert(chain(combine_op, all_.take(k_), *old(mc), was_acc, was_mc)); assert(binary(combine_op, was_acc, item, was_mc, acc, *mc)); chained(combine_op, all_.take(k_ + 1), *old(mc), was_acc, was_mc, acc, *mc); }
//@ghost "&second, combine_op)?;"
//| proof { assert(first == all_[0]); assert(second == all_[1]); assert(values@ =~= all_.skip(2)); assert(all_.take(2)[0] == first && all_.take(2)[1] == second); }
//@ghost BEFORE "Ok(acc)"
//| proof { assert(all_.take(all_.len() as int) =~= all_); }
//@end
//@fn src/process.rs "" combine_by_relation -> r
//@sub \(values: &mut dyn Iterator<Item = &Value<'gc, C, S>> ==> (mc: &Mutation<'gc>, values: Vec<Value<'gc, C, S>>
//@sub match values\.next\(\) ==> match next_of(&mut values)
//@sub check_relation\((\w+), (\w+), ==> check_relation(mc, &\1, &\2,
//@sub res\.clone\(\) ==> res
//@attr #[verifier::loop_isolation(false)]
//| ensures r is Ok ==> values@.len() > 0 && r->Ok_0 == best(values@, relation, *mc),
//@enter
//| let ghost all_ = values@; let mut values = values;
//@loop 1
//| invariant 1 <= all_.len() - rest_values@.len() <= all_.len(), rest_values@ =~= all_.skip(all_.len() - rest_values@.len()), res == best(all_.take(all_.len() - rest_values@.len()), relation, *mc),
//| decreases rest_values@.len()
//@top 1
//| proof { let k_ = all_.len() - was_values.len(); assert(was_values[0] == all_[k_]); assert(rest_values@ =~= was_values.skip(1)); assert(all_.take(k_ + 1).drop_last() =~= all_.take(k_)); assert(all_.take(k_ + 1).last() == all_[k_]); }
//@ghost BEFORE "Ok(res)"
//| proof { assert(all_.take(all_.len() as int) =~= all_); }
//@end
//@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" combine -> r part=table[VariadicOp]
//@sub combine_as_binary\(mc, system, values, (.*?), \|_\| Ok\(Number::new\((.*?)\)\?\.into\(\)\)\) ==> combine_as_binary(mc, system, values, \1, \2)
//@sub combine_by_relation\(values ==> combine_by_relation(mc, values
//@sub CompactString::default\(\) ==> Draft::of(Text::default())
//@sub core::fmt::write\(&mut acc, format_args!\("\{item\}"\)\)\.unwrap\(\) ==> acc.push_str(&shown_(&item, mc))
//@sub Text::from\(acc\.as_str\(\)\)\.into\(\) ==> acc.done().into_()
//@sub values\.cloned\(\)\.collect::<VecDeque<_>>\(\) ==> queue_of(values)
//@sub acc\.extend\((.*?)\.borrow\(\)\.iter\(\)\.cloned\(\)\) ==> add_all(&mut acc, \1.borrow(mc).listed())
//@sub Gc::new\(mc, RefLock::new\((.*?)\)\)\.into\(\) ==> (RefLock::new(\1)).alloc(mc).into_()
//@attr #[verifier::loop_isolation(false)]
//| ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> combined(op, values@, *old(mc), r->Ok_0, *final(mc)),
//@enter
//| let ghost all_ = values@; proof { assert(all_.take(0) =~= Seq::empty()); assert(all_.take(all_.len() as int) =~= all_); }
//@loop 1
//| invariant rest_values@.len() <= all_.len(), rest_values@ =~= all_.skip(all_.len() - rest_values@.len()), acc.is() =~= written(all_.take(all_.len() - rest_values@.len()), *mc),
//| decreases rest_values@.len()
//@top 1
//| proof { let k_ = all_.len() - was_values.len(); assert(was_values[0] == all_[k_]); assert(rest_values@ =~= was_values.skip(1)); assert(all_.take(k_ + 1).drop_last() =~= all_.take(k_)); assert(all_.take(k_ + 1).last() == all_[k_]); }
//@loop 2
//| invariant rest_values@.len() <= all_.len(), rest_values@ =~= all_.skip(all_.len() - rest_values@.len()), acc@ =~= joined(all_.take(all_.len() - rest_values@.len()), *mc), forall|i: int| 0 <= i < all_.len() - rest_values@.len() ==> (#[trigger] all_[i]) is List,
//| decreases rest_values@.len()
//@top 2
//| proof { let k_ = all_.len() - was_values.len(); assert(was_values[0] == all_[k_]); assert(rest_values@ =~= was_values.skip(1)); assert(all_.take(k_ + 1).drop_last() =~= all_.take(k_)); assert(all_.take(k_ + 1).last() == all_[k_]); }
//@end
/// What the texts of a list say.
pub open spec fn spelt<'gc, C: CustomTypes<S>, S: System<C>>(n: Seq<CompactString>, v: Seq<Value<'gc, C, S>>) -> bool { n.len() <= v.len() && forall|i: int| 0 <= i < n.len() ==> (#[trigger] v[i]) is Text && n[i].chars() == v[i]->Text_0.chars() }
/// The sizes that numbers say.
pub open spec fn sizes<'gc, C: CustomTypes<S>, S: System<C>>(d: Seq<usize>, v: Seq<Value<'gc, C, S>>) -> bool { d.len() <= v.len() && forall|i: int| 0 <= i < d.len() ==> number_of(#[trigger] v[i]) is Some && size_of_(number_of(v[i])->Some_0.0) == Some(d[i]) }
pub open spec fn shaped<'gc, C: CustomTypes<S>, S: System<C>>(v: Value<'gc, C, S>, a: Seq<Value<'gc, C, S>>, o: Mutation<'gc>, r: Value<'gc, C, S>, n: Mutation<'gc>) -> bool { exists|d: Seq<usize>| #[trigger] reshaped(v, d, o, r, n) && sizes(d, a) && d.len() == a.len() }
pub open spec fn multiplied<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<List<'gc, C, S>>, o: Mutation<'gc>, r: Seq<Value<'gc, C, S>>) -> bool { exists|m: Mutation<'gc>| #[trigger] product_of(v, o, r, m) }
/// The variables of a call are its parameters.
pub proof fn bound_has<'gc, C: CustomTypes<S>, S: System<C>>(names: Seq<Seq<char>>, args: Seq<Value<'gc, C, S>>, x: Seq<char>) ensures bound(names, args).contains_key(x) <==> names.contains(x) decreases names.len()
{ if names.len() > 0 { let n = names.drop_last(); bound_has(n, args, x); if names.contains(x) { let j = choose|j: int| 0 <= j < names.len() && names[j] == x; if j < n.len() { assert(n[j] == x); assert(n.contains(x)); } } else { if n.contains(x) { let j = choose|j: int| 0 <= j < n.len() && n[j] == x; assert(names[j] == x); } assert(names.last() != x); } } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    /// Calls, handlers and operands are nested.
    pub open spec fn sound(self) -> bool {
        let (c, h, v) = (self.call_stack@, self.handler_stack@, self.value_stack@.len());
        &&& c.len() > 0 && c[0].value_stack_size == 0 && c[0].handler_stack_size == 0 && c[0].warp_counter == 0
        &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).value_stack_size <= v && c[i].handler_stack_size <= h.len() && (i > 0 ==> c[i].return_to != usize::MAX)
        &&& forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).value_stack_size <= (#[trigger] c[j]).value_stack_size && c[i].handler_stack_size <= c[j].handler_stack_size
        &&& forall|i: int| 0 <= i < h.len() ==> 0 < (#[trigger] h[i]).call_stack_size <= c.len() && h[i].value_stack_size <= v && h[i].pos != usize::MAX
        &&& forall|i: int, j: int| 0 <= i < j < h.len() ==> (#[trigger] h[i]).call_stack_size <= (#[trigger] h[j]).call_stack_size && h[i].value_stack_size <= h[j].value_stack_size
        &&& forall|d: int, i: int| 0 <= d < c.len() && 0 <= i < h.len() ==> if i < (#[trigger] c[d]).handler_stack_size { (#[trigger] h[i]).call_stack_size <= d && h[i].value_stack_size <= c[d].value_stack_size } else { h[i].call_stack_size > d && h[i].value_stack_size >= c[d].value_stack_size }
    }
    /// The operands that belong to what is executing now start here.
    pub open spec fn base(self) -> int {
        let a = self.call_stack@.last().value_stack_size as int;
        if self.handler_stack@.len() > 0 && self.handler_stack@.last().value_stack_size > a { self.handler_stack@.last().value_stack_size as int } else { a }
    }
    /// A running process about to execute an instruction for which the code has put `n` operands on the stack.
    pub open spec fn ready(self, n: int) -> bool { self.sound() && self.pos != usize::MAX && self.defer is None && n >= 0 && self.base() + n <= self.value_stack@.len() }
    pub open spec fn top(self, i: int) -> Value<'gc, C, S> { self.value_stack@[self.value_stack@.len() - 1 - i] }
    pub open spec fn less(self, n: int) -> Seq<Value<'gc, C, S>> { self.value_stack@.take(self.value_stack@.len() - n) }
    /// All that only the interpreter can change.
    pub open spec fn private(self, o: Self) -> bool {
        &&& self.global_context == o.global_context && self.barrier == o.barrier && self.reply_key == o.reply_key && self.warp_counter == o.warp_counter && self.pos == o.pos && self.defer == o.defer
        &&& self.call_stack == o.call_stack && self.handler_stack == o.handler_stack && self.value_stack == o.value_stack
        &&& self.last_syscall_error == o.last_syscall_error && self.last_rpc_error == o.last_rpc_error && self.last_answer == o.last_answer && self.last_message == o.last_message
    }
    /// All but position, operands and pending request.
    pub open spec fn same(self, o: Self) -> bool {
        &&& self.global_context == o.global_context && self.barrier == o.barrier && self.reply_key == o.reply_key && self.warp_counter == o.warp_counter
        &&& self.call_stack@ =~= o.call_stack@ && self.handler_stack@ =~= o.handler_stack@
        &&& self.last_syscall_error == o.last_syscall_error && self.last_rpc_error == o.last_rpc_error && self.last_answer == o.last_answer && self.last_message == o.last_message
    }
    /// `n` operands were taken and the process goes on at `pos`.
    pub open spec fn took(self, o: Self, n: int, pos: usize) -> bool { self.same(o) && self.state == o.state && self.value_stack@ =~= o.less(n) && self.pos == pos && self.defer is None }
    /// `n` operands were taken, `v` put on the stack and the process goes on at `pos`.
    pub open spec fn gave(self, o: Self, n: int, v: Value<'gc, C, S>, pos: usize) -> bool { self.same(o) && self.state == o.state && self.value_stack@ =~= o.less(n).push(v) && self.pos == pos && self.defer is None }
    /// `n` operands were taken and one was put on the stack.
    pub open spec fn made(self, o: Self, n: int, pos: usize) -> bool { self.value_stack@.len() > 0 && self.gave(o, n, self.value_stack@.last(), pos) }
    /// `n` operands were taken and the process waits for `d`.
    pub open spec fn waits(self, o: Self, n: int, d: Defer<C, S>) -> bool { self.same(o) && self.value_stack@ =~= o.less(n) && self.pos == o.pos && self.defer == Some(d) }
    /// At most `n` operands were taken and nothing else changed.
    pub open spec fn failed(self, o: Self, n: int) -> bool { self.same(o) && self.pos == o.pos && self.defer is None && self.value_stack@.len() >= o.value_stack@.len() - n && self.value_stack@ =~= o.value_stack@.take(self.value_stack@.len() as int) }
    pub open spec fn me(self) -> Sprite<'gc, C, S> { self.call_stack@.last().entity }
    /// The variable that a name stands for now.
    pub open spec fn scope(self, g: GlobalContext<'gc, C, S>, mc: Mutation<'gc>, name: Seq<char>) -> int { place(g.globals.map(), mc.at(self.me()).fields.map(), self.call_stack@.last().locals.map(), name) }
    pub open spec fn var(self, g: GlobalContext<'gc, C, S>, mc: Mutation<'gc>, name: Seq<char>) -> Shared<'gc, Value<'gc, C, S>> {
        let k = self.scope(g, mc, name);
        if k == 2 { self.call_stack@.last().locals.map()[name] } else if k == 1 { mc.at(self.me()).fields.map()[name] } else { g.globals.map()[name] }
    }
    /// An instruction failed: at most operands above `base` and the values of variables were lost.
    pub open spec fn unharmed(self, o: Self) -> bool {
        &&& self.sound() && self.pos == o.pos && self.defer is None && self.warp_counter == o.warp_counter && self.barrier == o.barrier && self.handler_stack@ =~= o.handler_stack@
        &&& alike(self.call_stack@, o.call_stack@)
        &&& o.base() <= self.value_stack@.len() <= o.value_stack@.len() && self.value_stack@ =~= o.value_stack@.take(self.value_stack@.len() as int)
    }
    /// One command was issued, which the process waits for.
    pub open spec fn moved(self, o: Self, n: int, osys: Env<'gc, C, S>, sys: Env<'gc, C, S>, aft_pos: usize) -> bool { sys.log() == osys.log().push(sys.log().last()) && self.waits(o, n, Defer::Command { key: sys.command_key(), aft_pos }) }
    /// A call was made with these variables.
    pub open spec fn entered(self, o: Self, aft_pos: usize, e: Sprite<'gc, C, S>, vars: Vars<'gc, C, S>) -> bool {
        let f = self.call_stack@.last();
        &&& f.called_from == o.pos && f.return_to == aft_pos && f.warp_counter == o.warp_counter && f.value_stack_size == self.value_stack@.len() && f.handler_stack_size == o.handler_stack@.len() && f.entity == e && f.locals.map() == vars
        &&& self.same(Process { call_stack: self.call_stack, ..o }) && self.defer is None && self.state == o.state
    }
    /// The call stack with `m` as the variables of the innermost call.
    pub open spec fn but_locals(self, o: Self, m: Vars<'gc, C, S>) -> bool {
        let (c, d) = (self.call_stack@, o.call_stack@);
        &&& c.len() == d.len() && c.drop_last() =~= d.drop_last() && c.last().locals.map() == m
        &&& c.last().called_from == d.last().called_from && c.last().return_to == d.last().return_to && c.last().entity == d.last().entity && c.last().warp_counter == d.last().warp_counter && c.last().value_stack_size == d.last().value_stack_size && c.last().handler_stack_size == d.last().handler_stack_size && c.last().unwind_point == d.last().unwind_point
    }
    /// All but position, operands, pending request and variables.
    pub open spec fn same_but_vars(self, o: Self) -> bool {
        &&& self.global_context == o.global_context && self.barrier == o.barrier && self.reply_key == o.reply_key && self.warp_counter == o.warp_counter && self.handler_stack@ =~= o.handler_stack@ && self.state == o.state
        &&& self.last_syscall_error == o.last_syscall_error && self.last_rpc_error == o.last_rpc_error && self.last_answer == o.last_answer && self.last_message == o.last_message
    }
    /// The variable `name` is now `x`; every other variable is what it was.
    pub open spec fn bound_to(self, o: Self, g: GlobalContext<'gc, C, S>, og: GlobalContext<'gc, C, S>, mc: Mutation<'gc>, omc: Mutation<'gc>, name: Seq<char>, x: Shared<'gc, Value<'gc, C, S>>) -> bool {
        let k = o.scope(og, omc, name);
        let (l, f, gl) = (o.call_stack@.last().locals.map(), omc.at(o.me()).fields.map(), og.globals.map());
        &&& self.but_locals(o, if k == 2 { l.insert(name, x) } else { l })
        &&& mc.at(o.me()).fields.map() == if k == 1 { f.insert(name, x) } else { f }
        &&& g.globals.map() == if k == 0 { gl.insert(name, x) } else { gl }
        &&& forall|e: Sprite<'gc, C, S>| e != o.me() ==> #[trigger] mc.at(e) == omc.at(e)
    }
    /// Where a process goes on after what it waits for.
    pub open spec fn later(d: Option<Defer<C, S>>) -> usize { match d { Some(Defer::Request { key, aft_pos, action }) => aft_pos, Some(Defer::Command { key, aft_pos }) => aft_pos, Some(Defer::MessageReply { key, aft_pos }) => aft_pos, Some(Defer::Barrier { condition, aft_pos }) => aft_pos, Some(Defer::Sleep { until, aft_pos }) => aft_pos, None => 0 } }
    /// The answer to a request arrived: the value is put where the request wants it, or the error is recorded under the soft error scheme.
    pub open spec fn answered(self, o: Self, x: Result<Value<'gc, C, S>, CompactString>, action: RequestAction, s: Settings) -> bool {
        let v = outcome::<C, S, Value<'gc, C, S>>(x, match action { RequestAction::Syscall => s.syscall_error_scheme, RequestAction::Rpc => s.rpc_error_scheme, _ => ErrorScheme::Hard });
        &&& v is Some && v->Some_0 is Some && self.defer is None && self.pos == Self::later(o.defer)
        &&& self.value_stack@ =~= if action is Input { o.value_stack@ } else { o.value_stack@.push(v->Some_0->Some_0) }
        &&& self.last_syscall_error == if action is Syscall { if x is Ok { None } else { v->Some_0 } } else { o.last_syscall_error }
        &&& self.last_rpc_error == if action is Rpc { if x is Ok { None } else { v->Some_0 } } else { o.last_rpc_error }
        &&& self.last_answer == if action is Input { v->Some_0 } else { o.last_answer }
        &&& self.same(Process { last_syscall_error: self.last_syscall_error, last_rpc_error: self.last_rpc_error, last_answer: self.last_answer, ..o })
    }
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" resume -> r part=head
    //@sub &self\.global_context\.borrow\(\)\.settings; ==> &global_context.settings;
    //@sub , Some\)\?, ==> )?,
    //@sub , \|_\| None\)\?; ==> )?;
    //@sub panic!\(\) ==> vstd::pervasive::unreached()
    //@sub Value::from_simple\(mc, SimpleValue::from_netsblox_json\(x\)\?\) ==> from_json(mc, x)?
    //@sub \.into\(\) ==> .into_()
    //| requires old(self).sound(), old(self).pos != usize::MAX, old(self).defer is Some ==> Self::later(old(self).defer) != usize::MAX,
    //| ensures *final(global_context) == *old(global_context), final(self).sound(),
    //|     old(self).defer is None ==> r == Ok::<Option<ProcessStep<'gc, C, S>>, ErrorCause<C, S>>(None) && *final(self) == *old(self) && *final(mc) == *old(mc) && *final(system) == *old(system),
    //|     final(system).log() == old(system).log(),
    //|     r is Err ==> final(self).same(*old(self)) && final(self).pos == old(self).pos && final(self).defer is None && final(self).value_stack@ =~= old(self).value_stack@,
    //|     r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0 is Yield && final(self).private(*old(self)),
    //|     r is Ok && r->Ok_0 is None ==> final(self).defer is None && final(self).pos != usize::MAX && old(self).value_stack@.len() <= final(self).value_stack@.len(),
    //|     match old(self).defer {
    //|         Some(Defer::Request { key, aft_pos, action }) => match old(system).request_answer(key) {
    //|             AsyncResult::Completed(x) => r is Ok ==> r->Ok_0 is None && final(self).answered(*old(self), x, action, old(global_context).settings),
    //|             _ => r is Ok ==> r->Ok_0 is Some },
    //|         Some(Defer::Command { key, aft_pos }) => match old(system).command_answer(key) {
    //|             AsyncResult::Completed(x) => r is Ok ==> x is Ok && r->Ok_0 is None && final(self).same(*old(self)) && final(self).value_stack@ =~= old(self).value_stack@ && final(self).pos == aft_pos,
    //|             _ => r is Ok ==> r->Ok_0 is Some },
    //|         Some(Defer::MessageReply { key, aft_pos }) => match old(system).reply_answer(key) {
    //|             AsyncResult::Completed(x) => (r is Ok <==> (x is None || meaning::<C, S>(x->Some_0) is Some)) && (r is Ok ==> r->Ok_0 is None && final(self).same(*old(self)) && final(self).pos == aft_pos && final(self).value_stack@.len() > 0
    //|                 && final(self).value_stack@.drop_last() =~= old(self).value_stack@ && match x { Some(x) => meaning::<C, S>(x)->Some_0(*old(mc), final(self).top(0), *final(mc)), None => final(self).top(0) is Text && final(self).top(0)->Text_0.chars().len() == 0 }),
    //|             _ => r is Ok && r->Ok_0 is Some },
    //|         Some(Defer::Barrier { condition, aft_pos }) => r is Ok && (r->Ok_0 is None <==> condition.done()) && (condition.done() ==> final(self).same(*old(self)) && final(self).state == old(self).state && final(self).value_stack@ =~= old(self).value_stack@ && final(self).pos == aft_pos),
    //|         Some(Defer::Sleep { until, aft_pos }) => match old(system).clock().ms() { Some(now) => r is Ok && (r->Ok_0 is None <==> now >= until) && (now >= until ==> final(self).same(*old(self)) && final(self).state == old(self).state && final(self).value_stack@ =~= old(self).value_stack@ && final(self).pos == aft_pos), None => r is Err },
    //|         None => true },
    //@end
    //@common requires old(self).ready((NEEDS) as int), aft_pos != usize::MAX
    //@common ensures final(self).sound(), final(self).global_context == old(self).global_context, final(self).call_stack@[0].entity == old(self).call_stack@[0].entity
    //@common ensures r is Err ==> final(self).unharmed(*old(self))
    //@common ensures r is Ok && r->Ok_0 is Fork ==> r->Ok_0->Fork_pos != usize::MAX
    //@common ensures [errs] r is Err ==> final(self).failed(*old(self), (NEEDS) as int)
    //@common ensures final(self).defer is Some ==> Self::later(final(self).defer) != usize::MAX
    //@common ensures r is Ok && !ends(r) ==> final(self).pos != usize::MAX && !(r->Ok_0 is Idle)
    //@common ensures [step] r is Ok ==> r->Ok_0 is Normal
    //@common ensures [heap] final(mc).like::<C, S>(*old(mc))
    //@common ensures [env] *final(system) == *old(system)
    //@common ensures [globals] *final(global_context) == *old(global_context)
    //@allsub drop\(\w+_raw\);\s* ==>
    //@allsub \.borrow\(\) ==> .borrow(mc)
    //@allsub \.into\(\) ==> .into_()
    //@allsub \.costume\.clone\(\) ==> .costume.dup()
    //@allsub &\*system ==> system
    //@allsub ops::(\w+)\(mc,  ==> ops::\1(mc,
    //@allsub ops::(find|dimensions|flatten|to_csv|check_relation|identical|prep_index_set)\( ==> ops::\1(mc, 
    //@allsub lossless_split\((\w+)\)\.collect::<Vec<_>>\(\) ==> split_tokens(\1)
    //@allsub lossless_split\((\w+)\) ==> split_tokens(\1)
    //@allsub \(&mut tokens\)\.take\(params\)\.map\(CompactString::new\)\.collect::<Vec<_>>\(\) ==> spell(take_front(&mut tokens, params))
    //@allsub tokens\.map\(CompactString::new\)\.collect::<Vec<_>>\(\) ==> spell(tokens)
    //@allsub tokens\.next\(\)\.unwrap\(\) ==> tokens.remove(0)
    //@allsub tokens\.collect::<Vec<_>>\(\) ==> tokens
    //@allsub "" => ==> s_ if blank_(s_) =>
    //@allsub for \((\w+), (\w+)\) in iter::zip\((\w+)\.into_iter\(\), self\.value_stack\.drain\((.*?)\.\.\)\) \{ ==> let pairs_ = zip(\3, self.value_stack.split_off(\4)); let ghost args_ = pairs_@; for (\1, \2) in pairs_ {
    //@allsub iter::zip\((\w+)\.into_iter\(\), self\.value_stack\.drain\(([^;]*?)\.\.\)\)\.map\(\|\(k, v\)\| Ok\(\(k, v\.to_simple\(\)\?\.into_netsblox_json\(\)\)\)\)\.collect::<Result<_,ToSimpleError<_,_>>>\(\)\? ==> zip_json(\1, self.value_stack.split_off(\2), mc)?
    //@allsub iter::zip\((\w+), self\.value_stack\.drain\(([^;]*?)\.\.\)\)\.collect\(\) ==> zip_map(\1, self.value_stack.split_off(\2))
    //@allsub (self\.value_stack\.pop\(\)\.unwrap\(\))\.to_simple\(\)\?\.into_netsblox_json\(\) ==> to_json(\1, mc)?
    //@allsub self\.(call_stack|value_stack|handler_stack)\.drain\(([^;]*?)\.\.\)\.collect\(\) ==> self.\1.split_off(\2)
    //@allsub self\.(call_stack|value_stack|handler_stack)\.drain\(([^;]*?)\.\.\); ==> cut(&mut self.\1, (\2).n_());
    //@allsub (\w+)\.borrow\(mc\)\.iter\(\)\.map\(Value::as_entity\)\.collect::<Result<_,_>>\(\) ==> entities_of(\1.borrow(mc))
    //@allsub \.borrow\(mc\)\.iter\(\)\.cloned\(\)\.collect\(\) ==> .borrow(mc).listed()
    //@allsub (\w+)\.borrow\(mc\)\.iter\(\)\.rev\(\)\.cloned\(\)\.collect::<VecDeque<_>>\(\) ==> reversed_list(\1.borrow(mc))
    //@allsub \.unwrap_or_else\(\|\| Text::default\(\)\.into_\(\)\) ==> .unwrap_or(Text::default().into_())
    //@allsub u32::from_be_bytes\( ==> pack(
    //@allsub format_text!\("\{value\}"\) ==> spell_int_(value)
    //@allsub \.get\(\) \* 1000\.0 ==> .get().times(1000.0)
    //@allsub ms as u64 ==> floor(ms)
    //@allsub \.month\(\) as u8 ==> .month()
    //@allsub \.date\(\)\.weekday\(\)\.number_from_sunday\(\) ==> .number_from_sunday()
    //@allsub LookupGroup::new\(&mut \[&mut (global_context\.globals), &mut (local_frame\.entity)\.borrow_mut\(mc\)\.fields, &mut (local_frame\.locals)\]\)\.lookup_mut\( ==> lookup_mut(&mut \1, &mut \2.borrow_mut(mc).fields, &mut \3, 
    //@allsub LookupGroup::new\(&mut \[&mut (global_context\.globals), &mut (local_frame\.entity)\.borrow_mut\(mc\)\.fields, &mut (local_frame\.locals)\]\)\.lookup\( ==> lookup(&\1, &\2.borrow(mc).fields, &\3, 
    //@allsub var\.get\(\) ==> var.get(mc)
    //@allsub for (\w+) in (\w+)\.into_iter\(\)\.rev\(\) \{ ==> let order_ = reversed(\2); for \1 in order_ {
    //@allsub for (\w+) in (index_set) \{ ==> let order_ = \2; for \1 in order_ {
    //@allsub \blist\[index\] = ([^;]*); ==> set_at(list, index, \1);
    //@turn Gc::new alloc
    //@allsub t\.unix_timestamp_nanos\(\) / 1000000 ==> to_ms(t.unix_timestamp_nanos())
    //@cast f64 real_f
    //@allsub \) / 1000\.0 ==> ).over(1000.0)
}
/// Control: calls, errors, warp, jumps, clones.
pub mod flow {
use super::*;
broadcast use crate::world::spelled_is;
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    //@arm Yield needs=0 free=step
    //| ensures r is Ok, final(self).took(*old(self), 0, aft_pos), if old(self).warp_counter == 0 { r->Ok_0 is Yield } else { r->Ok_0 is Normal },
    //@end
    //@arm WarpStart needs=0
    //| requires old(self).warp_counter < usize::MAX,
    //| ensures r is Ok, final(self).warp_counter == old(self).warp_counter + 1, final(self).took(Process { warp_counter: final(self).warp_counter, ..*old(self) }, 0, aft_pos),
    //@end
    //@arm WarpStop needs=0
    //| requires old(self).warp_counter > 0,
    //| ensures r is Ok, final(self).warp_counter == old(self).warp_counter - 1, final(self).took(Process { warp_counter: final(self).warp_counter, ..*old(self) }, 0, aft_pos),
    //@end
    //@arm Jump needs=0
    //| requires to != usize::MAX,
    //| ensures r is Ok, final(self).took(*old(self), 0, to),
    //@end
    //@arm ConditionalJump needs=1
    //| requires to != usize::MAX,
    //| ensures r is Ok <==> old(self).top(0) is Bool, r is Ok ==> final(self).took(*old(self), 1, if old(self).top(0)->Bool_0 == when { to } else { aft_pos }),
    //@end
    //@arm Pause needs=0 free=step
    //| ensures r is Ok, r->Ok_0 is Pause, final(self).took(*old(self), 0, aft_pos),
    //@end
    //@arm Abort needs=0 free=step
    //| ensures r is Ok, r->Ok_0 is Abort, r->Ok_0->mode == mode, final(self).took(*old(self), 0, match mode { AbortMode::Current => old(self).pos, AbortMode::All => old(self).pos, _ => aft_pos }),
    //@end
    //@arm Call needs=names_in(tokens@).len()
    //| requires pos != usize::MAX,
    //| ensures old(self).call_stack@.len() >= old(global_context).settings.max_call_depth ==> r is Err && final(self).value_stack == old(self).value_stack,
    //|     old(self).call_stack@.len() < old(global_context).settings.max_call_depth ==> r is Ok && final(self).pos == pos && final(self).value_stack@ =~= old(self).less(names_in(tokens@).len() as int) && final(self).call_stack@.drop_last() =~= old(self).call_stack@
    //|         && final(self).entered(*old(self), aft_pos, old(self).me(), bound(names_in(tokens@), old(self).value_stack@.skip(old(self).value_stack@.len() - names_in(tokens@).len()))),
    //@loop 1
    //| invariant self.value_stack@ =~= old(self).less(names_in(tokens@).len() as int), self.sound(), self.same(*old(self)), self.state == old(self).state, self.pos == old(self).pos, self.defer is None,
    //|     args_.len() == names_in(tokens@).len(), rest_pairs_@.len() <= args_.len(), rest_pairs_@ =~= args_.skip(args_.len() - rest_pairs_@.len()),
    //|     forall|i: int| 0 <= i < args_.len() ==> (#[trigger] args_[i]).0@ == names_in(tokens@)[i] && args_[i].1 == old(self).value_stack@.skip(old(self).value_stack@.len() - args_.len())[i],
    //|     locals.map() == bound(names_in(tokens@).take(args_.len() - rest_pairs_@.len()), old(self).value_stack@.skip(old(self).value_stack@.len() - args_.len())),
    //| decreases rest_pairs_@.len()
    //@top 1
    //| proof { let k = args_.len() - rest_pairs_@.len(); assert(was_pairs_[0] == args_[k - 1]); assert(names_in(tokens@).take(k).drop_last() =~= names_in(tokens@).take(k - 1)); assert(names_in(tokens@).take(k).last() == names_in(tokens@)[k - 1]); }
    //@ghost BEFORE "let entity = "
    //| proof { assert(names_in(tokens@).take(args_.len() as int) =~= names_in(tokens@)); }
    //@end
    //@arm Return needs=1 free=step
    //| ensures r is Ok, ({ let f = old(self).call_stack@.last(); let n = f.value_stack_size as int;
    //|     &&& final(self).warp_counter == f.warp_counter && final(self).handler_stack@ =~= old(self).handler_stack@.take(f.handler_stack_size as int) && final(self).pos == f.return_to && final(self).defer is None
    //|     &&& final(self).barrier == old(self).barrier && final(self).reply_key == old(self).reply_key && final(self).last_rpc_error == old(self).last_rpc_error && final(self).last_syscall_error == old(self).last_syscall_error && final(self).last_answer == old(self).last_answer && final(self).last_message == old(self).last_message
    //|     &&& if old(self).call_stack@.len() > 1 { r->Ok_0 is Normal && final(self).call_stack@ =~= old(self).call_stack@.drop_last() && final(self).value_stack@ =~= old(self).value_stack@.take(n).push(old(self).top(0)) }
    //|         else { r->Ok_0 is Terminate && r->Ok_0->Terminate_result == old(self).top(0) && final(self).call_stack@ =~= old(self).call_stack@ && final(self).value_stack@.len() == 0 } }),
    //@end
    //@arm PushHandler needs=0
    //| requires pos != usize::MAX,
    //| ensures r is Ok, final(self).pos == aft_pos, final(self).defer is None, final(self).value_stack == old(self).value_stack, final(self).handler_stack@.drop_last() =~= old(self).handler_stack@,
    //|     final(self).same(Process { handler_stack: final(self).handler_stack, ..*old(self) }),
    //|     ({ let h = final(self).handler_stack@.last(); h.pos == pos && h.var.chars() == var@ && h.warp_counter == old(self).warp_counter && h.call_stack_size == old(self).call_stack@.len() && h.value_stack_size == old(self).value_stack@.len() }),
    //@end
    //@arm PopHandler needs=0
    //| requires old(self).handler_stack@.len() > old(self).call_stack@.last().handler_stack_size,
    //| ensures r is Ok, final(self).pos == aft_pos, final(self).defer is None, final(self).value_stack == old(self).value_stack, final(self).handler_stack@ =~= old(self).handler_stack@.drop_last(),
    //|     final(self).same(Process { handler_stack: final(self).handler_stack, ..*old(self) }),
    //@end
    //@arm Throw needs=1
    //| ensures r is Err, text_of(old(self).top(0)) is Some ==> r->Err_0 is Custom && r->Err_0->msg == spelled(text_of(old(self).top(0))->Some_0.chars()),
    //@end
    //@arm CallClosure needs=if(new_entity){args+2}else{args+1} free=heap
    //| requires args < usize::MAX - 1, forall|g: Lambda<'gc, C, S>| (#[trigger] old(mc).at(g)).pos != usize::MAX,
    //| ensures old(self).call_stack@.len() >= old(global_context).settings.max_call_depth ==> r is Err && final(self).value_stack == old(self).value_stack,
    //|     r is Ok ==> old(self).call_stack@.len() < old(global_context).settings.max_call_depth && old(self).top(args as int) is Closure && (new_entity ==> old(self).top(args + 1) is Entity) && ({ let f = old(mc).at(old(self).top(args as int)->Closure_0); let v = old(self).value_stack@;
    //|         &&& final(self).pos == f.pos && final(self).value_stack@ =~= old(self).less(if new_entity { args + 2 } else { args + 1 }) && final(self).call_stack@.drop_last() =~= old(self).call_stack@
    //|         &&& final(self).entered(*old(self), aft_pos, if new_entity { old(self).top(args + 1)->Entity_0 } else { old(self).me() }, final(self).call_stack@.last().locals.map())
    //|         &&& called(f, v.skip(v.len() - args), *old(mc), final(self).call_stack@.last().locals.map(), *final(mc)) }),
    //@end
    //@arm ForkClosure needs=args+1 free=heap,step
    //| requires args < usize::MAX - 1, forall|g: Lambda<'gc, C, S>| (#[trigger] old(mc).at(g)).pos != usize::MAX,
    //| ensures r is Ok ==> r->Ok_0 is Fork && old(self).top(args as int) is Closure && ({ let f = old(mc).at(old(self).top(args as int)->Closure_0); let v = old(self).value_stack@;
    //|         &&& final(self).took(*old(self), args + 1, aft_pos) && r->Ok_0->Fork_pos == f.pos && r->Ok_0->Fork_entity == old(self).me() && called(f, v.skip(v.len() - args), *old(mc), r->Ok_0->Fork_locals.map(), *final(mc)) }),
    //@end
    //@arm Clone needs=1 free=heap,step
    //@sub C::EntityState::from\(EntityKind::Clone \{ parent: &\*target \}\) ==> twin_state(target)
    //@sub target\.fields\.clone\(\) ==> target.fields.copy(mc)
    //| ensures r is Ok <==> old(self).top(0) is Entity, final(mc).grew::<C, S>(*old(mc)), r is Ok ==> r->Ok_0 is CreatedClone && ({ let e = r->Ok_0->CreatedClone_clone; let p = old(self).top(0)->Entity_0; let (n, o) = (final(mc).at(e), old(mc).at(p));
    //|     &&& final(self).gave(*old(self), 1, Value::Entity(e), aft_pos) && !old(mc).live(e)
    //|     &&& n.name == o.name && n.sound_list == o.sound_list && n.costume_list == o.costume_list && n.costume == o.costume && n.original == Some(match o.original { Some(x) => x, None => p })
    //|     &&& n.fields.map().dom() =~= o.fields.map().dom() && forall|x: Seq<char>| #[trigger] n.fields.map().contains_key(x) ==> n.fields.map()[x] == Shared::Unique(held(*old(mc), o.fields.map()[x])) }),
    //@end
    //@arm DeleteClone needs=0 free=step
    //| ensures r is Ok, final(self).took(*old(self), 0, aft_pos), if old(mc).at(old(self).me()).original is Some { r->Ok_0 is DeletedClone && r->Ok_0->DeletedClone_clone == old(self).me() } else { r->Ok_0 is Normal },
    //@end
}
}
/// Operands, variables, closures and operators.
pub mod vars {
use super::*;
broadcast use crate::world::spelled_is;
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    //@arm PushBool needs=0
    //| ensures r is Ok, final(self).gave(*old(self), 0, Value::Bool(value), aft_pos),
    //@end
    //@arm PushInt needs=0
    //| ensures r is Ok <==> valid(real_of(value as int)), r is Ok ==> final(self).gave(*old(self), 0, Value::Number(Number(real_of(value as int))), aft_pos),
    //@end
    //@arm PushIntString needs=0
    //| ensures r is Ok, final(self).gave(*old(self), 0, Value::Text(spell_int(value as int)), aft_pos),
    //@end
    //@arm PushNumber needs=0
    //| ensures r is Ok <==> valid(value), r is Ok ==> final(self).gave(*old(self), 0, Value::Number(Number(value)), aft_pos),
    //@end
    //@arm PushColor needs=0
    //| ensures r is Ok ==> final(self).gave(*old(self), 0, Value::Number(Number(real_of(packed(value.a, value.r, value.g, value.b) as int))), aft_pos),
    //@end
    //@arm PushString needs=0
    //| ensures r is Ok, final(self).made(*old(self), 0, aft_pos), final(self).top(0) is Text, final(self).top(0)->Text_0.chars() == value@,
    //@end
    //@arm PushSelf needs=0
    //| ensures r is Ok, final(self).gave(*old(self), 0, Value::Entity(old(self).me()), aft_pos),
    //@end
    //@arm PopValue needs=1
    //| ensures r is Ok, final(self).took(*old(self), 1, aft_pos),
    //@end
    //@arm DupeValue needs=top_index+1
    //| ensures r is Ok, final(self).gave(*old(self), 0, old(self).top(top_index as int), aft_pos),
    //@end
    //@arm SwapValues needs=if(top_index_1>top_index_2){top_index_1+1}else{top_index_2+1}
    //| ensures r is Ok, ({ let (v, i, j) = (old(self).value_stack@, old(self).value_stack@.len() - 1 - top_index_1, old(self).value_stack@.len() - 1 - top_index_2);
    //|     final(self).value_stack@ =~= v.update(i, v[j]).update(j, v[i]) && final(self).same(*old(self)) && final(self).pos == aft_pos && final(self).defer is None }),
    //@end
    //@arm ToBool needs=1
    //| ensures r is Ok <==> old(self).top(0) is Bool, r is Ok ==> final(self).gave(*old(self), 1, old(self).top(0), aft_pos),
    //@end
    //@arm ToNumber needs=1
    //| ensures r is Ok <==> number_of(old(self).top(0)) is Some, r is Ok ==> final(self).gave(*old(self), 1, Value::Number(number_of(old(self).top(0))->Some_0), aft_pos),
    //@end
    //@arm PushVariable needs=0
    //| ensures ({ let k = old(self).scope(*old(global_context), *old(mc), var@); (r is Ok <==> k >= 0) && (r is Ok ==> final(self).gave(*old(self), 0, held(*old(mc), old(self).var(*old(global_context), *old(mc), var@)), aft_pos)) && (r is Err ==> r->Err_0 is UndefinedVariable) }),
    //@end
    //@arm DeclareLocal needs=0
    //| requires valid(0.0f64),
    //| ensures r is Ok, final(self).value_stack == old(self).value_stack, final(self).pos == aft_pos, final(self).defer is None, final(self).same_but_vars(*old(self)),
    //|     final(self).but_locals(*old(self), old(self).call_stack@.last().locals.map().insert(var@, Shared::Unique(Value::Number(Number(0.0f64))))),
    //@end
    //@arm Assign needs=1 free=heap,globals,errs
    //| ensures ({ let k = old(self).scope(*old(global_context), *old(mc), var@); let x = old(self).var(*old(global_context), *old(mc), var@); let v = old(self).top(0);
    //|     &&& r is Ok <==> k >= 0
    //|     &&& r is Ok ==> final(self).value_stack@ =~= old(self).less(1) && final(self).pos == aft_pos && final(self).defer is None && final(self).same_but_vars(*old(self))
    //|     &&& r is Ok ==> final(self).bound_to(*old(self), *final(global_context), *old(global_context), *final(mc), *old(mc), var@, match x { Shared::Unique(_) => Shared::Unique(v), Shared::Aliased(_) => x })
    //|     &&& r is Ok ==> final(mc).lists::<C, S>(*old(mc)) && final(mc).closures::<C, S>(*old(mc)) && forall|g: Cell<'gc, C, S>| #[trigger] final(mc).at(g) == if x == Shared::Aliased(g) { v } else { old(mc).at(g) } }),
    //@end
    //@arm InitUpvar needs=0 free=heap,errs
    //@sub self\.call_stack\.as_mut_slice\(\) ==> tops(&mut self.call_stack)
    //@sub \[\] => unreachable!\(\) ==> Tops::None => vstd::pervasive::unreached()
    //@sub \[_\] => ==> Tops::One =>
    //@sub \[\.\., x, y\] => ==> Tops::Two(x, y) =>
    //| ensures r is Err ==> final(self).failed(*old(self), 0) || final(self).call_stack@ =~= old(self).call_stack@,
    //|     r is Ok ==> old(self).call_stack@.len() > 1 && ({ let v = held(*old(mc), old(self).var(*old(global_context), *old(mc), var@)); let p = old(self).call_stack@[old(self).call_stack@.len() - 2]; let n = text_of(v)->Some_0.chars();
    //|         &&& old(self).scope(*old(global_context), *old(mc), var@) >= 0 && text_of(v) is Some && p.locals.map().contains_key(n)
    //|         &&& final(self).pos == aft_pos && final(self).value_stack == old(self).value_stack && final(self).defer is None && final(self).same_but_vars(*old(self))
    //|         &&& final(self).call_stack@.len() == old(self).call_stack@.len() && final(self).call_stack@.last().locals.map().contains_key(var@) && final(self).call_stack@.last().locals.map()[var@] is Aliased
    //|         &&& final(self).call_stack@.last().locals.map() == old(self).call_stack@.last().locals.map().insert(var@, final(self).call_stack@.last().locals.map()[var@])
    //|         &&& final(self).call_stack@[final(self).call_stack@.len() - 2].locals.map() == p.locals.map().insert(n, final(self).call_stack@.last().locals.map()[var@])
    //|         &&& held(*final(mc), final(self).call_stack@.last().locals.map()[var@]) == held(*old(mc), p.locals.map()[n])
    //|         &&& p.locals.map()[n] is Aliased ==> final(self).call_stack@.last().locals.map()[var@] == p.locals.map()[n] }),
    //@end
    //@arm TypeQuery needs=1
    //@sub val\.get_type\(\) == ty\.to_type\(\) ==> same_type(&val.get_type(), &ty.to_type())
    //| ensures r is Ok, final(self).gave(*old(self), 1, Value::Bool(type_of(old(self).top(0)) == type_named::<C, S>(ty)), aft_pos),
    //@end
    //@arm Cmp needs=2
    //| ensures r is Ok <==> related(*old(mc), old(self).top(1), old(self).top(0), relation) is Some, r is Ok ==> final(self).gave(*old(self), 2, Value::Bool(related(*old(mc), old(self).top(1), old(self).top(0), relation)->Some_0), aft_pos),
    //@end
    //@arm Identical needs=2
    //| ensures r is Ok, final(self).gave(*old(self), 2, Value::Bool(identical(old(self).top(1), old(self).top(0))), aft_pos),
    //@end
    //@arm BinaryOp needs=2 free=heap
    //| ensures r is Ok ==> final(self).made(*old(self), 2, aft_pos) && binary(op, old(self).top(1), old(self).top(0), *old(mc), final(self).top(0), *final(mc)), final(mc).grew::<C, S>(*old(mc)),
    //@end
    //@arm VariadicOp needs=match(len){VariadicLen::Fixed(k)=>k,VariadicLen::Dynamic=>1} free=heap,errs
    //@sub (?s)type CombineEmpty<.*?\n\s*\};\s*(?=let \w+ = match len) ==>
    //@sub combine\(mc, system, &mut self\.value_stack\[stack_size - len\.\.\]\.iter\(\)\)\? ==> combine(mc, system, tail_of(&self.value_stack, stack_size - len), op)?
    //@sub self\.value_stack\.drain\(stack_size - len\.\.\); ==> cut(&mut self.value_stack, stack_size - len);
    //@sub combine\(mc, system, &mut src\.iter\(\)\)\? ==> combine(mc, system, src.listed(), op)?
    //| ensures final(mc).grew::<C, S>(*old(mc)), r is Err ==> final(self).failed(*old(self), 1), r is Ok ==> match len {
    //|     VariadicLen::Fixed(k) => final(self).made(*old(self), k as int, aft_pos) && combined(op, old(self).value_stack@.skip(old(self).value_stack@.len() - k), *old(mc), final(self).top(0), *final(mc)),
    //|     VariadicLen::Dynamic => old(self).top(0) is List && final(self).made(*old(self), 1, aft_pos) && combined(op, old(mc).list(old(self).top(0)->List_0), *old(mc), final(self).top(0), *final(mc)) },
    //@end
    //@arm UnaryOp needs=1 free=heap
    //| ensures r is Ok ==> final(self).made(*old(self), 1, aft_pos) && unary(op, old(self).top(0), *old(mc), final(self).top(0), *final(mc)), final(mc).grew::<C, S>(*old(mc)),
    //@end
    //@arm PushEntity needs=0
    //@sub global_context\.entities\.get\(name\)\.copied\(\) ==> global_context.entities.find(name)
    //| ensures r is Ok <==> old(global_context).entities.entry(name@) is Some, r is Ok ==> final(self).gave(*old(self), 0, Value::Entity(old(global_context).entities.entry(name@)->Some_0), aft_pos), r is Err ==> r->Err_0 is UndefinedEntity,
    //@end
    //@arm MakeClosure needs=0 free=heap,globals,errs
    //@sub for &var in captures\.iter\(\) \{ ==> let ghost all_ = captures@; for var in captures {
    //| requires names_in(tokens@).len() >= params,
    //| ensures r is Ok ==> final(self).value_stack@.len() == old(self).value_stack@.len() + 1 && final(self).value_stack@.drop_last() =~= old(self).value_stack@ && final(self).pos == aft_pos && final(self).defer is None && final(self).same_but_vars(*old(self)) && final(self).call_stack@.len() == old(self).call_stack@.len(),
    //|     r is Ok ==> final(self).top(0) is Closure && ({ let c = final(mc).at(final(self).top(0)->Closure_0); let n = names_in(tokens@);
    //|         &&& c.pos == pos && c.params@.len() == params && forall|i: int| 0 <= i < params ==> (#[trigger] c.params@[i]).chars() == n[i]
    //|         &&& forall|x: Seq<char>| c.captures.map().contains_key(x) <==> #[trigger] n.skip(params as int).contains(x)
    //|         &&& forall|x: Seq<char>| #[trigger] c.captures.map().contains_key(x) ==> c.captures.map()[x] is Aliased && final(self).scope(*final(global_context), *final(mc), x) >= 0 && c.captures.map()[x] == final(self).var(*final(global_context), *final(mc), x) }),
    //@attr #[verifier::loop_isolation(false)]
    //@loop 1
    //| invariant self.unharmed(*old(self)), self.me() == old(self).me(), names_ =~= spelled_all(all_), self.sound(), self.value_stack == old(self).value_stack, self.pos == old(self).pos, self.defer is None, self.same_but_vars(*old(self)), self.call_stack@.len() == old(self).call_stack@.len(), self.call_stack@[0].entity == old(self).call_stack@[0].entity,
    //|     rest_captures@ =~= all_.skip(all_.len() - rest_captures@.len()), rest_captures@.len() <= all_.len(),
    //|     forall|x: Seq<char>| caps.map().contains_key(x) <==> #[trigger] spelled_all(all_.take(all_.len() - rest_captures@.len())).contains(x), forall|x: Seq<char>| #[trigger] caps.map().contains_key(x) ==> caps.map()[x] is Aliased,
    //|     forall|x: Seq<char>| #[trigger] caps.map().contains_key(x) ==> self.scope(*global_context, *mc, x) >= 0 && caps.map()[x] == self.var(*global_context, *mc, x),
    //| decreases rest_captures@.len()
    //@top 1
    //| proof { let k = all_.len() - was_captures.len(); assert(was_captures[0] == all_[k]); assert(rest_captures@ =~= was_captures.skip(1)); assert(spelled_all(all_.take(k + 1)) =~= spelled_all(all_.take(k)).push(var@)); pushed(spelled_all(all_.take(k)), var@); }
    //@ghost "let ghost all_ = captures@;"
    //| let ghost names_ = spelled_all(all_); proof { assert(spelled_all(all_.take(0)) =~= Seq::empty()); }
    //@ghost BEFORE "self.value_stack.push"
    //| proof { assert(all_.take(all_.len() as int) =~= all_); assert(names_ =~= names_in(tokens_@).skip(params_ as int)); }
    //@enter
    //| let ghost tokens_ = tokens; let ghost params_ = params;
    //@end
    //@arm Watcher needs=0 free=heap,globals,errs,step
    //@sub entity: Gc::downgrade\((.*?)\), ==> entity: downgrade(\1),
    //@sub value: Gc::downgrade\( ==> value: downgrade(
    //| ensures r is Ok ==> old(self).scope(*old(global_context), *old(mc), var@) >= 0 && final(self).value_stack == old(self).value_stack && final(self).pos == aft_pos && final(self).defer is None && final(self).same_but_vars(*old(self)) && r->Ok_0 is Watcher && r->Ok_0->create == create && ({ let w = r->Ok_0->watcher; let x = final(self).var(*final(global_context), *final(mc), var@);
    //|     w.name.chars() == var@ && strong(w.entity) == old(self).me() && x is Aliased && strong(w.value) == x->Aliased_0 && held(*final(mc), x) == held(*old(mc), old(self).var(*old(global_context), *old(mc), var@)) && (old(self).var(*old(global_context), *old(mc), var@) is Aliased ==> x == old(self).var(*old(global_context), *old(mc), var@)) && final(self).bound_to(*old(self), *final(global_context), *old(global_context), *final(mc), *old(mc), var@, x) }),
    //@end
    //@arm BinaryOpAssign needs=1 free=heap,globals,errs
    //@sub var\.set\(mc, (ops::.*?\?)\) ==> { let new_ = \1; var.set(mc, new_) }
    //| ensures r is Ok ==> ({ let x = old(self).var(*old(global_context), *old(mc), var@);
    //|     &&& old(self).scope(*old(global_context), *old(mc), var@) >= 0
    //|     &&& final(self).value_stack@ =~= old(self).less(1) && final(self).pos == aft_pos && final(self).defer is None && final(self).same_but_vars(*old(self))
    //|     &&& exists|v: Value<'gc, C, S>, h: Mutation<'gc>, m: Mutation<'gc>| #[trigger] binary(op, held(*old(mc), x), old(self).top(0), h, v, m) && h.lists::<C, S>(*old(mc)) && h.closures::<C, S>(*old(mc)) && h.cells::<C, S>(*old(mc)) && held(*final(mc), match x { Shared::Unique(_) => Shared::Unique(v), Shared::Aliased(_) => x }) == v }),
    //@end
}
}
/// Lists.
pub mod lists {
use super::*;
broadcast use crate::world::spelled_is;
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    //@arm ListCons needs=2 free=heap
    //| ensures r is Ok <==> old(self).top(0) is List, final(mc).grew::<C, S>(*old(mc)), r is Ok ==> final(self).made(*old(self), 2, aft_pos) && final(self).top(0) is List && !old(mc).live(final(self).top(0)->List_0) && final(mc).list(final(self).top(0)->List_0) =~= seq![old(self).top(1)] + old(mc).list(old(self).top(0)->List_0),
    //@end
    //@arm ListCdr needs=1 free=heap
    //| ensures r is Ok <==> old(self).top(0) is List && old(mc).list(old(self).top(0)->List_0).len() > 0, final(mc).grew::<C, S>(*old(mc)), r is Ok ==> final(self).made(*old(self), 1, aft_pos) && final(self).top(0) is List && !old(mc).live(final(self).top(0)->List_0) && final(mc).list(final(self).top(0)->List_0) =~= old(mc).list(old(self).top(0)->List_0).skip(1),
    //@end
    //@arm ListFind needs=2
    //@sub ops::find\(mc,\s*list, &value\)\?\.map\(\|i\| i \+ 1\)\.unwrap_or\(0\) ==> next_or_zero(ops::find(mc, list, &value)?)
    //| ensures r is Ok ==> old(self).top(0) is List && final(self).gave(*old(self), 2, Value::Number(Number(real_of(match found(*old(mc), old(self).top(0)->List_0, old(self).top(1)) { Some(i) => i + 1, None => 0 }))), aft_pos),
    //@end
    //@arm ListContains needs=2
    //| ensures r is Ok ==> old(self).top(1) is List && final(self).gave(*old(self), 2, Value::Bool(found(*old(mc), old(self).top(1)->List_0, old(self).top(0)) is Some), aft_pos),
    //@end
    //@arm ListIsEmpty needs=1
    //| ensures r is Ok <==> old(self).top(0) is List, r is Ok ==> final(self).gave(*old(self), 1, Value::Bool(old(mc).list(old(self).top(0)->List_0).len() == 0), aft_pos),
    //@end
    //@arm ListLength needs=1
    //| ensures r is Ok ==> old(self).top(0) is List && final(self).gave(*old(self), 1, Value::Number(Number(real_of(old(mc).list(old(self).top(0)->List_0).len() as int))), aft_pos),
    //@end
    //@arm ListRev needs=1 free=heap
    //| ensures r is Ok <==> old(self).top(0) is List, final(mc).grew::<C, S>(*old(mc)), r is Ok ==> final(self).made(*old(self), 1, aft_pos) && final(self).top(0) is List && !old(mc).live(final(self).top(0)->List_0) && final(mc).list(final(self).top(0)->List_0) =~= old(mc).list(old(self).top(0)->List_0).reverse(),
    //@end
    //@arm ListGetLast needs=1
    //| ensures r is Ok <==> old(self).top(0) is List && old(mc).list(old(self).top(0)->List_0).len() > 0, r is Ok ==> final(self).gave(*old(self), 1, old(mc).list(old(self).top(0)->List_0).last(), aft_pos),
    //@end
    //@arm ListGetRandom needs=1
    //| ensures r is Ok <==> old(self).top(0) is List && old(mc).list(old(self).top(0)->List_0).len() > 0, r is Ok ==> final(self).made(*old(self), 1, aft_pos) && old(mc).list(old(self).top(0)->List_0).contains(final(self).top(0)),
    //@end
    //@arm ListInsertLast needs=2 free=heap
    //| ensures r is Ok <==> old(self).top(0) is List, r is Ok ==> final(self).took(*old(self), 2, aft_pos) && final(mc).with_list(*old(mc), old(self).top(0)->List_0, old(mc).list(old(self).top(0)->List_0).push(old(self).top(1))), r is Err ==> final(mc).like::<C, S>(*old(mc)),
    //@end
    //@arm ListInsertRandom needs=2 free=heap
    //| requires old(self).top(0) is List ==> old(mc).list(old(self).top(0)->List_0).len() < usize::MAX,
    //| ensures r is Ok ==> old(self).top(0) is List && final(self).took(*old(self), 2, aft_pos) && ({ let g = old(self).top(0)->List_0; exists|i: int| 0 <= i <= old(mc).list(g).len() && final(mc).with_list(*old(mc), g, #[trigger] old(mc).list(g).insert(i, old(self).top(1))) }), r is Err ==> final(mc).like::<C, S>(*old(mc)),
    //@ghost "list.insert(index, val);"
    //| proof { assert(list@ =~= old(mc).list(old(self).top(0)->List_0).insert(index as int, old(self).top(1))); }
    //@end
    //@arm ListRemoveLast needs=1 free=heap
    //| ensures r is Ok <==> old(self).top(0) is List && old(mc).list(old(self).top(0)->List_0).len() > 0, r is Ok ==> final(self).took(*old(self), 1, aft_pos) && final(mc).with_list(*old(mc), old(self).top(0)->List_0, old(mc).list(old(self).top(0)->List_0).drop_last()), r is Err ==> final(mc).like::<C, S>(*old(mc)),
    //@end
    //@arm ListRemoveAll needs=1 free=heap
    //| ensures r is Ok <==> old(self).top(0) is List, r is Ok ==> final(self).took(*old(self), 1, aft_pos) && final(mc).with_list(*old(mc), old(self).top(0)->List_0, Seq::empty()), r is Err ==> final(mc).like::<C, S>(*old(mc)),
    //@end
    //@arm ListAssignLast needs=2 free=heap
    //@sub \*list\.back_mut\(\)\.unwrap\(\) = value; ==> let last_ = list.len() - 1; set_at(list, last_, value);
    //| ensures r is Ok <==> old(self).top(1) is List && old(mc).list(old(self).top(1)->List_0).len() > 0, r is Ok ==> final(self).took(*old(self), 2, aft_pos) && ({ let l = old(mc).list(old(self).top(1)->List_0); final(mc).with_list(*old(mc), old(self).top(1)->List_0, l.update(l.len() - 1, old(self).top(0))) }), r is Err ==> final(mc).like::<C, S>(*old(mc)),
    //@end
    //@arm ListAssignRandom needs=2 free=heap
    //| ensures r is Ok ==> old(self).top(1) is List && final(self).took(*old(self), 2, aft_pos) && ({ let g = old(self).top(1)->List_0; exists|i: int| 0 <= i < old(mc).list(g).len() && final(mc).with_list(*old(mc), g, #[trigger] old(mc).list(g).update(i, old(self).top(0))) }), r is Err ==> final(mc).like::<C, S>(*old(mc)),
    //@ghost "set_at(list, index, value);"
    //| proof { assert(list@ =~= old(mc).list(old(self).top(1)->List_0).update(index as int, old(self).top(0))); }
    //@end
    //@arm ListPopFirstOrElse needs=1 free=heap
    //| requires goto != usize::MAX,
    //| ensures r is Ok <==> old(self).top(0) is List, r is Err ==> final(mc).like::<C, S>(*old(mc)), r is Ok ==> ({ let g = old(self).top(0)->List_0; let l = old(mc).list(g);
    //|     if l.len() > 0 { final(self).gave(*old(self), 1, l[0], aft_pos) && final(mc).with_list(*old(mc), g, l.skip(1)) } else { final(self).took(*old(self), 1, goto) && final(mc).with_list(*old(mc), g, l) } }),
    //@end
    //@arm ListGet needs=2 free=heap
    //| ensures r is Ok ==> final(self).made(*old(self), 2, aft_pos) && indexed(old(self).top(0), old(self).top(1), *old(mc), final(self).top(0), *final(mc)), final(mc).grew::<C, S>(*old(mc)),
    //@end
    //@arm ListInsert needs=3 free=heap
    //@attr #[verifier::loop_isolation(false)]
    //| requires old(self).top(0) is List ==> old(mc).list(old(self).top(0)->List_0).len() < usize::MAX,
    //| ensures r is Err ==> final(mc).like::<C, S>(*old(mc)), r is Ok ==> old(self).top(0) is List && final(self).took(*old(self), 3, aft_pos) && ({ let g = old(self).top(0)->List_0; let l = old(mc).list(g); let c = chosen(*old(mc), old(self).top(1), l.len() as int + 1);
    //|     c is Some && final(mc).with_list(*old(mc), g, inserted(l, c->Some_0, old(self).top(2), 0)) }),
    //@loop 1
    //| invariant rest_order_@.len() <= set_.len(), rest_order_@ =~= set_.take(rest_order_@.len() as int).reverse(), list@ =~= old_list_.take(upto(old_list_, set_, rest_order_@.len() as int)) + inserted(old_list_, set_, val, upto_(old_list_, set_, rest_order_@.len() as int)),
    //| decreases rest_order_@.len()
    //@top 1
    //| proof { let n = was_order_.len() as int; assert(was_order_[0] == set_.take(n)[n - 1]); assert(index == set_[n - 1]); insert_step(old_list_, set_, val, n); assert(rest_order_@ =~= was_order_.skip(1)); }
    //@ghost BEFORE "let mut list = "
    //| let ghost set_ = index_set@; let ghost old_list_ = mc.list(list);
    //@ghost "let order_ = reversed(index_set);"
    //| proof { assert(set_.take(set_.len() as int) =~= set_); }
    //@ghost BEFORE "self.pos = aft_pos;"
    //| proof { insert_end(old_list_, set_, val); }
    //@end
    //@arm ListRemove needs=2 free=heap
    //@attr #[verifier::loop_isolation(false)]
    //| ensures r is Err ==> final(mc).like::<C, S>(*old(mc)), r is Ok ==> old(self).top(0) is List && final(self).took(*old(self), 2, aft_pos) && ({ let g = old(self).top(0)->List_0; let l = old(mc).list(g); let c = chosen(*old(mc), old(self).top(1), l.len() as int);
    //|     c is Some && final(mc).with_list(*old(mc), g, kept(l, c->Some_0, 0)) }),
    //@loop 1
    //| invariant rest_order_@.len() <= set_.len(), rest_order_@ =~= set_.take(rest_order_@.len() as int).reverse(), list@ =~= old_list_.take(upto(old_list_, set_, rest_order_@.len() as int)) + kept(old_list_, set_, upto(old_list_, set_, rest_order_@.len() as int)),
    //| decreases rest_order_@.len()
    //@top 1
    //| proof { let n = was_order_.len() as int; assert(was_order_[0] == set_.take(n)[n - 1]); assert(index == set_[n - 1]); remove_step(old_list_, set_, n); assert(rest_order_@ =~= was_order_.skip(1)); }
    //@ghost BEFORE "let mut list = "
    //| let ghost set_ = index_set@; let ghost old_list_ = mc.list(list);
    //@ghost "let order_ = reversed(index_set);"
    //| proof { assert(set_.take(set_.len() as int) =~= set_); }
    //@ghost BEFORE "self.pos = aft_pos;"
    //| proof { remove_end(old_list_, set_); }
    //@end
    //@arm ListAssign needs=3 free=heap
    //@attr #[verifier::loop_isolation(false)]
    //| ensures r is Err ==> final(mc).like::<C, S>(*old(mc)), r is Ok ==> old(self).top(1) is List && final(self).took(*old(self), 3, aft_pos) && ({ let g = old(self).top(1)->List_0; let l = old(mc).list(g); let c = chosen(*old(mc), old(self).top(2), l.len() as int);
    //|     c is Some && final(mc).list(g).len() == l.len() && (forall|i: int| 0 <= i < l.len() ==> #[trigger] final(mc).list(g)[i] == if c->Some_0.contains(i as usize) { old(self).top(0) } else { l[i] }) && final(mc).with_list(*old(mc), g, final(mc).list(g)) }),
    //@loop 1
    //| invariant rest_order_@.len() <= set_.len(), rest_order_@ =~= set_.skip(set_.len() - rest_order_@.len()), list@.len() == old_list_.len(), forall|i: int| 0 <= i < list@.len() ==> #[trigger] list@[i] == if set_.take(set_.len() - rest_order_@.len()).contains(i as usize) { value } else { old_list_[i] },
    //| decreases rest_order_@.len()
    //@top 1
    //| proof { let k = set_.len() - was_order_.len(); assert(was_order_[0] == set_[k]); assert(rest_order_@ =~= was_order_.skip(1)); assert(set_.take(k + 1) =~= set_.take(k).push(index)); pushed(set_.take(k), index); }
    //@ghost BEFORE "let mut list = "
    //| let ghost set_ = index_set@; let ghost old_list_ = mc.list(list);
    //@ghost BEFORE "self.pos = aft_pos;"
    //| proof { assert(set_.take(set_.len() as int) =~= set_); }
    //@end
    //@arm ListRank needs=1
    //| ensures r is Ok ==> final(self).made(*old(self), 1, aft_pos) && dims_of(old(self).top(0), *old(mc)) is Some && final(self).top(0) == Value::<'gc, C, S>::Number(Number(real_of(dims_of(old(self).top(0), *old(mc))->Some_0.len() as int))),
    //@end
    //@arm ListFlatten needs=1 free=heap
    //| ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> final(self).made(*old(self), 1, aft_pos) && final(self).top(0) is List && !old(mc).live(final(self).top(0)->List_0) && Some(final(mc).list(final(self).top(0)->List_0)) == flat(old(self).top(0), *old(mc)),
    //@end
    //@arm ListCsv needs=1
    //| ensures r is Ok ==> csv_of(old(self).top(0), *old(mc)) is Some && final(self).gave(*old(self), 1, Value::Text(csv_of(old(self).top(0), *old(mc))->Some_0), aft_pos),
    //@end
    //@arm ListColumns needs=1 free=heap
    //| ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> final(self).made(*old(self), 1, aft_pos) && columns(old(self).top(0), *old(mc), final(self).top(0), *final(mc)),
    //@end
    //@arm ListDims needs=1 free=heap
    //@sub ops::dimensions\(mc,\s*&list\)\?\.into_iter\(\)\.map\(\|x\| Ok\(Number::new\(.*?\)\?\.into_\(\)\)\)\.collect::<Result<VecDeque<_>, NumberError>>\(\)\? ==> numbers(ops::dimensions(mc, &list)?)?
    //| ensures final(mc).grew::<C, S>(*old(mc)), r is Ok ==> final(self).made(*old(self), 1, aft_pos) && final(self).top(0) is List && !old(mc).live(final(self).top(0)->List_0) && dims_of(old(self).top(0), *old(mc)) is Some && final(mc).list(final(self).top(0)->List_0) =~= dims_of(old(self).top(0), *old(mc))->Some_0.map_values(|x: usize| Value::<'gc, C, S>::Number(Number(real_of(x as int)))),
    //@end
    //@arm ListReshape needs=match(len){VariadicLen::Fixed(k)=>k+1,VariadicLen::Dynamic=>2} free=heap
    //@sub self\.value_stack\.drain\(stack_size - len\.\.\)\.collect\(\) ==> self.value_stack.split_off(stack_size - len)
    //@sub self\.value_stack\.pop\(\)\.unwrap\(\)\.as_list\(\)\?\.borrow\(mc\)\.iter\(\)\.cloned\(\)\.collect\(\) ==> items(self.value_stack.pop().unwrap().as_list()?.borrow(mc))
    //@sub (?s)if dim < 0\.0 .. dim > real_f\(usize::MAX\) \{ return (Err\(ErrorCause::InvalidSize \{ value: dim \}\)) \}\s*let int_dim = dim as usize;\s*if real_f\(int_dim\) != dim \{ return Err\(ErrorCause::InvalidSize \{ value: dim \}\) \} ==> let int_dim = match size_(dim) { Some(x) => x, None => return \1 };
    //@sub let mut dims = Vec::with_capacity\(raw_dims\.len\(\)\); ==> let mut dims = Vec::<usize>::with_capacity(raw_dims.len()); let ghost all_ = raw_dims@;
    //@sub self\.value_stack\.push\((ops::reshape\(.*?\)\?)\); ==> let made_ = \1; let ghost made_heap_ = *mc; proof { let v = old(self).value_stack@; let n = match len { VariadicLen::Fixed(k) => k as int, VariadicLen::Dynamic => 1 }; let a = match len { VariadicLen::Fixed(k) => v.skip(v.len() - k), VariadicLen::Dynamic => old(mc).list(old(self).top(0)->List_0) }; assert(all_ =~= a); assert(src == old(self).top(n)); assert(reshaped(old(self).top(n), dims@, *old(mc), made_, *mc)); } self.value_stack.push(made_); proof { assert(self.top(0) == made_); assert(sizes(dims@, all_) && dims@.len() == all_.len()); assert(self.value_stack@.drop_last() =~= old(self).less(match len { VariadicLen::Fixed(k) => k as int, VariadicLen::Dynamic => 1 } + 1)); }
    //@attr #[verifier::loop_isolation(false)]
    //| ensures r is Err ==> final(mc).grew::<C, S>(*old(mc)), r is Ok ==> final(mc).grew::<C, S>(*old(mc)) && ({ let v = old(self).value_stack@; let n = match len { VariadicLen::Fixed(k) => k as int, VariadicLen::Dynamic => 1 }; let a = match len { VariadicLen::Fixed(k) => v.skip(v.len() - k), VariadicLen::Dynamic => old(mc).list(old(self).top(0)->List_0) };
    //|     &&& final(self).made(*old(self), n + 1, aft_pos) && (len is Dynamic ==> old(self).top(0) is List)
    //|     &&& shaped(old(self).top(n), a, *old(mc), final(self).top(0), *final(mc)) }),
    //@loop 1
    //| invariant rest_raw_dims@.len() <= all_.len(), rest_raw_dims@ =~= all_.skip(all_.len() - rest_raw_dims@.len()), dims@.len() == all_.len() - rest_raw_dims@.len(), sizes(dims@, all_),
    //| decreases rest_raw_dims@.len()
    //@top 1
    //| let ghost was_dims_ = dims@; proof { let k = all_.len() - was_raw_dims.len(); assert(was_raw_dims[0] == all_[k]); assert(rest_raw_dims@ =~= was_raw_dims.skip(1)); }
    //@bottom 1
    //| proof { let k = all_.len() - was_raw_dims.len(); assert(dims@ =~= was_dims_.push(dims@[k])); assert forall|i: int| 0 <= i < dims@.len() implies number_of(#[trigger] all_[i]) is Some && size_of_(number_of(all_[i])->Some_0.0) == Some(dims@[i]) by { if i < k { assert(was_dims_[i] == dims@[i]); } } }
    //@end
    //@arm ListCartesianProduct needs=match(len){VariadicLen::Fixed(k)=>k,VariadicLen::Dynamic=>1} free=heap
    //@sub self\.value_stack\.drain\(stack_size - len\.\.\)\.map\(\|x\| x\.as_list\(\)\)\.collect::<Result<_,_>>\(\)\? ==> lists_of(self.value_stack.split_off(stack_size - len))?
    //@sub self\.value_stack\.pop\(\)\.unwrap\(\)\.as_list\(\)\?\.borrow\(mc\)\.iter\(\)\.map\(\|x\| x\.as_list\(\)\)\.collect::<Result<_,_>>\(\)\? ==> lists_of(items(self.value_stack.pop().unwrap().as_list()?.borrow(mc)))?
    //@sub \(RefLock::new\((ops::cartesian_product\(mc,\s*&sources\))\)\)\.alloc\(mc\) ==> { let ghost was_ = *mc; let all_ = \1; proof { let v = old(self).value_stack@; let a = match len { VariadicLen::Fixed(k) => v.skip(v.len() - k), VariadicLen::Dynamic => old(mc).list(old(self).top(0)->List_0) }; assert(sources@ =~= lists_in(a)); assert(product_of(lists_in(a), was_, all_@, *mc)); } (RefLock::new(all_)).alloc(mc) }
    //| ensures r is Err ==> final(mc).like::<C, S>(*old(mc)), r is Ok ==> final(mc).grew::<C, S>(*old(mc)) && ({ let v = old(self).value_stack@; let n = match len { VariadicLen::Fixed(k) => k as int, VariadicLen::Dynamic => 1 }; let a = match len { VariadicLen::Fixed(k) => v.skip(v.len() - k), VariadicLen::Dynamic => old(mc).list(old(self).top(0)->List_0) };
    //|     &&& final(self).made(*old(self), n, aft_pos) && final(self).top(0) is List && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is List)
    //|     &&& multiplied(lists_in(a), *old(mc), final(mc).list(final(self).top(0)->List_0)) }),
    //@ghost BEFORE "self.pos = aft_pos;"
    //| proof { let v = old(self).value_stack@; let a = match len { VariadicLen::Fixed(k) => v.skip(v.len() - k), VariadicLen::Dynamic => old(mc).list(old(self).top(0)->List_0) }; assert(self.value_stack@.drop_last() =~= old(self).less(match len { VariadicLen::Fixed(k) => k as int, VariadicLen::Dynamic => 1 })); assert(self.top(0) is List); assert(exists|r: Seq<Value<'gc, C, S>>, m: Mutation<'gc>| #[trigger] product_of(lists_in(a), *old(mc), r, m) && r =~= mc.list(self.top(0)->List_0)); }
    //@end
    //@arm ListJson needs=1
    //@sub (?s)let value = (self\.value_stack\.pop\(\)\.unwrap\(\))\.to_simple\(\)\?\.into_json\(\)\?;\s*self\.value_stack\.push\(spell_int_\(value\)\.into_\(\)\); ==> let value = json_text_(\1, mc)?; self.value_stack.push(value.into_());
    //| ensures r is Ok ==> json_text(old(self).top(0), *old(mc)) is Some && final(self).gave(*old(self), 1, Value::Text(json_text(old(self).top(0), *old(mc))->Some_0), aft_pos),
    //@end
    //@arm ListLines needs=1
    //@sub let mut values = value\.iter\(\); ==> let mut values = items(value);
    //@sub values\.next\(\) ==> next_of(&mut values)
    //@sub (?s)Some\(x\) => \{\s*let mut res = x\.as_text\(\)\?\.as_str\(\)\.to_owned\(\); ==> Some(x) => { let mut res = Draft::of(x.as_text()?); let ghost all_ = value@; proof { assert(all_.take(1).len() == 1); }
    //@sub res\.as_str\(\)\.into_\(\) ==> res.done()
    //@attr #[verifier::loop_isolation(false)]
    //| ensures r is Ok ==> old(self).top(0) is List && final(self).made(*old(self), 1, aft_pos) && final(self).top(0) is Text && final(self).top(0)->Text_0.chars() =~= lines_of(old(mc).list(old(self).top(0)->List_0)) && forall|i: int| 0 <= i < old(mc).list(old(self).top(0)->List_0).len() ==> text_of(#[trigger] old(mc).list(old(self).top(0)->List_0)[i]) is Some,
    //@loop 1
    //| invariant rest_values@.len() < all_.len(), rest_values@ =~= all_.skip(all_.len() - rest_values@.len()), res.is() =~= lines_of(all_.take(all_.len() - rest_values@.len())), forall|i: int| 0 <= i < all_.len() - rest_values@.len() ==> text_of(#[trigger] all_[i]) is Some,
    //| decreases rest_values@.len()
    //@top 1
    //| proof { let k = all_.len() - was_values.len(); assert(was_values[0] == all_[k]); assert(rest_values@ =~= was_values.skip(1)); assert(all_.take(k + 1).drop_last() =~= all_.take(k)); assert(all_.take(k + 1).last() == all_[k]); }
    //@ghost BEFORE "self.value_stack.push(res"
    //| proof { assert(value@.take(value@.len() as int) =~= value@); }
    //@end
}
}
/// What the environment is asked: requests, commands, messages, time, media.
pub mod asks {
use super::*;
broadcast use crate::world::spelled_is;
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    //@arm PushRpcError needs=0
    //| ensures r is Ok, final(self).made(*old(self), 0, aft_pos), match old(self).last_rpc_error { Some(v) => final(self).top(0) == v, None => final(self).top(0) is Text && final(self).top(0)->Text_0.chars().len() == 0 },
    //@end
    //@arm PushSyscallError needs=0
    //| ensures r is Ok, final(self).made(*old(self), 0, aft_pos), match old(self).last_syscall_error { Some(v) => final(self).top(0) == v, None => final(self).top(0) is Text && final(self).top(0)->Text_0.chars().len() == 0 },
    //@end
    //@arm PushAnswer needs=0
    //| ensures r is Ok, final(self).made(*old(self), 0, aft_pos), match old(self).last_answer { Some(v) => final(self).top(0) == v, None => final(self).top(0) is Text && final(self).top(0)->Text_0.chars().len() == 0 },
    //@end
    //@arm PushLocalMessage needs=0
    //| ensures r is Ok, final(self).made(*old(self), 0, aft_pos), match old(self).last_message { Some(v) => final(self).top(0) == v, None => final(self).top(0) is Text && final(self).top(0)->Text_0.chars().len() == 0 },
    //@end
    //@arm CallRpc needs=names_in(tokens@).len()-3 free=heap,env
    //| requires names_in(tokens@).len() >= 3,
    //| ensures ({ let t = names_in(tokens@); let n = t.len() - 3;
    //|     &&& final(system).log() == old(system).log().push(final(system).log().last()) && final(system).log().last() is Request && final(system).log().last()->Request_0 is Rpc
    //|     &&& match final(system).log().last()->Request_0 { Request::Rpc { host, service, rpc, args } => (t[0].len() == 0 <==> host is None) && (host is Some ==> host->Some_0.chars() == t[0]) && service.chars() == t[1] && rpc.chars() == t[2] && args == pairs(t.skip(3), old(self).value_stack@.skip(old(self).value_stack@.len() - n)), _ => false }
    //|     &&& r is Ok ==> final(self).waits(*old(self), n, Defer::Request { key: final(system).request_key(), aft_pos, action: RequestAction::Rpc }) }),
    //@ghost BEFORE "let args = "
    //| let ghost names_ = arg_names@.map_values(|x: CompactString| x.chars());
    //| proof { assert(names_ =~= names_in(old_tokens_).skip(3)); }
    //@enter
    //| let ghost old_tokens_ = tokens@;
    //@end
    //@arm UnknownBlock needs=args free=heap,env
    //| ensures ({ let q = final(system).log().last(); let n = args as int;
    //|     &&& final(system).log() == old(system).log().push(q) && q is Request && q->Request_0 is UnknownBlock && q->Request_0->UnknownBlock_name.chars() == name@ && q->Request_0->UnknownBlock_args@ == old(self).value_stack@.skip(old(self).value_stack@.len() - n)
    //|     &&& r is Ok ==> final(self).waits(*old(self), n, Defer::Request { key: final(system).request_key(), aft_pos, action: RequestAction::Push }) }),
    //@end
    //@arm Syscall needs=match(len){VariadicLen::Fixed(k)=>k+1,VariadicLen::Dynamic=>2} free=heap,env
    //| requires len is Fixed ==> len->Fixed_0 < usize::MAX,
    //| ensures r is Ok ==> ({ let q = final(system).log().last(); let v = old(self).value_stack@; let n = match len { VariadicLen::Fixed(k) => k as int, VariadicLen::Dynamic => 1 };
    //|     &&& final(system).log() == old(system).log().push(q) && q is Request && q->Request_0 is Syscall && text_of(old(self).top(n)) is Some && q->Request_0->Syscall_name == spelled(text_of(old(self).top(n))->Some_0.chars())
    //|     &&& match len { VariadicLen::Fixed(k) => q->Request_0->Syscall_args@ == v.skip(v.len() - n), VariadicLen::Dynamic => old(self).top(0) is List && q->Request_0->Syscall_args@ == old(mc).list(old(self).top(0)->List_0) }
    //|     &&& final(self).waits(*old(self), n + 1, Defer::Request { key: final(system).request_key(), aft_pos, action: RequestAction::Syscall }) }),
    //@end
    //@arm Ask needs=1 free=heap,env
    //| ensures ({ let v = old(self).top(0);
    //|     &&& final(system).log() == old(system).log().push(Asked::Request(Request::Input { prompt: if v is Text && v->Text_0.chars().len() == 0 { None } else { Some(v) } }))
    //|     &&& r is Ok ==> final(self).waits(*old(self), 1, Defer::Request { key: final(system).request_key(), aft_pos, action: RequestAction::Input }) }),
    //@end
    //@arm PushProperty needs=0 free=heap,env
    //| ensures final(system).log() == old(system).log().push(Asked::Request(Request::Property { prop })), r is Ok ==> final(self).waits(*old(self), 0, Defer::Request { key: final(system).request_key(), aft_pos, action: RequestAction::Push }),
    //@end
    //@arm Print needs=1 free=heap,env
    //| ensures ({ let v = old(self).top(0);
    //|     &&& final(system).log() == old(system).log().push(Asked::Print(style, if v is Text && v->Text_0.chars().len() == 0 { None } else { Some(v) }))
    //|     &&& r is Ok ==> final(self).waits(*old(self), 1, Defer::Command { key: final(system).command_key(), aft_pos }) }),
    //@end
    //@arm SetProperty needs=1 free=heap,env
    //| ensures final(system).log() == old(system).log().push(Asked::SetProperty(prop, old(self).top(0))), r is Ok ==> final(self).waits(*old(self), 1, Defer::Command { key: final(system).command_key(), aft_pos }),
    //@end
    //@arm ChangeProperty needs=1 free=heap,env
    //| ensures final(system).log() == old(system).log().push(Asked::ChangeProperty(prop, old(self).top(0))), r is Ok ==> final(self).waits(*old(self), 1, Defer::Command { key: final(system).command_key(), aft_pos }),
    //@end
    //@arm StopSounds needs=0 free=heap,env
    //| ensures final(system).log() == old(system).log().push(Asked::StopSounds), r is Ok ==> final(self).waits(*old(self), 0, Defer::Command { key: final(system).command_key(), aft_pos }),
    //@end
    //@arm ClearEffects needs=0 free=heap,env
    //| ensures final(system).log() == old(system).log().push(Asked::ClearEffects), r is Ok ==> final(self).waits(*old(self), 0, Defer::Command { key: final(system).command_key(), aft_pos }),
    //@end
    //@arm ClearDrawings needs=0 free=heap,env
    //| ensures final(system).log() == old(system).log().push(Asked::ClearDrawings), r is Ok ==> final(self).waits(*old(self), 0, Defer::Command { key: final(system).command_key(), aft_pos }),
    //@end
    //@arm GotoXY needs=2 free=heap,env
    //| ensures r is Ok ==> final(self).moved(*old(self), 2, *old(system), *final(system), aft_pos) && number_of(old(self).top(1)) is Some && number_of(old(self).top(0)) is Some && final(system).log().last() == Asked::<C, S>::GotoXY(number_of(old(self).top(1))->Some_0, number_of(old(self).top(0))->Some_0),
    //@end
    //@arm PointTowardsXY needs=2 free=heap,env
    //| ensures r is Ok ==> final(self).moved(*old(self), 2, *old(system), *final(system), aft_pos) && number_of(old(self).top(1)) is Some && number_of(old(self).top(0)) is Some && final(system).log().last() == Asked::<C, S>::PointTowardsXY(number_of(old(self).top(1))->Some_0, number_of(old(self).top(0))->Some_0),
    //@end
    //@arm Forward needs=1 free=heap,env
    //| ensures r is Ok ==> final(self).moved(*old(self), 1, *old(system), *final(system), aft_pos) && number_of(old(self).top(0)) is Some && final(system).log().last() == Asked::<C, S>::Forward(number_of(old(self).top(0))->Some_0),
    //@end
    //@arm Goto needs=1 free=heap,env
    //| ensures r is Ok ==> final(self).moved(*old(self), 1, *old(system), *final(system), aft_pos) && match old(self).top(0) { Value::List(g) => old(mc).list(g).len() == 2 && number_of(old(mc).list(g)[0]) is Some && number_of(old(mc).list(g)[1]) is Some && final(system).log().last() == Asked::<C, S>::GotoXY(number_of(old(mc).list(g)[0])->Some_0, number_of(old(mc).list(g)[1])->Some_0), Value::Entity(e) => final(system).log().last() == Asked::GotoEntity(old(mc).at(e)), _ => false },
    //@end
    //@arm PointTowards needs=1 free=heap,env
    //| ensures r is Ok ==> final(self).moved(*old(self), 1, *old(system), *final(system), aft_pos) && match old(self).top(0) { Value::List(g) => old(mc).list(g).len() == 2 && number_of(old(mc).list(g)[0]) is Some && number_of(old(mc).list(g)[1]) is Some && final(system).log().last() == Asked::<C, S>::PointTowardsXY(number_of(old(mc).list(g)[0])->Some_0, number_of(old(mc).list(g)[1])->Some_0), Value::Entity(e) => final(system).log().last() == Asked::PointTowardsEntity(old(mc).at(e)), _ => false },
    //@end
    //@arm SendLocalMessage needs=if(target){2int}else{1} free=step
    //| ensures r is Ok ==> r->Ok_0 is Broadcast && ({ let n = if target { 2int } else { 1 };
    //|     &&& text_of(old(self).top(n - 1)) is Some && r->Ok_0->msg_type == text_of(old(self).top(n - 1))->Some_0 && (r->Ok_0->barrier is Some <==> wait) && (r->Ok_0->targets is Some <==> target)
    //|     &&& target ==> match old(self).top(0) { Value::List(g) => r->Ok_0->targets->Some_0@.len() == old(mc).list(g).len() && forall|i: int| 0 <= i < old(mc).list(g).len() ==> old(mc).list(g)[i] is Entity && #[trigger] r->Ok_0->targets->Some_0@[i] == old(mc).list(g)[i]->Entity_0, Value::Entity(e) => r->Ok_0->targets->Some_0@ =~= seq![e], _ => false }
    //|     &&& if wait { final(self).waits(*old(self), n, Defer::Barrier { condition: r->Ok_0->barrier->Some_0.cond(), aft_pos }) } else { final(self).took(*old(self), n, aft_pos) } }),
    //@end
    //@arm ResetTimer needs=0 free=globals
    //| ensures r is Ok <==> old(system).clock().ms() is Some, r is Ok ==> final(self).took(*old(self), 0, aft_pos) && final(global_context).timer_start == old(system).clock().ms()->Some_0,
    //|     *final(global_context) == (GlobalContext { timer_start: final(global_context).timer_start, ..*old(global_context) }),
    //@end
    //@arm PushTimer needs=0
    //| ensures r is Ok ==> old(system).clock().ms() is Some && final(self).gave(*old(self), 0, Value::Number(Number(quotient(real_of(if old(system).clock().ms()->Some_0 > old(global_context).timer_start { old(system).clock().ms()->Some_0 - old(global_context).timer_start } else { 0 }), 1000.0f64))), aft_pos),
    //@end
    //@arm Sleep needs=1 free=step
    //| ensures r is Ok ==> number_of(old(self).top(0)) is Some && ({ let ms = product(number_of(old(self).top(0))->Some_0.0, 1000.0f64);
    //|     if r->Ok_0 is Yield { final(self).took(*old(self), 1, aft_pos) } else { r->Ok_0 is Normal && old(system).clock().ms() is Some && ({ let t = old(system).clock().ms()->Some_0 + floor_of(ms); final(self).waits(*old(self), 1, Defer::Sleep { until: if t > u64::MAX { u64::MAX } else { t as u64 }, aft_pos }) }) } }),
    //@end
    //@arm PushRealTime needs=0
    //| ensures r is Ok ==> old(system).clock().local() is Some && ({ let t = old(system).clock().local()->Some_0;
    //|     final(self).gave(*old(self), 0, Value::Number(Number(real_of(match query { TimeQuery::UnixTimestampMs => ms_of(t.nanos()), TimeQuery::Year => t.y() as int, TimeQuery::Month => t.mo() as int, TimeQuery::Date => t.d() as int, TimeQuery::DayOfWeek => t.wd() as int, TimeQuery::Hour => t.h() as int, TimeQuery::Minute => t.mi() as int, TimeQuery::Second => t.sec() as int }))), aft_pos) }),
    //@sub \(t.unix_timestamp_nanos\(\) / 1000000\) ==> (to_ms(t.unix_timestamp_nanos()))
    //@end
    //@arm SendNetworkReply needs=1 free=env,errs
    //| ensures r is Ok ==> final(self).took(Process { reply_key: None, ..*old(self) }, 1, aft_pos) && json_of(old(self).top(0), *old(mc)) is Some,
    //|     final(system).log() == old(system).log() || old(self).reply_key is Some && final(self).reply_key is None && json_of(old(self).top(0), *old(mc)) is Some && final(system).log() == old(system).log().push(Asked::Reply(old(self).reply_key->Some_0, json_of(old(self).top(0), *old(mc))->Some_0)),
    //|     final(self).reply_key is None ==> old(self).reply_key is Some && final(system).log().len() == old(system).log().len() + 1 || old(self).reply_key is None,
    //|     r is Err ==> final(self).failed(Process { reply_key: final(self).reply_key, ..*old(self) }, 1),
    //@end
    //@arm SendNetworkMessage needs=names_in(tokens@).len() free=env
    //| requires names_in(tokens@).len() >= 1,
    //| ensures final(system).log() == old(system).log() || ({ let q = final(system).log().last(); let t = names_in(tokens@); let n = t.len() - 1;
    //|     &&& final(system).log() == old(system).log().push(q) && q is Message && q->Message_0 == t[0] && q->Message_1 == json_pairs(t.skip(1), old(self).value_stack@.subrange(old(self).value_stack@.len() - 1 - n, old(self).value_stack@.len() - 1), *old(mc)) && q->Message_3 == expect_reply
    //|     &&& match old(self).top(0) { Value::Text(x) => q->Message_2@.len() == 1 && q->Message_2@[0].chars() == x.chars(), Value::List(g) => q->Message_2@.len() == old(mc).list(g).len() && spelt(q->Message_2@, old(mc).list(g)), _ => false } }),
    //|     r is Ok ==> final(system).log().len() == old(system).log().len() + 1 && (final(self).took(*old(self), names_in(tokens@).len() as int, aft_pos) || final(self).waits(*old(self), names_in(tokens@).len() as int, Defer::MessageReply { key: final(system).reply_key(), aft_pos })),
    //@attr #[verifier::loop_isolation(false)]
    //@sub for val in x\.iter\(\) \{ ==> let items_ = items(x); let ghost all_ = items_@; for val in items_ {
    //@sub let mut res = Vec::with_capacity ==> let mut res = Vec::<CompactString>::with_capacity
    //@loop 1
    //| invariant rest_items_@.len() <= all_.len(), rest_items_@ =~= all_.skip(all_.len() - rest_items_@.len()), res@.len() == all_.len() - rest_items_@.len(), spelt(res@, all_),
    //| decreases rest_items_@.len()
    //@top 1
    //| proof { let k = all_.len() - was_items_.len(); assert(was_items_[0] == all_[k]); assert(rest_items_@ =~= was_items_.skip(1)); } let ghost was_res_ = res@;
    //@bottom 1
    //| proof { let k = all_.len() - was_items_.len(); assert(all_[k] is Text); assert(res@[k].chars() == all_[k]->Text_0.chars()); assert(res@ =~= was_res_.push(res@[k])); }
    //@enter
    //| let ghost tokens_ = tokens; let ghost stack_ = self.value_stack@;
    //@ghost BEFORE "let field_count ="
    //| proof { let n = field_names@.len() as int; let l = stack_.len() as int; assert(field_names@.map_values(|x: CompactString| x.chars()) =~= names_in(tokens_@).skip(1)); assert(self.value_stack@.skip(self.value_stack@.len() - n) =~= stack_.subrange(l - 1 - n, l - 1)); }
    //@end
    //@arm PushCostume needs=0
    //@sub entity\.costume\.(?:clone|dup)\(\)\.map\(\|x\| Value::Image\(x\)\)\.unwrap_or ==> as_image(entity.costume.dup()).unwrap_or
    //| ensures r is Ok, final(self).made(*old(self), 0, aft_pos), match old(mc).at(old(self).me()).costume { Some(x) => final(self).top(0) == Value::<'gc, C, S>::Image(x), None => final(self).top(0) is Text && final(self).top(0)->Text_0.chars().len() == 0 },
    //@end
    //@arm PushCostumeProperty needs=1 free=heap
    //@sub costume\.map\(\|x\| Text::from\(x\.name\.as_str\(\)\)\)\.unwrap_or_default\(\)\.into_\(\) ==> costume_name(costume).into_()
    //| ensures r is Ok ==> final(self).made(*old(self), 1, aft_pos) && final(self).top(0) is Text && ({ let l = old(mc).at(old(self).me()).costume_list; match old(self).top(0) { Value::Image(x) => final(self).top(0)->Text_0 == name_of(Some(x)), Value::Text(t) => final(self).top(0)->Text_0 == name_of(if t.chars().len() == 0 { None } else { l.entry(t.chars()) }) && (t.chars().len() > 0 ==> l.entry(t.chars()) is Some), _ => false } }), final(mc).like::<C, S>(*old(mc)),
    //@end
    //@arm SetCostume needs=1 free=heap,env
    //@sub new_costume\.as_ref\(\)\.map\(Rc::as_ptr\) != entity\.costume\.as_ref\(\)\.map\(Rc::as_ptr\) ==> differs(&new_costume, &entity.costume)
    //| ensures r is Ok ==> ({ let l = old(mc).at(old(self).me()).costume_list; let v = old(self).top(0); let n = match v { Value::Image(x) => Some(x), Value::Text(t) => if t.chars().len() == 0 { None } else { l.entry(t.chars()) }, _ => None };
    //|     &&& v is Image || v is Text && (v->Text_0.chars().len() > 0 ==> n is Some)
    //|     &&& if different(n, old(mc).at(old(self).me()).costume) { final(self).moved(*old(self), 1, *old(system), *final(system), aft_pos) && final(system).log().last() == Asked::<C, S>::SetCostume && final(system).shown() == n } else { final(self).took(*old(self), 1, aft_pos) && *final(system) == *old(system) && final(mc).like::<C, S>(*old(mc)) } }),
    //@end
    //@arm PlaySound needs=1 free=heap,env
    //| ensures r is Ok ==> ({ let l = old(mc).at(old(self).me()).sound_list; let v = old(self).top(0); let n = match v { Value::Audio(x) => Some(x), Value::Text(t) => if t.chars().len() == 0 { None } else { l.entry(t.chars()) }, _ => None };
    //|     &&& v is Audio || v is Text && (v->Text_0.chars().len() > 0 ==> n is Some)
    //|     &&& if n is Some { final(self).moved(*old(self), 1, *old(system), *final(system), aft_pos) && final(system).log().last() == Asked::<C, S>::PlaySound(n->Some_0, blocking) } else { final(self).took(*old(self), 1, aft_pos) && *final(system) == *old(system) } }),
    //@end
    //@arm PlayNotes needs=2 free=heap,env
    //@sub (\w+)\.borrow\(mc\)\.iter\(\)\.map\(ops::prep_note\)\.collect::<Result<_,_>>\(\)\? ==> ops::prep_notes(\1.borrow(mc))?
    //| ensures r is Ok ==> number_of(old(self).top(0)) is Some && ({ let b = number_of(old(self).top(0))->Some_0; let q = final(system).log().last();
    //|     if *final(system) == *old(system) { final(self).took(*old(self), 2, aft_pos) } else { final(self).moved(*old(self), 2, *old(system), *final(system), aft_pos) && q is PlayNotes && q->PlayNotes_1 == b && q->PlayNotes_2 == blocking && match old(self).top(1) { Value::List(g) => q->PlayNotes_0@.len() == old(mc).list(g).len() && forall|i: int| 0 <= i < old(mc).list(g).len() ==> Some(#[trigger] q->PlayNotes_0@[i]) == note_of(old(mc).list(g)[i]), v => q->PlayNotes_0@.len() == 1 && Some(q->PlayNotes_0@[0]) == note_of(v) } } }),
    //@end
    //@arm PushCostumeNumber needs=0
    //@sub entity\.costume\.as_ref\(\)\.and_then\(\|x\| entity\.costume_list\.iter\(\)\.enumerate\(\)\.find\(\|c\| Rc::ptr_eq\(x, &c\.1\.1\)\)\)\.map\(\|x\| x\.0 \+ 1\)\.unwrap_or\(0\) ==> next_or_zero(worn(entity))
    //| ensures r is Ok ==> final(self).gave(*old(self), 0, Value::Number(Number(real_of(match place_of(old(mc).at(old(self).me()).costume, *old(mc).at(old(self).me()).costume_list) { Some(i) => i as int + 1, None => 0 }))), aft_pos),
    //@end
    //@arm PushCostumeList needs=0 free=heap
    //@sub entity\.costume_list\.iter\(\)\.map\(\|x\| Value::Image\(x\.1\.clone\(\)\)\)\.collect\(\) ==> images(&entity.costume_list)
    //| ensures r is Ok, final(mc).grew::<C, S>(*old(mc)), final(self).made(*old(self), 0, aft_pos), final(self).top(0) is List && !old(mc).live(final(self).top(0)->List_0) && final(mc).list(final(self).top(0)->List_0) =~= old(mc).at(old(self).me()).costume_list.all().map_values(|x: Rc<Image>| Value::<'gc, C, S>::Image(x)),
    //@end
    //@arm NextCostume needs=0 free=heap,env
    //@sub entity\.costume\.as_ref\(\)\.and_then\(\|x\| entity\.costume_list\.iter\(\)\.enumerate\(\)\.find\(\|c\| Rc::ptr_eq\(x, &c\.1\.1\)\)\)\.map\(\|x\| x\.0\) ==> worn(entity)
    //@sub entity\.costume_list\.as_slice\(\)\[(.*?)\]\.value\.clone\(\) ==> entity.costume_list.value_at(\1)
    //@sub new_costume\.as_ref\(\)\.map\(Rc::as_ptr\) != entity\.costume\.as_ref\(\)\.map\(Rc::as_ptr\) ==> differs(&new_costume, &entity.costume)
    //| requires old(mc).at(old(self).me()).costume_list.size() < usize::MAX,
    //| ensures r is Ok ==> ({ let l = *old(mc).at(old(self).me()).costume_list; let c = old(mc).at(old(self).me()).costume; let k = place_of(c, l);
    //|     if k is Some && different(Some(l.all()[(k->Some_0 + 1) % (l.size() as int)]), c) { final(self).moved(*old(self), 0, *old(system), *final(system), aft_pos) && final(system).log().last() == Asked::<C, S>::SetCostume && final(system).shown() == Some(l.all()[(k->Some_0 + 1) % (l.size() as int)]) } else { final(self).took(*old(self), 0, aft_pos) && *final(system) == *old(system) && final(mc).like::<C, S>(*old(mc)) } }),
    //@end
    //@arm PushSoundList needs=0 free=heap
    //@sub entity\.sound_list\.iter\(\)\.map\(\|x\| Value::Audio\(x\.1\.clone\(\)\)\)\.collect\(\) ==> sounds(&entity.sound_list)
    //| ensures r is Ok, final(mc).grew::<C, S>(*old(mc)), final(self).made(*old(self), 0, aft_pos), final(self).top(0) is List && !old(mc).live(final(self).top(0)->List_0) && final(mc).list(final(self).top(0)->List_0) =~= old(mc).at(old(self).me()).sound_list.all().map_values(|x: Rc<Audio>| Value::<'gc, C, S>::Audio(x)),
    //@end
    //@arm PushSoundProperty needs=1
    //@sub Text::from\(sound\.name\.as_str\(\)\) ==> sound_name_(sound)
    //| ensures r is Ok ==> ({ let l = old(mc).at(old(self).me()).sound_list; match old(self).top(0) { Value::Audio(x) => final(self).gave(*old(self), 1, Value::Text(sound_name(x)), aft_pos), Value::Text(t) => l.entry(t.chars()) is Some && final(self).gave(*old(self), 1, Value::Text(sound_name(l.entry(t.chars())->Some_0)), aft_pos), _ => false } }),
    //@end
}
}
/// A turn: what was waited for, one instruction, and the delivery of its error.
pub mod turn {
use super::*;
broadcast use crate::world::spelled_is;
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    /// Assumed of the compiler and of `Instruction::read`: the code at a position that a process reaches is an instruction that finds on the stacks what it needs, and is not the last thing in memory.
    #[verifier::external_body] fn fetch<'a>(&self, mc: &Mutation<'gc>, global_context: &GlobalContext<'gc, C, S>) -> (r: (Instruction<'a>, usize))
        requires self.sound(), self.pos != usize::MAX, self.defer is None ensures r.1 != usize::MAX, self.fits(r.0, *global_context, *mc) { unimplemented!() }
    //@dispatch -> r
    //| requires old(self).sound(), old(self).pos != usize::MAX, old(self).defer is None,
    //| ensures final(self).sound(), final(self).global_context == old(self).global_context, final(self).call_stack@[0].entity == old(self).call_stack@[0].entity, r is Err ==> final(self).unharmed(*old(self)),
    //|     r is Ok && r->Ok_0 is Fork ==> r->Ok_0->Fork_pos != usize::MAX, final(self).defer is Some ==> Self::later(final(self).defer) != usize::MAX, r is Ok && !ends(r) ==> final(self).pos != usize::MAX && !(r->Ok_0 is Idle),
    //@end
    /// What holds of a process at every moment.
    pub open spec fn valid(self) -> bool { self.sound() && (self.pos != usize::MAX && self.defer is Some ==> Self::later(self.defer) != usize::MAX) }
    /// What an instruction leaves, whatever it is: `q` and the outcome `e`.
    pub open spec fn effect(self, q: Self, e: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>) -> bool {
        &&& q.sound() && q.global_context == self.global_context && q.call_stack@[0].entity == self.call_stack@[0].entity && (q.defer is Some ==> Self::later(q.defer) != usize::MAX)
        &&& e is Ok && !ends(e) ==> q.pos != usize::MAX && !(e->Ok_0 is Idle)
        &&& e is Ok && e->Ok_0 is Fork ==> e->Ok_0->Fork_pos != usize::MAX
        &&& e is Err ==> q.defer is None && q.warp_counter == self.warp_counter && q.barrier == self.barrier && q.handler_stack@ =~= self.handler_stack@ && alike(q.call_stack@, self.call_stack@) && self.base() <= q.value_stack@.len() && q.value_stack@.take(self.base()) =~= self.value_stack@.take(self.base())
    }
    /// The head of `Process::step_impl` and its match, one after the other.
    fn step_impl(&mut self, mc: &mut Mutation<'gc>, system: &mut Env<'gc, C, S>, global_context: &mut GlobalContext<'gc, C, S>) -> (r: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>)
        requires old(self).valid(), old(self).pos != usize::MAX ensures old(self).effect(*final(self), r)
    {
        let ghost o = *self;
        match self.resume(mc, system, global_context) {
            Err(e) => { return Err(e); }
            Ok(Some(x)) => { proof { assert(self.sound()); } return Ok(x); }
            Ok(None) => {}
        }
        let ghost m = *self;
        proof { assert(m.base() == o.base()); assert(m.value_stack@.take(o.base()) =~= o.value_stack@.take(o.base())); }
        let r = self.dispatch(mc, system, global_context);
        proof { if r is Err { assert(self.value_stack@.take(o.base()) =~= m.value_stack@.take(o.base())); } }
        r
    }
    /// A turn ended with `r`: the outcome `e` of the instruction was passed on, or its error went to the innermost handler.
    pub open spec fn settles(self, o: Self, q: Self, e: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>, r: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>) -> bool {
        match e {
            Ok(x) => r == Ok::<_, ExecError<C, S>>(x) && if ends(e) { self.pos == usize::MAX && self.barrier is None && self.reply_key is None && self.defer is None && self.call_stack == q.call_stack && self.value_stack == q.value_stack } else { self == q },
            Err(cause) => if o.handler_stack@.len() > 0 {
                let h = o.handler_stack@.last(); let n = h.call_stack_size - 1;
                let msg = match cause { ErrorCause::Custom { msg } => msg, _ => description(cause) };
                &&& r is Ok && r->Ok_0 is Normal && self.pos == h.pos && self.warp_counter == h.warp_counter && self.defer is None && self.barrier == o.barrier && self.handler_stack@ =~= o.handler_stack@
                &&& self.value_stack@ =~= o.value_stack@.take(h.value_stack_size as int) && alike(self.call_stack@, o.call_stack@.take(n + 1))
                &&& exists|t: Text| #[trigger] self.call_stack@.last().locals.map() == q.call_stack@[n].locals.map().insert(h.var.chars(), Shared::Unique(Value::Text(t))) && t.chars() == msg.chars()
            } else {
                &&& r is Err && r->Err_0.cause == cause && r->Err_0.pos == q.pos
                &&& self.pos == usize::MAX && self.barrier is None && self.reply_key is None && self.defer is None && alike(self.call_stack@, o.call_stack@)
            }
        }
    }
    pub open spec fn acts(self, p: Self, r: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>) -> bool { exists|q: Self, e: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>| #[trigger] self.effect(q, e) && p.settles(self, q, e, r) }
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" is_running -> r
    //| ensures r == (self.pos != usize::MAX),
    //@end
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" step -> r
    //@sub mc: &Mutation<'gc>\) ==> mc: &mut Mutation<'gc>, system: &mut Env<'gc, C, S>, global_context: &mut GlobalContext<'gc, C, S>)
    //@sub self\.step_impl\(mc\)\.map_err\(\|cause\| ExecError \{ cause, pos: self\.pos \}\) ==> match self.step_impl(mc, system, global_context) { Ok(x) => Ok(x), Err(cause) => Err(ExecError { cause, pos: self.pos }) }
    //@sub self\.(call_stack|value_stack)\.drain\(([^;]*?)\.\.\); ==> cut(&mut self.\1, \2);
    //@sub format_compact!\("\{x:\?\}"\) ==> describe(x)
    //@sub \.into\(\) ==> .into_()
    //| requires old(self).valid(),
    //| ensures old(self).pos == usize::MAX ==> *final(self) == *old(self) && r is Ok && r->Ok_0 is Idle,
    //|     final(self).valid(), final(self).call_stack@[0].entity == old(self).call_stack@[0].entity && final(self).global_context == old(self).global_context,
    //|     old(self).pos != usize::MAX ==> (final(self).pos == usize::MAX) == ends(r) && !(r is Ok && r->Ok_0 is Idle) && (r is Ok && r->Ok_0 is Fork ==> r->Ok_0->Fork_pos != usize::MAX),
    //|     old(self).pos != usize::MAX ==> old(self).acts(*final(self), r),
    //@end
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" new -> r
    //@sub context\.local_message\.map\(\|x\| Text::from\(x\.as_str\(\)\)\.into\(\)\) ==> message_value(context.local_message)
    //| ensures r.valid(), r.pos == context.start_pos, r.global_context == context.global_context, r.barrier == context.barrier, r.reply_key == context.reply_key, r.state == context.state, r.warp_counter == 0, r.defer is None, r.value_stack@.len() == 0, r.handler_stack@.len() == 0,
    //|     r.call_stack@.len() == 1, r.call_stack@[0].entity == context.entity, r.call_stack@[0].locals == context.locals, r.last_syscall_error is None, r.last_rpc_error is None, r.last_answer is None,
    //|     context.local_message is None ==> r.last_message is None, context.local_message is Some ==> r.last_message is Some && r.last_message->Some_0 is Text && r.last_message->Some_0->Text_0.chars() == context.local_message->Some_0.chars(),
    //@end
}
}
}
fn main() {}
}
