use vstd::prelude::*;
verus! {
pub mod heap {
//! Lists and sprites as they are made; tables with the contracts that verus/vecmap.rs discharges.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::rc::Rc;
use super::data::*;
pub trait GetType { type Output; }
pub trait CustomTypes<S>: Sized { type NativeValue: GetType; type EntityState; }
pub trait System<C>: Sized { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Gc<'gc, T> { p: PhantomData<&'gc T> }
impl<'gc, T> Clone for Gc<'gc, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'gc, T> Copy for Gc<'gc, T> { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefLock<T> { p: PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VecDeque<T> { p: PhantomData<T> }
#[verifier::external_body] pub struct Text { }
#[verifier::external_body] pub struct CompactString { }
#[verifier::external_body] pub struct ByteCode { }
#[verifier::external_body] pub struct Settings { }
#[verifier::external_body] pub struct Event { }
#[verifier::external_body] pub struct Effects { }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Closure<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[derive(Clone, Copy)] pub struct Number(pub f64);
impl Text { pub uninterp spec fn chars(self) -> Seq<char>; }
impl CompactString { pub uninterp spec fn chars(self) -> Seq<char>; }
impl Clone for CompactString { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Clone for Value<'gc, C, S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn text_of(x: &CompactString) -> (r: Text) ensures r.chars() == x.chars() { unimplemented!() }
#[verifier::external_body] pub fn bytes_of(x: &Vec<u8>) -> (r: Vec<u8>) ensures r == *x { unimplemented!() }
pub trait Named { spec fn chars(&self) -> Seq<char>; }
impl Named for Text { open spec fn chars(&self) -> Seq<char> { (*self).chars() } }
impl Named for CompactString { open spec fn chars(&self) -> Seq<char> { (*self).chars() } }
pub type List<'gc, C, S> = Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>;
pub type Sprite<'gc, C, S> = Gc<'gc, RefLock<Entity<'gc, C, S>>>;
/// What lies on the heap.
#[verifier::external_body] pub struct Mutation<'gc> { p: PhantomData<&'gc ()> }
impl<'gc> Mutation<'gc> {
    pub uninterp spec fn lists<C: CustomTypes<S>, S: System<C>>(self) -> Map<List<'gc, C, S>, Seq<Value<'gc, C, S>>>;
    pub uninterp spec fn sprites<C: CustomTypes<S>, S: System<C>>(self) -> Map<Sprite<'gc, C, S>, Entity<'gc, C, S>>;
    #[verifier::external_body] pub fn new_list<C: CustomTypes<S>, S: System<C>>(&mut self) -> (r: List<'gc, C, S>)
        ensures !old(self).lists::<C, S>().contains_key(r), final(self).lists::<C, S>() == old(self).lists::<C, S>().insert(r, Seq::empty()), final(self).sprites::<C, S>() == old(self).sprites::<C, S>() { unimplemented!() }
    #[verifier::external_body] pub fn push_back<C: CustomTypes<S>, S: System<C>>(&mut self, g: List<'gc, C, S>, x: Value<'gc, C, S>) requires old(self).lists::<C, S>().contains_key(g)
        ensures final(self).lists::<C, S>() == old(self).lists::<C, S>().insert(g, old(self).lists::<C, S>()[g].push(x)), final(self).sprites::<C, S>() == old(self).sprites::<C, S>() { unimplemented!() }
    #[verifier::external_body] pub fn new_sprite<C: CustomTypes<S>, S: System<C>>(&mut self, e: Entity<'gc, C, S>) -> (r: Sprite<'gc, C, S>)
        ensures !old(self).sprites::<C, S>().contains_key(r), final(self).sprites::<C, S>() == old(self).sprites::<C, S>().insert(r, e), final(self).lists::<C, S>() == old(self).lists::<C, S>() { unimplemented!() }
}
/// A table that keeps its order: the pairs of names and values, each name once.
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct VecMap<K, V, const SORTED: bool> { p: PhantomData<(K, V)> }
impl<K: Named, V, const SORTED: bool> VecMap<K, V, SORTED> {
    pub uninterp spec fn pairs(self) -> Seq<(Seq<char>, V)>;
    pub uninterp spec fn map(self) -> Map<Seq<char>, V>;
    pub open spec fn names(self) -> Seq<Seq<char>> { self.pairs().map_values(|p: (Seq<char>, V)| p.0) }
    #[verifier::external_body] pub broadcast proof fn known(self) ensures #![trigger self.pairs()] #![trigger self.map()] forall|i: int, j: int| 0 <= i < j < self.pairs().len() ==> (#[trigger] self.pairs()[i]).0 != (#[trigger] self.pairs()[j]).0, forall|i: int| 0 <= i < self.pairs().len() ==> self.map().contains_key((#[trigger] self.pairs()[i]).0) && self.map()[self.pairs()[i].0] == self.pairs()[i].1, forall|k: Seq<char>| #[trigger] self.map().contains_key(k) ==> exists|i: int| 0 <= i < self.pairs().len() && (#[trigger] self.pairs()[i]).0 == k { }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.map() == Map::<Seq<char>, V>::empty(), r.pairs() == Seq::<(Seq<char>, V)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, key: K, value: V) -> (r: Option<V>) ensures final(self).map() == old(self).map().insert(key.chars(), value), old(self).map().contains_key(key.chars()) ==> final(self).names() =~= old(self).names(), !SORTED && !old(self).map().contains_key(key.chars()) ==> final(self).pairs() =~= old(self).pairs().push((key.chars(), value)) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.pairs().len() { unimplemented!() }
    /// The i-th of iter()
    #[verifier::external_body] pub fn pair_at(&self, i: usize) -> (r: (&K, &V)) requires i < self.pairs().len() ensures r.0.chars() == self.pairs()[i as int].0, *r.1 == self.pairs()[i as int].1 { unimplemented!() }
    /// as_slice()[i].value.clone()
    #[verifier::external_body] pub fn value_at(&self, i: usize) -> (r: V) requires i < self.pairs().len() ensures r == self.pairs()[i as int].1 { unimplemented!() }
}
#[verifier::accept_recursive_types(T)] pub enum Shared<'gc, T> { Unique(T), Aliased(Gc<'gc, RefLock<T>>) }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct SymbolTable<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
impl<'gc, C: CustomTypes<S>, S: System<C>> SymbolTable<'gc, C, S> {
    pub uninterp spec fn map(self) -> Map<Seq<char>, Shared<'gc, Value<'gc, C, S>>>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.map() == Map::<Seq<char>, Shared<'gc, Value<'gc, C, S>>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn define_or_redefine(&mut self, var: &CompactString, value: Shared<'gc, Value<'gc, C, S>>) ensures final(self).map() == old(self).map().insert(var.chars(), value) { unimplemented!() }
}
pub fn unreachable<T>() -> T requires false { vstd::pervasive::unreached() }
impl Properties { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
/// Sets the colour of the pen (the four fields for it, from to_hsva).
#[verifier::external_body] pub fn paint(p: &mut Properties, c: (u8, u8, u8, u8)) ensures *final(p) == (Properties { pen_color_h: final(p).pen_color_h, pen_color_s: final(p).pen_color_s, pen_color_v: final(p).pen_color_v, pen_color_t: final(p).pen_color_t, ..*old(p) }), painted(*final(p), c) { unimplemented!() }
pub uninterp spec fn painted(p: Properties, c: (u8, u8, u8, u8)) -> bool;
pub uninterp spec fn begun<'gc, C: CustomTypes<S>, S: System<C>>(k: EntityKind<'gc, '_, C, S>, s: C::EntityState) -> bool;
/// C::EntityState::from
#[verifier::external_body] pub fn begin<'gc, 'a, C: CustomTypes<S>, S: System<C>>(k: EntityKind<'gc, 'a, C, S>) -> (r: C::EntityState) ensures begun(k, r) { unimplemented!() }
#[verifier::external_body] pub fn start_time<S>(s: &Rc<S>) -> (r: u64) { unimplemented!() }
}
pub mod data {
use vstd::prelude::*;
use std::rc::Rc;
use super::heap::*;
//@type src/runtime.rs Value
//@type src/runtime.rs Image
//@type src/runtime.rs Audio
//@type src/runtime.rs Properties
//@type src/runtime.rs EntityKind
//@type src/runtime.rs Entity
//@type src/runtime.rs GlobalContext
//@type src/bytecode.rs InitValue
//@type src/bytecode.rs RefValue
//@type src/bytecode.rs EntityInitInfo
//@type src/bytecode.rs InitInfo sub=/MustBeU128<FINGERPRINT>/u8/
}
pub mod init {
use vstd::prelude::*;
use std::rc::Rc;
use super::heap::*;
use super::data::*;
pub type V<'gc, C, S> = Value<'gc, C, S>;
pub open spec fn sound_ref(x: InitValue, r: Seq<RefValue>) -> bool { x is Ref && x->Ref_0 < r.len() && r[x->Ref_0 as int] is Audio }
pub open spec fn image_ref(x: InitValue, r: Seq<RefValue>) -> bool { x is Ref && x->Ref_0 < r.len() && r[x->Ref_0 as int] is Image }
pub open spec fn within(x: InitValue, r: Seq<RefValue>) -> bool { x is Ref ==> x->Ref_0 < r.len() }
pub open spec fn all_within(x: VecMap<CompactString, InitValue, false>, r: Seq<RefValue>) -> bool { forall|i: int| 0 <= i < x.pairs().len() ==> within((#[trigger] x.pairs()[i]).1, r) }
/// A description the compiler makes: what it refers to is there, costumes are images and sounds are sounds.
pub open spec fn sound_info(e: EntityInitInfo, r: Seq<RefValue>) -> bool {
    all_within(e.fields, r) && (forall|i: int| 0 <= i < e.sounds.pairs().len() ==> sound_ref((#[trigger] e.sounds.pairs()[i]).1, r)) && (forall|i: int| 0 <= i < e.costumes.pairs().len() ==> image_ref((#[trigger] e.costumes.pairs()[i]).1, r))
}
pub open spec fn consistent(x: InitInfo) -> bool {
    &&& all_within(x.globals, x.ref_values@)
    &&& forall|i: int, k: int| 0 <= i < x.ref_values@.len() && x.ref_values@[i] is List && 0 <= k < x.ref_values@[i]->List_0@.len() ==> within(#[trigger] x.ref_values@[i]->List_0@[k], x.ref_values@)
    &&& forall|i: int| 0 <= i < x.entities@.len() ==> sound_info(#[trigger] x.entities@[i], x.ref_values@)
}
/// The value a description stands for; `refs`: what its references stand for.
pub open spec fn value_of<'gc, C: CustomTypes<S>, S: System<C>>(x: InitValue, refs: Seq<V<'gc, C, S>>) -> V<'gc, C, S> { match x { InitValue::Bool(b) => Value::Bool(b), InitValue::Number(n) => Value::Number(n), InitValue::Ref(i) => refs[i as int] } }
/// `v` is what the reference `x` describes, but for the items of lists.
pub open spec fn made_for<'gc, C: CustomTypes<S>, S: System<C>>(x: RefValue, v: V<'gc, C, S>) -> bool {
    match x {
        RefValue::Text(t) => v is Text && v->Text_0.chars() == t.chars(), RefValue::Image(c, p, n) => v is Image && *v->Image_0 == (Image { content: c, center: p, name: n }), RefValue::Audio(c, n) => v is Audio && *v->Audio_0 == (Audio { content: c, name: n }), RefValue::List(_) => v is List,
    }
}
pub open spec fn items<'gc, C: CustomTypes<S>, S: System<C>>(x: Seq<InitValue>, refs: Seq<V<'gc, C, S>>) -> Seq<V<'gc, C, S>> { x.map_values(|y: InitValue| value_of(y, refs)) }
pub type Lists<'gc, C, S> = Map<List<'gc, C, S>, Seq<V<'gc, C, S>>>;
/// Everything that was there is as it was.
pub open spec fn untouched<'gc, C: CustomTypes<S>, S: System<C>>(was: Lists<'gc, C, S>, now: Lists<'gc, C, S>) -> bool { forall|g: List<'gc, C, S>| #[trigger] was.contains_key(g) ==> now.contains_key(g) && now[g] == was[g] }
/// The references are made: the lists new, one each; those before `k` are filled, the others empty.
pub open spec fn laid_out<'gc, C: CustomTypes<S>, S: System<C>>(r: Seq<RefValue>, refs: Seq<V<'gc, C, S>>, was: Lists<'gc, C, S>, now: Lists<'gc, C, S>, k: int) -> bool {
    &&& refs.len() <= r.len() && untouched(was, now)
    &&& forall|i: int| 0 <= i < refs.len() ==> made_for(#[trigger] r[i], refs[i])
    &&& forall|i: int| 0 <= i < refs.len() && r[i] is List ==> !was.contains_key((#[trigger] refs[i])->List_0) && now.contains_key(refs[i]->List_0) && now[refs[i]->List_0] =~= if i < k { items(r[i]->List_0@, refs) } else { Seq::empty() }
    &&& forall|i: int, j: int| 0 <= i < j < refs.len() && r[i] is List && r[j] is List ==> (#[trigger] refs[i]) != (#[trigger] refs[j])
}
/// The variables the table of a description gives, and no others.
pub open spec fn holds<'gc, C: CustomTypes<S>, S: System<C>>(x: VecMap<CompactString, InitValue, false>, refs: Seq<V<'gc, C, S>>, t: SymbolTable<'gc, C, S>) -> bool {
    (forall|k: Seq<char>| #[trigger] t.map().contains_key(k) <==> x.map().contains_key(k)) && forall|k: Seq<char>| x.map().contains_key(k) ==> #[trigger] t.map()[k] == Shared::<'gc, V<'gc, C, S>>::Unique(value_of(x.map()[k], refs))
}
pub open spec fn holds_up_to<'gc, C: CustomTypes<S>, S: System<C>>(x: VecMap<CompactString, InitValue, false>, refs: Seq<V<'gc, C, S>>, t: SymbolTable<'gc, C, S>, n: int) -> bool {
    (forall|k: Seq<char>| #[trigger] t.map().contains_key(k) <==> exists|i: int| 0 <= i < n && (#[trigger] x.pairs()[i]).0 == k) && forall|i: int| 0 <= i < n ==> t.map()[(#[trigger] x.pairs()[i]).0] == Shared::<'gc, V<'gc, C, S>>::Unique(value_of(x.pairs()[i].1, refs))
}
pub proof fn all_held<'gc, C: CustomTypes<S>, S: System<C>>(x: VecMap<CompactString, InitValue, false>, refs: Seq<V<'gc, C, S>>, t: SymbolTable<'gc, C, S>) requires holds_up_to(x, refs, t, x.pairs().len() as int) ensures holds(x, refs, t) {
    x.known();
    assert forall|k: Seq<char>| #[trigger] t.map().contains_key(k) implies x.map().contains_key(k) by { let i = choose|i: int| 0 <= i < x.pairs().len() && (#[trigger] x.pairs()[i]).0 == k; assert(x.map().contains_key(x.pairs()[i].0)); }
    assert forall|k: Seq<char>| x.map().contains_key(k) implies #[trigger] t.map()[k] == Shared::<'gc, V<'gc, C, S>>::Unique(value_of(x.map()[k], refs)) by { let i = choose|i: int| 0 <= i < x.pairs().len() && (#[trigger] x.pairs()[i]).0 == k; assert(x.pairs()[i].0 == k); }
}
/// The sounds, in the order of the description.
pub open spec fn sounds<'gc, C: CustomTypes<S>, S: System<C>>(x: VecMap<CompactString, InitValue, false>, refs: Seq<V<'gc, C, S>>, l: VecMap<CompactString, Rc<Audio>, false>, n: int) -> bool {
    l.pairs().len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l.pairs()[i]).0 == x.pairs()[i].0 && value_of(x.pairs()[i].1, refs) == V::<'gc, C, S>::Audio(l.pairs()[i].1)
}
pub open spec fn costumes<'gc, C: CustomTypes<S>, S: System<C>>(x: VecMap<CompactString, InitValue, false>, refs: Seq<V<'gc, C, S>>, l: VecMap<CompactString, Rc<Image>, false>, n: int) -> bool {
    l.pairs().len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] l.pairs()[i]).0 == x.pairs()[i].0 && value_of(x.pairs()[i].1, refs) == V::<'gc, C, S>::Image(l.pairs()[i].1)
}
pub open spec fn placed(p: Properties, x: EntityInitInfo) -> bool { p.visible == x.visible && p.size == x.size && p.pos == x.pos && p.heading == x.heading && painted(p, x.color) }
/// The sprite `e` is in the state `x` describes; the first one is the stage.
pub open spec fn described<'gc, C: CustomTypes<S>, S: System<C>>(x: EntityInitInfo, first: bool, refs: Seq<V<'gc, C, S>>, e: Entity<'gc, C, S>) -> bool {
    &&& e.name.chars() == x.name.chars() && e.original is None && holds(x.fields, refs, e.fields)
    &&& sounds(x.sounds, refs, *e.sound_list, x.sounds.pairs().len() as int) && costumes(x.costumes, refs, *e.costume_list, x.costumes.pairs().len() as int)
    &&& match x.active_costume { Some(i) if i < x.costumes.pairs().len() => e.costume == Some(e.costume_list.pairs()[i as int].1), _ => e.costume is None }
    &&& exists|p: Properties| #[trigger] placed(p, x) && if first { begun::<C, S>(EntityKind::Stage { props: p }, e.state) } else { begun::<C, S>(EntityKind::Sprite { props: p }, e.state) }
}
/// No later sprite of `x` has the name of the `i`-th.
pub open spec fn last_named(x: Seq<EntityInitInfo>, i: int, n: int) -> bool { forall|j: int| i < j < n ==> (#[trigger] x[j]).name.chars() != x[i].name.chars() }
pub open spec fn peopled<'gc, C: CustomTypes<S>, S: System<C>>(x: Seq<EntityInitInfo>, refs: Seq<V<'gc, C, S>>, t: VecMap<Text, Sprite<'gc, C, S>, false>, now: Map<Sprite<'gc, C, S>, Entity<'gc, C, S>>, was: Map<Sprite<'gc, C, S>, Entity<'gc, C, S>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n && last_named(x, i, n) ==> t.map().contains_key((#[trigger] x[i]).name.chars()) && ({ let g = t.map()[x[i].name.chars()]; now.contains_key(g) && !was.contains_key(g) && described(x[i], i == 0, refs, now[g]) })
    &&& forall|k: Seq<char>| #[trigger] t.map().contains_key(k) ==> now.contains_key(t.map()[k]) && exists|i: int| 0 <= i < n && (#[trigger] x[i]).name.chars() == k
}
pub proof fn hold_next<'gc, C: CustomTypes<S>, S: System<C>>(x: VecMap<CompactString, InitValue, false>, refs: Seq<V<'gc, C, S>>, t: SymbolTable<'gc, C, S>, u: SymbolTable<'gc, C, S>, n: int)
    requires holds_up_to(x, refs, t, n), 0 <= n < x.pairs().len(), u.map() == t.map().insert(x.pairs()[n].0, Shared::<'gc, V<'gc, C, S>>::Unique(value_of(x.pairs()[n].1, refs))) ensures holds_up_to(x, refs, u, n + 1) {
    x.known();
    assert forall|k: Seq<char>| #[trigger] u.map().contains_key(k) <==> exists|i: int| 0 <= i < n + 1 && (#[trigger] x.pairs()[i]).0 == k by {
        if u.map().contains_key(k) { if k == x.pairs()[n].0 { assert(x.pairs()[n].0 == k); } else { assert(t.map().contains_key(k)); let i = choose|i: int| 0 <= i < n && (#[trigger] x.pairs()[i]).0 == k; assert(x.pairs()[i].0 == k); } }
        if exists|i: int| 0 <= i < n + 1 && (#[trigger] x.pairs()[i]).0 == k { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] x.pairs()[i]).0 == k; if i < n { assert(t.map().contains_key(k)); } }
    }
}
/// What is put in next is not in yet.
pub proof fn new_name<T>(x: VecMap<CompactString, InitValue, false>, l: VecMap<CompactString, T, false>, n: int)
    requires l.pairs().len() == n, 0 <= n < x.pairs().len(), forall|i: int| 0 <= i < n ==> (#[trigger] l.pairs()[i]).0 == x.pairs()[i].0 ensures !l.map().contains_key(x.pairs()[n].0) {
    x.known(); l.known();
}
pub proof fn one_more<'gc, C: CustomTypes<S>, S: System<C>>(x: Seq<EntityInitInfo>, refs: Seq<V<'gc, C, S>>, t: VecMap<Text, Sprite<'gc, C, S>, false>, u: VecMap<Text, Sprite<'gc, C, S>, false>, then: Map<Sprite<'gc, C, S>, Entity<'gc, C, S>>, now: Map<Sprite<'gc, C, S>, Entity<'gc, C, S>>, was: Map<Sprite<'gc, C, S>, Entity<'gc, C, S>>, n: int, g: Sprite<'gc, C, S>, e: Entity<'gc, C, S>)
    requires peopled(x, refs, t, then, was, n), 0 <= n < x.len(), !then.contains_key(g), now == then.insert(g, e), u.map() == t.map().insert(x[n].name.chars(), g), described(x[n], n == 0, refs, e), !was.contains_key(g) ensures peopled(x, refs, u, now, was, n + 1) {
    assert forall|i: int| 0 <= i < n + 1 && last_named(x, i, n + 1) implies u.map().contains_key((#[trigger] x[i]).name.chars()) && ({ let h = u.map()[x[i].name.chars()]; now.contains_key(h) && !was.contains_key(h) && described(x[i], i == 0, refs, now[h]) }) by {
        if i < n { assert(last_named(x, i, n)); assert(x[n].name.chars() != x[i].name.chars()); assert(t.map().contains_key(x[i].name.chars())); }
    }
    assert forall|k: Seq<char>| #[trigger] u.map().contains_key(k) implies now.contains_key(u.map()[k]) && exists|i: int| 0 <= i < n + 1 && (#[trigger] x[i]).name.chars() == k by {
        if k == x[n].name.chars() { assert(x[n].name.chars() == k); } else { assert(t.map().contains_key(k)); let i = choose|i: int| 0 <= i < n && (#[trigger] x[i]).name.chars() == k; assert(x[i].name.chars() == k); }
    }
}
//@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> GlobalContext<'gc, C, S>" get_value -> r
//| requires value is Ref ==> value->Ref_0 < allocated_refs@.len(),
//| ensures r == value_of(*value, allocated_refs@),
//@end
impl<'gc, C: CustomTypes<S>, S: System<C>> GlobalContext<'gc, C, S> {
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> GlobalContext<'gc, C, S>" from_init -> r noinner
    //@sub mc: &Mutation<'gc> ==> mc: &mut Mutation<'gc>
    //@sub init_info\.ref_values\.iter\(\)\.map\(\|ref_value\| match ref_value \{ ==> Vec::new(); for j_ in 0..init_info.ref_values.len() { let ref_value = &init_info.ref_values[j_]; let ref_ = match ref_value {
    //@sub let allocated_refs = ==> let mut allocated_refs =
    //@sub \}\)\.collect::<Vec<_>>\(\); ==> }; allocated_refs.push(ref_); }
    //@sub Value::Text\(value\.as_str\(\)\.into\(\)\) ==> Value::Text(text_of(value))
    //@sub content\.clone\(\) ==> bytes_of(content)
    //@sub Gc::new\(mc, Default::default\(\)\) ==> mc.new_list()
    //@sub for \(allocated_ref, ref_value\) in iter::zip\(&allocated_refs, &init_info\.ref_values\) \{ ==> for i_ in 0..allocated_refs.len() { let (allocated_ref, ref_value) = (&allocated_refs[i_], &init_info.ref_values[i_]);
    //@sub => continue, ==> => (),
    //@sub unreachable!\(\) ==> unreachable()
    //@sub let mut allocated_ref = allocated_ref\.borrow_mut\(mc\); ==> let list_ = *allocated_ref;
    //@sub for value in values \{ ==> for k_ in 0..values.len() { let value = &values[k_];
    //@sub allocated_ref\.push_back\((.*)\); ==> { let item_ = \1; mc.push_back(list_, item_); }
    //@sub for \((\w+), value\) in ([\w.]+)\.iter\(\) \{ ==> for i_ in 0..\2.len() { let (\1, value) = \2.pair_at(i_);
    //@sub for \(i, entity_info\) in init_info\.entities\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..init_info.entities.len() { let entity_info = &init_info.entities[i];
    //@sub entity_info\.active_costume\.and_then\(\|x\| costume_list\.as_slice\(\)\.get\(x\)\)\.map\(\|x\| x\.value\.clone\(\)\) ==> match entity_info.active_costume { Some(x) => if x < costume_list.len() { Some(costume_list.value_at(x)) } else { None }, None => None }
    //@sub let \(r, g, b, a\) = entity_info\.color;[\s\S]*?props\.pen_color_t = .*?\n ==> paint(&mut props, entity_info.color);\n
    //@sub C::EntityState::from\(if i == 0 \{ (.*?) \} else \{ (.*?) \}\) ==> if i == 0 { begin::<C, S>(\1) } else { begin::<C, S>(\2) }
    //@sub Text::from\(entity_info\.name\.as_str\(\)\) ==> text_of(&entity_info.name)
    //@sub Gc::new\(mc, RefLock::new\((Entity \{ .* \})\)\) ==> mc.new_sprite(\1)
    //@sub (\w+)\.insert\((name\.clone\(\)), (mc\.new_sprite.*)\); ==> let sprite_ = \3; \1.insert(name_, sprite_);
    //@sub let name = text_of ==> let name_ = text_of(&entity_info.name); let name = text_of
    //@sub init_info\.proj_name\.as_str\(\)\.into\(\) ==> text_of(&init_info.proj_name)
    //@sub system\.time\(Precision::Medium\)\.to_arbitrary_ms::<C, S>\(\)\.unwrap_or\(0\) ==> start_time(&system)
    //@attr #[verifier::loop_isolation(false)]
    //| requires consistent(*init_info),
    //| ensures exists|refs: Seq<V<'gc, C, S>>| #[trigger] laid_out(init_info.ref_values@, refs, old(mc).lists(), final(mc).lists(), refs.len() as int) && refs.len() == init_info.ref_values@.len() && holds(init_info.globals, refs, r.globals)
    //|         && peopled(init_info.entities@, refs, r.entities, final(mc).sprites(), old(mc).sprites(), init_info.entities@.len() as int),
    //|     r.proj_name.chars() == init_info.proj_name.chars(), r.bytecode == bytecode, r.settings == settings, r.system == system,
    //@enter
    //| let ghost rv = init_info.ref_values@; let ghost was = mc.lists::<C, S>(); let ghost crowd = mc.sprites::<C, S>(); let ghost people = init_info.entities@;
    //@loop 1
    //| invariant next_j_ <= end_j_, end_j_ == rv.len(), allocated_refs@.len() == next_j_, laid_out(rv, allocated_refs@, was, mc.lists(), 0), mc.sprites::<C, S>() == crowd,
    //|     decreases end_j_ - next_j_,
    //@top 1
    //| let ghost done = allocated_refs@; let ghost then = mc.lists::<C, S>();
    //@bottom 1
    //| proof { assert forall|i: int| 0 <= i < allocated_refs@.len() implies made_for(#[trigger] rv[i], allocated_refs@[i]) by { if i < done.len() { assert(allocated_refs@[i] == done[i]); } } }
    //@loop 2
    //| invariant next_i_ <= end_i_, end_i_ == rv.len(), end_i_ == allocated_refs@.len(), laid_out(rv, allocated_refs@, was, mc.lists(), next_i_ as int), mc.sprites::<C, S>() == crowd,
    //|     decreases end_i_ - next_i_,
    //@top 2
    //| let ghost then = mc.lists::<C, S>(); proof { assert(made_for(rv[i_ as int], allocated_refs@[i_ as int])); }
    //@ghost "let list_ = *allocated_ref;"
    //| proof { assert(allocated_refs@[i_ as int]->List_0 == list_); assert(items(values@, allocated_refs@).take(0) =~= Seq::<V<'gc, C, S>>::empty()); }
    //@loop 3
    //| invariant next_k_ <= end_k_, end_k_ == values.len(), mc.lists::<C, S>() =~= then.insert(list_, items(values@, allocated_refs@).take(next_k_ as int)), mc.sprites::<C, S>() == crowd,
    //|     decreases end_k_ - next_k_,
    //@top 3
    //| proof { assert(within(values@[k_ as int], rv)); }
    //@bottom 3
    //| proof { assert(items(values@, allocated_refs@).take(k_ as int).push(value_of(values@[k_ as int], allocated_refs@)) =~= items(values@, allocated_refs@).take(k_ as int + 1)); }
    //@loop 4
    //| invariant next_i_ <= end_i_, end_i_ == init_info.globals.pairs().len(), holds_up_to(init_info.globals, allocated_refs@, globals, next_i_ as int), laid_out(rv, allocated_refs@, was, mc.lists(), rv.len() as int), mc.sprites::<C, S>() == crowd,
    //|     decreases end_i_ - next_i_,
    //@top 4
    //| let ghost before = globals; proof { assert(within(init_info.globals.pairs()[i_ as int].1, rv)); }
    //@bottom 4
    //| proof { hold_next(init_info.globals, allocated_refs@, before, globals, i_ as int); }
    //@loop 5
    //| invariant next_i <= end_i, end_i == people.len(), laid_out(rv, allocated_refs@, was, mc.lists(), rv.len() as int), peopled(people, allocated_refs@, entities, mc.sprites(), crowd, next_i as int),
    //|     forall|g: Sprite<'gc, C, S>| #[trigger] crowd.contains_key(g) ==> mc.sprites::<C, S>().contains_key(g),
    //|     decreases end_i - next_i,
    //@top 5
    //| let ghost before = entities; let ghost around = mc.sprites::<C, S>(); proof { assert(sound_info(people[i as int], rv)); }
    //@bottom 5
    //| proof {
    //|     all_held(entity_info.fields, allocated_refs@, fields_);
    //|     let made = mc.sprites::<C, S>()[sprite_];
    //|     assert(placed(props_, *entity_info));
    //|     assert(described(people[i as int], i == 0, allocated_refs@, made));
    //|     one_more(people, allocated_refs@, before, entities, around, mc.sprites(), crowd, i as int, sprite_, made);
    //| }
    //@ghost BEFORE "let state ="
    //| let ghost props_ = props; let ghost fields_ = fields;
    //@loop 6
    //| invariant next_i_ <= end_i_, end_i_ == entity_info.fields.pairs().len(), holds_up_to(entity_info.fields, allocated_refs@, fields, next_i_ as int),
    //|     decreases end_i_ - next_i_,
    //@top 6
    //| let ghost before = fields; proof { assert(within(entity_info.fields.pairs()[i_ as int].1, rv)); }
    //@bottom 6
    //| proof { hold_next(entity_info.fields, allocated_refs@, before, fields, i_ as int); }
    //@loop 7
    //| invariant next_i_ <= end_i_, end_i_ == entity_info.sounds.pairs().len(), sounds(entity_info.sounds, allocated_refs@, res, next_i_ as int),
    //|     decreases end_i_ - next_i_,
    //@top 7
    //| proof { assert(sound_ref(entity_info.sounds.pairs()[i_ as int].1, rv)); new_name(entity_info.sounds, res, i_ as int); let k = entity_info.sounds.pairs()[i_ as int].1->Ref_0 as int; assert(made_for(rv[k], allocated_refs@[k])); }
    //@loop 8
    //| invariant next_i_ <= end_i_, end_i_ == entity_info.costumes.pairs().len(), costumes(entity_info.costumes, allocated_refs@, res, next_i_ as int),
    //|     decreases end_i_ - next_i_,
    //@top 8
    //| proof { assert(image_ref(entity_info.costumes.pairs()[i_ as int].1, rv)); new_name(entity_info.costumes, res, i_ as int); let k = entity_info.costumes.pairs()[i_ as int].1->Ref_0 as int; assert(made_for(rv[k], allocated_refs@[k])); }
    //@leave
    //| proof { all_held(init_info.globals, allocated_refs@, globals); }
    //@end
}
}
}
fn main() {}
