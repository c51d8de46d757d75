use vstd::prelude::*;
verus! {
pub mod heap {
//! Lists and their contents. During one list operation nothing is written to a list that exists, so what a list holds is a function of the reference; a new list is made with what it holds.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::rc::Rc;
use std::cmp::Ordering;
use super::data::*;
pub trait GetType { type Output; }
pub trait CustomTypes<S>: Sized { type NativeValue: GetType; }
pub trait System<C>: Sized { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Gc<'gc, T> { p: PhantomData<&'gc T> }
impl<'gc, T> Clone for Gc<'gc, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'gc, T> Copy for Gc<'gc, T> { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefLock<T> { p: PhantomData<T> }
/// A queue that is only used at its back.
pub type VecDeque<T> = Vec<T>;
#[verifier::external_body] pub struct Text { }
#[verifier::external_body] pub struct CompactString { }
impl Clone for Image { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Audio { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl CompactString { pub uninterp spec fn chars(self) -> Seq<char>; }
#[verifier::external_body] #[derive(Debug)] pub struct NumberError { }
#[verifier::external_body] pub struct Feature { }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Closure<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Entity<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[derive(Clone, Copy)] pub struct Number(pub f64);
pub type List<'gc, C, S> = Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>;
pub uninterp spec fn content<'gc, C: CustomTypes<S>, S: System<C>>(g: List<'gc, C, S>) -> Seq<Value<'gc, C, S>>;
impl<'gc, C: CustomTypes<S>, S: System<C>> Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>> {
    #[verifier::external_body] pub fn borrow(&self) -> (r: &'gc VecDeque<Value<'gc, C, S>>) ensures r@ == content(*self) { unimplemented!() }
}
impl<'gc, T> Gc<'gc, T> { #[verifier::external_body] pub fn is(&self, o: &Self) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Clone for Value<'gc, C, S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<C: CustomTypes<S>, S: System<C>> From<ConversionError<C, S>> for ErrorCause<C, S> { #[verifier::external_body] fn from(e: ConversionError<C, S>) -> Self { unimplemented!() } }
/// What tells values apart while they are held: where they are. Two lists are at the same place only if they are the same list.
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Identity<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
impl<'gc, C, S> Clone for Identity<'gc, C, S> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'gc, C, S> Copy for Identity<'gc, C, S> { }
impl<'gc, C: CustomTypes<S>, S: System<C>> Identity<'gc, C, S> { pub uninterp spec fn of(self) -> Value<'gc, C, S>; }
pub broadcast axiom fn one_place<'gc, C: CustomTypes<S>, S: System<C>>(a: Identity<'gc, C, S>, b: Identity<'gc, C, S>) requires #[trigger] a.of() is List, a.of() == #[trigger] b.of() ensures a == b;
/// Where a list is.
pub open spec fn place<'gc, C: CustomTypes<S>, S: System<C>>(g: List<'gc, C, S>) -> Identity<'gc, C, S> { choose|i: Identity<'gc, C, S>| i.of() == Value::<'gc, C, S>::List(g) }
impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S> {
    #[verifier::external_body] pub fn identity(&self) -> (r: Identity<'gc, C, S>) ensures r.of() == *self { unimplemented!() }
    #[verifier::external_body] pub fn get_type(&self) -> (r: Type<C, S>) { unimplemented!() }
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_list -> r
    //| ensures r is Ok <==> self is List, r is Ok ==> r->Ok_0 == self->List_0,
    //@end
}
/// BTreeSet
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Marks<T> { p: PhantomData<T> }
impl<T> Marks<T> {
    pub uninterp spec fn all(self) -> Set<T>;
    #[verifier::external_body] pub fn none() -> (r: Self) ensures r.all() == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self).all() == old(self).all().insert(x), r == !old(self).all().contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self).all() == old(self).all().remove(*x) { unimplemented!() }
}
/// BTreeMap
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct Memo<K, V> { p: PhantomData<(K, V)> }
impl<K, V> Memo<K, V> {
    pub uninterp spec fn map(self) -> Map<K, V>;
    #[verifier::external_body] pub fn none() -> (r: Self) ensures r.map() == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(x) => self.map().contains_key(*k) && self.map()[*k] == *x, None => !self.map().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) ensures final(self).map() == old(self).map().remove(*k) { unimplemented!() }
    /// *get_mut(k).unwrap() = v
    #[verifier::external_body] pub fn set(&mut self, k: &K, v: V) requires old(self).map().contains_key(*k) ensures final(self).map() == old(self).map().insert(*k, v) { unimplemented!() }
}
/// What is walked through, and how much of it is done.
#[verifier::external_body] #[verifier::accept_recursive_types(X)] pub struct Each<'a, X> { p: PhantomData<&'a X> }
#[verifier::external_body] pub fn each<'a, X>(v: &'a Vec<X>) -> (r: Each<'a, X>) ensures r.all() == v@, r.done() == 0 { unimplemented!() }
impl<'a, X> Each<'a, X> {
    pub uninterp spec fn all(self) -> Seq<X>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a X>) ensures final(self).all() == old(self).all(), match r { Some(x) => old(self).done() < old(self).all().len() && *x == old(self).all()[old(self).done() as int] && final(self).done() == old(self).done() + 1, None => old(self).done() == old(self).all().len() && final(self).done() == old(self).done() } { unimplemented!() }
}
pub fn larger(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
/// What is ordered.
pub trait Ranked { spec fn rank(&self, o: &Self) -> Ordering; fn ranked(&self, o: &Self) -> (r: Ordering) ensures r == self.rank(o); }
impl Ranked for bool { uninterp spec fn rank(&self, o: &Self) -> Ordering; #[verifier::external_body] fn ranked(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl Ranked for Number { uninterp spec fn rank(&self, o: &Self) -> Ordering; #[verifier::external_body] fn ranked(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
/// Text without regard to case
#[verifier::external_body] pub struct UniCase { }
impl Text { pub uninterp spec fn chars(self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.chars() { unimplemented!() } }
impl UniCase { pub uninterp spec fn chars(self) -> Seq<char>; #[verifier::external_body] pub fn new(s: &str) -> (r: UniCase) ensures r.chars() == s@ { unimplemented!() } }
pub uninterp spec fn caseless(a: Seq<char>, b: Seq<char>) -> Ordering;
impl Ranked for UniCase { open spec fn rank(&self, o: &Self) -> Ordering { caseless(self.chars(), o.chars()) } #[verifier::external_body] fn ranked(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub uninterp spec fn number_in(s: Seq<char>) -> Option<Number>;
pub uninterp spec fn written(n: Number) -> Seq<char>;
impl SimpleValue {
    #[verifier::external_body] pub fn parse_number(s: &Text) -> (r: Option<Number>) ensures r == number_in(s.chars()) { unimplemented!() }
    #[verifier::external_body] pub fn stringify_number(n: Number) -> (r: Text) ensures r.chars() == written(n) { unimplemented!() }
}
/// ==
#[verifier::external_body] pub fn same<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) { unimplemented!() }
pub uninterp spec fn bits(a: Number) -> u64;
impl Number { pub fn get(self) -> (r: f64) ensures r == self.0 { self.0 } #[verifier::external_body] pub fn to_bits(self) -> (r: u64) ensures r == bits(self) { unimplemented!() } }
impl Text { #[verifier::external_body] pub fn same_text(&self, o: &Text) -> (r: bool) ensures r == (self.chars() == o.chars()) { unimplemented!() } }
pub uninterp spec fn empty_text() -> Text;
impl Text { #[verifier::external_body] pub fn default() -> (r: Text) ensures r == empty_text() { unimplemented!() } }
/// A new list, made with its content.
#[verifier::external_body] pub fn made<'gc, C: CustomTypes<S>, S: System<C>>(x: VecDeque<Value<'gc, C, S>>) -> (r: List<'gc, C, S>) ensures content(r) == x@ { unimplemented!() }
/// max over a map over a list, 0 if it is empty
#[verifier::external_body] pub fn greatest<X, F: Fn(&X) -> usize>(v: &Vec<X>, f: F) -> (r: usize)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures v@.len() == 0 ==> r == 0, v@.len() > 0 ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && f.ensures((&v@[i],), r), forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> exists|w: usize| w <= r && #[trigger] f.ensures((&v@[i],), w),
{ unimplemented!() }
/// v.get(i).cloned().unwrap_or_else(|| x)
pub fn item_or<'gc, C: CustomTypes<S>, S: System<C>>(v: &VecDeque<Value<'gc, C, S>>, i: usize, x: Value<'gc, C, S>) -> (r: Value<'gc, C, S>) ensures r == if i < v@.len() { v@[i as int] } else { x } { if i < v.len() { v[i].clone() } else { x } }
/// A new list whose content is still being made: nothing looks into it before it is finished.
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Draft<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
impl<'gc, C: CustomTypes<S>, S: System<C>> Draft<'gc, C, S> {
    pub uninterp spec fn of(self) -> List<'gc, C, S>;
    #[verifier::external_body] pub fn finish(self, x: VecDeque<Value<'gc, C, S>>) ensures content(self.of()) == x@ { unimplemented!() }
}
#[verifier::external_body] pub fn begun<'gc, C: CustomTypes<S>, S: System<C>>() -> (r: (List<'gc, C, S>, Draft<'gc, C, S>)) ensures r.1.of() == r.0 { unimplemented!() }
#[verifier::external_body] pub struct Mutation<'gc> { p: PhantomData<&'gc ()> }
/// BTreeMap of the images of lists; pairs: all that were ever entered
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Images<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
impl<'gc, C: CustomTypes<S>, S: System<C>> Images<'gc, C, S> {
    pub uninterp spec fn map(self) -> Map<Identity<'gc, C, S>, Value<'gc, C, S>>;
    pub uninterp spec fn pairs(self) -> Set<(Value<'gc, C, S>, Value<'gc, C, S>)>;
    #[verifier::external_body] pub fn none() -> (r: Self) ensures r.map() == Map::<Identity<'gc, C, S>, Value<'gc, C, S>>::empty(), r.pairs() == Set::<(Value<'gc, C, S>, Value<'gc, C, S>)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Identity<'gc, C, S>) -> (r: Option<&Value<'gc, C, S>>) ensures match r { Some(x) => self.map().contains_key(*k) && self.map()[*k] == *x, None => !self.map().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Identity<'gc, C, S>, v: Value<'gc, C, S>) ensures final(self).map() == old(self).map().insert(k, v), final(self).pairs() == old(self).pairs().insert((k.of(), v)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &Identity<'gc, C, S>) ensures final(self).map() == old(self).map().remove(*k), final(self).pairs() == old(self).pairs() { unimplemented!() }
}
/// A list walked through over and over.
#[verifier::external_body] #[verifier::accept_recursive_types(X)] pub struct Cycle<X> { p: PhantomData<X> }
impl<X: Clone> Cycle<X> {
    pub uninterp spec fn all(self) -> Seq<X>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn over(v: &Vec<X>) -> (r: Self) ensures r.all() == v@, r.done() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&X>) ensures final(self).all() == old(self).all(), old(self).all().len() == 0 ==> r is None && final(self).done() == old(self).done(), old(self).all().len() > 0 ==> r is Some && *r->Some_0 == old(self).all()[(old(self).done() % old(self).all().len()) as int] && final(self).done() == old(self).done() + 1 { unimplemented!() }
}
/// BTreeMap of the results for two operands; all: all that were ever entered
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Results<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
impl<'gc, C: CustomTypes<S>, S: System<C>> Results<'gc, C, S> {
    pub uninterp spec fn map(self) -> Map<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>;
    pub uninterp spec fn all(self) -> Entries<'gc, C, S>;
    #[verifier::external_body] pub fn none() -> (r: Self) ensures r.map() == Map::<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>::empty(), r.all() == Entries::<'gc, C, S>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &(Identity<'gc, C, S>, Identity<'gc, C, S>, bool)) -> (r: Option<&Value<'gc, C, S>>) ensures match r { Some(x) => self.map().contains_key(*k) && self.map()[*k] == *x, None => !self.map().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: (Identity<'gc, C, S>, Identity<'gc, C, S>, bool), v: Value<'gc, C, S>) ensures final(self).map() == old(self).map().insert(k, v), final(self).all() == old(self).all().insert((k.0.of(), k.1.of(), k.2, v)) { unimplemented!() }
}
pub type Entries<'gc, C, S> = Set<(Value<'gc, C, S>, Value<'gc, C, S>, bool, Value<'gc, C, S>)>;
pub fn first_item<X>(v: &Vec<X>) -> (r: Option<&X>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 } { if v.len() > 0 { Some(&v[0]) } else { None } }
/// slice::split_first
#[verifier::external_body] pub fn first_of<X>(v: &[X]) -> (r: Option<(&X, &[X])>) ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r is Some && *r->Some_0.0 == v@[0] && r->Some_0.1@ == v@.skip(1) { unimplemented!() }
pub uninterp spec fn one<T>(a: Rc<T>, b: Rc<T>) -> bool;
#[verifier::external_body] pub fn ptr_eq<T>(a: &Rc<T>, b: &Rc<T>) -> (r: bool) ensures r == one(*a, *b) { unimplemented!() }
}
pub mod data {
use vstd::prelude::*;
use std::rc::Rc;
use super::heap::*;
//@type src/runtime.rs Type
//@type src/runtime.rs ConversionError
//@type src/runtime.rs ErrorCause
//@type src/runtime.rs Value
//@type src/bytecode.rs Relation
//@type src/runtime.rs SimpleValue
//@type src/runtime.rs Image
//@type src/runtime.rs Audio
//@type src/runtime.rs ToSimpleError
//@type src/runtime.rs IntoJsonError
//@type src/runtime.rs FromJsonError
//@type src/runtime.rs FromNetsBloxJsonError
}
pub mod shape {
//! Values as trees: what can be unfolded completely.
use vstd::prelude::*;
use std::cmp::Ordering;
use super::heap::*;
use super::data::*;
pub type V<'gc, C, S> = Value<'gc, C, S>;
/// The value unfolds to a tree of at most `n` levels of lists.
pub open spec fn tree<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, n: nat) -> bool decreases n { v is List ==> n > 0 && forall|i: int| 0 <= i < content(v->List_0).len() ==> tree(#[trigger] content(v->List_0)[i], (n - 1) as nat) }
pub open spec fn trees<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<V<'gc, C, S>>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> tree(#[trigger] s[i], n) }
/// The value contains itself, at some depth.
pub open spec fn endless<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>) -> bool { forall|n: nat| !#[trigger] tree(v, n) }
/// `w` lies `k` levels below `v`.
pub open spec fn below<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, w: V<'gc, C, S>, k: nat) -> bool decreases k { if k == 0 { v == w } else { v is List && exists|i: int| 0 <= i < content(v->List_0).len() && below(#[trigger] content(v->List_0)[i], w, (k - 1) as nat) } }
pub open spec fn within<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, w: V<'gc, C, S>) -> bool { exists|k: nat| #[trigger] below(v, w, k) }
pub proof fn tree_grows<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, n: nat, m: nat) requires tree(v, n), n <= m ensures tree(v, m) decreases n {
    if v is List { assert forall|i: int| 0 <= i < content(v->List_0).len() implies tree(#[trigger] content(v->List_0)[i], (m - 1) as nat) by { tree_grows(content(v->List_0)[i], (n - 1) as nat, (m - 1) as nat); } }
}
pub proof fn trees_grow<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<V<'gc, C, S>>, n: nat, m: nat) requires trees(s, n), n <= m ensures trees(s, m) { assert forall|i: int| 0 <= i < s.len() implies tree(#[trigger] s[i], m) by { tree_grows(s[i], n, m); } }
pub proof fn under<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, w: V<'gc, C, S>, k: nat, n: nat) requires tree(v, n), below(v, w, k), w is List ensures k < n, tree(w, (n - k) as nat) decreases k {
    if k > 0 { let i = choose|i: int| 0 <= i < content(v->List_0).len() && below(#[trigger] content(v->List_0)[i], w, (k - 1) as nat); under(content(v->List_0)[i], w, (k - 1) as nat, (n - 1) as nat); }
}
/// What lies below itself does not unfold.
pub proof fn cycle<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, k: nat, n: nat) requires v is List, below(v, v, k), k > 0 ensures !tree(v, n) decreases n { if tree(v, n) { under(v, v, k, n); cycle(v, k, (n - k) as nat); } }
pub proof fn cycles<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, k: nat) requires v is List, below(v, v, k), k > 0 ensures endless(v) { assert forall|n: nat| !#[trigger] tree(v, n) by { cycle(v, k, n); } }
pub proof fn step_down<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, i: int, w: V<'gc, C, S>, k: nat) requires v is List, 0 <= i < content(v->List_0).len(), below(content(v->List_0)[i], w, k) ensures below(v, w, k + 1), within(v, w) { assert(below(content(v->List_0)[i], w, (k + 1 - 1) as nat)); }
/// An endless item makes a list endless.
pub proof fn endless_up<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, i: int) requires v is List, 0 <= i < content(v->List_0).len(), endless(content(v->List_0)[i]) ensures endless(v) {
    assert forall|n: nat| !#[trigger] tree(v, n) by { if tree(v, n) { assert(tree(content(v->List_0)[i], (n - 1) as nat)); } }
}
/// Whether a walk down from `v` was right to give up: it met a list it was already inside of, or `v` is endless.
pub open spec fn stuck<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, inside: Set<Identity<'gc, C, S>>) -> bool { endless(v) || exists|j: Identity<'gc, C, S>| #[trigger] inside.contains(j) && j.of() is List && within(v, j.of()) }
pub proof fn stuck_up<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, i: int, id: Identity<'gc, C, S>, inside: Set<Identity<'gc, C, S>>) requires v is List, id.of() == v, 0 <= i < content(v->List_0).len(), stuck(content(v->List_0)[i], inside.insert(id)) ensures stuck(v, inside) {
    let c = content(v->List_0)[i];
    if endless(c) { endless_up(v, i); }
    else {
        let j = choose|j: Identity<'gc, C, S>| #[trigger] inside.insert(id).contains(j) && j.of() is List && within(c, j.of()); let k = choose|k: nat| #[trigger] below(c, j.of(), k);
        step_down(v, i, j.of(), k);
        if j == id { cycles(v, k + 1); } else { assert(inside.contains(j)); }
    }
}
/// The leaves of a tree, in order.
pub open spec fn flat<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, n: nat) -> Seq<V<'gc, C, S>> decreases n, 0nat { if v is List { if n == 0 { Seq::empty() } else { flats(content(v->List_0), (n - 1) as nat) } } else { seq![v] } }
pub open spec fn flats<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<V<'gc, C, S>>, n: nat) -> Seq<V<'gc, C, S>> decreases n, s.len() { if s.len() == 0 { Seq::empty() } else { flats(s.drop_last(), n) + flat(s.last(), n) } }
pub proof fn flat_same<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, n: nat, m: nat) requires tree(v, n), n <= m ensures flat(v, m) == flat(v, n) decreases n, 0nat { if v is List { flats_same(content(v->List_0), (n - 1) as nat, (m - 1) as nat); } }
pub proof fn flats_same<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<V<'gc, C, S>>, n: nat, m: nat) requires trees(s, n), n <= m ensures flats(s, m) == flats(s, n) decreases n, s.len() {
    if s.len() > 0 { assert(trees(s.drop_last(), n)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies tree(#[trigger] s.drop_last()[i], n) by { assert(tree(s[i], n)); } } flats_same(s.drop_last(), n, m); flat_same(s.last(), n, m); }
}
/// The longest list on each level.
pub open spec fn at<T>(s: Seq<nat>, i: int) -> nat { if 0 <= i < s.len() { s[i] } else { 0 } }
pub open spec fn most(a: nat, b: nat) -> nat { if a > b { a } else { b } }
pub open spec fn merged(a: Seq<nat>, b: Seq<nat>) -> Seq<nat> { Seq::new(most(a.len(), b.len()), |i: int| most(at::<nat>(a, i), at::<nat>(b, i))) }
pub open spec fn extent<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, n: nat) -> Seq<nat> decreases n, 0nat { if v is List && n > 0 { seq![content(v->List_0).len()] + extents(content(v->List_0), (n - 1) as nat) } else { Seq::empty() } }
pub open spec fn extents<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<V<'gc, C, S>>, n: nat) -> Seq<nat> decreases n, s.len() { if s.len() == 0 { Seq::empty() } else { merged(extents(s.drop_last(), n), extent(s.last(), n)) } }
pub proof fn extent_same<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, n: nat, m: nat) requires tree(v, n), n <= m ensures extent(v, m) == extent(v, n) decreases n, 0nat { if v is List { extents_same(content(v->List_0), (n - 1) as nat, (m - 1) as nat); } }
pub proof fn extents_same<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<V<'gc, C, S>>, n: nat, m: nat) requires trees(s, n), n <= m ensures extents(s, m) == extents(s, n) decreases n, s.len() {
    if s.len() > 0 { assert(trees(s.drop_last(), n)) by { assert forall|i: int| 0 <= i < s.len() - 1 implies tree(#[trigger] s.drop_last()[i], n) by { assert(tree(s[i], n)); } } extents_same(s.drop_last(), n, m); extent_same(s.last(), n, m); }
}
pub proof fn merged_assoc(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>) ensures merged(merged(a, b), c) =~= merged(a, merged(b, c)) { }
/// One level of `cur` beyond the first has been widened by `d`.
pub proof fn widened(base: Seq<nat>, first: nat, e: Seq<nat>, d: Seq<nat>, depth: int) requires 0 <= depth <= base.len()
    ensures ({ let cur = base.take(depth) + merged(base.skip(depth), seq![first] + e); cur.take(depth + 1) + merged(cur.skip(depth + 1), d) =~= base.take(depth) + merged(base.skip(depth), seq![first] + merged(e, d)) }) { }
/// What a walk down from `v` collected: the choices of `index` among its leaves (`seen`: the lists that were gone into).
pub uninterp spec fn index_of<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, len: usize) -> Option<usize>;
pub open spec fn covered<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, len: usize, seen: Set<Identity<'gc, C, S>>, got: Set<usize>) -> bool { if v is List { exists|j: Identity<'gc, C, S>| #[trigger] seen.contains(j) && j.of() == v } else { index_of(v, len) is Some && got.contains(index_of(v, len)->Some_0) } }
pub open spec fn opened<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, len: usize, seen: Set<Identity<'gc, C, S>>, got: Set<usize>) -> bool { v is List ==> forall|i: int| 0 <= i < content(v->List_0).len() ==> covered(#[trigger] content(v->List_0)[i], len, seen, got) }
pub open spec fn leaf<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, w: V<'gc, C, S>) -> bool { within(v, w) && !(w is List) }
pub proof fn leaf_up<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, i: int, w: V<'gc, C, S>) requires v is List, 0 <= i < content(v->List_0).len(), leaf(content(v->List_0)[i], w) ensures leaf(v, w) { let k = choose|k: nat| #[trigger] below(content(v->List_0)[i], w, k); step_down(v, i, w, k); }
pub proof fn all_covered<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, w: V<'gc, C, S>, k: nat, len: usize, seen: Set<Identity<'gc, C, S>>, got: Set<usize>)
    requires covered(v, len, seen, got), below(v, w, k), forall|j: Identity<'gc, C, S>| #[trigger] seen.contains(j) ==> opened(j.of(), len, seen, got) ensures covered(w, len, seen, got) decreases k
{ if k > 0 { let j = choose|j: Identity<'gc, C, S>| #[trigger] seen.contains(j) && j.of() == v; let i = choose|i: int| 0 <= i < content(v->List_0).len() && below(#[trigger] content(v->List_0)[i], w, (k - 1) as nat); assert(opened(j.of(), len, seen, got)); all_covered(content(v->List_0)[i], w, (k - 1) as nat, len, seen, got); } }
/// Exactly the positions that the leaves of `v` name, all of which exist.
pub open spec fn chosen<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, len: usize, got: Set<usize>) -> bool {
    &&& forall|w: V<'gc, C, S>| #[trigger] leaf(v, w) ==> index_of(w, len) is Some && got.contains(index_of(w, len)->Some_0)
    &&& forall|i: usize| #[trigger] got.contains(i) ==> exists|w: V<'gc, C, S>| #[trigger] leaf(v, w) && index_of(w, len) == Some(i)
}
/// How two values that are not both lists compare.
pub open spec fn plain<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>) -> Option<Ordering> {
    match (a, b) {
        (Value::Bool(a), Value::Bool(b)) => Some(a.rank(&b)),
        (Value::Number(a), Value::Number(b)) => Some(a.rank(&b)),
        (Value::Text(a), Value::Text(b)) => if number_in(a.chars()) is Some && number_in(b.chars()) is Some { Some(number_in(a.chars())->Some_0.rank(&number_in(b.chars())->Some_0)) } else { Some(caseless(a.chars(), b.chars())) },
        (Value::Number(a), Value::Text(b)) => if number_in(b.chars()) is Some { Some(a.rank(&number_in(b.chars())->Some_0)) } else { Some(caseless(written(a), b.chars())) },
        (Value::Text(a), Value::Number(b)) => if number_in(a.chars()) is Some { Some(number_in(a.chars())->Some_0.rank(&b)) } else { Some(caseless(a.chars(), written(b))) },
        (Value::Image(a), Value::Image(b)) => if one(a, b) { Some(Ordering::Equal) } else { None },
        (Value::Audio(a), Value::Audio(b)) => if one(a, b) { Some(Ordering::Equal) } else { None },
        (Value::Closure(a), Value::Closure(b)) => if a == b { Some(Ordering::Equal) } else { None },
        (Value::Entity(a), Value::Entity(b)) => if a == b { Some(Ordering::Equal) } else { None },
        (Value::Native(a), Value::Native(b)) => if one(a, b) { Some(Ordering::Equal) } else { None },
        _ => None,
    }
}
/// How two values compare, lists item by item and then by length, if `n` levels of lists suffice to tell.
pub open spec fn order<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, n: nat) -> Option<Option<Ordering>> decreases n, 0nat {
    if a is List && b is List { if n == 0 { None } else { orders(content(a->List_0), content(b->List_0), (n - 1) as nat) } } else { Some(plain(a, b)) }
}
pub open spec fn orders<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<V<'gc, C, S>>, b: Seq<V<'gc, C, S>>, n: nat) -> Option<Option<Ordering>> decreases n, a.len() {
    if a.len() == 0 { Some(Some(if b.len() == 0 { Ordering::Equal } else { Ordering::Less })) } else if b.len() == 0 { Some(Some(Ordering::Greater)) }
    else { match order(a[0], b[0], n) { None => None, Some(Some(Ordering::Equal)) => orders(a.skip(1), b.skip(1), n), Some(x) => Some(x) } }
}
pub proof fn order_same<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, n: nat, m: nat) requires order(a, b, n) is Some, n <= m ensures order(a, b, m) == order(a, b, n) decreases n, 0nat { if a is List && b is List { orders_same(content(a->List_0), content(b->List_0), (n - 1) as nat, (m - 1) as nat); } }
pub proof fn orders_same<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<V<'gc, C, S>>, b: Seq<V<'gc, C, S>>, n: nat, m: nat) requires orders(a, b, n) is Some, n <= m ensures orders(a, b, m) == orders(a, b, n) decreases n, a.len() {
    if a.len() > 0 && b.len() > 0 { order_same(a[0], b[0], n, m); if order(a[0], b[0], n) == Some(Some(Ordering::Equal)) { orders_same(a.skip(1), b.skip(1), n, m); } }
}
/// `a` and `b` compare as `x`; they cannot be told apart or ordered by any number of levels.
pub open spec fn ordered<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, x: Option<Ordering>) -> bool { exists|n: nat| #[trigger] order(a, b, n) == Some(x) }
pub open spec fn circular<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>) -> bool { forall|n: nat| (#[trigger] order(a, b, n)) is None }
/// The order of `a` and `b` cannot be told before that of `c` and `d`.
pub open spec fn waits<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, c: V<'gc, C, S>, d: V<'gc, C, S>) -> bool { forall|n: nat| (#[trigger] order(a, b, n)) is Some ==> exists|m: nat| m <= n && (#[trigger] order(c, d, m)) is Some }
pub type Pair<'gc, C, S> = (Identity<'gc, C, S>, Identity<'gc, C, S>);
pub type Verdicts<'gc, C, S> = Map<Pair<'gc, C, S>, Option<Option<Ordering>>>;
pub open spec fn sound<'gc, C: CustomTypes<S>, S: System<C>>(m: Verdicts<'gc, C, S>) -> bool { forall|k: Pair<'gc, C, S>| #[trigger] m.contains_key(k) && m[k] is Some ==> ordered(k.0.of(), k.1.of(), m[k]->Some_0) }
pub open spec fn pending<'gc, C: CustomTypes<S>, S: System<C>>(m: Verdicts<'gc, C, S>, k: Pair<'gc, C, S>) -> bool { m.contains_key(k) && m[k] is None }
/// Comparing was rightly given up.
pub open spec fn vain<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, m: Verdicts<'gc, C, S>) -> bool { circular(a, b) || exists|k: Pair<'gc, C, S>| #[trigger] pending(m, k) && waits(a, b, k.0.of(), k.1.of()) }
/// The items before the `i`-th ones are equal (told with `n` levels).
pub open spec fn alike<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<V<'gc, C, S>>, b: Seq<V<'gc, C, S>>, i: int, n: nat) -> bool { i <= a.len() && i <= b.len() && forall|j: int| 0 <= j < i ==> order(#[trigger] a[j], b[j], n) == Some(Some(Ordering::Equal)) }
pub proof fn alike_grows<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<V<'gc, C, S>>, b: Seq<V<'gc, C, S>>, i: int, n: nat, m: nat) requires alike(a, b, i, n), n <= m ensures alike(a, b, i, m) { assert forall|j: int| 0 <= j < i implies order(#[trigger] a[j], b[j], m) == Some(Some(Ordering::Equal)) by { order_same(a[j], b[j], n, m); } }
/// What the items after equal ones decide.
pub proof fn skips<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<V<'gc, C, S>>, b: Seq<V<'gc, C, S>>, i: int, n: nat) requires alike(a, b, i, n), 0 <= i ensures orders(a, b, n) == orders(a.skip(i), b.skip(i), n) decreases i {
    if i == 0 { assert(a.skip(0) =~= a); assert(b.skip(0) =~= b); }
    else { assert(a[0] == a[0]); let (x, y) = (a.skip(1), b.skip(1)); assert(alike(x, y, i - 1, n)) by { assert forall|j: int| 0 <= j < i - 1 implies order(#[trigger] x[j], y[j], n) == Some(Some(Ordering::Equal)) by { assert(x[j] == a[j + 1]); } } skips(x, y, i - 1, n); assert(x.skip(i - 1) =~= a.skip(i)); assert(y.skip(i - 1) =~= b.skip(i)); }
}
/// To compare two lists, the items after equal ones have to be compared, with fewer levels.
pub proof fn item_first<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, i: int, m: nat, n: nat)
    requires a is List, b is List, 0 <= i, i < content(a->List_0).len(), i < content(b->List_0).len(), alike(content(a->List_0), content(b->List_0), i, m), order(a, b, n) is Some ensures n > 0, order(content(a->List_0)[i], content(b->List_0)[i], (n - 1) as nat) is Some
{
    let (x, y) = (content(a->List_0), content(b->List_0)); let p = (n - 1) as nat;
    assert(alike(x, y, i, p)) by { assert forall|j: int| 0 <= j < i implies order(#[trigger] x[j], y[j], p) == Some(Some(Ordering::Equal)) by { items_told(x, y, i, m, p, j); } }
    skips(x, y, i, p);
}
pub proof fn items_told<'gc, C: CustomTypes<S>, S: System<C>>(x: Seq<V<'gc, C, S>>, y: Seq<V<'gc, C, S>>, i: int, m: nat, p: nat, j: int)
    requires alike(x, y, i, m), orders(x, y, p) is Some, 0 <= j < i ensures order(x[j], y[j], p) == Some(Some(Ordering::Equal)) decreases j
{
    if order(x[j], y[j], p) is Some { if p <= m { order_same(x[j], y[j], p, m); } else { order_same(x[j], y[j], m, p); } }
    else {
        assert(alike(x, y, j, p)) by { assert forall|k: int| 0 <= k < j implies order(#[trigger] x[k], y[k], p) == Some(Some(Ordering::Equal)) by { items_told(x, y, i, m, p, k); } }
        skips(x, y, j, p); assert(x.skip(j)[0] == x[j]);
    }
}
pub proof fn no_end<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, n: nat) requires forall|n: nat| (#[trigger] order(a, b, n)) is Some ==> exists|m: nat| m < n && (#[trigger] order(a, b, m)) is Some ensures order(a, b, n) is None decreases n { if order(a, b, n) is Some { let m = choose|m: nat| m < n && (#[trigger] order(a, b, m)) is Some; no_end(a, b, m); } }
pub proof fn vain_up<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, i: int, m: nat, key: Pair<'gc, C, S>, was: Verdicts<'gc, C, S>, now: Verdicts<'gc, C, S>)
    requires a is List, b is List, key.0.of() == a, key.1.of() == b, 0 <= i, i < content(a->List_0).len(), i < content(b->List_0).len(), alike(content(a->List_0), content(b->List_0), i, m),
        vain(content(a->List_0)[i], content(b->List_0)[i], now), forall|k: Pair<'gc, C, S>| #[trigger] pending(now, k) ==> k == key || pending(was, k)
    ensures vain(a, b, was)
{
    let (x, y) = (content(a->List_0)[i], content(b->List_0)[i]);
    if circular(x, y) { assert forall|n: nat| (#[trigger] order(a, b, n)) is None by { if order(a, b, n) is Some { item_first(a, b, i, m, n); } } }
    else {
        let k = choose|k: Pair<'gc, C, S>| #[trigger] pending(now, k) && waits(x, y, k.0.of(), k.1.of());
        let (c, d) = (k.0.of(), k.1.of());
        assert forall|n: nat| (#[trigger] order(a, b, n)) is Some implies exists|q: nat| q < n && (#[trigger] order(c, d, q)) is Some by { item_first(a, b, i, m, n); let p = (n - 1) as nat; assert(order(x, y, p) is Some); let q = choose|q: nat| q <= p && (#[trigger] order(c, d, q)) is Some; assert(q < n); }
        if k == key { assert forall|n: nat| (#[trigger] order(a, b, n)) is None by { no_end(a, b, n); } }
        else { assert(pending(was, k)); assert(waits(a, b, c, d)); }
    }
}
pub proof fn one_order<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>, x: Option<Ordering>, y: Option<Ordering>) requires ordered(a, b, x), ordered(a, b, y) ensures x == y {
    let n = choose|n: nat| #[trigger] order(a, b, n) == Some(x); let m = choose|m: nat| #[trigger] order(a, b, m) == Some(y);
    if n <= m { order_same(a, b, n, m); } else { order_same(a, b, m, n); }
}
/// What a relation says about values that compare as `x` (nothing if they are not ordered and the relation needs an order).
pub open spec fn says(relation: Relation, x: Option<Ordering>) -> Option<bool> {
    match relation {
        Relation::Equal => Some(x == Some(Ordering::Equal)), Relation::NotEqual => Some(x != Some(Ordering::Equal)),
        _ => match x { None => None, Some(x) => Some(match relation { Relation::Less => x is Less, Relation::LessEq => !(x is Greater), Relation::Greater => x is Greater, _ => !(x is Less) }) },
    }
}
pub open spec fn identical_<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>) -> bool {
    match (a, b) {
        (Value::Bool(a), Value::Bool(b)) => a == b, (Value::Number(a), Value::Number(b)) => bits(a) == bits(b), (Value::Text(a), Value::Text(b)) => a.chars() == b.chars(),
        (Value::Image(a), Value::Image(b)) => one(a, b), (Value::Audio(a), Value::Audio(b)) => one(a, b), (Value::Native(a), Value::Native(b)) => one(a, b),
        (Value::Closure(a), Value::Closure(b)) => a == b, (Value::List(a), Value::List(b)) => a == b, (Value::Entity(a), Value::Entity(b)) => a == b, _ => false,
    }
}
/// Values that compare, but not as equal.
pub open spec fn differ<'gc, C: CustomTypes<S>, S: System<C>>(a: V<'gc, C, S>, b: V<'gc, C, S>) -> bool { exists|x: Option<Ordering>| #[trigger] ordered(a, b, x) && x != Some(Ordering::Equal) }
/// Transposition: the width of a row and what it has in a column.
pub open spec fn width<'gc, C: CustomTypes<S>, S: System<C>>(row: V<'gc, C, S>) -> nat { if row is List { content(row->List_0).len() } else { 1 } }
pub open spec fn cell<'gc, C: CustomTypes<S>, S: System<C>>(row: V<'gc, C, S>, i: int) -> V<'gc, C, S> { if row is List { if i < content(row->List_0).len() { content(row->List_0)[i] } else { Value::Text(empty_text()) } } else { row } }
pub open spec fn column<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, rows: Seq<V<'gc, C, S>>, i: int) -> bool { v is List && content(v->List_0) =~= Seq::new(rows.len(), |k: int| cell(rows[k], i)) }
pub open spec fn widest<'gc, C: CustomTypes<S>, S: System<C>>(rows: Seq<V<'gc, C, S>>, n: nat) -> bool { (forall|i: int| 0 <= i < rows.len() ==> width(#[trigger] rows[i]) <= n) && if rows.len() == 0 { n == 0 } else { exists|i: int| 0 <= i < rows.len() && width(#[trigger] rows[i]) == n } }
/// A value of the given dimensions, filled from `all` in turn, beginning with its `p`-th element.
pub open spec fn product(d: Seq<usize>) -> nat decreases d.len() { if d.len() == 0 { 1 } else { d[0] as nat * product(d.skip(1)) } }
pub open spec fn filled<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, d: Seq<usize>, all: Seq<V<'gc, C, S>>, p: nat) -> bool decreases d.len() {
    if d.len() == 0 { v == all[(p % all.len()) as int] } else { v is List && content(v->List_0).len() == d[0] && forall|i: int| 0 <= i < d[0] ==> filled(#[trigger] content(v->List_0)[i], d.skip(1), all, (p + i * product(d.skip(1))) as nat) }
}
/// The combinations of one item of each source that begin with `so_far`, the last source varying fastest.
pub open spec fn combinations<'gc, C: CustomTypes<S>, S: System<C>>(so_far: Seq<V<'gc, C, S>>, sources: Seq<List<'gc, C, S>>) -> Seq<Seq<V<'gc, C, S>>> decreases sources.len(), 0nat { if sources.len() == 0 { seq![so_far] } else { branches(so_far, content(sources[0]), sources.skip(1)) } }
pub open spec fn branches<'gc, C: CustomTypes<S>, S: System<C>>(so_far: Seq<V<'gc, C, S>>, items: Seq<V<'gc, C, S>>, rest: Seq<List<'gc, C, S>>) -> Seq<Seq<V<'gc, C, S>>> decreases rest.len(), items.len() + 1 { if items.len() == 0 { Seq::empty() } else { branches(so_far, items.drop_last(), rest) + combinations(so_far.push(items.last()), rest) } }
pub open spec fn lists_of<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<V<'gc, C, S>>, c: Seq<Seq<V<'gc, C, S>>>) -> bool { s.len() == c.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is List && content(s[i]->List_0) =~= c[i] }
pub open spec fn matrix<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>) -> bool { v is List && content(v->List_0).len() > 0 && content(v->List_0)[0] is List }
/// The images of lists under an operation that works item by item: `r` pairs lists with lists, `f` scalars with results.
pub type Pairs<'gc, C, S> = Set<(V<'gc, C, S>, V<'gc, C, S>)>;
pub type Rule<'gc, C, S> = spec_fn(V<'gc, C, S>, V<'gc, C, S>) -> bool;
pub open spec fn image<'gc, C: CustomTypes<S>, S: System<C>>(r: Pairs<'gc, C, S>, f: Rule<'gc, C, S>, x: V<'gc, C, S>, y: V<'gc, C, S>) -> bool { if x is List { y is List && r.contains((x, y)) } else { f(x, y) } }
/// The items of `y` are the images of those of `x`, in order.
pub open spec fn itemwise<'gc, C: CustomTypes<S>, S: System<C>>(r: Pairs<'gc, C, S>, f: Rule<'gc, C, S>, x: V<'gc, C, S>, y: V<'gc, C, S>) -> bool {
    x is List && y is List && content(x->List_0).len() == content(y->List_0).len() && forall|i: int| 0 <= i < content(x->List_0).len() ==> image(r, f, #[trigger] content(x->List_0)[i], content(y->List_0)[i])
}
/// `y` is the image of `x`: the same lists of the same lengths, scalars replaced by results (cycles included).
pub open spec fn lifted<'gc, C: CustomTypes<S>, S: System<C>>(f: Rule<'gc, C, S>, x: V<'gc, C, S>, y: V<'gc, C, S>, sharing: bool) -> bool {
    exists|r: Pairs<'gc, C, S>| #[trigger] image(r, f, x, y) && closed(r, f) && (sharing ==> single(r))
}
pub open spec fn closed<'gc, C: CustomTypes<S>, S: System<C>>(r: Pairs<'gc, C, S>, f: Rule<'gc, C, S>) -> bool { forall|x: V<'gc, C, S>, y: V<'gc, C, S>| #[trigger] r.contains((x, y)) ==> itemwise(r, f, x, y) }
/// Every list has one image.
pub open spec fn single<'gc, C: CustomTypes<S>, S: System<C>>(r: Pairs<'gc, C, S>) -> bool { forall|x: V<'gc, C, S>, y: V<'gc, C, S>, z: V<'gc, C, S>| #[trigger] r.contains((x, y)) && #[trigger] r.contains((x, z)) ==> y == z }
pub proof fn more_pairs<'gc, C: CustomTypes<S>, S: System<C>>(r: Pairs<'gc, C, S>, q: Pairs<'gc, C, S>, f: Rule<'gc, C, S>, x: V<'gc, C, S>, y: V<'gc, C, S>) requires itemwise(r, f, x, y), r.subset_of(q) ensures itemwise(q, f, x, y) {
    assert forall|i: int| 0 <= i < content(x->List_0).len() implies image(q, f, #[trigger] content(x->List_0)[i], content(y->List_0)[i]) by { assert(image(r, f, content(x->List_0)[i], content(y->List_0)[i])); }
}
pub open spec fn known<'gc, C: CustomTypes<S>, S: System<C>>(m: Images<'gc, C, S>) -> bool { forall|k: Identity<'gc, C, S>| #[trigger] m.map().contains_key(k) ==> k.of() is List && m.map()[k] is List && m.pairs().contains((k.of(), m.map()[k])) }
pub open spec fn kept<'gc, C: CustomTypes<S>, S: System<C>>(m: Images<'gc, C, S>) -> bool { forall|x: V<'gc, C, S>, y: V<'gc, C, S>| #[trigger] m.pairs().contains((x, y)) ==> exists|k: Identity<'gc, C, S>| #[trigger] m.map().contains_key(k) && k.of() == x && x is List && m.map()[k] == y }
pub proof fn stays_kept<'gc, C: CustomTypes<S>, S: System<C>>(m: Images<'gc, C, S>, n: Images<'gc, C, S>, k: Identity<'gc, C, S>, v: V<'gc, C, S>)
    requires kept(m), !m.map().contains_key(k), k.of() is List, n.map() == m.map().insert(k, v), n.pairs() == m.pairs().insert((k.of(), v)) ensures kept(n) {
    assert forall|x: V<'gc, C, S>, y: V<'gc, C, S>| #[trigger] n.pairs().contains((x, y)) implies exists|j: Identity<'gc, C, S>| #[trigger] n.map().contains_key(j) && j.of() == x && x is List && n.map()[j] == y by {
        if m.pairs().contains((x, y)) { let j = choose|j: Identity<'gc, C, S>| #[trigger] m.map().contains_key(j) && j.of() == x && x is List && m.map()[j] == y; assert(n.map().contains_key(j)); } else { assert(n.map().contains_key(k)); }
    }
}
pub open spec fn picking<'gc, C: CustomTypes<S>, S: System<C>>(all: Seq<V<'gc, C, S>>, x: V<'gc, C, S>, y: Result<V<'gc, C, S>, ErrorCause<C, S>>) -> bool { match y { Ok(v) => picked(all, all.len() as usize, x, v), Err(_) => index_of(x, all.len() as usize) is None } }
pub open spec fn picked<'gc, C: CustomTypes<S>, S: System<C>>(all: Seq<V<'gc, C, S>>, len: usize, x: V<'gc, C, S>, y: V<'gc, C, S>) -> bool { index_of(x, len) is Some && index_of(x, len)->Some_0 < all.len() && y == all[index_of(x, len)->Some_0 as int] }
pub open spec fn nats(s: Seq<usize>) -> Seq<nat> { s.map_values(|x: usize| x as nat) }
}
pub mod scalars {
//! What a block does to values that are not lists. The arithmetic itself is decided with Kani (property N01).
use vstd::prelude::*;
use std::rc::Rc;
use super::heap::*;
use super::data::*;
use super::shape::*;
//@type src/bytecode.rs UnaryOp
//@type src/bytecode.rs BinaryOp
impl Clone for UnaryOp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for UnaryOp { }
impl Clone for BinaryOp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for BinaryOp { }
pub type Told<'gc, C, S> = Result<V<'gc, C, S>, ErrorCause<C, S>>;
pub open spec fn number_of<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>) -> Option<Number> { match v { Value::Number(x) => Some(x), Value::Text(x) => number_in(x.chars()), _ => None } }
pub open spec fn text_of<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>) -> Option<Seq<char>> { match v { Value::Text(x) => Some(x.chars()), Value::Number(x) => Some(written(x)), _ => None } }
/// What has no number is an error.
pub open spec fn then<T>(x: Option<Number>, f: spec_fn(Number) -> Option<T>) -> Option<T> { match x { Some(n) => f(n), None => None } }
pub open spec fn gives<'gc, C: CustomTypes<S>, S: System<C>>(y: Told<'gc, C, S>, n: Option<Number>) -> bool { match n { Some(x) => y is Ok && y->Ok_0 is Number && y->Ok_0->Number_0 == x, None => y is Err } }
pub open spec fn reads<'gc, C: CustomTypes<S>, S: System<C>>(y: Told<'gc, C, S>, s: Seq<char>) -> bool { y is Ok && y->Ok_0 is Text && y->Ok_0->Text_0.chars() == s }
pub open spec fn texts<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<V<'gc, C, S>>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]) is Text && v[i]->Text_0.chars() == s[i] }
pub open spec fn lists<'gc, C: CustomTypes<S>, S: System<C>>(y: Told<'gc, C, S>, s: Seq<Seq<char>>) -> bool { y is Ok && y->Ok_0 is List && texts(content(y->Ok_0->List_0), s) }
/// What is written down of a calculation: a finite number, or an error.
pub uninterp spec fn finite(x: f64) -> bool;
pub uninterp spec fn settled(x: f64) -> f64;
pub open spec fn checked(x: f64) -> Option<Number> { if finite(x) { Some(Number(settled(x))) } else { None } }
impl Number { #[verifier::external_body] pub fn new(x: f64) -> (r: Result<Number, NumberError>) ensures r is Ok <==> checked(x) is Some, r is Ok ==> r->Ok_0 == checked(x)->Some_0 { unimplemented!() } }
impl<C: CustomTypes<S>, S: System<C>> From<NumberError> for ErrorCause<C, S> { #[verifier::external_body] fn from(e: NumberError) -> Self { unimplemented!() } }
pub uninterp spec fn n_abs(x: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn abs(self) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_abs(self) is Some, r is Ok ==> r->Ok_0 == n_abs(self)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_neg(x: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn neg(self) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_neg(self) is Some, r is Ok ==> r->Ok_0 == n_neg(self)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_sqrt(x: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn sqrt(self) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_sqrt(self) is Some, r is Ok ==> r->Ok_0 == n_sqrt(self)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_round(x: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn round(self) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_round(self) is Some, r is Ok ==> r->Ok_0 == n_round(self)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_floor(x: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn floor(self) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_floor(self) is Some, r is Ok ==> r->Ok_0 == n_floor(self)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_ceil(x: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn ceil(self) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_ceil(self) is Some, r is Ok ==> r->Ok_0 == n_ceil(self)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_to_degrees(x: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn to_degrees(self) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_to_degrees(self) is Some, r is Ok ==> r->Ok_0 == n_to_degrees(self)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_add(x: Number, y: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn add(self, o: Number) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_add(self, o) is Some, r is Ok ==> r->Ok_0 == n_add(self, o)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_sub(x: Number, y: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn sub(self, o: Number) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_sub(self, o) is Some, r is Ok ==> r->Ok_0 == n_sub(self, o)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_mul(x: Number, y: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn mul(self, o: Number) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_mul(self, o) is Some, r is Ok ==> r->Ok_0 == n_mul(self, o)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_div(x: Number, y: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn div(self, o: Number) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_div(self, o) is Some, r is Ok ==> r->Ok_0 == n_div(self, o)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_powf(x: Number, y: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn powf(self, o: Number) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_powf(self, o) is Some, r is Ok ==> r->Ok_0 == n_powf(self, o)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_log(x: Number, y: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn log(self, o: Number) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_log(self, o) is Some, r is Ok ==> r->Ok_0 == n_log(self, o)->Some_0 { unimplemented!() } }
pub uninterp spec fn n_atan2(x: Number, y: Number) -> Option<Number>;
impl Number { #[verifier::external_body] pub fn atan2(self, o: Number) -> (r: Result<Number, NumberError>) ensures r is Ok <==> n_atan2(self, o) is Some, r is Ok ==> r->Ok_0 == n_atan2(self, o)->Some_0 { unimplemented!() } }
pub mod libm {
use vstd::prelude::*;
pub uninterp spec fn f_sin(x: f64) -> f64;
#[verifier::external_body] pub fn sin(x: f64) -> (r: f64) ensures r == f_sin(x) { unimplemented!() }
pub uninterp spec fn f_cos(x: f64) -> f64;
#[verifier::external_body] pub fn cos(x: f64) -> (r: f64) ensures r == f_cos(x) { unimplemented!() }
pub uninterp spec fn f_tan(x: f64) -> f64;
#[verifier::external_body] pub fn tan(x: f64) -> (r: f64) ensures r == f_tan(x) { unimplemented!() }
pub uninterp spec fn f_asin(x: f64) -> f64;
#[verifier::external_body] pub fn asin(x: f64) -> (r: f64) ensures r == f_asin(x) { unimplemented!() }
pub uninterp spec fn f_acos(x: f64) -> f64;
#[verifier::external_body] pub fn acos(x: f64) -> (r: f64) ensures r == f_acos(x) { unimplemented!() }
pub uninterp spec fn f_atan(x: f64) -> f64;
#[verifier::external_body] pub fn atan(x: f64) -> (r: f64) ensures r == f_atan(x) { unimplemented!() }
}
pub uninterp spec fn as_radians(x: f64) -> f64;
pub uninterp spec fn as_degrees(x: f64) -> f64;
#[verifier::external_body] pub fn radians(x: f64) -> (r: f64) ensures r == as_radians(x) { unimplemented!() }
#[verifier::external_body] pub fn degrees(x: f64) -> (r: f64) ensures r == as_degrees(x) { unimplemented!() }
pub uninterp spec fn real(n: nat) -> f64;
#[verifier::external_body] pub fn float(n: usize) -> (r: f64) ensures r == real(n as nat) { n as f64 }
pub uninterp spec fn remainder(a: f64, b: f64) -> f64;
pub mod util { use vstd::prelude::*; #[verifier::external_body] pub fn modulus(a: f64, b: f64) -> (r: f64) ensures r == super::remainder(a, b) { unimplemented!() } }
/// The characters a user sees (grapheme clusters), the words, the lines, and the parts between separators.
pub uninterp spec fn letters(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn lines(s: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn parts(s: Seq<char>, by: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub struct Pieces<'a> { p: &'a str }
impl<'a> Pieces<'a> {
    pub uninterp spec fn all(self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.all().len() { unimplemented!() }
    #[verifier::external_body] pub fn nth(self, i: usize) -> (r: Option<&'a str>) ensures match r { Some(x) => i < self.all().len() && x@ == self.all()[i as int], None => i >= self.all().len() } { unimplemented!() }
    #[verifier::external_body] pub fn next_back(self) -> (r: Option<&'a str>) ensures match r { Some(x) => self.all().len() > 0 && x@ == self.all().last(), None => self.all().len() == 0 } { unimplemented!() }
    /// map(|x| Text::from(x).into()).collect()
    #[verifier::external_body] pub fn texts<'gc, C: CustomTypes<S>, S: System<C>>(self) -> (r: VecDeque<Value<'gc, C, S>>) ensures super::scalars::texts(r@, self.all()) { unimplemented!() }
}
impl Text {
    #[verifier::external_body] pub fn from(s: &str) -> (r: Text) ensures r.chars() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn graphemes<'a>(&'a self) -> (r: Pieces<'a>) ensures r.all() == letters(self.chars()) { unimplemented!() }
    #[verifier::external_body] pub fn unicode_words<'a>(&'a self) -> (r: Pieces<'a>) ensures r.all() == words(self.chars()) { unimplemented!() }
    #[verifier::external_body] pub fn lines<'a>(&'a self) -> (r: Pieces<'a>) ensures r.all() == super::scalars::lines(self.chars()) { unimplemented!() }
    #[verifier::external_body] pub fn parts<'a>(&'a self, by: &str) -> (r: Pieces<'a>) ensures r.all() == super::scalars::parts(self.chars(), by@) { unimplemented!() }
    #[verifier::external_body] pub fn parts_at<'a>(&'a self, by: char) -> (r: Pieces<'a>) ensures r.all() == super::scalars::parts(self.chars(), seq![by]) { unimplemented!() }
}
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// .into()
pub trait Val<'gc, C: CustomTypes<S>, S: System<C>>: Sized { spec fn said(self) -> Value<'gc, C, S>; fn val(self) -> (r: Value<'gc, C, S>) ensures r == self.said(); }
impl<'gc, C: CustomTypes<S>, S: System<C>> Val<'gc, C, S> for bool { open spec fn said(self) -> Value<'gc, C, S> { Value::Bool(self) } fn val(self) -> (r: Value<'gc, C, S>) { Value::Bool(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Val<'gc, C, S> for Number { open spec fn said(self) -> Value<'gc, C, S> { Value::Number(self) } fn val(self) -> (r: Value<'gc, C, S>) { Value::Number(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Val<'gc, C, S> for Text { open spec fn said(self) -> Value<'gc, C, S> { Value::Text(self) } fn val(self) -> (r: Value<'gc, C, S>) { Value::Text(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Val<'gc, C, S> for List<'gc, C, S> { open spec fn said(self) -> Value<'gc, C, S> { Value::List(self) } fn val(self) -> (r: Value<'gc, C, S>) { Value::List(self) } }
impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S> {
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_bool -> r
    //| ensures r is Ok <==> self is Bool, r is Ok ==> r->Ok_0 == self->Bool_0,
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_number -> r
    //| ensures r is Ok <==> number_of(*self) is Some, r is Ok ==> r->Ok_0 == number_of(*self)->Some_0,
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_text -> r
    //| ensures r is Ok <==> text_of(*self) is Some, r is Ok ==> r->Ok_0.chars() == text_of(*self)->Some_0,
    //@end
}
/// From CSV (specified with from_csv), from JSON, a code point and the text of it, the code points of a text.
pub uninterp spec fn from_rows<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<char>, y: Seq<V<'gc, C, S>>) -> bool;
#[verifier::external_body] pub fn from_csv<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, s: &str) -> (r: Result<VecDeque<Value<'gc, C, S>>, ErrorCause<C, S>>) ensures r is Ok ==> from_rows(s@, r->Ok_0@) { unimplemented!() }
pub uninterp spec fn from_document<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<char>, y: V<'gc, C, S>) -> bool;
#[verifier::external_body] pub fn from_json<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, s: &Text) -> (r: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures r is Ok ==> from_document(s.chars(), r->Ok_0) { unimplemented!() }
pub uninterp spec fn letter(x: f64) -> Option<Seq<char>>;
#[verifier::external_body] pub fn character<C: CustomTypes<S>, S: System<C>>(x: f64) -> (r: Result<Text, ErrorCause<C, S>>) ensures r is Ok <==> letter(x) is Some, r is Ok ==> r->Ok_0.chars() == letter(x)->Some_0 { unimplemented!() }
pub open spec fn codes<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<V<'gc, C, S>>, s: Seq<char>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]) is Number && Some(v[i]->Number_0) == checked(real(s[i] as nat)) }
#[verifier::external_body] pub fn code_points<'gc, C: CustomTypes<S>, S: System<C>>(s: &Text) -> (r: Result<VecDeque<Value<'gc, C, S>>, NumberError>) ensures r is Ok ==> codes(r->Ok_0@, s.chars()) { unimplemented!() }
#[verifier::external_body] pub fn only<X>(v: Vec<X>) -> (r: X) requires v@.len() == 1 ensures r == v@[0] { unimplemented!() }
pub uninterp spec fn counted<'gc, C: CustomTypes<S>, S: System<C>>(a: f64, b: f64, v: Seq<V<'gc, C, S>>) -> bool;
#[verifier::external_body] pub fn count_up<'gc, C: CustomTypes<S>, S: System<C>>(a: f64, b: f64) -> (r: Result<VecDeque<Value<'gc, C, S>>, NumberError>) ensures r is Ok ==> counted(a, b, r->Ok_0@) { unimplemented!() }
pub uninterp spec fn chance(a: f64, b: f64, r: f64) -> bool;
#[verifier::external_body] pub fn drawn<S>(system: &S, a: f64, b: f64) -> (r: f64) ensures chance(a, b, r) { unimplemented!() }
/// Gc::new(mc, RefLock::new(x))
#[verifier::external_body] pub fn listed<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, x: VecDeque<Value<'gc, C, S>>) -> (r: List<'gc, C, S>) ensures content(r) == x@ { unimplemented!() }
/// What a block with one operand makes of a scalar.
pub open spec fn one_operand<'gc, C: CustomTypes<S>, S: System<C>>(op: UnaryOp, x: V<'gc, C, S>, y: Told<'gc, C, S>) -> bool {
    let s = text_of(x)->Some_0;
    match op {
        UnaryOp::ToNumber => gives(y, number_of(x)),
        UnaryOp::Not => if x is Bool { y is Ok && y->Ok_0 is Bool && y->Ok_0->Bool_0 == !x->Bool_0 } else { y is Err },
        UnaryOp::Abs => gives(y, then(number_of(x), |n: Number| n_abs(n))), UnaryOp::Neg => gives(y, then(number_of(x), |n: Number| n_neg(n))), UnaryOp::Sqrt => gives(y, then(number_of(x), |n: Number| n_sqrt(n))),
        UnaryOp::Round => gives(y, then(number_of(x), |n: Number| n_round(n))), UnaryOp::Floor => gives(y, then(number_of(x), |n: Number| n_floor(n))), UnaryOp::Ceil => gives(y, then(number_of(x), |n: Number| n_ceil(n))),
        UnaryOp::Sin => gives(y, then(number_of(x), |n: Number| checked(libm::f_sin(as_radians(n.0))))), UnaryOp::Cos => gives(y, then(number_of(x), |n: Number| checked(libm::f_cos(as_radians(n.0))))), UnaryOp::Tan => gives(y, then(number_of(x), |n: Number| checked(libm::f_tan(as_radians(n.0))))),
        UnaryOp::Asin => gives(y, then(number_of(x), |n: Number| checked(as_degrees(libm::f_asin(n.0))))), UnaryOp::Acos => gives(y, then(number_of(x), |n: Number| checked(as_degrees(libm::f_acos(n.0))))), UnaryOp::Atan => gives(y, then(number_of(x), |n: Number| checked(as_degrees(libm::f_atan(n.0))))),
        UnaryOp::StrLen => if text_of(x) is Some { gives(y, checked(real(letters(s).len()))) } else { y is Err },
        UnaryOp::StrGetLast => if text_of(x) is Some && letters(s).len() > 0 { reads(y, letters(s).last()) } else { y is Err },
        UnaryOp::StrGetRandom => if text_of(x) is Some && letters(s).len() > 0 { exists|i: int| 0 <= i < letters(s).len() && reads(y, #[trigger] letters(s)[i]) } else { y is Err },
        UnaryOp::SplitLetter => if text_of(x) is Some { lists(y, letters(s)) } else { y is Err },
        UnaryOp::SplitWord => if text_of(x) is Some { lists(y, words(s)) } else { y is Err },
        UnaryOp::SplitTab => if text_of(x) is Some { lists(y, parts(s, seq!['\t'])) } else { y is Err },
        UnaryOp::SplitCR => if text_of(x) is Some { lists(y, parts(s, seq!['\r'])) } else { y is Err },
        UnaryOp::SplitLF => if text_of(x) is Some { lists(y, lines(s)) } else { y is Err },
        UnaryOp::SplitCsv => y is Ok ==> text_of(x) is Some && y->Ok_0 is List && from_rows(s, content(y->Ok_0->List_0)),
        UnaryOp::SplitJson => y is Ok ==> text_of(x) is Some && from_document(s, y->Ok_0),
        UnaryOp::UnicodeToChar => match then(number_of(x), |n: Number| letter(n.0)) { Some(c) => reads(y, c), None => y is Err },
        UnaryOp::CharToUnicode => y is Ok ==> text_of(x) is Some && if s.len() == 1 { gives(y, checked(real(s[0] as nat))) } else { y->Ok_0 is List && codes(content(y->Ok_0->List_0), s) },
    }
}
pub open spec fn both(a: Option<Number>, b: Option<Number>, f: spec_fn(Number, Number) -> Option<Number>) -> Option<Number> { match (a, b) { (Some(m), Some(n)) => f(m, n), _ => None } }
/// What a block with two operands makes of two scalars.
pub open spec fn two_operands<'gc, C: CustomTypes<S>, S: System<C>>(op: BinaryOp, a: V<'gc, C, S>, b: V<'gc, C, S>, y: Told<'gc, C, S>) -> bool {
    let (m, n) = (number_of(a), number_of(b)); let (s, t) = (text_of(a), text_of(b));
    match op {
        BinaryOp::Add => gives(y, both(m, n, |x: Number, z: Number| n_add(x, z))), BinaryOp::Sub => gives(y, both(m, n, |x: Number, z: Number| n_sub(x, z))), BinaryOp::Mul => gives(y, both(m, n, |x: Number, z: Number| n_mul(x, z))),
        BinaryOp::Div => gives(y, both(m, n, |x: Number, z: Number| n_div(x, z))), BinaryOp::Pow => gives(y, both(m, n, |x: Number, z: Number| n_powf(x, z))), BinaryOp::Log => gives(y, both(m, n, |x: Number, z: Number| n_log(z, x))),
        BinaryOp::Atan2 => gives(y, then(both(m, n, |x: Number, z: Number| n_atan2(x, z)), |w: Number| n_to_degrees(w))),
        BinaryOp::Mod => gives(y, both(m, n, |x: Number, z: Number| checked(remainder(x.0, z.0)))),
        BinaryOp::StrGet => match t { Some(t) => match index_of(a, letters(t).len() as usize) { Some(i) => i < letters(t).len() && reads(y, letters(t)[i as int]), None => y is Err }, None => y is Err },
        BinaryOp::SplitBy => if s is Some && t is Some { lists(y, parts(s->Some_0, t->Some_0)) } else { y is Err },
        BinaryOp::Range => y is Ok ==> m is Some && n is Some && y->Ok_0 is List && counted(m->Some_0.0, n->Some_0.0, content(y->Ok_0->List_0)),
        BinaryOp::Random => if m is Some && n is Some { exists|r: f64| #[trigger] checked(r) == checked(r) && gives(y, checked(r)) && (chance(m->Some_0.0, n->Some_0.0, r) || chance(n->Some_0.0, m->Some_0.0, r)) } else { y is Err },
    }
}
}
pub mod ops {
use vstd::prelude::*;
use super::scalars::*;
use std::rc::Rc;
use std::cmp::Ordering;
use super::heap::*;
use super::data::*;
use super::shape::*;
broadcast use super::heap::one_place;
//@fn src/process.rs "mod ops" flatten_impl -> r
//@sub BTreeSet< ==> Marks<
//@sub for value in values\.borrow\(\)\.iter\(\) \{ ==> let items_ = values.borrow(); for value in items_.iter() {
//@sub push_back ==> push
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//| ensures
//|     r is Ok ==> (exists|n: nat| tree(*value, n) && final(dest)@ =~= old(dest)@ + #[trigger] flat(*value, n)) && final(cache).all() =~= old(cache).all(),
//|     r is Err ==> stuck(*value, old(cache).all()),
//@enter
//| let ghost was = cache.all(); let ghost root = *value; proof { if !(root is List) { assert(tree(root, 0)); assert(flat(root, 0) == seq![root]); } }
//@ghost BEFORE "if !cache.insert(key)"
//| proof { if was.contains(key) { assert(below(root, key.of(), 0)); assert(within(root, key.of())); } }
//@ghost "let items_ = values.borrow();"
//| let ghost all = items_@; let ghost base = dest@; let ghost mut n: nat = 0; proof { assert(all.take(0) =~= Seq::empty()); }
//@loop 1
//| invariant next_value <= all.len(), cache.all() =~= was.insert(key), trees(all.take(next_value as int), n), dest@ =~= base + flats(all.take(next_value as int), n),
//@top 1
//| let ghost k = next_value - 1; let ghost then = dest@; proof { assert(*value == all[k]); if stuck(*value, was.insert(key)) { stuck_up(root, k, key, was); } }
//@bottom 1
//| proof {
//|     let m = choose|m: nat| tree(*value, m) && dest@ =~= then + #[trigger] flat(*value, m);
//|     let t = if n > m { n } else { m };
//|     trees_grow(all.take(k), n, t); flats_same(all.take(k), n, t); tree_grows(*value, m, t); flat_same(*value, m, t);
//|     assert(all.take(k + 1).drop_last() =~= all.take(k)); assert(all.take(k + 1).last() == *value);
//|     assert forall|i: int| 0 <= i < k + 1 implies tree(#[trigger] all.take(k + 1)[i], t) by { if i < k { assert(all.take(k)[i] == all.take(k + 1)[i]); } }
//|     n = t;
//| }
//@ghost BEFORE "cache.remove(&key);"
//| proof {
//|     assert(all.take(all.len() as int) =~= all);
//|     assert(tree(root, n + 1)) by { assert forall|i: int| 0 <= i < all.len() implies tree(#[trigger] all[i], n) by { assert(all.take(all.len() as int)[i] == all[i]); } }
//|     assert(flat(root, n + 1) == flats(all, n));
//| }
//@end
//@fn src/process.rs "mod ops" flatten -> r noinner
//@sub let mut res = Default::default\(\); ==> let mut res = Vec::new();
//@sub let mut cache = Default::default\(\); ==> let mut cache = Marks::none();
//| ensures
//|     r is Ok ==> exists|n: nat| tree(*value, n) && r->Ok_0@ =~= #[trigger] flat(*value, n),
//|     r is Err ==> endless(*value),
//@end
//@fn src/process.rs "mod ops" dimensions_impl -> r
//@sub BTreeSet< ==> Marks<
//@sub res\[depth\] = res\[depth\]\.max\(values\.len\(\)\); ==> let wide_ = larger(res[depth], values.len()); res.set(depth, wide_);
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//| requires depth <= old(res)@.len(),
//| ensures
//|     r is Ok ==> (exists|n: nat| tree(*value, n) && nats(final(res)@) =~= nats(old(res)@).take(depth as int) + merged(nats(old(res)@).skip(depth as int), #[trigger] extent(*value, n))) && final(cache).all() =~= old(cache).all(),
//|     r is Err ==> stuck(*value, old(cache).all()),
//@enter
//| let ghost was = cache.all(); let ghost root = *value; let ghost base = nats(res@); proof { if !(root is List) { assert(tree(root, 0)); assert(extent(root, 0) =~= Seq::<nat>::empty()); assert(merged(base.skip(depth as int), Seq::empty()) =~= base.skip(depth as int)); assert(base =~= base.take(depth as int) + base.skip(depth as int)); } }
//@ghost BEFORE "if !cache.insert(key)"
//| proof { if was.contains(key) { assert(below(root, key.of(), 0)); assert(within(root, key.of())); } }
//@ghost "res.set(depth, wide_);"
//| let ghost all = values@; let ghost mut n: nat = 0; proof { assert(all.take(0) =~= Seq::empty()); assert(nats(res@) =~= base.take(depth as int) + merged(base.skip(depth as int), seq![all.len()] + Seq::empty())); }
//@loop 1
//| invariant next_value <= all.len(), cache.all() =~= was.insert(key), trees(all.take(next_value as int), n), depth < res@.len(), nats(res@) =~= base.take(depth as int) + merged(base.skip(depth as int), seq![all.len()] + extents(all.take(next_value as int), n)),
//@top 1
//| let ghost k = next_value - 1; let ghost then = nats(res@); proof { assert(*value == all[k]); assert(res.len() <= usize::MAX); if stuck(*value, was.insert(key)) { stuck_up(root, k, key, was); } }
//@bottom 1
//| proof {
//|     let m = choose|m: nat| tree(*value, m) && nats(res@) =~= then.take(depth as int + 1) + merged(then.skip(depth as int + 1), #[trigger] extent(*value, m));
//|     let t = if n > m { n } else { m };
//|     trees_grow(all.take(k), n, t); extents_same(all.take(k), n, t); tree_grows(*value, m, t); extent_same(*value, m, t);
//|     assert(all.take(k + 1).drop_last() =~= all.take(k)); assert(all.take(k + 1).last() == *value);
//|     assert forall|i: int| 0 <= i < k + 1 implies tree(#[trigger] all.take(k + 1)[i], t) by { if i < k { assert(all.take(k)[i] == all.take(k + 1)[i]); } }
//|     widened(base, all.len(), extents(all.take(k), t), extent(*value, t), depth as int);
//|     assert(nats(res@).len() == res@.len());
//|     n = t;
//| }
//@ghost BEFORE "cache.remove(&key);"
//| proof {
//|     assert(all.take(all.len() as int) =~= all);
//|     assert(tree(root, n + 1)) by { assert forall|i: int| 0 <= i < all.len() implies tree(#[trigger] all[i], n) by { assert(all.take(all.len() as int)[i] == all[i]); } }
//|     assert(extent(root, n + 1) =~= seq![all.len()] + extents(all, n));
//| }
//@end
//@fn src/process.rs "mod ops" dimensions -> r noinner
//@sub let mut res = Default::default\(\); ==> let mut res = Vec::new();
//@sub let mut cache = Default::default\(\); ==> let mut cache = Marks::none();
//| ensures
//|     r is Ok ==> exists|n: nat| tree(*value, n) && nats(r->Ok_0@) =~= #[trigger] extent(*value, n),
//|     r is Err ==> endless(*value),
//@leave
//| proof { let n = choose|n: nat| tree(*value, n) && nats(res@) =~= Seq::<nat>::empty().take(0) + merged(Seq::<nat>::empty().skip(0), #[trigger] extent(*value, n)); assert(Seq::<nat>::empty().skip(0) =~= Seq::empty()); assert(merged(Seq::empty(), extent(*value, n)) =~= extent(*value, n)); assert(nats(res@) =~= extent(*value, n)); }
//@end
#[verifier::external_body] pub fn prep_index<'gc, C: CustomTypes<S>, S: System<C>>(index: &Value<'gc, C, S>, len: usize) -> (r: Result<usize, ErrorCause<C, S>>) ensures r is Ok <==> index_of(*index, len) is Some, r is Ok ==> r->Ok_0 < len, r is Ok ==> index_of(*index, len) == Some(r->Ok_0) { unimplemented!() }
//@fn src/process.rs "mod ops" set_impl -> r
//@sub BTreeSet< ==> Marks<
//@sub ops::prep_index ==> prep_index
//@sub for value in values\.borrow\(\)\.iter\(\) \{ ==> let items_ = values.borrow(); for value in items_.iter() {
//@sub if cache\.insert\(index\.identity\(\)\) \{ ==> { let id_ = index.identity(); if cache.insert(id_) {
//@sub (\n\s*)\}(\s*_ => \{) ==> \1} proof { assert(cache.all().contains(id_)); assert(covered(root, len, cache.all(), dest.all())); } }\2
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//| ensures
//|     old(cache).all().subset_of(final(cache).all()), old(dest).all().subset_of(final(dest).all()),
//|     r is Ok ==> covered(*index, len, final(cache).all(), final(dest).all()) && forall|j: Identity<'gc, C, S>| #[trigger] final(cache).all().contains(j) && !old(cache).all().contains(j) ==> opened(j.of(), len, final(cache).all(), final(dest).all()),
//|     forall|i: usize| #[trigger] final(dest).all().contains(i) && !old(dest).all().contains(i) ==> exists|w: V<'gc, C, S>| #[trigger] leaf(*index, w) && index_of(w, len) == Some(i),
//|     r is Err ==> exists|w: V<'gc, C, S>| #[trigger] leaf(*index, w) && index_of(w, len) is None,
//@enter
//| let ghost was = cache.all(); let ghost had = dest.all(); let ghost root = *index; proof { assert(below(root, root, 0)); assert(within(root, root)); if !(root is List) { assert(leaf(root, root)); } }
//@ghost "let items_ = values.borrow();"
//| let ghost all = items_@;
//@loop 1
//| invariant next_value <= all.len(), was.insert(id_).subset_of(cache.all()), had.subset_of(dest.all()), forall|i: int| 0 <= i < next_value ==> covered(#[trigger] all[i], len, cache.all(), dest.all()),
//|     forall|j: Identity<'gc, C, S>| #[trigger] cache.all().contains(j) && !was.insert(id_).contains(j) ==> opened(j.of(), len, cache.all(), dest.all()),
//|     forall|i: usize| #[trigger] dest.all().contains(i) && !had.contains(i) ==> exists|w: V<'gc, C, S>| #[trigger] leaf(root, w) && index_of(w, len) == Some(i),
//@top 1
//| let ghost k = next_value - 1; let ghost seen = cache.all(); let ghost got = dest.all(); proof { assert(*value == all[k]); assert forall|w: V<'gc, C, S>| #[trigger] leaf(all[k], w) implies leaf(root, w) by { leaf_up(root, k, w); } }
//@bottom 1
//| proof {
//|     assert forall|i: int| 0 <= i < next_value implies covered(#[trigger] all[i], len, cache.all(), dest.all()) by { if i < k { assert(covered(all[i], len, seen, got)); if all[i] is List { let j = choose|j: Identity<'gc, C, S>| #[trigger] seen.contains(j) && j.of() == all[i]; assert(cache.all().contains(j)); } } }
//|     assert forall|j: Identity<'gc, C, S>| #[trigger] cache.all().contains(j) && !was.insert(id_).contains(j) implies opened(j.of(), len, cache.all(), dest.all()) by { if seen.contains(j) { assert(opened(j.of(), len, seen, got)); if j.of() is List { let c = content(j.of()->List_0); assert forall|i: int| 0 <= i < c.len() implies covered(#[trigger] c[i], len, cache.all(), dest.all()) by { assert(covered(c[i], len, seen, got)); if c[i] is List { let q = choose|q: Identity<'gc, C, S>| #[trigger] seen.contains(q) && q.of() == c[i]; assert(cache.all().contains(q)); } } } } }
//|     assert forall|i: usize| #[trigger] dest.all().contains(i) && !had.contains(i) implies exists|w: V<'gc, C, S>| #[trigger] leaf(root, w) && index_of(w, len) == Some(i) by { if !got.contains(i) { let w = choose|w: V<'gc, C, S>| #[trigger] leaf(all[k], w) && index_of(w, len) == Some(i); assert(leaf(root, w)); } }
//| }
//@end
//@fn src/process.rs "mod ops" prep_index_set -> r noinner
//@sub BTreeSet< ==> Marks<
//@sub let mut res = Default::default\(\); ==> let mut res = Marks::none(); let mut cache = Marks::none();
//@sub &mut Default::default\(\) ==> &mut cache
//| ensures
//|     r is Ok ==> chosen(*index, len, r->Ok_0.all()),
//|     r is Err ==> exists|w: V<'gc, C, S>| #[trigger] leaf(*index, w) && index_of(w, len) is None,
//@leave
//| proof { assert forall|w: V<'gc, C, S>| #[trigger] leaf(*index, w) implies index_of(w, len) is Some && res.all().contains(index_of(w, len)->Some_0) by { let k = choose|k: nat| #[trigger] below(*index, w, k); all_covered(*index, w, k, len, cache.all(), res.all()); } }
//@end
#[verifier::external_body] pub fn dice<S>(system: &S, len: usize) -> (r: usize) requires len > 0 ensures r < len { unimplemented!() }
//@fn src/process.rs "mod ops" prep_rand_index -> r
//@sub system\.rand\(0\.\.len\) ==> dice(system, len)
//| ensures r is Ok <==> len > 0, r is Ok ==> r->Ok_0 < len,
//@end
//@fn src/process.rs "mod ops" cmp_impl -> r
//@sub BTreeMap< ==> Memo<
//@sub Rc::ptr_eq ==> ptr_eq
//@sub (\w)\.get\(\)\.to_bits\(\) ==> \1.to_bits()
//@sub a\.as_ptr\(\) == b\.as_ptr\(\) ==> a.is(b)
//@sub (a\.cmp\(&?b\))\.into\(\) ==> Some(\1)
//@sub (UniCase::new\([^\n]*?\)\.cmp\([^\n]*?\))\.into\(\) ==> Some(\1)
//@sub \.cmp\( ==> .ranked(
//@sub x => break x, ==> x => { break x }
//@sub match cmp_impl\(a, b, cache\)\? \{ ==> match ({ let got_ = cmp_impl(a, b, cache)?; proof { let m = choose|m: nat| #[trigger] order(*a, *b, m) == Some(got_); let t = if n > m { n } else { m }; alike_grows(xs, ys, i, n, t); order_same(*a, *b, m, t); if got_ != Some(Ordering::Equal) { skips(xs, ys, i, t); assert(xs.skip(i)[0] == xs[i]); assert(ys.skip(i)[0] == ys[i]); assert(order(ra, rb, t + 1) == Some(got_)); } n = t; } got_ }) {
//@sub \b([ab])\.iter\(\) ==> each(\1)
//@sub \*cache\.get_mut\(&key\)\.unwrap\(\) = Some\(res\) ==> cache.set(&key, Some(res))
//@sub SimpleValue::parse_number\(a\)\.and_then\(\|a\| SimpleValue::parse_number\(b\)\.map\(\|b\| \(a, b\)\)\) ==> match SimpleValue::parse_number(a) { Some(a) => match SimpleValue::parse_number(b) { Some(b) => Some((a, b)), None => None }, None => None }
//@result Option<Ordering>
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::loop_isolation(false)]
//| requires sound(old(cache).map()),
//| ensures
//|     r is Ok ==> ordered(*a, *b, r->Ok_0) && sound(final(cache).map()) && forall|k: Pair<'gc, C, S>| #[trigger] pending(final(cache).map(), k) <==> pending(old(cache).map(), k),
//|     r is Err ==> vain(*a, *b, old(cache).map()),
//@enter
//| let ghost was = cache.map(); let ghost ra = *a; let ghost rb = *b; proof { if !(ra is List && rb is List) { assert(order(ra, rb, 0) == Some(plain(ra, rb))); } }
//@ghost BEFORE "match cache.get(&key)"
//| proof { if pending(was, key) { assert(waits(ra, rb, key.0.of(), key.1.of())); } }
//@ghost "(each(a), each(b));"
//| let ghost xs = a.all(); let ghost ys = b.all(); let ghost mut n: nat = 0;
//@loop 1
//| invariant_except_break a.all() == xs, b.all() == ys, a.done() == b.done(), alike(xs, ys, a.done() as int, n),
//| invariant sound(cache.map()), forall|k: Pair<'gc, C, S>| #[trigger] pending(cache.map(), k) <==> pending(was, k) || k == key,
//| ensures ordered(ra, rb, result_),
//@top 1
//| let ghost i = a.done() as int; proof { skips(xs, ys, i, n); assert(order(ra, rb, n + 1) == orders(xs.skip(i), ys.skip(i), n)); if i < xs.len() && i < ys.len() && vain(xs[i], ys[i], cache.map()) { vain_up(ra, rb, i, n, key, was, cache.map()); } }
//@ghost BEFORE "cache.set(&key"
//| proof { assert(pending(cache.map(), key)); assert(ordered(ra, rb, res)); }
//| let ghost then = cache.map();
//@ghost BEFORE "Ok(res)"
//| proof {
//|     assert forall|k: Pair<'gc, C, S>| #[trigger] pending(cache.map(), k) <==> pending(was, k) by { assert(pending(then, k) <==> pending(was, k) || k == key); }
//|     assert(sound(cache.map())) by { assert forall|k: Pair<'gc, C, S>| #[trigger] cache.map().contains_key(k) && cache.map()[k] is Some implies ordered(k.0.of(), k.1.of(), cache.map()[k]->Some_0) by { if k != key { assert(then.contains_key(k)); } } }
//| }
//@end
//@fn src/process.rs "mod ops" cmp -> r
//@sub &mut Default::default\(\) ==> &mut Memo::none()
//| ensures r is Ok ==> ordered(*a, *b, r->Ok_0), r is Err ==> circular(*a, *b),
//@end
//@fn src/process.rs "mod ops" check_relation -> r
//@sub ord == (Some\(Ordering::Equal\)|Ordering::\w+) ==> same(ord, \1)
//@sub ord != (Some\(Ordering::Equal\)|Ordering::\w+) ==> !same(ord, \1)
//@sub unreachable!\(\) ==> vstd::pervasive::unreached()
//| ensures
//|     r is Ok ==> exists|x: Option<Ordering>| #[trigger] ordered(*a, *b, x) && says(relation, x) == Some(r->Ok_0),
//|     r is Err ==> circular(*a, *b) || exists|x: Option<Ordering>| #[trigger] ordered(*a, *b, x) && says(relation, x) is None,
//@end
//@fn src/process.rs "mod ops" identical -> r
//@sub Rc::ptr_eq ==> ptr_eq
//@sub (\w)\.get\(\)\.to_bits\(\) ==> \1.to_bits()
//@sub a\.as_ptr\(\) == b\.as_ptr\(\) ==> a.is(b)
//@sub (\(Value::Text\(a\), Value::Text\(b\)\)) => a == b ==> \1 => a.same_text(b)
//| ensures r == identical_(*a, *b),
//@end
//@fn src/process.rs "mod ops" find -> r
//@sub for \(i, x\) in list\.iter\(\)\.enumerate\(\) \{ ==> for i in 0..list.len() { let x = &list[i];
//@sub cmp\(x, value\)\? == Some\(Ordering::Equal\) ==> same(cmp(x, value)?, Some(Ordering::Equal))
//@attr #[verifier::loop_isolation(false)]
//| ensures
//|     r is Ok && r->Ok_0 is Some ==> r->Ok_0->Some_0 < content(list).len() && ordered(content(list)[r->Ok_0->Some_0 as int], *value, Some(Ordering::Equal)) && forall|j: int| 0 <= j < r->Ok_0->Some_0 ==> differ(#[trigger] content(list)[j], *value),
//|     r is Ok && r->Ok_0 is None ==> forall|j: int| 0 <= j < content(list).len() ==> differ(#[trigger] content(list)[j], *value),
//|     r is Err ==> exists|i: int| 0 <= i < content(list).len() && circular(#[trigger] content(list)[i], *value) && forall|j: int| 0 <= j < i ==> differ(#[trigger] content(list)[j], *value),
//@enter
//| let ghost all = content(list);
//@loop 1
//| invariant next_i <= end_i, end_i == all.len(), forall|j: int| 0 <= j < next_i ==> differ(#[trigger] all[j], *value),
//| decreases end_i - next_i
//@top 1
//| let ghost k = next_i - 1; proof { assert(all[k] == all[k]); }
//@end
//@fn src/process.rs "mod ops" columns -> r
//@sub src\.iter\(\)\.map\(\|x\| match x \{ ==> greatest(&*src, |x: &Value<'gc, C, S>| -> (w: usize) ensures w == width(*x) { match x {
//@sub \}\)\.max\(\)\.unwrap_or\(0\) ==> } })
//@sub (x\.borrow\(\))\.get\(column\)\.cloned\(\)\.unwrap_or_else\(\|\| Text::default\(\)\.into\(\)\) ==> item_or(\1, column, Value::Text(Text::default()))
//@sub push_back ==> push
//@sub Gc::new\(mc, RefLock::new\((\w+)\)\)\.into\(\) ==> Value::List(made(\1))
//@sub Gc::new\(mc, RefLock::new\((\w+)\)\) ==> made(\1)
//@sub \(mc: &Mutation<'gc>, ==> (
//@sub VecDeque::with_capacity ==> Vec::with_capacity
//@attr #[verifier::loop_isolation(false)]
//| ensures r is Ok <==> src is List, r is Ok ==> ({ let rows = content(src->List_0); let t = r->Ok_0; t is List && widest(rows, content(t->List_0).len()) && forall|i: int| 0 <= i < content(t->List_0).len() ==> column(#[trigger] content(t->List_0)[i], rows, i) }),
//@loop 1
//| invariant next_column <= end_column, end_column == columns, res@.len() == next_column, forall|i: int| 0 <= i < next_column ==> column(#[trigger] res@[i], src@, i),
//| decreases end_column - next_column
//@loop 2
//| invariant next_row <= src@.len(), inner@ =~= Seq::new(next_row as nat, |k: int| cell(src@[k], column as int)),
//| decreases src@.len() - next_row
//@end
//@fn src/process.rs "mod ops" reshape_impl -> r
//@sub \(mc: &Mutation<'gc>, ==> (
//@sub &mut Cycle<VecDequeIter<Value<'gc, C, S>>> ==> &mut Cycle<Value<'gc, C, S>>
//@sub match dims \{ ==> match first_of(dims) {
//@sub \[\] => ==> None =>
//@sub \[first, rest @ \.\.\] => ==> Some((first, rest)) =>
//@sub Gc::new\(mc, RefLock::new\(\(0\.\.\*first\)\.map\(\|_\| reshape_impl\(mc, src, rest\)\)\.collect::<VecDeque<_>>\(\)\)\)\.into\(\) ==> { let mut items_ = Vec::new(); for i_ in 0..*first { items_.push(reshape_impl(src, rest)); } Value::List(made(items_)) }
//@attr #[verifier::loop_isolation(false)]
//| requires old(src).all().len() > 0,
//| ensures final(src).all() == old(src).all(), filled(r, dims@, old(src).all(), old(src).done()), final(src).done() == old(src).done() + product(dims@),
//| decreases dims@.len()
//@enter
//| let ghost all = src.all(); let ghost from = src.done();
//@loop 1
//| invariant next_i_ <= end_i_, end_i_ == *first, items_@.len() == next_i_, src.all() == all, src.done() == from + next_i_ * product(rest@), forall|i: int| 0 <= i < next_i_ ==> filled(#[trigger] items_@[i], rest@, all, (from + i * product(rest@)) as nat),
//| decreases end_i_ - next_i_
//@bottom 1
//| proof { assert((next_i_ - 1) * product(rest@) + product(rest@) == next_i_ * product(rest@)) by (nonlinear_arith); }
//@end
//@fn src/process.rs "mod ops" reshape -> r noinner
//@sub \(mc: &Mutation<'gc>, ==> (
//@sub ops::flatten ==> flatten
//@sub reshape_impl\(mc, &mut src\.iter\(\)\.cycle\(\), dims\) ==> reshape_impl(&mut Cycle::over(&src), dims)
//| ensures
//|     r is Ok ==> exists|n: nat| tree(*src, n) && flat(*src, n).len() > 0 && #[trigger] filled(r->Ok_0, dims@, flat(*src, n), 0),
//|     r is Err ==> endless(*src) || exists|n: nat| tree(*src, n) && (#[trigger] flat(*src, n)).len() == 0,
//@enter
//| let ghost root = *src;
//@leave
//| proof { let n = choose|n: nat| tree(root, n) && src@ =~= #[trigger] flat(root, n); assert(src@ == flat(root, n)); assert(filled(result_->Ok_0, dims@, flat(root, n), 0)); }
//@end
//@fn src/process.rs "mod ops" cartesian_product_impl
//@sub \(mc: &Mutation<'gc>, ==> (
//@sub \(mc, ==> (
//@sub match sources \{ ==> match first_of(sources) {
//@sub \[\] => ==> None =>
//@sub \[first, rest @ \.\.\] => for item in first\.borrow\(\)\.iter\(\) \{ ==> Some((first, rest)) => { let items_ = first.borrow(); for item in items_.iter() {
//@sub Gc::new\( RefLock::new\(partial\.clone\(\)\)\)\.into\(\) ==> Value::List(made(partial.clone()))
//@sub push_back ==> push
//@sub pop_back\(\);\s*\} ==> pop(); } proof { assert(all.take(all.len() as int) =~= all); assert(lists_of(more, combinations(begun, sources@))); } }
//@attr #[verifier::loop_isolation(false)]
//| ensures final(partial)@ =~= old(partial)@, exists|more: Seq<V<'gc, C, S>>| final(res)@ =~= old(res)@ + more && #[trigger] lists_of(more, combinations(old(partial)@, sources@)),
//| decreases sources@.len()
//@enter
//| let ghost base = res@; let ghost begun = partial@; let ghost mut more: Seq<V<'gc, C, S>> = Seq::empty();
//@ghost "let items_ = first.borrow();"
//| let ghost all = items_@; proof { assert(all.take(0) =~= Seq::empty()); assert(sources@[0] == *first); }
//@loop 1
//| invariant next_item <= all.len(), partial@ =~= begun, res@ =~= base + more, lists_of(more, branches(begun, all.take(next_item as int), rest@)),
//| decreases all.len() - next_item
//@top 1
//| let ghost k = next_item - 1; let ghost then = res@;
//@bottom 1
//| proof {
//|     let m = choose|m: Seq<V<'gc, C, S>>| res@ =~= then + m && #[trigger] lists_of(m, combinations(begun.push(*item), rest@));
//|     assert(all.take(k + 1).drop_last() =~= all.take(k)); assert(all.take(k + 1).last() == *item);
//|     assert(lists_of(more + m, branches(begun, all.take(k + 1), rest@)));
//|     more = more + m;
//| }
//@leave
//| proof { if sources@.len() == 0 { let m = seq![res@.last()]; assert(res@ =~= base + m); assert(lists_of(m, combinations(begun, sources@))); } }
//@end
//@fn src/process.rs "mod ops" cartesian_product -> r noinner
//@sub \(mc: &Mutation<'gc>, ==> (
//@sub \(mc, ==> (
//@sub Default::default\(\) ==> Vec::new()
//@sub let mut res = VecDeque::with_capacity\(.*?\); ==> let mut res = VecDeque::new();
//| ensures sources@.len() == 0 ==> r@.len() == 0, sources@.len() > 0 ==> lists_of(r@, combinations(Seq::empty(), sources@)),
//@end
#[derive(Clone, Copy)]
//@type src/process.rs OpType
//@fn src/process.rs "mod ops" as_list -> r
//@sub v\.as_list\(\)\.ok\(\) ==> match v.as_list() { Ok(x) => Some(x), Err(_) => None }
//| ensures r is Some <==> v is List, r is Some ==> r->Some_0 == v->List_0,
//@end
//@fn src/process.rs "mod ops" as_matrix -> r
//@sub vals\.borrow\(\)\.front\(\) ==> first_item(vals.borrow())
//| ensures r is Some <==> matrix(*v), r is Some ==> r->Some_0 == v->List_0,
//@end
//@fn src/process.rs "mod ops" unary_op_impl -> r
//@sub unary_op_impl<'gc, C: CustomTypes<S>, S: System<C>> ==> unary_op_impl<'gc, C: CustomTypes<S>, S: System<C>, F: Fn(&Mutation<'gc>, &S, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>>
//@sub &dyn Fn\(.*\) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>\) ==> &F)
//@sub BTreeMap<Identity<'gc, C, S>, Value<'gc, C, S>> ==> Images<'gc, C, S>
//@sub let real_res: Value<C, S> = Gc::new\(mc, RefLock::new\(VecDeque::with_capacity\(x\.len\(\)\)\)\)\.into\(\); ==> let (list_, draft_) = begun(); let real_res = Value::List(list_);
//@sub let res = as_list\(&real_res\)\.unwrap\(\);\s*let mut res = res\.borrow_mut\(mc\); ==> let mut res = Vec::new();
//@sub for x in &\*x \{ ==> let items_ = x; for x in items_.iter() {
//@sub push_back ==> push
//@sub match op_type \{ ==> draft_.finish(res); match op_type {
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//| requires forall|m: &Mutation<'gc>, s: &S, v: &Value<'gc, C, S>| #[trigger] call_requires(*scalar_op, (m, s, v)), known(*old(cache)), op_type is Deterministic ==> kept(*old(cache)),
//| ensures old(cache).pairs().subset_of(final(cache).pairs()),
//|     r is Ok ==> ({ let f = |v: V<'gc, C, S>, w: V<'gc, C, S>| call_ensures(*scalar_op, (mc, system, &v), Ok(w));
//|         &&& known(*final(cache)) && (op_type is Deterministic ==> kept(*final(cache)))
//|         &&& image(final(cache).pairs(), f, *x, r->Ok_0)
//|         &&& forall|v: V<'gc, C, S>, w: V<'gc, C, S>| #[trigger] final(cache).pairs().contains((v, w)) && !old(cache).pairs().contains((v, w)) ==> itemwise(final(cache).pairs(), f, v, w) }),
//|     r is Err ==> exists|w: V<'gc, C, S>, e: ErrorCause<C, S>| #[trigger] leaf(*x, w) && #[trigger] call_ensures(*scalar_op, (mc, system, &w), Err(e)),
//@enter
//| let ghost root = *x; let ghost was = *cache; let ghost f = |v: V<'gc, C, S>, w: V<'gc, C, S>| call_ensures(*scalar_op, (mc, system, &v), Ok(w)); proof { assert(below(root, root, 0)); assert(within(root, root)); assert(root is List || leaf(root, root)); }
//@ghost "let items_ = x;"
//| let ghost all = items_@; proof { if op_type is Deterministic { stays_kept(was, *cache, cache_key, real_res); } }
//@loop 1
//| invariant next_x <= all.len(), res@.len() == next_x, was.pairs().subset_of(cache.pairs()), cache.pairs().contains((root, real_res)), known(*cache), op_type is Deterministic ==> kept(*cache),
//|     forall|i: int| 0 <= i < next_x ==> image(cache.pairs(), f, #[trigger] all[i], res@[i]),
//|     forall|v: V<'gc, C, S>, w: V<'gc, C, S>| #[trigger] cache.pairs().contains((v, w)) && !was.pairs().contains((v, w)) && (v, w) != (root, real_res) ==> itemwise(cache.pairs(), f, v, w),
//@top 1
//| let ghost k = next_x - 1; let ghost then = *cache; let ghost done = res@; proof { assert(*x == all[k]); assert forall|w: V<'gc, C, S>| #[trigger] leaf(all[k], w) implies leaf(root, w) by { leaf_up(root, k, w); } }
//@bottom 1
//| proof {
//|     assert forall|v: V<'gc, C, S>, w: V<'gc, C, S>| #[trigger] cache.pairs().contains((v, w)) && !was.pairs().contains((v, w)) && (v, w) != (root, real_res) implies itemwise(cache.pairs(), f, v, w) by { if then.pairs().contains((v, w)) { more_pairs(then.pairs(), cache.pairs(), f, v, w); } }
//|     assert forall|i: int| 0 <= i < next_x implies image(cache.pairs(), f, #[trigger] all[i], res@[i]) by { if i < k { assert(res@[i] == done[i]); assert(image(then.pairs(), f, all[i], done[i])); } }
//| }
//@end
/// The item of `all` an index names.
pub open spec fn picks<'gc, C: CustomTypes<S>, S: System<C>>(all: Seq<V<'gc, C, S>>) -> Rule<'gc, C, S> { |x: V<'gc, C, S>, y: V<'gc, C, S>| picked(all, all.len() as usize, x, y) }
/// A rule that says more lifts to an image that says more.
pub proof fn weaker<'gc, C: CustomTypes<S>, S: System<C>>(r: Pairs<'gc, C, S>, f: Rule<'gc, C, S>, g: Rule<'gc, C, S>, x: V<'gc, C, S>, y: V<'gc, C, S>)
    requires image(r, f, x, y), closed(r, f), forall|v: V<'gc, C, S>, w: V<'gc, C, S>| #[trigger] f(v, w) ==> g(v, w) ensures image(r, g, x, y), closed(r, g) {
    assert forall|v: V<'gc, C, S>, w: V<'gc, C, S>| #[trigger] r.contains((v, w)) implies itemwise(r, g, v, w) by {
        assert(itemwise(r, f, v, w));
        assert forall|i: int| 0 <= i < content(v->List_0).len() implies image(r, g, #[trigger] content(v->List_0)[i], content(w->List_0)[i]) by { assert(image(r, f, content(v->List_0)[i], content(w->List_0)[i])); }
    }
}
pub proof fn one_image<'gc, C: CustomTypes<S>, S: System<C>>(m: Images<'gc, C, S>) requires known(m), kept(m) ensures single(m.pairs()) {
    broadcast use one_place;
    assert forall|x: V<'gc, C, S>, y: V<'gc, C, S>, z: V<'gc, C, S>| #[trigger] m.pairs().contains((x, y)) && #[trigger] m.pairs().contains((x, z)) implies y == z by { }
}
//@fn src/process.rs "mod ops" index_list -> r
//@sub unary_op_impl\(mc, system, index, &mut Default::default\(\), OpType::Deterministic, &\|_, _, x\| Ok\((.*)\)\) ==> let mut cache_ = Images::none(); let op_ = |_m: &Mutation<'gc>, _s: &S, x: &Value<'gc, C, S>| -> (y: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures picking(list@, *x, y) { Ok(\1) }; let result_ = unary_op_impl(mc, system, index, &mut cache_, OpType::Deterministic, &op_); proof { let f = |v: V<'gc, C, S>, w: V<'gc, C, S>| call_ensures(op_, (mc, system, &v), Ok(w)); if result_ is Ok { one_image(cache_); weaker(cache_.pairs(), f, picks(list@), *index, result_->Ok_0); } } result_
//| ensures r is Ok ==> list is List && lifted(picks(content(list->List_0)), *index, r->Ok_0, true),
//|     r is Err && list is List ==> exists|w: V<'gc, C, S>| #[trigger] leaf(*index, w) && index_of(w, content(list->List_0).len() as usize) is None,
//@end
pub type Rule2<'gc, C, S> = spec_fn(V<'gc, C, S>, V<'gc, C, S>, V<'gc, C, S>) -> bool;
/// What an operation goes into: matrices before the rest.
pub open spec fn entered<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>, m: bool) -> bool { if m { matrix(v) } else { v is List } }
/// `y` is the result for `a` and `b`; with `m`, matrices are gone into first and the rest is done without.
pub open spec fn result<'gc, C: CustomTypes<S>, S: System<C>>(r: Entries<'gc, C, S>, f: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, m: bool, y: V<'gc, C, S>) -> bool {
    if entered(a, m) || entered(b, m) { y is List && r.contains((a, b, m, y)) } else if m && (a is List || b is List) { y is List && r.contains((a, b, false, y)) } else { f(a, b, y) }
}
/// Two lists item by item up to the end of the shorter one, a list and a scalar with the scalar for each item.
pub open spec fn crossed<'gc, C: CustomTypes<S>, S: System<C>>(r: Entries<'gc, C, S>, f: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, m: bool, y: V<'gc, C, S>) -> bool {
    y is List && ({ let res = content(y->List_0);
    if entered(a, m) && entered(b, m) { res.len() == shorter(content(a->List_0).len(), content(b->List_0).len()) && forall|i: int| 0 <= i < res.len() ==> result(r, f, content(a->List_0)[i], content(b->List_0)[i], m, #[trigger] res[i]) }
    else if entered(a, m) { res.len() == content(a->List_0).len() && forall|i: int| 0 <= i < res.len() ==> result(r, f, content(a->List_0)[i], b, m, #[trigger] res[i]) }
    else { entered(b, m) && res.len() == content(b->List_0).len() && forall|i: int| 0 <= i < res.len() ==> result(r, f, a, content(b->List_0)[i], m, #[trigger] res[i]) } })
}
pub open spec fn shorter(a: nat, b: nat) -> nat { if a < b { a } else { b } }
pub open spec fn recorded<'gc, C: CustomTypes<S>, S: System<C>>(m: Results<'gc, C, S>) -> bool {
    forall|k: (Identity<'gc, C, S>, Identity<'gc, C, S>, bool)| #[trigger] m.map().contains_key(k) ==> (entered(k.0.of(), k.2) || entered(k.1.of(), k.2)) && m.map()[k] is List && m.all().contains((k.0.of(), k.1.of(), k.2, m.map()[k]))
}
pub proof fn more_entries<'gc, C: CustomTypes<S>, S: System<C>>(r: Entries<'gc, C, S>, q: Entries<'gc, C, S>, f: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, m: bool, y: V<'gc, C, S>) requires crossed(r, f, a, b, m, y), r.subset_of(q) ensures crossed(q, f, a, b, m, y) { }
/// All entries but the one for `(a, b, m, y)` are as they have to be.
pub open spec fn others<'gc, C: CustomTypes<S>, S: System<C>>(now: Entries<'gc, C, S>, was: Entries<'gc, C, S>, f: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, m: bool, y: V<'gc, C, S>) -> bool {
    forall|c: V<'gc, C, S>, d: V<'gc, C, S>, n: bool, z: V<'gc, C, S>| #[trigger] now.contains((c, d, n, z)) && !was.contains((c, d, n, z)) && (c, d, n, z) != (a, b, m, y) ==> crossed(now, f, c, d, n, z)
}
pub open spec fn complete<'gc, C: CustomTypes<S>, S: System<C>>(now: Entries<'gc, C, S>, was: Entries<'gc, C, S>, f: Rule2<'gc, C, S>) -> bool {
    forall|c: V<'gc, C, S>, d: V<'gc, C, S>, n: bool, z: V<'gc, C, S>| #[trigger] now.contains((c, d, n, z)) && !was.contains((c, d, n, z)) ==> crossed(now, f, c, d, n, z)
}
/// After the next item: what was entered before stays as it was, what is new is as the call for the item left it.
pub proof fn step_on<'gc, C: CustomTypes<S>, S: System<C>>(now: Entries<'gc, C, S>, then: Entries<'gc, C, S>, was: Entries<'gc, C, S>, f: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, m: bool, y: V<'gc, C, S>)
    requires others(then, was, f, a, b, m, y), complete(now, then, f), then.subset_of(now) ensures others(now, was, f, a, b, m, y) {
    assert forall|c: V<'gc, C, S>, d: V<'gc, C, S>, n: bool, z: V<'gc, C, S>| #[trigger] now.contains((c, d, n, z)) && !was.contains((c, d, n, z)) && (c, d, n, z) != (a, b, m, y) implies crossed(now, f, c, d, n, z) by { if then.contains((c, d, n, z)) { more_entries(then, now, f, c, d, n, z); } }
}
pub proof fn still<'gc, C: CustomTypes<S>, S: System<C>>(r: Entries<'gc, C, S>, q: Entries<'gc, C, S>, f: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, m: bool, y: V<'gc, C, S>) requires result(r, f, a, b, m, y), r.subset_of(q) ensures result(q, f, a, b, m, y) { }
//@fn src/process.rs "mod ops" binary_op_impl -> r
//@sub binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>> ==> binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>, F: Fn(&Mutation<'gc>, &S, &Value<'gc, C, S>, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>>
//@sub scalar_op: fn\(.*\) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>\) -> ==> scalar_op: &F) ->
//@sub BTreeMap<\(Identity<'gc, C, S>, Identity<'gc, C, S>, bool\), Value<'gc, C, S>> ==> Results<'gc, C, S>
//@sub let checker = if matrix_mode \{ as_matrix \} else \{ as_list \};\s*match \(checker\(a\), checker\(b\)\) ==> match (if matrix_mode { as_matrix(a) } else { as_list(a) }, if matrix_mode { as_matrix(b) } else { as_list(b) })
//@sub let real_res: Value<C, S> = Gc::new\(mc, RefLock::new\(VecDeque::with_capacity\(.*\)\)\)\.into\(\); ==> let (list_, draft_) = begun(); let real_res = Value::List(list_);
//@sub let res = as_list\(&real_res\)\.unwrap\(\);\s*let mut res = res\.borrow_mut\(mc\); ==> let mut res = Vec::new();
//@sub for \(a, b\) in iter::zip\(&\*a, &\*b\) \{ ==> let mut i_: usize = 0; while i_ < a.len() && i_ < b.len() { let (a, b) = (&a[i_], &b[i_]); i_ = i_ + 1;
//@sub for a in &\*a \{ ==> let mut i_: usize = 0; while i_ < a.len() { let a = &a[i_]; i_ = i_ + 1;
//@sub for b in &\*b \{ ==> let mut i_: usize = 0; while i_ < b.len() { let b = &b[i_]; i_ = i_ + 1;
//@sub push_back ==> push
//@sub (?m)^( *)real_res$ ==> draft_.finish(res); real_res
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//| requires forall|m: &Mutation<'gc>, s: &S, v: &Value<'gc, C, S>, w: &Value<'gc, C, S>| #[trigger] call_requires(*scalar_op, (m, s, v, w)), recorded(*old(cache)),
//| ensures old(cache).all().subset_of(final(cache).all()),
//|     r is Ok ==> ({ let f = |v: V<'gc, C, S>, w: V<'gc, C, S>, y: V<'gc, C, S>| call_ensures(*scalar_op, (mc, system, &v, &w), Ok(y));
//|         recorded(*final(cache)) && result(final(cache).all(), f, *a, *b, matrix_mode, r->Ok_0) && complete(final(cache).all(), old(cache).all(), f) }),
//|     r is Err ==> exists|v: V<'gc, C, S>, w: V<'gc, C, S>, e: ErrorCause<C, S>| #[trigger] leaf(*a, v) && #[trigger] leaf(*b, w) && #[trigger] call_ensures(*scalar_op, (mc, system, &v, &w), Err(e)),
//@enter
//| let ghost aa = *a; let ghost bb = *b; let ghost m = matrix_mode; let ghost was = *cache; let ghost f = |v: V<'gc, C, S>, w: V<'gc, C, S>, y: V<'gc, C, S>| call_ensures(*scalar_op, (mc, system, &v, &w), Ok(y));
//| proof { assert(below(aa, aa, 0)); assert(within(aa, aa)); assert(aa is List || leaf(aa, aa)); assert(below(bb, bb, 0)); assert(within(bb, bb)); assert(bb is List || leaf(bb, bb)); }
//@loop 1
//| invariant i_ <= content(aa->List_0).len() && i_ <= content(bb->List_0).len(), res@.len() == i_, was.all().subset_of(cache.all()), cache.all().contains((aa, bb, m, real_res)), recorded(*cache),
//|     forall|i: int| 0 <= i < i_ ==> result(cache.all(), f, content(aa->List_0)[i], content(bb->List_0)[i], m, #[trigger] res@[i]), others(cache.all(), was.all(), f, aa, bb, m, real_res),
//@top 1
//| let ghost k = i_ as int; let ghost then = *cache; let ghost done = res@; proof {
//|     assert forall|w: V<'gc, C, S>| #[trigger] leaf(content(aa->List_0)[k], w) implies leaf(aa, w) by { leaf_up(aa, k, w); }
//|     assert forall|w: V<'gc, C, S>| #[trigger] leaf(content(bb->List_0)[k], w) implies leaf(bb, w) by { leaf_up(bb, k, w); }
//| }
//@bottom 1
//| proof { step_on(cache.all(), then.all(), was.all(), f, aa, bb, m, real_res);
//|     assert forall|i: int| 0 <= i < i_ implies result(cache.all(), f, content(aa->List_0)[i], content(bb->List_0)[i], m, #[trigger] res@[i]) by { if i < k { assert(res@[i] == done[i]); still(then.all(), cache.all(), f, content(aa->List_0)[i], content(bb->List_0)[i], m, done[i]); } } }
//@loop 2
//| invariant i_ <= content(aa->List_0).len(), res@.len() == i_, was.all().subset_of(cache.all()), cache.all().contains((aa, bb, m, real_res)), recorded(*cache),
//|     forall|i: int| 0 <= i < i_ ==> result(cache.all(), f, content(aa->List_0)[i], bb, m, #[trigger] res@[i]), others(cache.all(), was.all(), f, aa, bb, m, real_res),
//@top 2
//| let ghost k = i_ as int; let ghost then = *cache; let ghost done = res@; proof {
//|     assert forall|w: V<'gc, C, S>| #[trigger] leaf(content(aa->List_0)[k], w) implies leaf(aa, w) by { leaf_up(aa, k, w); }
//| }
//@bottom 2
//| proof { step_on(cache.all(), then.all(), was.all(), f, aa, bb, m, real_res);
//|     assert forall|i: int| 0 <= i < i_ implies result(cache.all(), f, content(aa->List_0)[i], bb, m, #[trigger] res@[i]) by { if i < k { assert(res@[i] == done[i]); still(then.all(), cache.all(), f, content(aa->List_0)[i], bb, m, done[i]); } } }
//@loop 3
//| invariant i_ <= content(bb->List_0).len(), res@.len() == i_, was.all().subset_of(cache.all()), cache.all().contains((aa, bb, m, real_res)), recorded(*cache),
//|     forall|i: int| 0 <= i < i_ ==> result(cache.all(), f, aa, content(bb->List_0)[i], m, #[trigger] res@[i]), others(cache.all(), was.all(), f, aa, bb, m, real_res),
//@top 3
//| let ghost k = i_ as int; let ghost then = *cache; let ghost done = res@; proof {
//|     assert forall|w: V<'gc, C, S>| #[trigger] leaf(content(bb->List_0)[k], w) implies leaf(bb, w) by { leaf_up(bb, k, w); }
//| }
//@bottom 3
//| proof { step_on(cache.all(), then.all(), was.all(), f, aa, bb, m, real_res);
//|     assert forall|i: int| 0 <= i < i_ implies result(cache.all(), f, aa, content(bb->List_0)[i], m, #[trigger] res@[i]) by { if i < k { assert(res@[i] == done[i]); still(then.all(), cache.all(), f, aa, content(bb->List_0)[i], m, done[i]); } } }
//@end
pub open spec fn unary_rule<'gc, C: CustomTypes<S>, S: System<C>>(op: UnaryOp) -> Rule<'gc, C, S> { |x: V<'gc, C, S>, y: V<'gc, C, S>| one_operand(op, x, Ok(y)) }
pub open spec fn binary_rule<'gc, C: CustomTypes<S>, S: System<C>>(op: BinaryOp) -> Rule2<'gc, C, S> { |x: V<'gc, C, S>, y: V<'gc, C, S>, z: V<'gc, C, S>| two_operands(op, x, y, Ok(z)) }
/// Every entry is the result for its operands.
pub open spec fn closed2<'gc, C: CustomTypes<S>, S: System<C>>(r: Entries<'gc, C, S>, f: Rule2<'gc, C, S>) -> bool { forall|c: V<'gc, C, S>, d: V<'gc, C, S>, n: bool, z: V<'gc, C, S>| #[trigger] r.contains((c, d, n, z)) ==> crossed(r, f, c, d, n, z) }
pub open spec fn lifted2<'gc, C: CustomTypes<S>, S: System<C>>(f: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, y: V<'gc, C, S>) -> bool { exists|r: Entries<'gc, C, S>| #[trigger] result(r, f, a, b, true, y) && closed2(r, f) }
pub proof fn weaker2<'gc, C: CustomTypes<S>, S: System<C>>(r: Entries<'gc, C, S>, f: Rule2<'gc, C, S>, g: Rule2<'gc, C, S>, a: V<'gc, C, S>, b: V<'gc, C, S>, m: bool, y: V<'gc, C, S>)
    requires result(r, f, a, b, m, y), complete(r, Entries::<'gc, C, S>::empty(), f), forall|v: V<'gc, C, S>, w: V<'gc, C, S>, z: V<'gc, C, S>| #[trigger] f(v, w, z) ==> g(v, w, z) ensures result(r, g, a, b, m, y), closed2(r, g) {
    assert forall|c: V<'gc, C, S>, d: V<'gc, C, S>, n: bool, z: V<'gc, C, S>| #[trigger] r.contains((c, d, n, z)) implies crossed(r, g, c, d, n, z) by { assert(crossed(r, f, c, d, n, z)); }
}
/// The outcome of the item-by-item walk is what the block has to give.
pub proof fn unary_done<'gc, C: CustomTypes<S>, S: System<C>, F: Fn(&Mutation<'gc>, &S, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>>(mc: &Mutation<'gc>, system: &S, x: V<'gc, C, S>, op: UnaryOp, f: F, cache: Images<'gc, C, S>, r: Told<'gc, C, S>)
    requires forall|m: &Mutation<'gc>, s: &S, v: V<'gc, C, S>, y: Told<'gc, C, S>| #[trigger] call_ensures(f, (m, s, &v), y) ==> one_operand(op, v, y),
        r is Ok ==> ({ let g = |v: V<'gc, C, S>, w: V<'gc, C, S>| call_ensures(f, (mc, system, &v), Ok(w));
            known(cache) && (!(op is StrGetRandom) ==> kept(cache)) && image(cache.pairs(), g, x, r->Ok_0) && forall|v: V<'gc, C, S>, w: V<'gc, C, S>| #[trigger] cache.pairs().contains((v, w)) ==> itemwise(cache.pairs(), g, v, w) }),
        r is Err ==> exists|w: V<'gc, C, S>, e: ErrorCause<C, S>| #[trigger] leaf(x, w) && #[trigger] call_ensures(f, (mc, system, &w), Err(e)),
    ensures unary_good(x, op, r)
{
    reveal(unary_good);
    let g = |v: V<'gc, C, S>, w: V<'gc, C, S>| call_ensures(f, (mc, system, &v), Ok(w));
    if r is Ok { if !(op is StrGetRandom) { one_image(cache); } weaker(cache.pairs(), g, unary_rule(op), x, r->Ok_0); }
    else { let (w, e) = choose|w: V<'gc, C, S>, e: ErrorCause<C, S>| #[trigger] leaf(x, w) && #[trigger] call_ensures(f, (mc, system, &w), Err(e)); assert(one_operand(op, w, Err(e))); }
}
#[verifier::opaque] pub open spec fn unary_good<'gc, C: CustomTypes<S>, S: System<C>>(x: V<'gc, C, S>, op: UnaryOp, r: Told<'gc, C, S>) -> bool {
    &&& r is Ok ==> lifted(unary_rule(op), x, r->Ok_0, !(op is StrGetRandom))
    &&& r is Err ==> exists|w: V<'gc, C, S>, e: ErrorCause<C, S>| #[trigger] leaf(x, w) && #[trigger] one_operand(op, w, Err(e))
}
//@fn src/process.rs "mod ops" unary_op -> r
//@attr #[verifier::spinoff_prover]
//@sub let mut cache = Default::default\(\); ==> let mut cache = Images::none();
//@sub Gc::new\(mc, RefLock::new\( ==> listed(mc, (
//@sub \.into\(\) ==> .val()
//@sub \.graphemes\(true\) ==> .graphemes()
//@sub \.map\(\|(\w+)\| Text::from\(\1\)\.val\(\)\)\.collect::<VecDeque<_>>\(\) ==> .texts()
//@sub \.split\((\w+)\.as_str\(\)\) ==> .parts(\1.as_str())
//@sub \.split\(('\\?.')\) ==> .parts_at(\1)
//@sub (libm::\w+\(.*?\.get\(\)\))\.to_degrees\(\) ==> degrees(\1)
//@sub libm::(\w+)\((.*?\.get\(\))\.to_radians\(\)\) ==> libm::\1(radians(\2))
//@sub Number::new\((.*)\.count\(\) as f64\) ==> Number::new(float(\1.count()))
//@sub (?s)match parse_json::<Json>\(&(\w+)\) \{.*?\}\s*\}\), ==> from_json(mc, &\1) }),
//@sub (?s)if (\w+) < 0\.0 \|\| \1 > u32::MAX.*?match char::from_u32.*?\}\s*\}\), ==> Ok(character(\1)?.val()) }),
//@sub (?s)let values: VecDeque<_> = (\w+)\.chars\(\).*?\?; ==> let values: VecDeque<Value<'gc, C, S>> = code_points(&\1)?;
//@sub values\.into_iter\(\)\.next\(\)\.unwrap\(\) ==> only(values)
//@wrap unary_op_impl ==> { let op_ = |{P0}: &Mutation<'gc>, {P1}: &S, {P2}: &Value<'gc, C, S>| -> (y_: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures one_operand(op, *{P2}, y_) { {B} }; let r_ = unary_op_impl({A}, &op_); proof { unary_done(mc, system, *x, op, op_, cache, r_); } r_ }
//| ensures unary_good(*x, op, r),
//@end
//@fn src/process.rs "mod ops" binary_op -> r
//@sub let mut cache = Default::default\(\); ==> let mut cache = Results::none();
//@sub Gc::new\(mc, RefLock::new\( ==> listed(mc, (
//@sub \.into\(\) ==> .val()
//@sub \.graphemes\(true\) ==> .graphemes()
//@sub \.map\(\|(\w+)\| Text::from\(\1\)\.val\(\)\)\.collect::<VecDeque<_>>\(\) ==> .texts()
//@sub \.split\((\w+)\.as_str\(\)\) ==> .parts(\1.as_str())
//@sub \.split\(('\\?.')\) ==> .parts_at(\1)
//@sub (?s)let mut res = VecDeque::new\(\);\s*if a\.is_finite.*?Ok\(listed\(mc, \(res\)\)\.val\(\)\) ==> Ok(listed(mc, count_up(a, b)?).val())
//@sub let \(mut a, b\) = \(a\.as_number ==> let (a, b) = (a.as_number
//@sub \((\w+), (\w+)\) = \(\2, \1\); ==> { let t_ = \1; \1 = \2; \2 = t_; }
//@sub (?s)let res = if a == libm.*?\};\s*Ok ==> let res = drawn(system, a, b); Ok
//@wrap binary_op_impl ==> { let op_ = |{P0}: &Mutation<'gc>, {P1}: &S, {P2}: &Value<'gc, C, S>, {P3}: &Value<'gc, C, S>| -> (y_: Result<Value<'gc, C, S>, ErrorCause<C, S>>) ensures two_operands(op, *{P2}, *{P3}, y_) { {B} }; let r_ = binary_op_impl({A}, &op_); proof { let f = |v: V<'gc, C, S>, w: V<'gc, C, S>, z: V<'gc, C, S>| call_ensures(op_, (mc, system, &v, &w), Ok(z)); if r_ is Ok { weaker2(cache.all(), f, binary_rule(op), *a, *b, true, r_->Ok_0); } } r_ }
//| ensures r is Ok ==> lifted2(binary_rule(op), *a, *b, r->Ok_0),
//|     r is Err ==> exists|v: V<'gc, C, S>, w: V<'gc, C, S>, e: ErrorCause<C, S>| #[trigger] leaf(*a, v) && #[trigger] leaf(*b, w) && #[trigger] two_operands(op, v, w, Err(e)),
//@end
}
pub mod plain {
//! Values that leave the VM and come back.
use vstd::prelude::*;
use std::rc::Rc;
use super::heap::*;
use super::data::*;
use super::shape::*;
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
/// The plain value `s` says what `v` holds.
pub open spec fn stands<'gc, C: CustomTypes<S>, S: System<C>>(s: SimpleValue, v: V<'gc, C, S>) -> bool decreases s {
    match s {
        SimpleValue::Bool(x) => v is Bool && v->Bool_0 == x, SimpleValue::Number(x) => v is Number && v->Number_0 == x, SimpleValue::Text(x) => v is Text && v->Text_0.chars() == x.chars(),
        SimpleValue::Image(x) => v is Image && *v->Image_0 == x, SimpleValue::Audio(x) => v is Audio && *v->Audio_0 == x,
        SimpleValue::List(x) => v is List && content(v->List_0).len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> stands(#[trigger] x@[i], content(v->List_0)[i]),
    }
}
/// Cannot leave.
pub open spec fn bound<'gc, C: CustomTypes<S>, S: System<C>>(v: V<'gc, C, S>) -> bool { v is Closure || v is Entity || v is Native }
#[verifier::external_body] pub fn compact(x: &Text) -> (r: CompactString) ensures r.chars() == x.chars() { unimplemented!() }
#[verifier::external_body] pub fn text(x: CompactString) -> (r: Text) ensures r.chars() == x.chars() { unimplemented!() }
/// What has a plain form is finite and holds nothing that cannot leave.
pub proof fn finite_form<'gc, C: CustomTypes<S>, S: System<C>>(s: SimpleValue, v: V<'gc, C, S>) -> (n: nat) requires stands(s, v) ensures tree(v, n), !bound(v) decreases s {
    match s {
        SimpleValue::List(x) => { let n = finite_forms(x@, content(v->List_0), s, x@.len()); assert(content(v->List_0).take(x@.len() as int) =~= content(v->List_0)); n + 1 }
        _ => 0
    }
}
pub proof fn finite_forms<'gc, C: CustomTypes<S>, S: System<C>>(x: Seq<SimpleValue>, y: Seq<V<'gc, C, S>>, s: SimpleValue, k: nat) -> (n: nat)
    requires s is List, x == s->List_0@, x.len() == y.len(), k <= x.len(), forall|i: int| 0 <= i < x.len() ==> stands(#[trigger] x[i], y[i])
    ensures trees(y.take(k as int), n) decreases s, k
{
    if k == 0 { 0 } else {
        let a = finite_forms(x, y, s, (k - 1) as nat); assert(decreases_to!(s => s->List_0)); assert(stands(x[k - 1], y[k - 1])); let b = finite_form(s->List_0@[k - 1], y[k - 1]); let n = if a > b { a } else { b };
        assert forall|i: int| 0 <= i < k implies tree(#[trigger] y.take(k as int)[i], n) by { if i < k - 1 { assert(y.take(k - 1)[i] == y[i]); tree_grows(y[i], a, n); } else { tree_grows(y[i], b, n); } }
        n
    }
}
//@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" simplify -> r
//@sub BTreeSet< ==> Marks<
//@sub \(\*\*x\)\.into\(\) ==> compact(x)
//@sub let res = SimpleValue::List\((.*?)\.iter\(\)\.map\(\|x\| (simplify\(x, cache\))\)\.collect::<Result<_, ?_>>\(\)\?\); ==> let values_ = \1; let mut items_ = Vec::new(); for x in values_.iter() { items_.push(\2?); } let res = SimpleValue::List(items_);
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//| ensures
//|     r is Ok ==> stands(r->Ok_0, *value) && final(cache).all() =~= old(cache).all(),
//|     r is Err ==> match r->Err_0 { ToSimpleError::Cyclic => stuck(*value, old(cache).all()), ToSimpleError::ComplexType(_) => exists|w: V<'gc, C, S>| #[trigger] leaf(*value, w) && bound(w) },
//@enter
//| let ghost was = cache.all(); let ghost root = *value; proof { assert(below(root, root, 0)); assert(within(root, root)); assert(root is List || leaf(root, root)); }
//@ghost BEFORE "if !cache.insert(identity)"
//| proof { if was.contains(identity) { assert(within(root, identity.of())); } }
//@ghost "let values_ = x.borrow();"
//| let ghost all = values_@;
//@loop 1
//| invariant next_x <= all.len(), items_@.len() == next_x, cache.all() =~= was.insert(identity), forall|i: int| 0 <= i < next_x ==> stands(#[trigger] items_@[i], all[i]),
//@top 1
//| let ghost k = next_x - 1; let ghost then = items_@; proof { assert(*x == all[k]); if stuck(*x, was.insert(identity)) { stuck_up(root, k, identity, was); } assert forall|w: V<'gc, C, S>| #[trigger] leaf(*x, w) implies leaf(root, w) by { leaf_up(root, k, w); } }
//@bottom 1
//| proof { assert forall|i: int| 0 <= i < next_x implies stands(#[trigger] items_@[i], all[i]) by { if i < k { assert(items_@[i] == then[i]); } } }
//@end
impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S> {
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" to_simple -> r noinner
    //@sub Default::default\(\) ==> Marks::none()
    //| ensures r is Ok ==> stands(r->Ok_0, *self) && exists|n: nat| #[trigger] tree(*self, n),
    //|     r is Err ==> match r->Err_0 { ToSimpleError::Cyclic => endless(*self), ToSimpleError::ComplexType(_) => exists|w: V<'gc, C, S>| #[trigger] leaf(*self, w) && bound(w) },
    //@leave
    //| proof { if res is Ok { let n = finite_form(res->Ok_0, *self); assert(tree(*self, n)); } }
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" from_simple -> r
    //@sub x\.as_str\(\)\.into\(\) ==> text(x)
    //@sub Gc::new\(mc, RefLock::new\(x\.into_iter\(\)\.map\(\|x\| (Value::from_simple\(mc, x\))\)\.collect\(\)\)\) ==> { let mut items_ = Vec::new(); let mut rest_ = x; let ghost all = rest_@; while rest_.len() > 0 { let x = rest_.remove(0); items_.push(\1); } made(items_) }
    //@attr #[verifier::exec_allows_no_decreases_clause]
    //@attr #[verifier::loop_isolation(false)]
    //| ensures stands(value, r),
    //@loop 1
    //| invariant items_@.len() + rest_@.len() == all.len(), forall|i: int| 0 <= i < rest_@.len() ==> #[trigger] rest_@[i] == all[items_@.len() + i], forall|i: int| 0 <= i < items_@.len() ==> stands(#[trigger] all[i], items_@[i]),
    //@top 1
    //| let ghost then = rest_@; let ghost done = items_@; proof { assert(then[0] == all[done.len() as int]); }
    //@bottom 1
    //| proof { assert forall|i: int| 0 <= i < items_@.len() implies stands(#[trigger] all[i], items_@[i]) by { if i < done.len() { assert(items_@[i] == done[i]); } } assert forall|i: int| 0 <= i < rest_@.len() implies #[trigger] rest_@[i] == all[items_@.len() + i] by { assert(rest_@[i] == then[i + 1]); } }
    //@end
}
}
pub mod json {
//! Plain values and their JSON forms.
use vstd::prelude::*;
use super::heap::*;
use super::data::*;
use super::shape::*;
use super::plain::*;
broadcast use vstd::std_specs::vec::axiom_vec_index_decreases;
/// serde_json::Value; an object is its members in order
pub enum Json { Null, Bool(bool), Number(JsonNumber), String(String), Array(Vec<Json>), Object(Vec<(String, Json)>) }
#[verifier::external_body] pub struct JsonNumber { }
use super::scalars::{finite, settled};
/// What the number type makes of a double: itself, but for the negative zero.
impl JsonNumber {
    pub uninterp spec fn float(self) -> f64;
    #[verifier::external_body] pub fn from_f64(x: f64) -> (r: Option<JsonNumber>) ensures r is Some <==> finite(x), r is Some ==> r->Some_0.float() == x { unimplemented!() }
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(self.float()), finite(self.float()) { unimplemented!() }
}
/// Numbers are finite and not the negative zero (contract num_new).
pub broadcast axiom fn checked(n: Number) ensures finite(#[trigger] n.0), settled(n.0) == n.0;
#[verifier::external_body] pub fn owned(x: CompactString) -> (r: String) ensures r@ == x.chars() { unimplemented!() }
#[verifier::external_body] pub fn packed(x: String) -> (r: CompactString) ensures r.chars() == x@ { unimplemented!() }
/// The values a JSON text stands for (a costume, a sound or itself), as the reader of NetsBlox messages sees it.
pub uninterp spec fn meant(x: Seq<char>, s: SimpleValue) -> bool;
#[verifier::external_body] pub fn read_text(x: String) -> (r: Result<SimpleValue, FromNetsBloxJsonError>) ensures r is Ok ==> meant(x@, r->Ok_0), r is Err ==> !(r->Err_0 is Null) { unimplemented!() }
pub uninterp spec fn costume(x: Image) -> Seq<char>;
#[verifier::external_body] pub fn write_costume(x: Image) -> (r: Json) ensures r is String, r->String_0@ == costume(x) { unimplemented!() }
pub uninterp spec fn sound(x: Audio) -> Seq<char>;
#[verifier::external_body] pub fn write_sound(x: Audio) -> (r: Json) ensures r is String, r->String_0@ == sound(x) { unimplemented!() }
/// Holds no image and no sound.
pub open spec fn bare(s: SimpleValue) -> bool decreases s { match s { SimpleValue::Image(_) | SimpleValue::Audio(_) => false, SimpleValue::List(x) => forall|i: int| 0 <= i < x@.len() ==> bare(#[trigger] x@[i]), _ => true } }
/// The JSON form of a plain value; `m`: with images and sounds as texts.
pub open spec fn form(s: SimpleValue, j: Json, m: bool) -> bool decreases s {
    match s {
        SimpleValue::Bool(x) => j is Bool && j->Bool_0 == x, SimpleValue::Number(x) => j is Number && j->Number_0.float() == x.0, SimpleValue::Text(x) => j is String && j->String_0@ == x.chars(),
        SimpleValue::Image(x) => m && j is String && j->String_0@ == costume(x), SimpleValue::Audio(x) => m && j is String && j->String_0@ == sound(x),
        SimpleValue::List(x) => j is Array && j->Array_0@.len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> form(#[trigger] x@[i], j->Array_0@[i], m),
    }
}
/// The plain value that a JSON value is read as; `m`: with texts that may be images and sounds. Members of an object become pairs.
pub open spec fn reading(j: Json, s: SimpleValue, m: bool) -> bool decreases j {
    match j {
        Json::Null => false, Json::Bool(x) => s is Bool && s->Bool_0 == x, Json::Number(x) => s is Number && s->Number_0.0 == settled(x.float()),
        Json::String(x) => if m { meant(x@, s) } else { s is Text && s->Text_0.chars() == x@ },
        Json::Array(x) => s is List && s->List_0@.len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> reading(#[trigger] x@[i], s->List_0@[i], m),
        Json::Object(x) => s is List && s->List_0@.len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> pair((#[trigger] x@[i]).0, s->List_0@[i]) && reading(x@[i].1, s->List_0@[i]->List_0@[1], m),
    }
}
pub open spec fn pair(k: String, s: SimpleValue) -> bool { s is List && s->List_0@.len() == 2 && s->List_0@[0] is Text && s->List_0@[0]->Text_0.chars() == k@ }
/// Holds a null.
pub open spec fn void(j: Json) -> bool decreases j { match j { Json::Null => true, Json::Array(x) => exists|i: int| 0 <= i < x@.len() && void(#[trigger] x@[i]), Json::Object(x) => exists|i: int| 0 <= i < x@.len() && void((#[trigger] x@[i]).1), _ => false } }
/// The same plain value, texts by their characters.
pub open spec fn twin(s: SimpleValue, t: SimpleValue) -> bool decreases s {
    match s {
        SimpleValue::Bool(x) => t is Bool && t->Bool_0 == x, SimpleValue::Number(x) => t is Number && t->Number_0 == x, SimpleValue::Text(x) => t is Text && t->Text_0.chars() == x.chars(),
        SimpleValue::Image(x) => t is Image && t->Image_0 == x, SimpleValue::Audio(x) => t is Audio && t->Audio_0 == x,
        SimpleValue::List(x) => t is List && t->List_0@.len() == x@.len() && forall|i: int| 0 <= i < x@.len() ==> twin(#[trigger] x@[i], t->List_0@[i]),
    }
}
/// What was written is read back.
pub proof fn there_and_back(s: SimpleValue, j: Json, t: SimpleValue) requires form(s, j, false), reading(j, t, false) ensures twin(s, t), bare(s) decreases s {
    broadcast use checked;
    if let SimpleValue::List(x) = s {
        assert forall|i: int| 0 <= i < x@.len() implies twin(#[trigger] x@[i], t->List_0@[i]) && bare(x@[i]) by { assert(form(x@[i], j->Array_0@[i], false)); assert(reading(j->Array_0@[i], t->List_0@[i], false)); there_and_back(x@[i], j->Array_0@[i], t->List_0@[i]); }
    }
}
/// With images and sounds, if the reader of texts takes what the writer of texts wrote for it.
pub proof fn there_and_back_media(s: SimpleValue, j: Json, t: SimpleValue) requires form(s, j, true), reading(j, t, true), faithful(s) ensures twin(s, t) decreases s {
    broadcast use checked;
    if let SimpleValue::List(x) = s {
        assert forall|i: int| 0 <= i < x@.len() implies twin(#[trigger] x@[i], t->List_0@[i]) by { assert(form(x@[i], j->Array_0@[i], true)); assert(reading(j->Array_0@[i], t->List_0@[i], true)); assert(faithful(x@[i])); there_and_back_media(x@[i], j->Array_0@[i], t->List_0@[i]); }
    }
}
pub open spec fn faithful(s: SimpleValue) -> bool decreases s {
    match s {
        SimpleValue::Text(x) => forall|t: SimpleValue| #[trigger] meant(x.chars(), t) ==> twin(s, t), SimpleValue::Image(x) => forall|t: SimpleValue| #[trigger] meant(costume(x), t) ==> twin(s, t), SimpleValue::Audio(x) => forall|t: SimpleValue| #[trigger] meant(sound(x), t) ==> twin(s, t),
        SimpleValue::List(x) => forall|i: int| 0 <= i < x@.len() ==> faithful(#[trigger] x@[i]), _ => true,
    }
}
/// Plain twins stand for the same values: what left the VM and came back is what it was.
pub proof fn twins_stand<'gc, C: CustomTypes<S>, S: System<C>>(s: SimpleValue, t: SimpleValue, v: V<'gc, C, S>) requires twin(s, t), stands(t, v) ensures stands(s, v) decreases s {
    if let SimpleValue::List(x) = s { assert forall|i: int| 0 <= i < x@.len() implies stands(#[trigger] x@[i], content(v->List_0)[i]) by { assert(stands(t->List_0@[i], content(v->List_0)[i])); twins_stand(x@[i], t->List_0@[i], content(v->List_0)[i]); } }
}
/// No written form holds a null.
pub proof fn never_void(s: SimpleValue, j: Json, m: bool) requires form(s, j, m) ensures !void(j) decreases s {
    if let SimpleValue::List(x) = s { assert forall|i: int| 0 <= i < j->Array_0@.len() implies !void(#[trigger] j->Array_0@[i]) by { assert(form(x@[i], j->Array_0@[i], m)); never_void(x@[i], j->Array_0@[i], m); } }
}
impl SimpleValue {
    //@fn src/runtime.rs "impl SimpleValue" into_json -> r
    //@sub x\.as_str\(\)\.to_owned\(\) ==> owned(x)
    //@sub Json::Array\(x\.into_iter\(\)\.map\(SimpleValue::into_json\)\.collect::<Result<_, ?_>>\(\)\?\) ==> { let mut items_ = Vec::new(); let mut rest_ = x; let ghost all = rest_@; while rest_.len() > 0 { let x = rest_.remove(0); items_.push(SimpleValue::into_json::<C, S>(x)?); } Json::Array(items_) }
    //@attr #[verifier::exec_allows_no_decreases_clause]
    //@attr #[verifier::loop_isolation(false)]
    //| ensures r is Ok <==> bare(self), r is Ok ==> form(self, r->Ok_0, false),
    //@enter
    //| broadcast use checked; let ghost root = self;
    //@loop 1
    //| invariant items_@.len() + rest_@.len() == all.len(), forall|i: int| 0 <= i < rest_@.len() ==> #[trigger] rest_@[i] == all[items_@.len() + i], forall|i: int| 0 <= i < items_@.len() ==> form(#[trigger] all[i], items_@[i], false) && bare(all[i]),
    //@top 1
    //| let ghost then = rest_@; let ghost done = items_@; proof { assert(then[0] == all[done.len() as int]); }
    //@bottom 1
    //| proof { assert forall|i: int| 0 <= i < items_@.len() implies form(#[trigger] all[i], items_@[i], false) && bare(all[i]) by { if i < done.len() { assert(items_@[i] == done[i]); } } assert forall|i: int| 0 <= i < rest_@.len() implies #[trigger] rest_@[i] == all[items_@.len() + i] by { assert(rest_@[i] == then[i + 1]); } }
    //@end
    //@fn src/runtime.rs "impl SimpleValue" from_json -> r
    //@sub SimpleValue::Text\(x\.into\(\)\) ==> SimpleValue::Text(packed(x))
    //@sub SimpleValue::List\(x\.into_iter\(\)\.map\(SimpleValue::from_json\)\.collect::<Result<_, ?_>>\(\)\?\) ==> { let mut items_ = Vec::new(); let mut rest_ = x; let ghost all = rest_@; while rest_.len() > 0 { let x = rest_.remove(0); items_.push(SimpleValue::from_json(x)?); } SimpleValue::List(items_) }
    //@sub SimpleValue::List\(x\.into_iter\(\)\.map\(\|\(k, v\)\| \{\s*Ok\((.*)\)\s*\}\)\.collect::<Result<_, ?_>>\(\)\?\) ==> { let mut items_ = Vec::new(); let mut rest_ = x; let ghost all = rest_@; while rest_.len() > 0 { let (k, v) = rest_.remove(0); items_.push(\1); } SimpleValue::List(items_) }
    //@sub SimpleValue::Text\(k\.into\(\)\) ==> SimpleValue::Text(packed(k))
    //@attr #[verifier::exec_allows_no_decreases_clause]
    //@attr #[verifier::loop_isolation(false)]
    //| ensures r is Ok <==> !void(value), r is Ok ==> reading(value, r->Ok_0, false),
    //@enter
    //| let ghost root = value;
    //@loop 1
    //| invariant items_@.len() + rest_@.len() == all.len(), forall|i: int| 0 <= i < rest_@.len() ==> #[trigger] rest_@[i] == all[items_@.len() + i], forall|i: int| 0 <= i < items_@.len() ==> reading(#[trigger] all[i], items_@[i], false) && !void(all[i]),
    //@top 1
    //| let ghost then = rest_@; let ghost done = items_@; proof { assert(then[0] == all[done.len() as int]); }
    //@bottom 1
    //| proof { assert forall|i: int| 0 <= i < items_@.len() implies reading(#[trigger] all[i], items_@[i], false) && !void(all[i]) by { if i < done.len() { assert(items_@[i] == done[i]); } } assert forall|i: int| 0 <= i < rest_@.len() implies #[trigger] rest_@[i] == all[items_@.len() + i] by { assert(rest_@[i] == then[i + 1]); } }
    //@loop 2
    //| invariant items_@.len() + rest_@.len() == all.len(), forall|i: int| 0 <= i < rest_@.len() ==> #[trigger] rest_@[i] == all[items_@.len() + i], forall|i: int| 0 <= i < items_@.len() ==> pair((#[trigger] all[i]).0, items_@[i]) && reading(all[i].1, items_@[i]->List_0@[1], false) && !void(all[i].1),
    //@top 2
    //| let ghost then = rest_@; let ghost done = items_@; proof { assert(then[0] == all[done.len() as int]); }
    //@bottom 2
    //| proof { assert forall|i: int| 0 <= i < items_@.len() implies pair((#[trigger] all[i]).0, items_@[i]) && reading(all[i].1, items_@[i]->List_0@[1], false) && !void(all[i].1) by { if i < done.len() { assert(items_@[i] == done[i]); } } assert forall|i: int| 0 <= i < rest_@.len() implies #[trigger] rest_@[i] == all[items_@.len() + i] by { assert(rest_@[i] == then[i + 1]); } }
    //@end
    //@fn src/runtime.rs "impl SimpleValue" into_netsblox_json -> r
    //@sub Json::String\(x\.into\(\)\) ==> Json::String(owned(x))
    //@sub Json::Array\(x\.into_iter\(\)\.map\(SimpleValue::into_netsblox_json\)\.collect\(\)\) ==> { let mut items_ = Vec::new(); let mut rest_ = x; let ghost all = rest_@; while rest_.len() > 0 { let x = rest_.remove(0); items_.push(SimpleValue::into_netsblox_json(x)); } Json::Array(items_) }
    //@sub SimpleValue::Image\(img\) => \{[\s\S]*?\n            \}, ==> SimpleValue::Image(img) => write_costume(img),
    //@sub SimpleValue::Audio\(audio\) => .* ==> SimpleValue::Audio(audio) => write_sound(audio),
    //@attr #[verifier::exec_allows_no_decreases_clause]
    //@attr #[verifier::loop_isolation(false)]
    //| ensures form(self, r, true),
    //@enter
    //| broadcast use checked; let ghost root = self;
    //@loop 1
    //| invariant items_@.len() + rest_@.len() == all.len(), forall|i: int| 0 <= i < rest_@.len() ==> #[trigger] rest_@[i] == all[items_@.len() + i], forall|i: int| 0 <= i < items_@.len() ==> form(#[trigger] all[i], items_@[i], true),
    //@top 1
    //| let ghost then = rest_@; let ghost done = items_@; proof { assert(then[0] == all[done.len() as int]); }
    //@bottom 1
    //| proof { assert forall|i: int| 0 <= i < items_@.len() implies form(#[trigger] all[i], items_@[i], true) by { if i < done.len() { assert(items_@[i] == done[i]); } } assert forall|i: int| 0 <= i < rest_@.len() implies #[trigger] rest_@[i] == all[items_@.len() + i] by { assert(rest_@[i] == then[i + 1]); } }
    //@end
    //@fn src/runtime.rs "impl SimpleValue" from_netsblox_json -> r
    //@sub Json::String\(x\) => \{[\s\S]*\n            \} ==> Json::String(x) => read_text(x)?,
    //@sub SimpleValue::List\(x\.into_iter\(\)\.map\(SimpleValue::from_netsblox_json\)\.collect::<Result<_, ?_>>\(\)\?\) ==> { let mut items_ = Vec::new(); let mut rest_ = x; let ghost all = rest_@; while rest_.len() > 0 { let x = rest_.remove(0); items_.push(SimpleValue::from_netsblox_json(x)?); } SimpleValue::List(items_) }
    //@sub SimpleValue::List\(x\.into_iter\(\)\.map\(\|\(k, v\)\| \{\s*Ok\((.*)\)\s*\}\)\.collect::<Result<_, ?_>>\(\)\?\) ==> { let mut items_ = Vec::new(); let mut rest_ = x; let ghost all = rest_@; while rest_.len() > 0 { let (k, v) = rest_.remove(0); items_.push(\1); } SimpleValue::List(items_) }
    //@sub SimpleValue::Text\(k\.into\(\)\) ==> SimpleValue::Text(packed(k))
    //@attr #[verifier::exec_allows_no_decreases_clause]
    //@attr #[verifier::loop_isolation(false)]
    //| ensures void(value) ==> r is Err, r is Err && r->Err_0 is Null ==> void(value), r is Ok ==> reading(value, r->Ok_0, true),
    //@enter
    //| let ghost root = value;
    //@loop 1
    //| invariant items_@.len() + rest_@.len() == all.len(), forall|i: int| 0 <= i < rest_@.len() ==> #[trigger] rest_@[i] == all[items_@.len() + i], forall|i: int| 0 <= i < items_@.len() ==> reading(#[trigger] all[i], items_@[i], true) && !void(all[i]),
    //@top 1
    //| let ghost then = rest_@; let ghost done = items_@; proof { assert(then[0] == all[done.len() as int]); }
    //@bottom 1
    //| proof { assert forall|i: int| 0 <= i < items_@.len() implies reading(#[trigger] all[i], items_@[i], true) && !void(all[i]) by { if i < done.len() { assert(items_@[i] == done[i]); } } assert forall|i: int| 0 <= i < rest_@.len() implies #[trigger] rest_@[i] == all[items_@.len() + i] by { assert(rest_@[i] == then[i + 1]); } }
    //@loop 2
    //| invariant items_@.len() + rest_@.len() == all.len(), forall|i: int| 0 <= i < rest_@.len() ==> #[trigger] rest_@[i] == all[items_@.len() + i], forall|i: int| 0 <= i < items_@.len() ==> pair((#[trigger] all[i]).0, items_@[i]) && reading(all[i].1, items_@[i]->List_0@[1], true) && !void(all[i].1),
    //@top 2
    //| let ghost then = rest_@; let ghost done = items_@; proof { assert(then[0] == all[done.len() as int]); }
    //@bottom 2
    //| proof { assert forall|i: int| 0 <= i < items_@.len() implies pair((#[trigger] all[i]).0, items_@[i]) && reading(all[i].1, items_@[i]->List_0@[1], true) && !void(all[i].1) by { if i < done.len() { assert(items_@[i] == done[i]); } } assert forall|i: int| 0 <= i < rest_@.len() implies #[trigger] rest_@[i] == all[items_@.len() + i] by { assert(rest_@[i] == then[i + 1]); } }
    //@end
}
}
}
fn main() {}
