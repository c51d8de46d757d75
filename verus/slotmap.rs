use vstd::prelude::*;
verus! {
// ---- begin
pub mod lemmas {
use vstd::prelude::*;
use super::code::*;
pub open spec fn listed(s: Seq<usize>, p: int) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == p }
pub open spec fn live<T>(s: Seq<Slot<T>>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { live(s.drop_last()) + if s.last().value is Some { 1nat } else { 0 } } }
pub broadcast proof fn live_bound<T>(s: Seq<Slot<T>>) ensures #[trigger] live(s) <= s.len() decreases s.len() { if s.len() > 0 { live_bound(s.drop_last()); } }
pub broadcast proof fn live_push<T>(s: Seq<Slot<T>>, x: Slot<T>) ensures #[trigger] live(s.push(x)) == live(s) + if x.value is Some { 1nat } else { 0 } { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn live_update<T>(s: Seq<Slot<T>>, p: int, x: Slot<T>)
    requires 0 <= p < s.len()
    ensures #[trigger] live(s.update(p, x)) + (if s[p].value is Some { 1nat } else { 0 }) == live(s) + if x.value is Some { 1nat } else { 0 }
    decreases s.len()
{
    let t = s.update(p, x);
    if p == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); }
    else { live_update(s.drop_last(), p, x); assert(t.drop_last() =~= s.drop_last().update(p, x)); }
}
pub broadcast proof fn live_pos<T>(s: Seq<Slot<T>>, p: int) requires 0 <= p < s.len(), (#[trigger] s[p]).value is Some ensures #[trigger] live(s) > 0 decreases s.len() { if p < s.len() - 1 { live_pos(s.drop_last(), p); } }
pub broadcast proof fn listed_push(s: Seq<usize>, x: usize, p: int) ensures #[trigger] listed(s.push(x), p) == (listed(s, p) || p == x) {
    if listed(s, p) { let j = choose|j: int| 0 <= j < s.len() && s[j] == p; assert(s.push(x)[j] == p); }
    if p == x { assert(s.push(x)[s.len() as int] == p); }
}
pub broadcast proof fn listed_pop(s: Seq<usize>, p: int) requires s.len() > 0, listed(s, p), p != s.last() ensures #[trigger] listed(s.drop_last(), p), {
    let j = choose|j: int| 0 <= j < s.len() && s[j] == p; assert(s.drop_last()[j] == p);
}
pub broadcast proof fn listed_sub(s: Seq<usize>, p: int) requires s.len() > 0, listed(s, p), p != s.last() ensures #[trigger] listed(s.subrange(0, s.len() - 1), p) {
    let j = choose|j: int| 0 <= j < s.len() && s[j] == p; assert(s.subrange(0, s.len() - 1)[j] == p);
}
pub broadcast proof fn live_none<T>(s: Seq<Slot<T>>) requires forall|p: int| 0 <= p < s.len() ==> (#[trigger] s[p]).value is None ensures #[trigger] live(s) == 0 decreases s.len() { if s.len() > 0 { live_none(s.drop_last()); } }
pub broadcast group live_facts { live_none, listed_sub, listed_push, listed_pop, live_bound, live_push, live_update, live_pos }
}
pub mod code {
use vstd::prelude::*;
use super::lemmas::*;
use std::marker::PhantomData;
pub trait Key: Copy {
    spec fn pos(self) -> int;
    spec fn age(self) -> int;
    fn new(slot: usize, generation: usize) -> (r: Self) ensures r.pos() == slot, r.age() == generation;
    fn get_slot(&self) -> (r: usize) ensures r == self.pos();
    fn get_generation(&self) -> (r: usize) ensures r == self.age();
}
/// A key type as the `new_key!` macro writes it.
#[derive(Clone, Copy)]
pub struct AnyKey(pub usize, pub usize);
impl Key for AnyKey {
    open spec fn pos(self) -> int { self.0 as int }
    open spec fn age(self) -> int { self.1 as int }
    //@fn src/slotmap.rs "impl $crate::slotmap::Key for $name" new -> r
    //@end
    //@fn src/slotmap.rs "impl $crate::slotmap::Key for $name" get_slot -> r
    //@end
    //@fn src/slotmap.rs "impl $crate::slotmap::Key for $name" get_generation -> r
    //@end
}
pub struct Slot<T> { pub value: Option<T>, pub generation: usize }
broadcast use super::lemmas::live_facts;
#[verifier::prophetic] pub open spec fn chosen<K: Key, T, F: FnMut(K, &mut T) -> bool>(h: F, p: int, g: int, before: T, after: Option<T>) -> bool {
    exists|k: K, v: &mut T, keep: bool| k.pos() == p && k.age() == g && *v == before && #[trigger] h.ensures((k, v), keep) && after == if keep { Some(*final(v)) } else { None }
}
pub struct SlotMap<K: Key, T> { slots: Vec<Slot<T>>, empty_slots: Vec<usize>, num_values: usize, _key: PhantomData<K> }
impl<K: Key, T> SlotMap<K, T> {
    pub closed spec fn at(self, p: int, g: int) -> Option<T> { if 0 <= p < self.slots.len() && self.slots[p].generation == g { self.slots[p].value } else { None } }
    pub closed spec fn issued(self, p: int, g: int) -> bool { 0 <= p < self.slots.len() && 0 <= g && (g < self.slots[p].generation || g == self.slots[p].generation && self.slots[p].value is Some) }
    pub closed spec fn wf(self) -> bool {
        &&& self.num_values == live(self.slots@)
        &&& forall|i: int| 0 <= i < self.empty_slots@.len() ==> (#[trigger] self.empty_slots@[i]) < self.slots@.len() && self.slots@[self.empty_slots@[i] as int].value is None
        &&& forall|i: int, j: int| 0 <= i < j < self.empty_slots@.len() ==> self.empty_slots@[i] != self.empty_slots@[j]
        &&& forall|p: int| 0 <= p < self.slots@.len() && (#[trigger] self.slots@[p]).value is None ==> listed(self.empty_slots@, p)
    }
    /// number of live entries
    pub closed spec fn count(self) -> nat { live(self.slots@) }
    pub closed spec fn room(self) -> bool { self.slots.len() < usize::MAX && forall|p: int| 0 <= p < self.slots.len() ==> (#[trigger] self.slots[p]).generation < usize::MAX }
    /// Emptiness, the count and the entries agree; a designated entry has been issued.
    pub proof fn agree(self, p: int, g: int)
        requires self.wf()
        ensures self.at(p, g) is Some ==> self.count() > 0 && self.issued(p, g) || g < 0
    { }
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" new -> r
    //| ensures r.wf(), r.count() == 0, forall|p: int, g: int| !r.issued(p, g), forall|p: int, g: int| r.at(p, g) is None,
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" insert -> r
    //| requires old(self).wf(),
    //| ensures final(self).wf(), final(self).count() == old(self).count() + 1, !old(self).issued(r.pos(), r.age()), final(self).at(r.pos(), r.age()) == Some(value),
    //| forall|p: int, g: int| !(p == r.pos() && g == r.age()) ==> final(self).at(p, g) == old(self).at(p, g),
    //| forall|p: int, g: int| final(self).issued(p, g) <==> old(self).issued(p, g) || p == r.pos() && g == r.age(),
    //@enter
    //| assume(self.room()); // no slot is reused, and no table grows, 2^64 times
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" remove -> r
    //| requires old(self).wf(),
    //| ensures final(self).wf(), final(self).count() + (if r is Some { 1nat } else { 0 }) == old(self).count(), r == old(self).at(key.pos(), key.age()), final(self).at(key.pos(), key.age()) is None,
    //| forall|p: int, g: int| !(p == key.pos() && g == key.age()) ==> final(self).at(p, g) == old(self).at(p, g),
    //| forall|p: int, g: int| final(self).issued(p, g) <==> old(self).issued(p, g),
    //@enter
    //| assume(self.room()); // no slot is reused, and no table grows, 2^64 times
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" clear
    //| requires old(self).wf(),
    //| ensures final(self).wf(), final(self).count() == 0, forall|p: int, g: int| final(self).at(p, g) is None,
    //| forall|p: int, g: int| final(self).issued(p, g) <==> old(self).issued(p, g),
    //@loop 1
    //| invariant self.slots.len() == old(self).slots.len(), i <= self.slots.len(), old(self).wf(), old(self).room(),
    //| forall|p: int| 0 <= p < i ==> (#[trigger] self.slots@[p]).value is None && self.slots@[p].generation == old(self).slots@[p].generation + (if old(self).slots@[p].value is Some { 1int } else { 0 }),
    //| forall|p: int| i <= p < self.slots@.len() ==> #[trigger] self.slots@[p] == old(self).slots@[p],
    //| forall|q: int| 0 <= q < self.empty_slots@.len() ==> (#[trigger] self.empty_slots@[q]) < self.slots@.len() && self.slots@[self.empty_slots@[q] as int].value is None,
    //| forall|q: int| 0 <= q < self.empty_slots@.len() ==> (#[trigger] self.empty_slots@[q]) < i || old(self).slots@[self.empty_slots@[q] as int].value is None,
    //| forall|q: int, j: int| 0 <= q < j < self.empty_slots@.len() ==> self.empty_slots@[q] != self.empty_slots@[j],
    //| forall|p: int| 0 <= p < self.slots@.len() && (#[trigger] self.slots@[p]).value is None ==> listed(self.empty_slots@, p),
    //| decreases self.slots.len() - i
    //@enter
    //| assume(self.room()); // no slot is reused, and no table grows, 2^64 times
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" retain_mut
    //| requires old(self).wf(), forall|k: K, v: &mut T| old(self).at(k.pos(), k.age()) == Some(*v) ==> #[trigger] f.requires((k, v)),
    //| ensures final(self).wf(),
    //| forall|p: int, g: int| final(self).issued(p, g) <==> old(self).issued(p, g),
    //| forall|p: int, g: int| old(self).at(p, g) is None ==> final(self).at(p, g) is None,
    //| forall|p: int, g: int| old(self).at(p, g) is Some ==> chosen::<K, T, F>(f, p, g, old(self).at(p, g)->0, final(self).at(p, g)),
    //@loop 1
    //| invariant f == f0, self.slots.len() == old(self).slots.len(), i <= self.slots.len(), old(self).wf(), old(self).room(),
    //| forall|k: K, v: &mut T| old(self).at(k.pos(), k.age()) == Some(*v) ==> #[trigger] f.requires((k, v)),
    //| self.num_values == live(self.slots@),
    //| forall|p: int| 0 <= p < i ==> old(self).slots@[p].value is Some ==> chosen::<K, T, F>(f, p, old(self).slots@[p].generation as int, old(self).slots@[p].value->0, (#[trigger] self.slots@[p]).value),
    //| forall|p: int| 0 <= p < i ==> (old(self).slots@[p].value is None ==> (#[trigger] self.slots@[p]).value is None),
    //| forall|p: int| 0 <= p < i ==> (#[trigger] self.slots@[p]).generation == old(self).slots@[p].generation + (if old(self).slots@[p].value is Some && self.slots@[p].value is None { 1int } else { 0 }),
    //| forall|p: int| i <= p < self.slots@.len() ==> #[trigger] self.slots@[p] == old(self).slots@[p],
    //| forall|q: int| 0 <= q < self.empty_slots@.len() ==> (#[trigger] self.empty_slots@[q]) < self.slots@.len() && self.slots@[self.empty_slots@[q] as int].value is None,
    //| forall|q: int| 0 <= q < self.empty_slots@.len() ==> (#[trigger] self.empty_slots@[q]) < i || old(self).slots@[self.empty_slots@[q] as int].value is None,
    //| forall|q: int, j: int| 0 <= q < j < self.empty_slots@.len() ==> self.empty_slots@[q] != self.empty_slots@[j],
    //| forall|p: int| 0 <= p < self.slots@.len() && (#[trigger] self.slots@[p]).value is None ==> listed(self.empty_slots@, p),
    //| decreases self.slots.len() - i
    //@enter
    //| let ghost f0 = f;
    //| assume(self.room()); // no slot is reused, and no table grows, 2^64 times
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" get -> r
    //| ensures match r { Some(x) => self.at(key.pos(), key.age()) == Some(*x), None => self.at(key.pos(), key.age()) is None },
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" get_mut -> r
    //| requires old(self).wf(),
    //| ensures match r {
    //|     Some(x) => old(self).at(key.pos(), key.age()) == Some(*x) && final(self).at(key.pos(), key.age()) == Some(*final(x))
    //|         && forall|p: int, g: int| !(p == key.pos() && g == key.age()) ==> final(self).at(p, g) == old(self).at(p, g),
    //|     None => old(self).at(key.pos(), key.age()) is None && forall|p: int, g: int| final(self).at(p, g) == old(self).at(p, g),
    //| }, final(self).wf(), final(self).count() == old(self).count(), forall|p: int, g: int| final(self).issued(p, g) <==> old(self).issued(p, g),
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" len -> r
    //| requires self.wf(),
    //| ensures r == self.count(),
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" is_empty -> r
    //| requires self.wf(),
    //| ensures r == (self.count() == 0),
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" iter -> r
    //@sub self\.slots\.iter\(\)\.enumerate\(\) ==> each(&self.slots)
    //| ensures r.0.done() == 0, self.at_start(r.0.all()),
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> SlotMap<K, T>" iter_mut -> r
    //@sub self\.slots\.iter_mut\(\)\.enumerate\(\) ==> each_mut(&mut self.slots)
    //| ensures r.0.done() == 0, old(self).at_start(r.0.all()),
    //@end
    //@fn src/slotmap.rs "impl<K: Key, T> IntoIterator for SlotMap<K, T>" into_iter -> r
    //@sub self\.slots\.into_iter\(\)\.enumerate\(\) ==> each_owned(self.slots)
    //| ensures r.0.done() == 0, self.at_start(r.0.all()),
    //@end
    pub closed spec fn at_start(self, s: Seq<Slot<T>>) -> bool { s == self.slots@ }
    /// The live entries are the slots that hold a value: what the walk visits and what the keys designate are the same.
    pub proof fn walked(self, s: Seq<Slot<T>>, p: int, g: int) requires self.at_start(s) ensures self.at(p, g) is Some <==> 0 <= p < s.len() && s[p].generation == g && s[p].value is Some, self.at(p, g) is Some ==> self.at(p, g) == s[p].value { }
}
/// slice::Iter, slice::IterMut and vec::IntoIter under enumerate: what is walked through, and how much of it is done
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Each<'a, T> { p: PhantomData<&'a T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct EachMut<'a, T> { p: PhantomData<&'a T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct EachOwned<T> { p: PhantomData<T> }
#[verifier::external_body] pub fn each<'a, T>(v: &'a Vec<Slot<T>>) -> (r: Each<'a, T>) ensures r.all() == v@, r.done() == 0 { unimplemented!() }
#[verifier::external_body] pub fn each_mut<'a, T>(v: &'a mut Vec<Slot<T>>) -> (r: EachMut<'a, T>) ensures r.all() == old(v)@, r.done() == 0 { unimplemented!() }
#[verifier::external_body] pub fn each_owned<T>(v: Vec<Slot<T>>) -> (r: EachOwned<T>) ensures r.all() == v@, r.done() == 0 { unimplemented!() }
impl<'a, T> Each<'a, T> {
    pub uninterp spec fn all(self) -> Seq<Slot<T>>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, &'a Slot<T>)>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).done() <= old(self).all().len(), match r { Some((i, x)) => i == old(self).done() && i < old(self).all().len() && *x == old(self).all()[i as int] && final(self).done() == i + 1, None => old(self).done() == old(self).all().len() && final(self).done() == old(self).done() } { unimplemented!() }
}
impl<'a, T> EachMut<'a, T> {
    pub uninterp spec fn all(self) -> Seq<Slot<T>>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, &'a mut Slot<T>)>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).done() <= old(self).all().len(), match r { Some((i, x)) => i == old(self).done() && i < old(self).all().len() && *x == old(self).all()[i as int] && final(self).done() == i + 1, None => old(self).done() == old(self).all().len() && final(self).done() == old(self).done() } { unimplemented!() }
}
impl<T> EachOwned<T> {
    pub uninterp spec fn all(self) -> Seq<Slot<T>>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(usize, Slot<T>)>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).done() <= old(self).all().len(), match r { Some((i, x)) => i == old(self).done() && i < old(self).all().len() && x == old(self).all()[i as int] && final(self).done() == i + 1, None => old(self).done() == old(self).all().len() && final(self).done() == old(self).done() } { unimplemented!() }
}
/// The next entry of a walk from place a: the first live one from there on, with its key; the walk goes on behind it.
pub open spec fn following<K: Key, T>(s: Seq<Slot<T>>, a: int, b: int, r: Option<(K, T)>) -> bool {
    &&& 0 <= a <= b <= s.len()
    &&& match r {
        Some((k, v)) => a < b && k.pos() == b - 1 && k.age() == s[b - 1].generation && s[b - 1].value == Some(v) && forall|q: int| a <= q < b - 1 ==> (#[trigger] s[q]).value is None,
        None => b == s.len() && forall|q: int| a <= q < s.len() ==> (#[trigger] s[q]).value is None,
    }
}
pub struct Iter<'a, K: Key, T>(pub Each<'a, T>, pub PhantomData<K>);
pub struct IterMut<'a, K: Key, T>(pub EachMut<'a, T>, pub PhantomData<K>);
pub struct IntoIter<K: Key, T>(pub EachOwned<T>, pub PhantomData<K>);
impl<'a, K: Key, T> Iter<'a, K, T> {
    //@fn src/slotmap.rs "impl<'a, K: Key, T> Iterator for Iter<'a, K, T>" next -> r
    //@sub Self::Item ==> (K, &'a T)
    //| ensures final(self).0.all() == old(self).0.all(), following(old(self).0.all(), old(self).0.done() as int, final(self).0.done() as int, match r { Some((k, v)) => Some((k, *v)), None => None }),
    //@loop 1
    //| invariant self.0.all() == old(self).0.all(), old(self).0.done() <= self.0.done(), forall|q: int| old(self).0.done() <= q < self.0.done() ==> (#[trigger] old(self).0.all()[q]).value is None,
    //| decreases self.0.all().len() - self.0.done()
    //@end
}
impl<'a, K: Key, T> IterMut<'a, K, T> {
    //@fn src/slotmap.rs "impl<'a, K: Key, T> Iterator for IterMut<'a, K, T>" next -> r
    //@sub Self::Item ==> (K, &'a mut T)
    //| ensures final(self).0.all() == old(self).0.all(), following(old(self).0.all(), old(self).0.done() as int, final(self).0.done() as int, match r { Some((k, v)) => Some((k, *v)), None => None }),
    //@loop 1
    //| invariant self.0.all() == old(self).0.all(), old(self).0.done() <= self.0.done(), forall|q: int| old(self).0.done() <= q < self.0.done() ==> (#[trigger] old(self).0.all()[q]).value is None,
    //| decreases self.0.all().len() - self.0.done()
    //@end
}
impl<K: Key, T> IntoIter<K, T> {
    //@fn src/slotmap.rs "impl<K: Key, T> Iterator for IntoIter<K, T>" next -> r
    //@sub Self::Item ==> (K, T)
    //| ensures final(self).0.all() == old(self).0.all(), following(old(self).0.all(), old(self).0.done() as int, final(self).0.done() as int, r),
    //@loop 1
    //| invariant self.0.all() == old(self).0.all(), old(self).0.done() <= self.0.done(), forall|q: int| old(self).0.done() <= q < self.0.done() ==> (#[trigger] old(self).0.all()[q]).value is None,
    //| decreases self.0.all().len() - self.0.done()
    //@end
}
}
// ---- end
}
fn main() {}
