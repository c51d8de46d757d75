use vstd::prelude::*;
verus! {
// ---- begin
pub mod keys {
use vstd::prelude::*;
use std::cmp::Ordering;
use std::marker::PhantomData;
/// The order of the keys: any strict total order (the law of Ord; that of Borrow is that both forms of a key have the same id).
pub uninterp spec fn before<I>(a: I, b: I) -> bool;
pub broadcast axiom fn before_irreflexive<I>(a: I) ensures !#[trigger] before(a, a);
pub broadcast axiom fn before_transitive<I>(a: I, b: I, c: I) requires before(a, b), before(b, c) ensures #![trigger before(a, b), before(b, c)] before(a, c);
pub broadcast axiom fn before_total<I>(a: I, b: I) ensures #[trigger] before(a, b) || a == b || before(b, a);
pub broadcast group order_facts { before_irreflexive, before_transitive, before_total }
pub open spec fn placed<I>(a: I, b: I) -> Ordering { if a == b { Ordering::Equal } else if before(a, b) { Ordering::Less } else { Ordering::Greater } }
pub open spec fn rank(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
pub trait Key { type Id; spec fn id(&self) -> Self::Id; }
pub trait Ordered: Key {
    fn order<Q: ?Sized + Key<Id = Self::Id>>(&self, other: &Q) -> (r: Ordering) ensures r == placed(self.id(), other.id());
    fn same<Q: ?Sized + Key<Id = Self::Id>>(&self, other: &Q) -> (r: bool) ensures r == (self.id() == other.id());
}
impl<K: ?Sized + Key> Ordered for K {
    #[verifier::external_body] fn order<Q: ?Sized + Key<Id = Self::Id>>(&self, other: &Q) -> (r: Ordering) { unimplemented!() }
    #[verifier::external_body] fn same<Q: ?Sized + Key<Id = Self::Id>>(&self, other: &Q) -> (r: bool) { unimplemented!() }
}
/// slice::binary_search_by
#[verifier::external_body] pub fn search<T, F: Fn(&T) -> Ordering>(v: &Vec<T>, f: F) -> (r: Result<usize, usize>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
        forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i < j < v@.len() && #[trigger] f.ensures((&v@[i],), a) && #[trigger] f.ensures((&v@[j],), b) ==> rank(a) <= rank(b),
    ensures match r {
        Ok(i) => i < v@.len() && f.ensures((&v@[i as int],), Ordering::Equal),
        Err(i) => i <= v@.len() && (forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] &v@[j],), Ordering::Less)) && (forall|j: int| i <= j < v@.len() ==> f.ensures((#[trigger] &v@[j],), Ordering::Greater)),
    }
{ v.binary_search_by(f) }
/// Iterator::find over a slice
#[verifier::external_body] pub fn find<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: Option<&T>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < v@.len() && *x == #[trigger] v@[i] && f.ensures((&v@[i],), true),
        None => forall|i: int| 0 <= i < v@.len() ==> f.ensures((#[trigger] &v@[i],), false),
    }
{ v.iter().find(|x| f(x)) }
/// Iterator::find over a slice that may be changed
#[verifier::external_body] pub fn find_mut<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) -> (r: Option<&mut T>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i],)),
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < old(v)@.len() && *x == #[trigger] old(v)@[i] && f.ensures((&old(v)@[i],), true) && final(v)@ == old(v)@.update(i, *final(x)),
        None => *final(v) == *old(v) && forall|i: int| 0 <= i < old(v)@.len() ==> f.ensures((#[trigger] &old(v)@[i],), false),
    }
{ v.iter_mut().find(|x| f(x)) }
/// slice::Iter, slice::IterMut and vec::IntoIter: what is walked through, and how much of it is done
#[verifier::external_body] #[verifier::accept_recursive_types(X)] pub struct Each<'a, X> { p: PhantomData<&'a X> }
#[verifier::external_body] pub fn each<'a, X>(v: &'a Vec<X>) -> (r: Each<'a, X>) ensures r.all() == v@, r.done() == 0 { unimplemented!() }
impl<'a, X> Each<'a, X> {
    pub uninterp spec fn all(self) -> Seq<X>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a X>) ensures final(self).all() == old(self).all(), old(self).done() <= old(self).all().len(), match r { Some(x) => old(self).done() < old(self).all().len() && *x == old(self).all()[old(self).done() as int] && final(self).done() == old(self).done() + 1, None => old(self).done() == old(self).all().len() && final(self).done() == old(self).done() } { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(X)] pub struct EachMut<'a, X> { p: PhantomData<&'a X> }
#[verifier::external_body] pub fn each_mut<'a, X>(v: &'a mut Vec<X>) -> (r: EachMut<'a, X>) ensures r.all() == old(v)@, r.done() == 0 { unimplemented!() }
impl<'a, X> EachMut<'a, X> {
    pub uninterp spec fn all(self) -> Seq<X>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a mut X>) ensures final(self).all() == old(self).all(), old(self).done() <= old(self).all().len(), match r { Some(x) => old(self).done() < old(self).all().len() && *x == old(self).all()[old(self).done() as int] && final(self).done() == old(self).done() + 1, None => old(self).done() == old(self).all().len() && final(self).done() == old(self).done() } { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(X)] pub struct EachOwned<X> { p: PhantomData<X> }
#[verifier::external_body] pub fn each_owned<X>(v: Vec<X>) -> (r: EachOwned<X>) ensures r.all() == v@, r.done() == 0 { unimplemented!() }
impl<X> EachOwned<X> {
    pub uninterp spec fn all(self) -> Seq<X>;
    pub uninterp spec fn done(self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<X>) ensures final(self).all() == old(self).all(), old(self).done() <= old(self).all().len(), match r { Some(x) => old(self).done() < old(self).all().len() && x == old(self).all()[old(self).done() as int] && final(self).done() == old(self).done() + 1, None => old(self).done() == old(self).all().len() && final(self).done() == old(self).done() } { unimplemented!() }
}
}
pub mod tables {
use vstd::prelude::*;
use super::keys::*;
use std::cmp::Ordering;
broadcast use super::keys::order_facts;
pub assume_specification<T>[ core::mem::replace::<T> ](dest: &mut T, src: T) -> (r: T) ensures r == *old(dest), *final(dest) == src;
pub struct Entry<K, V> { pub key: K, pub value: V }
pub struct VecMap<K, V, const SORTED: bool> { pub values: Vec<Entry<K, V>> }
impl<K: Key, V, const SORTED: bool> VecMap<K, V, SORTED> {
    pub closed spec fn at(self, i: int, k: K::Id) -> bool { 0 <= i < self.values@.len() && self.values@[i].key.id() == k }
    pub closed spec fn has(self, k: K::Id) -> bool { exists|i: int| self.at(i, k) }
    pub closed spec fn value(self, k: K::Id) -> V { self.values@[choose|i: int| self.at(i, k)].value }
    /// What the table says, as a function from keys to values.
    pub closed spec fn map(self) -> Map<K::Id, V> { Map::new(self.values@.map_values(|e: Entry<K, V>| e.key.id()).to_set(), |k: K::Id| self.value(k)) }
    pub broadcast proof fn map_has(self, k: K::Id) ensures #[trigger] self.map().contains_key(k) <==> self.has(k) {
        let s = self.values@.map_values(|e: Entry<K, V>| e.key.id());
        if self.has(k) { let i = choose|i: int| self.at(i, k); assert(s[i] == k); assert(s.contains(k)); }
        if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(self.at(i, k)); }
    }
    pub broadcast proof fn known(self) requires self.wf() ensures #![trigger self.map()]
        forall|i: int| #![trigger self.values@[i]] 0 <= i < self.values@.len() ==> self.map().contains_key(self.values@[i].key.id()) && self.map()[self.values@[i].key.id()] == self.values@[i].value,
        forall|k: K::Id| #[trigger] self.map().contains_key(k) ==> exists|i: int| 0 <= i < self.values@.len() && (#[trigger] self.values@[i]).key.id() == k,
    {
        assert forall|i: int| #![trigger self.values@[i]] 0 <= i < self.values@.len() implies self.map().contains_key(self.values@[i].key.id()) && self.map()[self.values@[i].key.id()] == self.values@[i].value by { self.map_at(i) }
        assert forall|k: K::Id| #[trigger] self.map().contains_key(k) implies exists|i: int| 0 <= i < self.values@.len() && (#[trigger] self.values@[i]).key.id() == k by { self.map_has(k); let i = choose|i: int| self.at(i, k); assert(self.values@[i].key.id() == k); }
    }
    /// The value of one entry was replaced.
    pub broadcast proof fn changed(a: Self, b: Self, i: int)
        requires a.wf(), 0 <= i < a.values@.len(), b.values@.len() == a.values@.len(), b.values@[i].key == a.values@[i].key, forall|j: int| 0 <= j < a.values@.len() && j != i ==> #[trigger] b.values@[j] == a.values@[j],
        ensures #![trigger a.map(), b.map(), a.values@[i]] b.wf(), b.map() =~= a.map().insert(a.values@[i].key.id(), b.values@[i].value), b.names() =~= a.names()
    {
        assert(b.wf()) by { assert forall|i: int, j: int| #![trigger b.values@[i], b.values@[j]] 0 <= i < j < b.values@.len() implies b.values@[i].key.id() != b.values@[j].key.id() && (SORTED ==> before(b.values@[i].key.id(), b.values@[j].key.id())) by { let x = a.values@[i]; let y = a.values@[j]; } }
        a.known(); b.known();
        let m = a.map().insert(a.values@[i].key.id(), b.values@[i].value);
        assert forall|k: K::Id| #[trigger] b.map().contains_key(k) <==> m.contains_key(k) by {
            if b.map().contains_key(k) { let j = choose|j: int| 0 <= j < b.values@.len() && (#[trigger] b.values@[j]).key.id() == k; let x = a.values@[j]; }
            if a.map().contains_key(k) { let j = choose|j: int| 0 <= j < a.values@.len() && (#[trigger] a.values@[j]).key.id() == k; let x = b.values@[j]; }
            let x = b.values@[i];
        }
        assert forall|k: K::Id| #[trigger] b.map().contains_key(k) implies b.map()[k] == m[k] by { let j = choose|j: int| 0 <= j < b.values@.len() && (#[trigger] b.values@[j]).key.id() == k; let x = a.values@[j]; }
    }
    /// An entry was put among the others.
    pub proof fn added(a: Self, b: Self, i: int)
        requires a.wf(), b.wf(), 0 <= i <= a.values@.len(), b.values@.len() == a.values@.len() + 1, forall|j: int| 0 <= j < i ==> #[trigger] b.values@[j] == a.values@[j], forall|j: int| i < j < b.values@.len() ==> #[trigger] b.values@[j] == a.values@[j - 1],
        ensures b.map() =~= a.map().insert(b.values@[i].key.id(), b.values@[i].value)
    {
        a.known(); b.known();
        let m = a.map().insert(b.values@[i].key.id(), b.values@[i].value);
        assert forall|k: K::Id| #[trigger] b.map().contains_key(k) <==> m.contains_key(k) by {
            if b.map().contains_key(k) { let j = choose|j: int| 0 <= j < b.values@.len() && (#[trigger] b.values@[j]).key.id() == k; if j < i { let x = a.values@[j]; } else if j > i { let x = a.values@[j - 1]; } }
            if a.map().contains_key(k) { let j = choose|j: int| 0 <= j < a.values@.len() && (#[trigger] a.values@[j]).key.id() == k; if j < i { let x = b.values@[j]; } else { let x = b.values@[j + 1]; } }
            let x = b.values@[i];
        }
        assert forall|k: K::Id| #[trigger] b.map().contains_key(k) implies b.map()[k] == m[k] by { let j = choose|j: int| 0 <= j < b.values@.len() && (#[trigger] b.values@[j]).key.id() == k; if j < i { let x = a.values@[j]; } else if j > i { let x = a.values@[j - 1]; } }
    }
    pub broadcast proof fn added_at(a: Self, b: Self, i: int, e: Entry<K, V>) requires a.wf(), b.wf(), 0 <= i <= a.values@.len(), b.values@ == a.values@.insert(i, e) ensures #![trigger b.map(), a.values@.insert(i, e)] b.map() =~= a.map().insert(e.key.id(), e.value) { Self::added(a, b, i); }
    pub broadcast proof fn added_last(a: Self, b: Self, e: Entry<K, V>) requires a.wf(), b.wf(), b.values@ == a.values@.push(e) ensures #![trigger b.map(), a.values@.push(e)] b.map() =~= a.map().insert(e.key.id(), e.value) { Self::added(a, b, a.values@.len() as int); }
    pub proof fn map_at(self, i: int) requires self.wf(), 0 <= i < self.values@.len() ensures self.map().contains_key(self.values@[i].key.id()), self.map()[self.values@[i].key.id()] == self.values@[i].value {
        let k = self.values@[i].key.id(); assert(self.at(i, k)); self.map_has(k);
        let j = choose|j: int| self.at(j, k); assert(self.at(j, k)); if i < j { } else if j < i { }
    }
    /// The keys and values in the order the table is walked through.
    pub closed spec fn pairs(self) -> Seq<(K::Id, V)> { self.values@.map_values(|e: Entry<K, V>| (e.key.id(), e.value)) }
    pub open spec fn names(self) -> Seq<K::Id> { self.pairs().map_values(|p: (K::Id, V)| p.0) }
    /// No key twice, and a sorted table is sorted.
    pub closed spec fn wf(self) -> bool { forall|i: int, j: int| #![trigger self.values@[i], self.values@[j]] 0 <= i < j < self.values@.len() ==> self.values@[i].key.id() != self.values@[j].key.id() && (SORTED ==> before(self.values@[i].key.id(), self.values@[j].key.id())) }
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" new -> r
    //| ensures r.wf(), r.map() =~= Map::<K::Id, V>::empty(), r.pairs() =~= Seq::<(K::Id, V)>::empty(),
    //@enter
    //| broadcast use {VecMap::known, VecMap::changed, VecMap::added_at, VecMap::added_last};
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" with_capacity -> r
    //| ensures r.wf(), r.map() =~= Map::<K::Id, V>::empty(), r.pairs() =~= Seq::<(K::Id, V)>::empty(),
    //@enter
    //| broadcast use VecMap::known;
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" get -> r optmap
    //@sub <Q: \?Sized \+ Ord> ==> <Q: ?Sized + Key<Id = K::Id>>
    //@sub where K: Borrow<Q> ==>
    //@sub self\.values\.binary_search_by\(\|(\w+)\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\) ==> search(&self.values, |\1: &Entry<K, V>| -> (o: Ordering) ensures o == placed(\1.key.id(), key.id()) { \2 })
    //@sub self\.values\.iter\(\)\.find\(\|(\w+)\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\) ==> find(&self.values, |\1: &Entry<K, V>| -> (o: bool) ensures o == (\1.key.id() == key.id()) { \2 })
    //@sub \.borrow\(\) ==>
    //@sub \.cmp\( ==> .order(
    //@sub (\w+)\.key == key ==> \1.key.same(key)
    //| requires self.wf(),
    //| ensures match r { Some(x) => self.map().contains_key(key.id()) && self.map()[key.id()] == *x, None => !self.map().contains_key(key.id()) },
    //@enter
    //| broadcast use {VecMap::known, VecMap::changed, VecMap::added_at, VecMap::added_last};
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" get_mut -> r optmap
    //@sub <Q: \?Sized \+ Ord> ==> <Q: ?Sized + Key<Id = K::Id>>
    //@sub where K: Borrow<Q> ==>
    //@sub self\.values\.binary_search_by\(\|(\w+)\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\) ==> search(&self.values, |\1: &Entry<K, V>| -> (o: Ordering) ensures o == placed(\1.key.id(), key.id()) { \2 })
    //@sub self\.values\.iter_mut\(\)\.find\(\|(\w+)\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\) ==> find_mut(&mut self.values, |\1: &Entry<K, V>| -> (o: bool) ensures o == (\1.key.id() == key.id()) { \2 })
    //@sub \.borrow\(\) ==>
    //@sub \.cmp\( ==> .order(
    //@sub (\w+)\.key == key ==> \1.key.same(key)
    //| requires old(self).wf(),
    //| ensures final(self).wf(), match r {
    //|     Some(x) => old(self).map().contains_key(key.id()) && old(self).map()[key.id()] == *x && final(self).map() =~= old(self).map().insert(key.id(), *final(x)) && final(self).names() =~= old(self).names(),
    //|     None => !old(self).map().contains_key(key.id()) && *final(self) == *old(self),
    //| },
    //@enter
    //| broadcast use {VecMap::known, VecMap::changed, VecMap::added_at, VecMap::added_last};
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" insert -> r
    //@sub self\.values\.binary_search_by\(\|(\w+)\| ((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\) ==> search(&self.values, |\1: &Entry<K, V>| -> (o: Ordering) ensures o == placed(\1.key.id(), key.id()) { \2 })
    //@sub \.cmp\( ==> .order(
    //| requires old(self).wf(),
    //| ensures final(self).wf(), final(self).map() =~= old(self).map().insert(key.id(), value),
    //|     r == (if old(self).map().contains_key(key.id()) { Some(old(self).map()[key.id()]) } else { None::<V> }),
    //|     old(self).map().contains_key(key.id()) ==> final(self).names() =~= old(self).names(),
    //|     !SORTED && !old(self).map().contains_key(key.id()) ==> final(self).pairs() =~= old(self).pairs().push((key.id(), value)),
    //@enter
    //| broadcast use {VecMap::known, VecMap::changed, VecMap::added_at, VecMap::added_last};
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" len -> r
    //| ensures r == self.pairs().len(),
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" is_empty -> r
    //| ensures r == (self.pairs().len() == 0),
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" iter -> r
    //@sub self\.values\.iter\(\) ==> each(&self.values)
    //| ensures r.0.done() == 0, self.at_start(r.0.all()),
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" iter_mut -> r
    //@sub self\.values\.iter_mut\(\) ==> each_mut(&mut self.values)
    //| ensures r.0.done() == 0, old(self).at_start(r.0.all()),
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> IntoIterator for VecMap<K, V, SORTED>" into_iter -> r
    //@sub self\.values\.into_iter\(\) ==> each_owned(self.values)
    //@sub Self::IntoIter ==> IntoIter<K, V>
    //| ensures r.0.done() == 0, self.at_start(r.0.all()),
    //@end
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> VecMap<K, V, SORTED>" as_slice -> r
    //| ensures self.at_start(r@),
    //@end
    pub closed spec fn at_start(self, s: Seq<Entry<K, V>>) -> bool { s == self.values@ }
    /// A walk goes through the pairs of the table, in order.
    pub proof fn walked(self, s: Seq<Entry<K, V>>, i: int) requires self.at_start(s) ensures s.len() == self.pairs().len(), 0 <= i < s.len() ==> self.pairs()[i] == (s[i].key.id(), s[i].value) { }
}
pub struct Iter<'a, K, V>(pub Each<'a, Entry<K, V>>);
pub struct IterMut<'a, K, V>(pub EachMut<'a, Entry<K, V>>);
pub struct IntoIter<K, V>(pub EachOwned<Entry<K, V>>);
impl<'a, K: Key, V> Iter<'a, K, V> {
    //@fn src/vecmap.rs "impl<'a, K: Ord + 'static, V> Iterator for Iter<'a, K, V>" next -> r optmap
    //@sub Self::Item ==> (&'a K, &'a V)
    //| ensures final(self).0.all() == old(self).0.all(), match r { Some((k, v)) => old(self).0.done() < old(self).0.all().len() && *k == old(self).0.all()[old(self).0.done() as int].key && *v == old(self).0.all()[old(self).0.done() as int].value && final(self).0.done() == old(self).0.done() + 1, None => old(self).0.done() == old(self).0.all().len() && final(self).0.done() == old(self).0.done() },
    //@end
}
impl<'a, K: Key, V> IterMut<'a, K, V> {
    //@fn src/vecmap.rs "impl<'a, K: Ord + 'static, V> Iterator for IterMut<'a, K, V>" next -> r optmap
    //@sub Self::Item ==> (&'a K, &'a mut V)
    //| ensures final(self).0.all() == old(self).0.all(), match r { Some((k, v)) => old(self).0.done() < old(self).0.all().len() && *k == old(self).0.all()[old(self).0.done() as int].key && *v == old(self).0.all()[old(self).0.done() as int].value && final(self).0.done() == old(self).0.done() + 1, None => old(self).0.done() == old(self).0.all().len() && final(self).0.done() == old(self).0.done() },
    //@end
}
impl<K: Key, V> IntoIter<K, V> {
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V> Iterator for IntoIter<K, V>" next -> r optmap
    //@sub Self::Item ==> (K, V)
    //| ensures final(self).0.all() == old(self).0.all(), match r { Some((k, v)) => old(self).0.done() < old(self).0.all().len() && k == old(self).0.all()[old(self).0.done() as int].key && v == old(self).0.all()[old(self).0.done() as int].value && final(self).0.done() == old(self).0.done() + 1, None => old(self).0.done() == old(self).0.all().len() && final(self).0.done() == old(self).0.done() },
    //@end
}
/// The table that walking through pairs and putting them in gives: of the values of a key the last one.
pub open spec fn filled<I, V>(s: Seq<(I, V)>) -> Map<I, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { filled(s.drop_last()).insert(s.last().0, s.last().1) } }
pub open spec fn keyed<K: Key, V>(s: Seq<(K, V)>) -> Seq<(K::Id, V)> { s.map_values(|p: (K, V)| (p.0.id(), p.1)) }
impl<K: Key, V, const SORTED: bool> VecMap<K, V, SORTED> {
    //@fn src/vecmap.rs "impl<K: Ord + 'static, V, const SORTED: bool> FromIterator<(K, V)> for VecMap<K, V, SORTED>" from_iter -> r
    //@sub <T: IntoIterator<Item = \(K, V\)>>\(iter: T\) ==> (iter: Vec<(K, V)>)
    //| ensures r.wf(), r.map() == filled(keyed(iter@)),
    //@loop 1
    //| invariant res.wf(), rest_iter@.len() <= iter@.len(), rest_iter@ =~= iter@.skip(iter@.len() - rest_iter@.len()), res.map() == filled(keyed(iter@.take(iter@.len() - rest_iter@.len()))),
    //| decreases rest_iter.len()
    //@top 1
    //| proof { let n = iter@.len() - was_iter.len(); let a = keyed(iter@.take(n)); let b = keyed(iter@.take(n + 1)); assert(b.drop_last() =~= a); assert(b.last() == (k.id(), v)); }
    //@enter
    //| proof { assert(keyed(iter@.take(0)) =~= Seq::<(K::Id, V)>::empty()); }
    //@leave
    //| proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
    //@end
}
}
pub mod symbols {
use vstd::prelude::*;
use super::keys::*;
use super::tables::*;
use std::marker::PhantomData;
#[verifier::external_body] pub struct CompactString { }
impl Key for CompactString { type Id = Seq<char>; uninterp spec fn id(&self) -> Seq<char>; }
impl Key for str { type Id = Seq<char>; open spec fn id(&self) -> Seq<char> { self@ } }
impl CompactString {
    #[verifier::external_body] pub fn new(s: &str) -> (r: Self) ensures r.id() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.id() { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Gc<'gc, T> { p: PhantomData<&'gc T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefLock<T> { p: PhantomData<T> }
pub trait Collect { }
//@type src/runtime.rs Shared
/// What a variable holds; what aliased variables hold lies in a heap that the functions here only read.
pub uninterp spec fn content<'gc, T>(g: Gc<'gc, RefLock<T>>) -> T;
pub open spec fn held<'gc, T: Collect>(x: Shared<'gc, T>) -> T { match x { Shared::Unique(v) => v, Shared::Aliased(g) => content(g) } }
impl<'gc, T: Collect> Shared<'gc, T> {
    /// a clone of what it holds
    #[verifier::external_body] pub fn read(&self) -> (r: T) ensures r == held(*self) { unimplemented!() }
}
pub struct SymbolTable<'gc, V: Collect>(pub VecMap<CompactString, Shared<'gc, V>, true>);
impl<'gc, V: Collect> SymbolTable<'gc, V> {
    pub open spec fn wf(self) -> bool { self.0.wf() }
    pub open spec fn map(self) -> Map<Seq<char>, Shared<'gc, V>> { self.0.map() }
    fn default() -> (r: Self) ensures r.wf(), r.map() == Map::<Seq<char>, Shared<'gc, V>>::empty() { SymbolTable(VecMap::new()) }
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> SymbolTable<'gc, C, S>" define_or_redefine
    //@sub Value<'gc, C, S> ==> V
    //| requires old(self).wf(),
    //| ensures final(self).wf(), final(self).map() == old(self).map().insert(var@, value),
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> SymbolTable<'gc, C, S>" lookup -> r
    //@sub Value<'gc, C, S> ==> V
    //| requires self.wf(),
    //| ensures match r { Some(x) => self.map().contains_key(var@) && self.map()[var@] == *x, None => !self.map().contains_key(var@) },
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> SymbolTable<'gc, C, S>" lookup_mut -> r
    //@sub Value<'gc, C, S> ==> V
    //| requires old(self).wf(),
    //| ensures final(self).wf(), r is Some <==> old(self).map().contains_key(var@), match r { Some(x) => *x == old(self).map()[var@] && final(self).map() == old(self).map().insert(var@, *final(x)), None => *final(self) == *old(self) },
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> SymbolTable<'gc, C, S>" len -> r
    //| ensures r == self.0.pairs().len(),
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> SymbolTable<'gc, C, S>" is_empty -> r
    //| ensures r == (self.0.pairs().len() == 0),
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Clone for SymbolTable<'gc, C, S>" clone -> r
    //@sub for \(k, v\) in self\.iter\(\) ==> for e in self.0.values.iter()
    //@sub \.get\(\)\.clone\(\) ==> .read()
    //| requires self.wf(),
    //| ensures r.wf(), r.map().dom() =~= self.map().dom(), forall|x: Seq<char>| #[trigger] r.map().contains_key(x) ==> r.map()[x] == Shared::Unique(held(self.map()[x])),
    //@loop 1
    //| invariant self.wf(), res.wf(), next_e <= self.0.values@.len(),
    //|     forall|j: int| 0 <= j < next_e ==> res.map().contains_key((#[trigger] self.0.values@[j]).key.id()),
    //|     forall|x: Seq<char>| #[trigger] res.map().contains_key(x) ==> self.map().contains_key(x) && res.map()[x] == Shared::Unique(held(self.map()[x])),
    //| decreases self.0.values.len() - next_e
    //@top 1
    //| let (k, v) = (e.key.as_str(), &e.value); proof { self.0.known(); assert(self.0.values@[next_e - 1] == *e); assert(self.map()[k@] == *v); }
    //@enter
    //| broadcast use VecMap::known;
    //@end
}
/// slice::split_last_mut, as iter_mut().rev() goes
#[verifier::external_body] pub fn split_last<'a, X>(v: &'a mut [X]) -> (r: Option<(&'a mut X, &'a mut [X])>)
    ensures match r { Some((x, rest)) => old(v)@.len() > 0 && *x == old(v)@.last() && rest@ == old(v)@.drop_last() && final(v)@ == final(rest)@.push(*final(x)), None => old(v)@.len() == 0 && final(v)@ == old(v)@ }
{ v.split_last_mut() }
pub open spec fn innermost_of<'gc, V: Collect>(t: Seq<SymbolTable<'gc, V>>, n: int, name: Seq<char>) -> int decreases n { if n <= 0 { -1 } else if t[n - 1].map().contains_key(name) { n - 1 } else { innermost_of(t, n - 1, name) } }
pub proof fn prefix<'gc, V: Collect>(t: Seq<SymbolTable<'gc, V>>, m: int, n: int, name: Seq<char>) requires 0 <= n <= m <= t.len() ensures innermost_of(t.take(m), n, name) == innermost_of(t, n, name), -1 <= innermost_of(t, n, name) < n || n <= 0 decreases n { if n > 0 { prefix(t, m, n - 1, name); } }
/// The innermost of the first n tables that has the name.
pub open spec fn innermost<'gc, V: Collect>(t: Seq<&SymbolTable<'gc, V>>, n: int, name: Seq<char>) -> int decreases n { if n <= 0 { -1 } else if t[n - 1].map().contains_key(name) { n - 1 } else { innermost(t, n - 1, name) } }
pub struct LookupGroup<'gc, 'b, V: Collect>(pub Vec<&'b SymbolTable<'gc, V>>);
impl<'gc, 'b, V: Collect> LookupGroup<'gc, 'b, V> {
    //@fn src/runtime.rs "impl<'gc, 'a: 'b, 'b, C: CustomTypes<S>, S: System<C>> LookupGroup<'gc, 'a, 'b, C, S>" lookup -> r
    //@sub Value<'gc, C, S> ==> V
    //@sub <'s: 'a>\(&'s self ==> (&self
    //| requires forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).wf(),
    //| ensures ({ let k = innermost(self.0@, self.0@.len() as int, var@); (r is Some <==> k >= 0) && (k >= 0 ==> *r->Some_0 == self.0@[k].map()[var@]) }),
    //@loop 1
    //| invariant forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).wf(), left_src <= self.0@.len(), innermost(self.0@, self.0@.len() as int, var@) == innermost(self.0@, left_src as int, var@),
    //| decreases left_src
    //@end
    // (the loop over the tables becomes the recursion over them)
    //@fn src/runtime.rs "impl<'gc, 'a: 'b, 'b, C: CustomTypes<S>, S: System<C>> LookupGroup<'gc, 'a, 'b, C, S>" lookup_mut -> r
    //@sub Value<'gc, C, S> ==> V
    //@sub <'s: 'a>\(&'s mut self ==> <'s>(tables: &'s mut [SymbolTable<'gc, V>]
    //@sub &'b mut Shared ==> &'s mut Shared
    //@sub for (\w+) in self\.0\.iter_mut\(\)\.rev\(\) \{([\s\S]*)\}\s*None\s*\}\s*$ ==> match split_last(tables) { Some((\1, rest)) => {\2 Self::lookup_mut(rest, var) } None => None } }
    //| requires forall|i: int| 0 <= i < old(tables)@.len() ==> (#[trigger] old(tables)@[i]).wf(),
    //| ensures ({ let o = old(tables)@; let n = final(tables)@; let k = innermost_of(o, o.len() as int, var@);
    //|     &&& r is Some <==> k >= 0
    //|     &&& n.len() == o.len() && forall|i: int| 0 <= i < o.len() ==> (#[trigger] n[i]).wf() && (i != k ==> n[i] == o[i])
    //|     &&& k >= 0 ==> *r->Some_0 == o[k].map()[var@] && n[k].map() == o[k].map().insert(var@, *final(r->Some_0)) }),
    //| decreases tables.len()
    //@enter
    //| proof { let o = tables@; if o.len() > 0 { prefix(o, o.len() - 1, o.len() - 1, var@); assert(o.drop_last() =~= o.take(o.len() - 1)); } }
    //@end
}
}
// ---- end
}
fn main() {}
