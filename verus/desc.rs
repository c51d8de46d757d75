use vstd::prelude::*;
verus! {
pub mod heap {
//! Tables by key, from the documentation of BTreeMap; the values of the project as the AST crate (netsblox-ast 0.5.14) declares them.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::rc::Rc;
use super::data::*;
#[verifier::external_body] pub struct CompactString { }
impl CompactString {
    pub uninterp spec fn chars(self) -> Seq<char>;
    /// (no contracts: what a changed key is, is not known)
    #[verifier::external_body] pub fn trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] pub fn to_lowercase(&self) -> (r: CompactString) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.chars() { unimplemented!() }
}
pub trait Letters { spec fn letters(&self) -> Seq<char>; }
impl Letters for CompactString { open spec fn letters(&self) -> Seq<char> { self.chars() } }
impl Letters for str { open spec fn letters(&self) -> Seq<char> { self@ } }
impl Clone for CompactString { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn bytes_of(x: &Vec<u8>) -> (r: Vec<u8>) ensures r == *x { unimplemented!() }
#[derive(Clone, Copy)] pub struct RefId(pub usize);
#[derive(Clone, Copy)] pub enum Constant { E, Pi }
pub type Picture = (Vec<u8>, Option<(f64, f64)>, CompactString);
pub type Noise = (Vec<u8>, CompactString);
pub enum Content { Bool(bool), Number(f64), Constant(Constant), String(CompactString), Image(Rc<Picture>), Audio(Rc<Noise>), List(Vec<Content>, Option<RefId>), Ref(RefId) }
#[derive(Clone, Copy)] pub struct Number(pub f64);
#[verifier::external_body] pub struct NumberError { }
pub uninterp spec fn number_of(x: f64) -> Number;
impl Number { #[verifier::external_body] pub fn new(x: f64) -> (r: Result<Number, NumberError>) ensures r is Ok ==> r->Ok_0 == number_of(x) { unimplemented!() } }
pub uninterp spec fn e_() -> f64;
pub uninterp spec fn pi_() -> f64;
#[verifier::external_body] pub fn euler() -> (r: f64) ensures r == e_() { unimplemented!() }
#[verifier::external_body] pub fn pi() -> (r: f64) ensures r == pi_() { unimplemented!() }
#[verifier::external_body] pub struct CompileError<'a> { p: PhantomData<&'a ()> }
impl<'a> From<NumberError> for CompileError<'a> { #[verifier::external_body] fn from(e: NumberError) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn undefined_ref<'a>(v: &'a Content) -> CompileError<'a> { unimplemented!() }
/// BTreeMap<usize, usize>
#[verifier::external_body] pub struct Ids { }
impl Ids {
    pub uninterp spec fn map(self) -> Map<usize, usize>;
    #[verifier::external_body] pub fn find(&self, k: usize) -> (r: Option<usize>) ensures r == (if self.map().contains_key(k) { Some(self.map()[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: usize, v: usize) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
}
/// BTreeMap<&str, usize>
#[verifier::external_body] pub struct Texts { }
impl Texts {
    pub uninterp spec fn map(self) -> Map<Seq<char>, usize>;
    #[verifier::external_body] pub fn find<K: Letters + ?Sized>(&self, k: &K) -> (r: Option<usize>) ensures r == (if self.map().contains_key(k.letters()) { Some(self.map()[k.letters()]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn put<K: Letters + ?Sized>(&mut self, k: &K, v: usize) ensures final(self).map() == old(self).map().insert(k.letters(), v) { unimplemented!() }
}
/// Where something lies: nothing else lies there while it does.
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Addr<T> { p: PhantomData<T> }
impl<T> Addr<T> { pub uninterp spec fn content(self) -> T; }
impl<T> Clone for Addr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Addr<T> { }
/// Rc::as_ptr
pub uninterp spec fn addr<T>(x: &Rc<T>) -> Addr<T>;
#[verifier::external_body] pub fn address<T>(x: &Rc<T>) -> (r: Addr<T>) ensures r == addr(x), r.content() == **x { unimplemented!() }
/// BTreeMap by address
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Places<T> { p: PhantomData<T> }
impl<T> Places<T> {
    pub uninterp spec fn map(self) -> Map<Addr<T>, usize>;
    #[verifier::external_body] pub fn find(&self, k: Addr<T>) -> (r: Option<usize>) ensures r == (if self.map().contains_key(k) { Some(self.map()[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: Addr<T>, v: usize) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
}
}
pub mod data {
use vstd::prelude::*;
use super::heap::*;
//@type src/bytecode.rs InitValue
//@type src/bytecode.rs RefValue
}
pub mod desc {
//! What is written down about the values of a project.
use vstd::prelude::*;
use std::rc::Rc;
use super::heap::*;
use super::data::*;
pub type Slots<'a> = Seq<(Option<RefValue>, &'a Content)>;
/// A list of that name is (in) the value.
pub open spec fn names(v: Content, id: usize) -> bool decreases v { match v { Content::List(x, r) => r == Some(RefId(id)) || exists|k: int| 0 <= k < x@.len() && names(#[trigger] x@[k], id), _ => false } }
/// A name is given to one list.
pub open spec fn once(v: Content) -> bool decreases v {
    match v {
        Content::List(x, r) => (forall|k: int| 0 <= k < x@.len() ==> once(#[trigger] x@[k])) && (forall|j: int, k: int, id: usize| 0 <= j < k < x@.len() ==> !(#[trigger] names(x@[j], id) && #[trigger] names(x@[k], id)))
            && (r is Some ==> forall|k: int| 0 <= k < x@.len() ==> !names(#[trigger] x@[k], r->Some_0.0)),
        _ => true,
    }
}
pub open spec fn centre(c: Option<(f64, f64)>) -> Option<(Number, Number)> { match c { Some(p) => Some((number_of(p.0), number_of(p.1))), None => None } }
pub open spec fn text_at(s: Slots<'_>, i: int, t: Seq<char>) -> bool { 0 <= i < s.len() && (s[i].0 matches Some(RefValue::Text(u)) && u.chars() == t) }
pub open spec fn image_at(s: Slots<'_>, i: int, p: Picture) -> bool { 0 <= i < s.len() && s[i].0 == Some(RefValue::Image(p.0, centre(p.1), p.2)) }
pub open spec fn audio_at(s: Slots<'_>, i: int, p: Noise) -> bool { 0 <= i < s.len() && s[i].0 == Some(RefValue::Audio(p.0, p.1)) }
/// `d` describes `v`. A list without a name has a slot of its own, among lo..hi, and so have the lists in it: no two values share one.
pub open spec fn stands(v: Content, d: InitValue, s: Slots<'_>, refs: Map<usize, usize>, lo: int, hi: int) -> bool decreases v {
    match v {
        Content::Bool(x) => d == InitValue::Bool(x), Content::Number(x) => d == InitValue::Number(number_of(x)),
        Content::Constant(x) => d == InitValue::Number(number_of(match x { Constant::E => e_(), Constant::Pi => pi_() })),
        Content::Ref(x) => refs.contains_key(x.0) && d == InitValue::Ref(refs[x.0]),
        Content::String(x) => d is Ref && text_at(s, d->Ref_0 as int, x.chars()),
        Content::Image(x) => d is Ref && image_at(s, d->Ref_0 as int, *x),
        Content::Audio(x) => d is Ref && audio_at(s, d->Ref_0 as int, *x),
        Content::List(x, r) => d is Ref && d->Ref_0 < s.len() && (s[d->Ref_0 as int].0 matches Some(RefValue::List(l)) && l@.len() == x@.len()
            && (match r { Some(id) => refs.contains_key(id.0) && d->Ref_0 == refs[id.0], None => lo <= d->Ref_0 < hi })
            && exists|cut: Seq<int>| #[trigger] cuts(cut, x@.len() as int, lo, end(r, hi, d->Ref_0 as int)) && forall|k: int| 0 <= k < x@.len() ==> stands(#[trigger] x@[k], l@[k], s, refs, cut[k], cut[k + 1])),
    }
}
pub open spec fn end(r: Option<RefId>, hi: int, i: int) -> int { if r is Some { hi } else { i } }
pub open spec fn cuts(c: Seq<int>, n: int, lo: int, hi: int) -> bool { c.len() == n + 1 && c[0] >= lo && c[n] <= hi && forall|k: int| 0 <= k < n ==> #[trigger] c[k] <= c[k + 1] }
/// What is written stays; nothing is added unwritten.
pub open spec fn grows(a: Slots<'_>, b: Slots<'_>) -> bool {
    a.len() <= b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).1 == a[i].1 && (a[i].0 is Some ==> b[i].0 == a[i].0)) && forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i]).0 is Some
}
/// What is not in the value stays unwritten.
pub open spec fn spares(v: Content, a: Slots<'_>, b: Slots<'_>, refs: Map<usize, usize>) -> bool { forall|id: usize| #[trigger] refs.contains_key(id) && !names(v, id) && a[refs[id] as int].0 is None ==> b[refs[id] as int].0 is None }
pub open spec fn sound(s: Slots<'_>, refs: Map<usize, usize>, t: Map<Seq<char>, usize>, p: Map<Addr<Picture>, usize>, n: Map<Addr<Noise>, usize>) -> bool {
    &&& numbered(s.len() as int, refs)
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> text_at(s, t[k] as int, k)
    &&& forall|k: Addr<Picture>| #[trigger] p.contains_key(k) ==> image_at(s, p[k] as int, k.content())
    &&& forall|k: Addr<Noise>| #[trigger] n.contains_key(k) ==> audio_at(s, n[k] as int, k.content())
}
/// Every named list has a slot of its own.
pub open spec fn numbered(n: int, refs: Map<usize, usize>) -> bool { (forall|id: usize| #[trigger] refs.contains_key(id) ==> refs[id] < n) && forall|a: usize, b: usize| #[trigger] refs.contains_key(a) && #[trigger] refs.contains_key(b) && a != b ==> refs[a] != refs[b] }
pub open spec fn unwritten(v: Content, s: Slots<'_>, refs: Map<usize, usize>) -> bool { forall|id: usize| #[trigger] names(v, id) ==> refs.contains_key(id) && s[refs[id] as int].0 is None }
/// Descriptions stay right while slots are written and added.
pub proof fn still(v: Content, d: InitValue, a: Slots<'_>, b: Slots<'_>, refs: Map<usize, usize>, lo: int, hi: int, lo2: int, hi2: int)
    requires stands(v, d, a, refs, lo, hi), grows(a, b), lo2 <= lo, hi <= hi2 ensures stands(v, d, b, refs, lo2, hi2) decreases v
{
    if let Content::List(x, r) = v {
        let i = d->Ref_0 as int; assert(b[i].0 == a[i].0); let l = a[i].0->Some_0->List_0;
        let cut = choose|cut: Seq<int>| #[trigger] cuts(cut, x@.len() as int, lo, end(r, hi, i)) && forall|k: int| 0 <= k < x@.len() ==> stands(#[trigger] x@[k], l@[k], a, refs, cut[k], cut[k + 1]);
        assert forall|k: int| 0 <= k < x@.len() implies stands(#[trigger] x@[k], l@[k], b, refs, cut[k], cut[k + 1]) by { still(x@[k], l@[k], a, b, refs, cut[k], cut[k + 1], cut[k], cut[k + 1]); }
        assert(cuts(cut, x@.len() as int, lo2, end(r, hi2, i)));
    }
    else if d is Ref && (v is String || v is Image || v is Audio) { assert(b[d->Ref_0 as int].0 == a[d->Ref_0 as int].0); }
}
pub proof fn listed(v: Content, i: int, l: Seq<InitValue>, cut: Seq<int>, mid: Slots<'_>, b: Slots<'_>, refs: Map<usize, usize>, lo: int)
    requires v is List, lo <= mid.len(), grows(mid, b), cuts(cut, v->List_0@.len() as int, lo, mid.len() as int), l.len() == v->List_0@.len(), forall|k: int| 0 <= k < l.len() ==> stands(#[trigger] v->List_0@[k], l[k], mid, refs, cut[k], cut[k + 1]),
        0 <= i < b.len() <= usize::MAX, b[i].0 matches Some(RefValue::List(m)) && m@ == l, match v->List_1 { Some(id) => refs.contains_key(id.0) && i == refs[id.0], None => i == mid.len() },
    ensures stands(v, InitValue::Ref(i as usize), b, refs, lo, b.len() as int)
{
    assert forall|k: int| 0 <= k < l.len() implies stands(#[trigger] v->List_0@[k], l[k], b, refs, cut[k], cut[k + 1]) by { still(v->List_0@[k], l[k], mid, b, refs, cut[k], cut[k + 1], cut[k], cut[k + 1]); }
    assert(cuts(cut, l.len() as int, lo, end(v->List_1, b.len() as int, i)));
}
pub mod ast { pub use super::super::heap::Content as Value; pub use super::super::heap::Constant; }
//@fn src/bytecode.rs "impl ByteCode" register_ref_values
//@sub BTreeMap<usize, usize> ==> Ids
//@sub for value in values \{ ==> for k_ in 0..values.len() { let value = &values[k_];
//@sub (\w+)\.entry\((.*)\)\.or_insert_with\(\|\| \{([\s\S]*?)\}\); ==> match \1.find(\2) { Some(i_) => i_, None => { let new_ = {\3}; \1.put(\2, new_); new_ } };
//@attr #[verifier::exec_allows_no_decreases_clause]
//| requires numbered(old(ref_values)@.len() as int, old(refs).map()), forall|i: int| 0 <= i < old(ref_values)@.len() ==> (#[trigger] old(ref_values)@[i]).0 is None,
//| ensures numbered(final(ref_values)@.len() as int, final(refs).map()), forall|i: int| 0 <= i < final(ref_values)@.len() ==> (#[trigger] final(ref_values)@[i]).0 is None,
//|     old(refs).map().submap_of(final(refs).map()), forall|id: usize| #[trigger] final(refs).map().contains_key(id) <==> old(refs).map().contains_key(id) || names(*value, id),
//@loop 1
//| invariant numbered(ref_values@.len() as int, refs.map()), forall|i: int| 0 <= i < ref_values@.len() ==> (#[trigger] ref_values@[i]).0 is None, next_k_ <= end_k_, end_k_ == values.len(),
//|     old(refs).map().submap_of(refs.map()), forall|id: usize| #[trigger] refs.map().contains_key(id) <==> old(refs).map().contains_key(id) || *ref_id == Some(RefId(id)) || exists|k: int| 0 <= k < next_k_ && names(#[trigger] values@[k], id),
//|     decreases end_k_ - next_k_,
//@top 1
//| let ghost before = refs.map(); let ghost n = next_k_;
//@bottom 1
//| proof {
//|     assert forall|id: usize| #[trigger] refs.map().contains_key(id) <==> old(refs).map().contains_key(id) || *ref_id == Some(RefId(id)) || exists|k: int| 0 <= k < next_k_ && names(#[trigger] values@[k], id) by {
//|         if names(values@[k_ as int], id) { assert(0 <= k_ < next_k_); }
//|     }
//|     assert(old(refs).map().submap_of(before)); assert(before.submap_of(refs.map())); assert(old(refs).map().submap_of(refs.map()));
//| }
//@end
//@fn src/bytecode.rs "impl ByteCode" get_value -> r
//@sub BTreeMap<usize, usize> ==> Ids
//@sub BTreeMap<&'a str, usize> ==> Texts
//@sub BTreeMap<\*const \(Vec<u8>, Option<\(f64, f64\)>, CompactString\), usize> ==> Places<Picture>
//@sub BTreeMap<\*const \(Vec<u8>, CompactString\), usize> ==> Places<Noise>
//@sub core::f64::consts::E\b ==> euler()
//@sub core::f64::consts::PI\b ==> pi()
//@sub Rc::as_ptr\( ==> address(
//@sub \*refs\.get\(&([\w.]+)\)\.ok_or\(CompileError::UndefinedRef \{ value \}\)\? ==> match refs.find(\1) { Some(i_) => i_, None => return Err(undefined_ref(value)) }
//@sub \*(\w+)\.entry\((.*)\)\.or_insert_with\(\|\| \{([\s\S]*?)\}\); ==> match \1.find(\2) { Some(i_) => i_, None => { let new_ = {\3}; \1.put(\2, new_); new_ } };
//@sub (\w+\.1)\.map\(\|\((\w+), (\w+)\)\| Ok::<_,\s*NumberError>\((.*)\)\)\.transpose\(\)\? ==> match \1 { Some((\2, \3)) => Some(\4), None => None }
//@sub (\w+)\.0\.clone\(\) ==> bytes_of(&\1.0)
//@sub RefValue::List\(values\.iter\(\)\.map\(\|x\| (get_value\(.*?\))\)\.collect::<Result<_,_>>\(\)\?\); ==> { let mut items_ = Vec::new(); for k_ in 0..values.len() { let x = &values[k_]; let item_ = \1?; items_.push(item_); } RefValue::List(items_) };
//@sub let target = &mut ref_values\[idx\];\s*target\.0 = (.*); ==> let of_ = ref_values[idx].1; ref_values.set(idx, (\1, of_));
//@attr #[verifier::exec_allows_no_decreases_clause]
//@attr #[verifier::loop_isolation(false)]
//| requires once(*value), unwritten(*value, old(ref_values)@, refs.map()), sound(old(ref_values)@, refs.map(), old(string_refs).map(), old(image_refs).map(), old(audio_refs).map()),
//| ensures r is Ok ==> grows(old(ref_values)@, final(ref_values)@) && spares(*value, old(ref_values)@, final(ref_values)@, refs.map()) && sound(final(ref_values)@, refs.map(), final(string_refs).map(), final(image_refs).map(), final(audio_refs).map())
//|     && stands(*value, r->Ok_0, final(ref_values)@, refs.map(), old(ref_values)@.len() as int, final(ref_values)@.len() as int),
//@enter
//| let ghost was = ref_values@; let ghost rm = refs.map(); let ghost mut cut: Seq<int> = seq![was.len() as int];
//@loop 1
//| invariant next_k_ <= end_k_, end_k_ == values.len(), items_@.len() == next_k_, grows(was, ref_values@), sound(ref_values@, rm, string_refs.map(), image_refs.map(), audio_refs.map()),
//|     forall|id: usize| #[trigger] rm.contains_key(id) && (forall|k: int| 0 <= k < next_k_ ==> !names(#[trigger] values@[k], id)) && was[rm[id] as int].0 is None ==> ref_values@[rm[id] as int].0 is None,
//|     cuts(cut, next_k_ as int, was.len() as int, ref_values@.len() as int), forall|k: int| 0 <= k < next_k_ ==> stands(#[trigger] values@[k], items_@[k], ref_values@, rm, cut[k], cut[k + 1]), cut[next_k_ as int] == ref_values@.len(),
//|     decreases end_k_ - next_k_,
//@top 1
//| let ghost then = ref_values@; let ghost done = items_@; let ghost cut0 = cut;
//| proof {
//|     assert forall|id: usize| #[trigger] names(values@[k_ as int], id) implies rm.contains_key(id) && then[rm[id] as int].0 is None by {
//|         assert(names(*value, id)); assert forall|k: int| 0 <= k < k_ implies !names(#[trigger] values@[k], id) by { assert(once(*value)); }
//|     }
//| }
//@bottom 1
//| proof {
//|     cut = cut0.push(ref_values@.len() as int); let k0 = k_ as int;
//|     assert forall|k: int| 0 <= k < k0 + 1 implies stands(#[trigger] values@[k], items_@[k], ref_values@, rm, cut[k], cut[k + 1]) by { if k < k0 { still(values@[k], done[k], then, ref_values@, rm, cut[k], cut[k + 1], cut[k], cut[k + 1]); } }
//|     assert forall|id: usize| #[trigger] rm.contains_key(id) && (forall|k: int| 0 <= k < k0 + 1 ==> !names(#[trigger] values@[k], id)) && was[rm[id] as int].0 is None implies ref_values@[rm[id] as int].0 is None by { assert(!names(values@[k0], id)); }
//| }
//@ghost BEFORE "let of_ ="
//| let ghost mid = ref_values@; let ghost l = res->List_0@;
//@ghost "ref_values.set(idx, (Some(res), of_));"
//| proof { assert(names(*value, ref_id.0)); assert(forall|k: int| 0 <= k < values.len() ==> !names(#[trigger] values@[k], ref_id.0)); assert(rm.contains_key(ref_id.0)); assert(mid[idx as int].0 is None); assert(ref_values@.len() == ref_values.len()); assert(grows(mid, ref_values@)); listed(*value, idx as int, l, cut, mid, ref_values@, rm, was.len() as int); }
//@ghost BEFORE "ref_values.push((Some(res), value));"
//| let ghost mid = ref_values@; let ghost l = res->List_0@;
//@ghost "ref_values.push((Some(res), value));"
//| proof { assert(grows(mid, ref_values@)); assert(ref_values@.len() == ref_values.len()); listed(*value, mid.len() as int, l, cut, mid, ref_values@, rm, was.len() as int); }
//@end
}
}
fn main() {}
