use vstd::prelude::*;
verus! {
pub mod heap {
//! Lists and texts. A new list is made with what it holds; while a text is read or written nothing is written to a list.
use vstd::prelude::*;
use std::marker::PhantomData;
use std::rc::Rc;
use super::data::*;
pub trait GetType { type Output; }
pub trait CustomTypes<S>: Sized { type NativeValue: GetType; }
pub trait System<C>: Sized { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Gc<'gc, T> { p: PhantomData<&'gc T> }
impl<'gc, T> Clone for Gc<'gc, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'gc, T> Copy for Gc<'gc, T> { }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefLock<T> { p: PhantomData<T> }
/// A queue that is only used at its back.
pub type VecDeque<T> = Vec<T>;
#[verifier::external_body] pub struct NumberError { }
#[verifier::external_body] pub struct Feature { }
#[verifier::external_body] pub struct Image { }
#[verifier::external_body] pub struct Audio { }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Closure<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Entity<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct ToSimpleError<C, S> { p: PhantomData<(C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct IntoJsonError<C, S> { p: PhantomData<(C, S)> }
#[verifier::external_body] pub struct FromJsonError { }
#[verifier::external_body] pub struct FromNetsBloxJsonError { }
#[verifier::external_body] pub struct SimpleValue { }
#[verifier::external_body] pub struct Mutation<'gc> { p: PhantomData<&'gc ()> }
#[derive(Clone, Copy)] pub struct Number(pub f64);
pub type List<'gc, C, S> = Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>>;
pub uninterp spec fn content<'gc, C: CustomTypes<S>, S: System<C>>(g: List<'gc, C, S>) -> Seq<Value<'gc, C, S>>;
impl<'gc, C: CustomTypes<S>, S: System<C>> Gc<'gc, RefLock<VecDeque<Value<'gc, C, S>>>> {
    #[verifier::external_body] pub fn borrow(&self) -> (r: &'gc VecDeque<Value<'gc, C, S>>) ensures r@ == content(*self) { unimplemented!() }
}
impl<C: CustomTypes<S>, S: System<C>> From<ConversionError<C, S>> for ErrorCause<C, S> { #[verifier::external_body] fn from(e: ConversionError<C, S>) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct Text { }
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Text { pub uninterp spec fn chars(self) -> Seq<char>; #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.chars() { unimplemented!() } }
#[verifier::external_body] pub struct CompactString { }
impl CompactString {
    pub uninterp spec fn chars(self) -> Seq<char>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.chars() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new(s: &str) -> (r: Self) ensures r.chars() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.chars().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r >= self.chars().len() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self).chars() == old(self).chars().push(c) { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, s: &str) ensures final(self).chars() == old(self).chars() + s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_text(&self) -> (r: Text) ensures r.chars() == self.chars() { unimplemented!() }
}
/// How a number is written (the contract text_* is about it).
pub uninterp spec fn written(n: Number) -> Seq<char>;
#[verifier::external_body] pub fn number_text(n: Number) -> (r: Text) ensures r.chars() == written(n) { unimplemented!() }
impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S> {
    #[verifier::external_body] pub fn get_type(&self) -> (r: Type<C, S>) { unimplemented!() }
    /// What is written for a value: texts and numbers have a text.
    pub open spec fn worded(self) -> bool { self is Text || self is Number }
    pub open spec fn words(self) -> Seq<char> { match self { Value::Text(t) => t.chars(), Value::Number(n) => written(n), _ => Seq::empty() } }
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_list -> r
    //| ensures r is Ok <==> self is List, r is Ok ==> r->Ok_0 == self->List_0,
    //@end
    //@fn src/runtime.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Value<'gc, C, S>" as_text -> r
    //@sub SimpleValue::stringify_number ==> number_text
    //| ensures r is Ok <==> self.worded(), r is Ok ==> r->Ok_0.chars() == self.words(),
    //@end
}
/// str::chars
#[verifier::external_body] pub struct Letters<'a> { p: std::str::Chars<'a> }
impl<'a> Letters<'a> {
    pub uninterp spec fn left(self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self).left().len() > 0 && c == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
#[verifier::external_body] pub fn letters<'a>(s: &'a str) -> (r: Letters<'a>) ensures r.left() == s@ { unimplemented!() }
#[verifier::external_body] pub fn any_char<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool) requires forall|c: char| f.requires((c,)) ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false) { unimplemented!() }
#[verifier::external_body] pub fn any_of<X, F: Fn(&X) -> bool>(s: &Vec<X>, f: F) -> (r: bool) requires forall|c: &X| f.requires((c,)) ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false) { unimplemented!() }
#[verifier::external_body] pub fn count(s: &str) -> (r: usize) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body] pub fn letter(s: &str, i: usize) -> (r: char) requires i < s@.len() ensures r == s@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn text_value<'gc, C: CustomTypes<S>, S: System<C>>(s: &CompactString) -> (r: Value<'gc, C, S>) ensures r is Text, r->Text_0.chars() == s.chars() { unimplemented!() }
#[verifier::external_body] pub fn list_value<'gc, C: CustomTypes<S>, S: System<C>>(x: VecDeque<Value<'gc, C, S>>) -> (r: Value<'gc, C, S>) ensures r is List, content(r->List_0) == x@ { unimplemented!() }
}
pub mod data {
use vstd::prelude::*;
use std::rc::Rc;
use super::heap::*;
//@type src/runtime.rs Type
//@type src/runtime.rs ConversionError
//@type src/runtime.rs ErrorCause
//@type src/runtime.rs Value
}
pub mod form {
//! Tables as text.
use vstd::prelude::*;
use super::heap::*;
use super::data::*;
pub open spec fn special(c: char) -> bool { c == '"' || c == ',' || c == '\n' }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]) }
/// Quotes are doubled.
pub open spec fn doubled(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if s.last() == '"' { doubled(s.drop_last()) + seq!['"', '"'] } else { doubled(s.drop_last()).push(s.last()) } }
pub open spec fn cell(s: Seq<char>) -> Seq<char> { if plain(s) { s } else { seq!['"'] + doubled(s) + seq!['"'] } }
pub open spec fn row(r: Seq<Seq<char>>) -> Seq<char> decreases r.len() { if r.len() == 0 { Seq::empty() } else if r.len() == 1 { cell(r[0]) } else { row(r.drop_last()) + seq![','] + cell(r.last()) } }
pub open spec fn table(t: Seq<Seq<Seq<char>>>) -> Seq<char> decreases t.len() { if t.len() == 0 { Seq::empty() } else if t.len() == 1 { row(t[0]) } else { table(t.drop_last()) + seq!['\n'] + row(t.last()) } }
/// A text as a table: what follows a cell that has begun with these characters (q: inside quotes), a row and a table.
pub open spec fn parse(s: Seq<char>, x: Seq<char>, q: bool, r: Seq<Seq<char>>, t: Seq<Seq<Seq<char>>>) -> Option<Seq<Seq<Seq<char>>>> decreases s.len() {
    if s.len() == 0 { if q { None } else { Some(t.push(r.push(x))) } }
    else if !q && s[0] == '"' { if x.len() == 0 { parse(s.skip(1), x, true, r, t) } else { None } }
    else if !q && s[0] == ',' { parse(s.skip(1), Seq::empty(), false, r.push(x), t) }
    else if !q && s[0] == '\n' { parse(s.skip(1), Seq::empty(), false, Seq::empty(), t.push(r.push(x))) }
    else if q && s[0] == '"' {
        let u = s.skip(1);
        if u.len() == 0 { Some(t.push(r.push(x))) }
        else if u[0] == '"' { parse(u.skip(1), x.push('"'), true, r, t) }
        else if u[0] == ',' { parse(u.skip(1), Seq::empty(), false, r.push(x), t) }
        else if u[0] == '\n' { parse(u.skip(1), Seq::empty(), false, Seq::empty(), t.push(r.push(x))) }
        else { None }
    }
    else { parse(s.skip(1), x.push(s[0]), q, r, t) }
}
pub open spec fn read(s: Seq<char>) -> Option<Seq<Seq<Seq<char>>>> { if s.len() == 0 { Some(Seq::empty()) } else { parse(s, Seq::empty(), false, Seq::empty(), Seq::empty()) } }
/// What follows a cell.
pub open spec fn after(s: Seq<char>, x: Seq<char>, r: Seq<Seq<char>>, t: Seq<Seq<Seq<char>>>) -> Option<Seq<Seq<Seq<char>>>> {
    if s.len() == 0 { Some(t.push(r.push(x))) } else if s[0] == ',' { parse(s.skip(1), Seq::empty(), false, r.push(x), t) } else if s[0] == '\n' { parse(s.skip(1), Seq::empty(), false, Seq::empty(), t.push(r.push(x))) } else { None }
}
pub open spec fn stops(s: Seq<char>) -> bool { s.len() == 0 || s[0] == ',' || s[0] == '\n' }
proof fn plain_reads(s: Seq<char>, x: Seq<char>, tail: Seq<char>, r: Seq<Seq<char>>, t: Seq<Seq<Seq<char>>>) requires plain(s), stops(tail) ensures parse(s + tail, x, false, r, t) == after(tail, x + s, r, t) decreases s.len()
{
    if s.len() == 0 { assert(s + tail =~= tail); assert(x + s =~= x); }
    else { assert((s + tail)[0] == s[0]); assert((s + tail).skip(1) =~= s.skip(1) + tail); assert(x.push(s[0]) + s.skip(1) =~= x + s); plain_reads(s.skip(1), x.push(s[0]), tail, r, t); }
}
proof fn doubled_first(s: Seq<char>) requires s.len() > 0 ensures doubled(s) == (if s[0] == '"' { seq!['"', '"'] } else { seq![s[0]] }) + doubled(s.skip(1)) decreases s.len()
{
    let h = if s[0] == '"' { seq!['"', '"'] } else { seq![s[0]] };
    if s.len() == 1 { assert(s.skip(1) =~= Seq::<char>::empty()); assert(s.drop_last() =~= Seq::<char>::empty()); assert(doubled(s.skip(1)) =~= Seq::<char>::empty()); assert(doubled(s) =~= h + doubled(s.skip(1))); }
    else { doubled_first(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); assert(s.skip(1).last() == s.last()); assert(doubled(s) =~= h + doubled(s.skip(1))); }
}
proof fn quoted_reads(s: Seq<char>, x: Seq<char>, tail: Seq<char>, r: Seq<Seq<char>>, t: Seq<Seq<Seq<char>>>) requires stops(tail) ensures parse(doubled(s) + seq!['"'] + tail, x, true, r, t) == after(tail, x + s, r, t) decreases s.len()
{
    let all = doubled(s) + seq!['"'] + tail;
    if s.len() == 0 { assert(doubled(s).len() == 0); assert(all.skip(1) =~= tail); assert(all[0] == '"'); assert(x + s =~= x); }
    else {
        doubled_first(s); let rest = doubled(s.skip(1)) + seq!['"'] + tail;
        assert(x.push(s[0]) + s.skip(1) =~= x + s);
        quoted_reads(s.skip(1), x.push(s[0]), tail, r, t);
        if s[0] == '"' { assert(all[0] == '"'); assert(all.skip(1)[0] == '"'); assert(all.skip(1).skip(1) =~= rest); }
        else { assert(all[0] == s[0]); assert(all.skip(1) =~= rest); }
    }
}
proof fn cell_reads(s: Seq<char>, tail: Seq<char>, r: Seq<Seq<char>>, t: Seq<Seq<Seq<char>>>) requires stops(tail) ensures parse(cell(s) + tail, Seq::empty(), false, r, t) == after(tail, s, r, t)
{
    assert(Seq::<char>::empty() + s =~= s);
    if plain(s) { plain_reads(s, Seq::empty(), tail, r, t); }
    else { quoted_reads(s, Seq::empty(), tail, r, t); let all = cell(s) + tail; assert(all[0] == '"'); assert(all.skip(1) =~= doubled(s) + seq!['"'] + tail); }
}
proof fn row_reads(v: Seq<Seq<char>>, tail: Seq<char>, t: Seq<Seq<Seq<char>>>) requires v.len() > 0, stops(tail) ensures parse(row(v) + tail, Seq::empty(), false, Seq::empty(), t) == after(tail, v.last(), v.drop_last(), t) decreases v.len()
{
    if v.len() == 1 { assert(v.drop_last() =~= Seq::<Seq<char>>::empty()); cell_reads(v[0], tail, Seq::empty(), t); }
    else {
        let u = v.drop_last(); let rest = seq![','] + cell(v.last()) + tail;
        assert(row(v) + tail =~= row(u) + rest);
        row_reads(u, rest, t);
        assert(rest.skip(1) =~= cell(v.last()) + tail);
        assert(u.drop_last().push(u.last()) =~= u);
        cell_reads(v.last(), tail, u, t);
    }
}
proof fn table_reads(t: Seq<Seq<Seq<char>>>, tail: Seq<char>) requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() > 0, tail.len() == 0 || tail[0] == '\n' ensures parse(table(t) + tail, Seq::empty(), false, Seq::empty(), Seq::empty()) == after(tail, t.last().last(), t.last().drop_last(), t.drop_last()) decreases t.len()
{
    if t.len() == 1 { assert(t.drop_last() =~= Seq::<Seq<Seq<char>>>::empty()); row_reads(t[0], tail, Seq::empty()); }
    else {
        let u = t.drop_last(); let rest = seq!['\n'] + row(t.last()) + tail;
        assert(table(t) + tail =~= table(u) + rest);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).len() > 0 by { assert(t[i].len() > 0); }
        table_reads(u, rest);
        assert(rest.skip(1) =~= row(t.last()) + tail);
        let w = u.last(); assert(w.drop_last().push(w.last()) =~= w); assert(u.drop_last().push(w) =~= u);
        row_reads(t.last(), tail, u);
    }
}
/// Writing a table and reading the result gives the table back. (A row without cells is written like one empty cell, and one empty cell alone like no table.)
pub proof fn there_and_back(t: Seq<Seq<Seq<char>>>) requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() > 0, table(t).len() > 0 ensures read(table(t)) == Some(t)
{
    table_reads(t, Seq::empty()); assert(table(t) + Seq::<char>::empty() =~= table(t));
    let w = t.last(); assert(w.len() > 0); assert(w.drop_last().push(w.last()) =~= w); assert(t.drop_last().push(w) =~= t);
}
/// Only the table of one empty cell is written as nothing.
pub proof fn nothing_written(t: Seq<Seq<Seq<char>>>) requires t.len() > 0, forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).len() > 0, table(t).len() == 0 ensures t =~= seq![seq![Seq::<char>::empty()]]
{
    assert(t[0].len() > 0); let r = t[0]; assert(t.len() == 1); assert(r.len() == 1); assert(r[0] =~= Seq::<char>::empty()); assert(r =~= seq![Seq::<char>::empty()]);
}
pub open spec fn texts<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> Seq<Seq<char>> { v.map_values(|x: Value<'gc, C, S>| x.words()) }
pub open spec fn rows<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> Seq<Seq<Seq<char>>> { v.map_values(|x: Value<'gc, C, S>| texts(content(x->List_0))) }
pub open spec fn all_texts<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Text }
pub open spec fn all_worded<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).worded() }
pub open spec fn all_rows<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is List && all_worded(content(v[i]->List_0)) }
pub open spec fn some_list<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is List }
pub proof fn plain_same(s: Seq<char>) ensures plain(s) <==> !(exists|i: int| 0 <= i < s.len() && special(#[trigger] s[i])) { }
pub proof fn plain_doubled(s: Seq<char>) requires plain(s) ensures doubled(s) =~= s decreases s.len() { if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies !special(#[trigger] d[i]) by { assert(!special(s[i])); } plain_doubled(d); assert(!special(s[s.len() - 1])); } }
pub broadcast proof fn texts_push<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>, x: Value<'gc, C, S>) ensures #[trigger] texts(v.push(x)) == texts(v).push(x.words()) { assert(texts(v.push(x)) =~= texts(v).push(x.words())); }
pub broadcast proof fn rows_push<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>, x: Value<'gc, C, S>) ensures #[trigger] rows(v.push(x)) == rows(v).push(texts(content(x->List_0))) { assert(rows(v.push(x)) =~= rows(v).push(texts(content(x->List_0)))); }
pub broadcast proof fn texts_none<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) requires v.len() == 0 ensures #[trigger] texts(v) == Seq::<Seq<char>>::empty() { assert(texts(v) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn rows_none<'gc, C: CustomTypes<S>, S: System<C>>(v: Seq<Value<'gc, C, S>>) requires v.len() == 0 ensures #[trigger] rows(v) == Seq::<Seq<Seq<char>>>::empty() { assert(rows(v) =~= Seq::<Seq<Seq<char>>>::empty()); }
pub broadcast group both { texts_push, rows_push, texts_none, rows_none }
pub proof fn row_push(r: Seq<Seq<char>>, x: Seq<char>) ensures row(r.push(x)) == (if r.len() == 0 { cell(x) } else { row(r) + seq![','] + cell(x) }) { assert(r.push(x).drop_last() =~= r); }
pub proof fn table_push(t: Seq<Seq<Seq<char>>>, x: Seq<Seq<char>>) ensures table(t.push(x)) == (if t.len() == 0 { row(x) } else { table(t) + seq!['\n'] + row(x) }) { assert(t.push(x).drop_last() =~= t); }
}
pub mod csv {
use vstd::prelude::*;
use super::heap::*;
use super::data::*;
use super::form::*;
//@fn src/process.rs "mod ops" from_csv -> r macros
//@sub (\w+)\.chars\(\) ==> letters(\1)
//@sub value\.is_empty\(\) ==> no_text(value)
//@sub let mut table = VecDeque::new\(\) ==> let mut table: VecDeque<Value<'gc, C, S>> = Vec::new()
//@sub let mut vector = VecDeque::new\(\) ==> let mut vector: VecDeque<Value<'gc, C, S>> = Vec::new()
//@sub push_back ==> push
//@sub Text::from\((\w+)\.as_str\(\)\)\.into\(\) ==> text_value(&\1)
//@sub Gc::new\(mc, RefLock::new\((\w+)\)\)\.into\(\) ==> list_value(\1)
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::exec_allows_no_decreases_clause]
//| ensures match r {
//|     Ok(t) => read(value@) == Some(rows(t@)) && forall|i: int| 0 <= i < t@.len() ==> (#[trigger] t@[i]) is List && all_texts(content(t@[i]->List_0)),
//|     Err(e) => read(value@) is None && e is NotCsv,
//| },
//@enter
//| broadcast use both;
//@loop 1
//| invariant read(value@) == parse(src.left(), Seq::empty(), false, Seq::empty(), rows(table@)), forall|i: int| 0 <= i < table@.len() ==> (#[trigger] table@[i]) is List && all_texts(content(table@[i]->List_0)),
//@loop 2
//| invariant read(value@) == parse(src.left(), Seq::empty(), false, texts(vector@), rows(table@)), all_texts(vector@), forall|i: int| 0 <= i < table@.len() ==> (#[trigger] table@[i]) is List && all_texts(content(table@[i]->List_0)),
//@loop 3
//| invariant read(value@) == parse(src.left(), scalar.chars(), in_quote, texts(vector@), rows(table@)), all_texts(vector@), forall|i: int| 0 <= i < table@.len() ==> (#[trigger] table@[i]) is List && all_texts(content(table@[i]->List_0)),
//@end
//@fn src/process.rs "mod ops" process_scalar
//@sub value\.chars\(\)\.any\(\|(\w+)\| matches!\(\1, ([^)]*)\)\) ==> any_char(value, |\1: char| -> (y: bool) ensures y == (match \1 { \2 => true, _ => false }) { match \1 { \2 => true, _ => false } })
//@sub for (\w+) in value\.chars\(\) \{ ==> for at_ in 0..count(value) { let \1 = letter(value, at_);
//| ensures final(res).chars() == old(res).chars() + cell(value@),
//@enter
//| let ghost res0 = res.chars(); proof { reveal_strlit("\"\""); assert("\"\""@ =~= seq!['"', '"']); plain_same(value@); }
//@loop 1
//| invariant end_at_ == value@.len(), next_at_ <= end_at_, res.chars() == res0 + (if plain(value@) { Seq::empty() } else { seq!['"'] }) + doubled(value@.take(next_at_ as int)), "\"\""@ == seq!['"', '"'],
//| decreases end_at_ - next_at_
//@top 1
//| let ghost had = res.chars(); proof { let d = value@.take(next_at_ as int); assert(d.drop_last() =~= value@.take(next_at_ - 1)); assert(d.last() == value@[next_at_ - 1]); }
//@bottom 1
//| assert(res.chars() =~= res0 + (if plain(value@) { Seq::empty() } else { seq!['"'] }) + doubled(value@.take(next_at_ as int)));
//@leave
//| assert(value@.take(value@.len() as int) =~= value@);
//| proof { if plain(value@) { plain_doubled(value@); } }
//| assert(res.chars() =~= res0 + cell(value@));
//@end
//@fn src/process.rs "mod ops" process_vector -> r
//@sub for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.enumerate\(\) \{ ==> for at_ in 0..\3.len() { let \1 = at_; let \2 = &\3[at_];
//@sub (process_scalar\([^;}]*\))(\s*\}) ==> \1;\2
//| ensures r is Ok ==> all_worded(value@) && final(res).chars() == old(res).chars() + row(texts(value@)), r is Err ==> !all_worded(value@),
//@enter
//| let ghost res0 = res.chars();
//@loop 1
//| invariant end_at_ == value@.len(), next_at_ <= end_at_, res.chars() == res0 + row(texts(value@.take(next_at_ as int))), all_worded(value@.take(next_at_ as int)),
//| decreases end_at_ - next_at_
//@top 1
//| let ghost had = value@.take(next_at_ - 1); let ghost now = value@.take(next_at_ as int); let ghost x0 = value@[next_at_ - 1];
//| proof { assert(now =~= had.push(x0)); assert(texts(now) =~= texts(had).push(x0.words())); row_push(texts(had), x0.words()); assert(texts(had).len() == had.len()); }
//@bottom 1
//| assert(res.chars() =~= res0 + row(texts(now))); assert forall|i: int| 0 <= i < now.len() implies (#[trigger] now[i]).worded() by { if i < had.len() { assert(had[i] == now[i]); } }
//@leave
//| assert(value@.take(value@.len() as int) =~= value@);
//@end
//@fn src/process.rs "mod ops" process_table -> r
//@sub for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.enumerate\(\) \{ ==> for at_ in 0..\3.len() { let \1 = at_; let \2 = &\3[at_];
//@sub &\*x\.as_list ==> x.as_list
//| ensures r is Ok ==> all_rows(value@) && final(res).chars() == old(res).chars() + table(rows(value@)), r is Err ==> !all_rows(value@),
//@enter
//| let ghost res0 = res.chars();
//@loop 1
//| invariant end_at_ == value@.len(), next_at_ <= end_at_, res.chars() == res0 + table(rows(value@.take(next_at_ as int))), all_rows(value@.take(next_at_ as int)),
//| decreases end_at_ - next_at_
//@top 1
//| let ghost had = value@.take(next_at_ - 1); let ghost now = value@.take(next_at_ as int); let ghost x0 = value@[next_at_ - 1]; let ghost r0 = texts(content(x0->List_0));
//| proof { assert(now =~= had.push(x0)); assert(rows(now) =~= rows(had).push(r0)); table_push(rows(had), r0); assert(rows(had).len() == had.len()); }
//@bottom 1
//| assert(res.chars() =~= res0 + table(rows(now))); assert forall|i: int| 0 <= i < now.len() implies (#[trigger] now[i]) is List && all_worded(content(now[i]->List_0)) by { if i < had.len() { assert(had[i] == now[i]); } }
//@leave
//| assert(value@.take(value@.len() as int) =~= value@);
//@end
//@fn src/process.rs "mod ops" to_csv -> r noinner
//@sub value\.iter\(\)\.any\(\|(\w+)\| matches!\(\1, ([^)]*\(\.\.\))\)\) ==> any_of(value, |\1: &Value<C, S>| -> (y: bool) ensures y == (match *\1 { \2 => true, _ => false }) { match *\1 { \2 => true, _ => false } })
//@sub let (\w+) = if (\w+) \{ (\w+) \} else \{ (\w+) \};\s*\1\(([^;]*)\)\?; ==> if \2 { \3(\5)?; } else { \4(\5)?; }
//@sub &\*value ==> value
//@sub (\w+)\.as_str\(\)\.into\(\) ==> \1.to_text()
//| ensures match r {
//|     Ok(t) => value is List && ({ let v = content(value->List_0); if some_list(v) { all_rows(v) && t.chars() == table(rows(v)) } else { all_worded(v) && t.chars() == row(texts(v)) } }),
//|     Err(_) => value is List ==> ({ let v = content(value->List_0); !(if some_list(v) { all_rows(v) } else { all_worded(v) }) }),
//| },
//@end
}
}
fn main() {}
