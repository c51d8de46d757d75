use vstd::prelude::*;
verus! {
pub mod text {
//! Modelled from the standard library's documentation: chars, split, skip, and a text that grows at its end. A byte of a text is zero where a character of it is NUL.
use vstd::prelude::*;
pub open spec fn nul_free(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\0' }
pub open spec fn split_off(s: Seq<char>, by: char, so_far: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![so_far] } else if s[0] == by { seq![so_far] + split_off(s.skip(1), by, Seq::empty()) } else { split_off(s.skip(1), by, so_far.push(s[0])) }
}
#[verifier::external_body] pub struct CompactString { }
impl CompactString {
    pub uninterp spec fn chars(self) -> Seq<char>;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.chars() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self).chars() == old(self).chars().push(c) { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, s: &str) ensures final(self).chars() == old(self).chars() + s@ { unimplemented!() }
}
#[verifier::external_body] pub struct Letters<'a> { p: std::str::Chars<'a> }
impl<'a> Letters<'a> {
    pub uninterp spec fn left(self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self).left().len() > 0 && c == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
#[verifier::external_body] pub fn letters<'a>(s: &'a str) -> (r: Letters<'a>) ensures r.left() == s@ { unimplemented!() }
/// A condition on every byte of a text, where it only tells a NUL from the others.
#[verifier::external_body] pub fn all_bytes<F: Fn(u8) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|b: u8| f.requires((b,))
    ensures nul_free(s@) && (forall|b: u8| b != 0 ==> !#[trigger] f.ensures((b,), false)) ==> r
{ unimplemented!() }
/// What a split is left to give.
#[verifier::external_body] pub struct Pieces<'a> { p: std::str::Split<'a, char> }
impl<'a> Pieces<'a> {
    pub uninterp spec fn left(self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: Self) ensures r.left() == (if n <= self.left().len() { self.left().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
}
#[verifier::external_body] pub fn pieces<'a>(s: &'a str, by: char) -> (r: Pieces<'a>) ensures r.left() == split_off(s@, by, Seq::empty()) { unimplemented!() }
/// `assert!`: the program would stop.
pub fn hold(b: bool) requires b { }
}
pub mod names {
use vstd::prelude::*;
use super::text::*;
/// Names in a text: each after a NUL.
pub open spec fn together(n: Seq<Seq<char>>) -> Seq<char> decreases n.len() { if n.len() == 0 { Seq::empty() } else { together(n.drop_last()).push('\0') + n.last() } }
pub open spec fn names_in(s: Seq<char>) -> Seq<Seq<char>> { split_off(s, '\0', Seq::empty()).skip(1) }
proof fn one(a: Seq<char>, t: Seq<char>, x: Seq<char>) requires nul_free(a), t.len() == 0 || t[0] == '\0' ensures split_off(a + t, '\0', x) == (if t.len() == 0 { seq![x + a] } else { seq![x + a] + split_off(t.skip(1), '\0', Seq::empty()) }) decreases a.len()
{
    if a.len() == 0 { assert(a + t =~= t); assert(x + a =~= x); }
    else { assert((a + t)[0] == a[0]); assert((a + t).skip(1) =~= a.skip(1) + t); assert(x.push(a[0]) + a.skip(1) =~= x + a); one(a.skip(1), t, x.push(a[0])); }
}
proof fn first(n: Seq<Seq<char>>) requires n.len() > 0 ensures together(n) == seq!['\0'] + n[0] + together(n.skip(1)) decreases n.len()
{
    if n.len() == 1 { assert(n.drop_last() =~= Seq::<Seq<char>>::empty()); assert(n.skip(1) =~= Seq::<Seq<char>>::empty()); assert(together(n.drop_last()) =~= Seq::<char>::empty()); assert(together(n) =~= seq!['\0'] + n[0] + together(n.skip(1))); }
    else { first(n.drop_last()); assert(n.drop_last().skip(1) =~= n.skip(1).drop_last()); assert(n.skip(1).last() == n.last()); assert(together(n) =~= seq!['\0'] + n[0] + together(n.skip(1))); }
}
/// Names without NUL come back, in order and as many, whatever they are: also empty ones, and none at all.
pub proof fn back(n: Seq<Seq<char>>, x: Seq<char>) requires forall|i: int| 0 <= i < n.len() ==> nul_free(#[trigger] n[i]) ensures split_off(together(n), '\0', x) == seq![x] + n decreases n.len()
{
    if n.len() == 0 { assert(together(n) =~= Seq::<char>::empty()); assert(seq![x] + n =~= seq![x]); }
    else {
        first(n); let t = together(n.skip(1)); let s = together(n);
        if n.len() > 1 { first(n.skip(1)); assert(t[0] == '\0'); } else { assert(n.skip(1).len() == 0); }
        assert(s[0] == '\0'); assert(s.skip(1) =~= n[0] + t); one(n[0], t, Seq::empty()); assert(Seq::<char>::empty() + n[0] =~= n[0]);
        back(n.skip(1), n[0]);
        if n.len() > 1 { assert(t =~= seq!['\0'] + t.skip(1)); assert(split_off(t, '\0', n[0]) == seq![n[0]] + split_off(t.skip(1), '\0', Seq::empty())); }
        assert(split_off(s, '\0', x) =~= seq![x] + n) by { assert(split_off(s, '\0', x) == seq![x] + split_off(s.skip(1), '\0', Seq::empty())); assert(n =~= seq![n[0]] + n.skip(1)); }
    }
}
pub proof fn come_back(n: Seq<Seq<char>>) requires forall|i: int| 0 <= i < n.len() ==> nul_free(#[trigger] n[i]) ensures names_in(together(n)) == n { back(n, Seq::empty()); assert((seq![Seq::<char>::empty()] + n).skip(1) =~= n); }
proof fn some(s: Seq<char>, x: Seq<char>) ensures split_off(s, '\0', x).len() > 0 decreases s.len() { if s.len() > 0 { some(s.skip(1), x.push(s[0])); } }
//@type src/util.rs LosslessJoin
impl LosslessJoin {
    //@fn src/util.rs "impl LosslessJoin" new -> r
    //| ensures r.content.chars() == together(Seq::empty()),
    //@end
    //@fn src/util.rs "impl LosslessJoin" push
    //@sub (\w+)\.as_bytes\(\)\.iter\(\)\.all\(\|&(\w+)\| ([^;]*)\)\); ==> all_bytes(\1, |\2: u8| -> (y: bool) ensures y == (\3) { \3 }));
    //@sub assert!\( ==> hold(
    //| requires nul_free(val@),
    //| ensures final(self).content.chars() == old(self).content.chars().push('\0') + val@,
    //|     forall|n: Seq<Seq<char>>| old(self).content.chars() == together(n) ==> final(self).content.chars() == #[trigger] together(n.push(val@)),
    //@leave
    //| proof { assert forall|n: Seq<Seq<char>>| old(self).content.chars() == together(n) implies final(self).content.chars() == #[trigger] together(n.push(val@)) by { assert(n.push(val@).drop_last() =~= n); } }
    //@end
    //@fn src/util.rs "impl LosslessJoin" finish -> r
    //| ensures r.chars() == self.content.chars(),
    //@end
}
//@fn src/util.rs "" lossless_split -> r
//@sub impl Iterator<Item = &(?:'_ )?str>(?: \+ '_)? ==> Pieces<'_>
//@sub assert!\( ==> hold(
//@sub (\w+)\.chars\(\) ==> letters(\1)
//@sub (\w+)\.split\( ==> pieces(\1, 
//| requires src@.len() == 0 || src@[0] == '\0',
//| ensures r.left() == names_in(src@), forall|n: Seq<Seq<char>>| src@ == #[trigger] together(n) && (forall|i: int| 0 <= i < n.len() ==> nul_free(#[trigger] n[i])) ==> r.left() == n,
//@enter
//| proof { assert forall|n: Seq<Seq<char>>| src@ == #[trigger] together(n) && (forall|i: int| 0 <= i < n.len() ==> nul_free(#[trigger] n[i])) implies names_in(src@) == n by { come_back(n); } some(src@, Seq::empty()); }
//@end
}
} fn main() {}
