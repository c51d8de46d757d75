use vstd::prelude::*;
verus! {
global layout usize is size == 8;
global layout isize is size == 8;
pub mod bits {
//! Numbers of any size, seven bits to a byte.
use vstd::prelude::*;
pub const MAX_U64_ENCODED_BYTES: usize = 10;
pub open spec fn more(b: u8) -> bool { b & 0x80 != 0 }
/// The number in n bytes: all but the last say that more follows.
pub open spec fn enc(v: u64, n: nat) -> Seq<u8> decreases n { if n <= 1 { seq![v as u8] } else { seq![((v as u8) & 0x7f) | 0x80] + enc(v >> 7, (n - 1) as nat) } }
pub open spec fn fits(v: u64, n: nat) -> bool decreases n { if n == 0 { false } else if n == 1 { v <= 0x7f } else { fits(v >> 7, (n - 1) as nat) } }
/// As few bytes as it takes.
pub open spec fn width(v: u64) -> nat { let w = (64 - vstd::std_specs::bits::u64_leading_zeros(v) + 6) / 7; if w < 1 { 1 } else { w as nat } }
/// Where the number that starts at k ends: after the first byte that says that no more follow.
pub open spec fn stop(data: Seq<u8>, k: int) -> int decreases data.len() - k { if k >= data.len() { k } else if !more(data[k]) { k + 1 } else { stop(data, k + 1) } }
pub open spec fn dec(s: Seq<u8>) -> u64 decreases s.len() { if s.len() == 0 { 0 } else { (dec(s.skip(1)) << 7) | ((s[0] & 0x7f) as u64) } }
pub open spec fn number_at(data: Seq<u8>, k: int) -> u64 { dec(data.subrange(k, stop(data, k))) }
pub proof fn enc_len(v: u64, n: nat) requires n >= 1 ensures enc(v, n).len() == n decreases n { if n > 1 { enc_len(v >> 7, (n - 1) as nat); } }
pub proof fn stop_range(data: Seq<u8>, k: int) requires 0 <= k < data.len() ensures k < stop(data, k) <= data.len() decreases data.len() - k { reveal_with_fuel(stop, 2); if more(data[k]) && k + 1 < data.len() { stop_range(data, k + 1); } }
/// What is written is read.
pub proof fn enc_dec(v: u64, n: nat) requires fits(v, n) ensures dec(enc(v, n)) == v decreases n
{
    let e = enc(v, n);
    if n == 1 { assert(e.skip(1) =~= Seq::<u8>::empty()); assert(dec(e.skip(1)) == 0); assert(v <= 0x7f ==> ((0u64 << 7) | (((v as u8) & 0x7f) as u64)) == v) by (bit_vector); }
    else { enc_dec(v >> 7, (n - 1) as nat); assert(e.skip(1) =~= enc(v >> 7, (n - 1) as nat)); assert((((v >> 7) << 7) | ((((((v as u8) & 0x7f) | 0x80) & 0x7f) as u8) as u64)) == v) by (bit_vector); }
}
pub proof fn enc_stop(pre: Seq<u8>, v: u64, n: nat, post: Seq<u8>) requires fits(v, n) ensures stop(pre + enc(v, n) + post, pre.len() as int) == pre.len() + n decreases n
{
    let all = pre + enc(v, n) + post; let k = pre.len() as int; enc_len(v, n);
    assert(all[k] == enc(v, n)[0]);
    if n == 1 { assert(v <= 0x7f ==> (v as u8) & 0x80 == 0) by (bit_vector); }
    else {
        assert((((v as u8) & 0x7f) | 0x80) & 0x80 != 0) by (bit_vector);
        let p2 = pre.push(all[k]); enc_stop(p2, v >> 7, (n - 1) as nat, post); enc_len(v >> 7, (n - 1) as nat);
        assert(p2 + enc(v >> 7, (n - 1) as nat) + post =~= all);
    }
}
pub proof fn enc_at(pre: Seq<u8>, v: u64, n: nat, post: Seq<u8>) requires fits(v, n) ensures number_at(pre + enc(v, n) + post, pre.len() as int) == v, stop(pre + enc(v, n) + post, pre.len() as int) == pre.len() + n
{
    enc_stop(pre, v, n, post); enc_dec(v, n); enc_len(v, n);
    assert((pre + enc(v, n) + post).subrange(pre.len() as int, pre.len() as int + n as int) =~= enc(v, n));
}
proof fn fits_by(v: u64, n: nat) requires 1 <= n <= 10, n <= 9 ==> v >> ((7 * n) as u64) == 0 ensures fits(v, n) decreases n
{
    if n == 1 { assert(v >> 7 == 0 ==> v <= 0x7f) by (bit_vector); }
    else if n == 10 { assert((v >> 7) >> 63 == 0) by (bit_vector); fits_by(v >> 7, 9); }
    else { let k = (7 * (n - 1)) as u64; assert(k <= 56 && v >> ((k + 7) as u64) == 0 ==> (v >> 7) >> k == 0) by (bit_vector); fits_by(v >> 7, (n - 1) as nat); }
}
pub proof fn width_fits(v: u64) ensures 1 <= width(v) <= 10, fits(v, width(v))
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(v);
    let lz = vstd::std_specs::bits::u64_leading_zeros(v); let w = width(v);
    if w <= 9 {
        if v == 0 { let s = (7 * w) as u64; assert(0u64 >> s == 0) by (bit_vector); }
        else { let a = (64 - lz) as u64; let s = (7 * w) as u64; assert(a <= s <= 63); assert(a <= s && s <= 63 && v >> a == 0 ==> v >> s == 0) by (bit_vector); }
    }
    fits_by(v, w);
}
/// More room than is needed does not hurt.
pub proof fn fits_more(v: u64, n: nat, m: nat) requires fits(v, n), n <= m ensures fits(v, m) decreases m
{
    if n < m { if n == 1 { assert(v <= 0x7f ==> v >> 7 <= 0x7f) by (bit_vector); fits_more(v >> 7, 1, (m - 1) as nat); } else { fits_more(v >> 7, (n - 1) as nat, (m - 1) as nat); } }
}
/// The same bits, written in other ways.
proof fn same_bits(v: u64) ensures ((((v & 0x7f) as u8) | 0x80) as u8) == (((v as u8) & 0x7f) | 0x80) as u8, (((v & 0x7f) | 0x80) as u8) == (((v as u8) & 0x7f) | 0x80) as u8, ((v as u8) | 0x80) == (((v as u8) & 0x7f) | 0x80), ((v | 0x80) as u8) == (((v as u8) & 0x7f) | 0x80), v / 128 == v >> 7
{ assert(((((v & 0x7f) as u8) | 0x80) as u8) == (((v as u8) & 0x7f) | 0x80) as u8 && (((v & 0x7f) | 0x80) as u8) == (((v as u8) & 0x7f) | 0x80) as u8 && ((v as u8) | 0x80) == (((v as u8) & 0x7f) | 0x80) && ((v | 0x80) as u8) == (((v as u8) & 0x7f) | 0x80)) by (bit_vector); assert(v / 128 == v >> 7) by (bit_vector); }
proof fn top_bit(b: u8) ensures (b & 0x80 == 0) == (b < 0x80), b & 0x80 == 0 || b & 0x80 == 0x80, (b >> 7 == 0) == (b < 0x80), b & 0x80 == 0 ==> b & 0x7f == b { assert((b & 0x80 == 0) == (b < 0x80) && (b & 0x80 == 0 || b & 0x80 == 0x80) && (b >> 7 == 0) == (b < 0x80) && (b & 0x80 == 0 ==> b & 0x7f == b)) by (bit_vector); }
proof fn or_is_add(v: u64, b: u8) ensures (v << 7) <= 0xffff_ffff_ffff_ff80, ((v << 7) | ((b & 0x7f) as u64)) == (v << 7) + ((b & 0x7f) as u64), ((v << 7) | ((b as u64) & 0x7f)) == (v << 7) | ((b & 0x7f) as u64), (((b & 0x7f) as u64) | (v << 7)) == (v << 7) | ((b & 0x7f) as u64), ((b as u64) & 0x7f) == ((b & 0x7f) as u64)
{ assert((v << 7) <= 0xffff_ffff_ffff_ff80 && ((v << 7) | ((b & 0x7f) as u64)) == add(v << 7, ((b & 0x7f) as u64)) && ((v << 7) | ((b as u64) & 0x7f)) == (v << 7) | ((b & 0x7f) as u64) && (((b & 0x7f) as u64) | (v << 7)) == (v << 7) | ((b & 0x7f) as u64) && ((b as u64) & 0x7f) == ((b & 0x7f) as u64) && (b & 0x7f) <= 0x7f) by (bit_vector); }
//@fn src/bytecode.rs "" encode_u64 vis=pub
//| requires bytes matches Some(b) ==> width(val) <= b <= 10,
//| ensures final(out)@ == old(out)@ + enc(val, (match bytes { Some(b) => b as nat, None => width(val) })), fits(val, (match bytes { Some(b) => b as nat, None => width(val) })),
//@enter
//| let ghost v0 = val; let ghost pre = out@; let ghost n: nat = match bytes { Some(b) => b as nat, None => width(val) };
//| proof { width_fits(val); fits_more(val, width(val), n); }
//@loop 1
//| invariant next__ <= end__, fits(val, (end__ - next__ + 1) as nat), out@ + enc(val, (end__ - next__ + 1) as nat) == pre + enc(v0, n),
//| decreases end__ - next__
//@top 1
//| let ghost o = out@; let ghost w = val; proof { same_bits(w); }
//@bottom 1
//| assert(out@ + enc(val, (end__ - next__ + 1) as nat) =~= o + enc(w, (end__ - next__ + 2) as nat));
//@end
//@fn src/bytecode.rs "" decode_u64 -> r vis=pub
//| requires start <= data.len(),
//| ensures r.1 == stop(data@, start as int), r.0 == number_at(data@, start as int), start <= r.1 <= data.len(), start < data.len() ==> start < r.1,
//@sub for &(\w+) in &data\[start\.\.\] \{ ==> let ahead_ = upto(data, start, data.len()); for at_ in 0..ahead_.len() { let \1 = ahead_[at_]; proof { top_bit(\1); }
//@sub for &(\w+) in data\[start\.\.aft\]\.iter\(\)\.rev\(\) \{ ==> let taken_ = upto(data, start, aft); for back_ in 0..taken_.len() { let \1 = taken_[taken_.len() - 1 - back_]; proof { or_is_add(val, \1); }
//@sub let \(mut val, mut aft\) = \(0, start\); ==> let (mut val, mut aft) = (0u64, start);
//@enter
//| proof { if start < data.len() { stop_range(data@, start as int); } }
//@loop 1
//| invariant_except_break aft == start + next_at_, stop(data@, start as int) == stop(data@, aft as int),
//| invariant start <= data.len(), ahead_@ == data@.subrange(start as int, data.len() as int), end_at_ == ahead_.len(), next_at_ <= end_at_,
//| ensures aft == stop(data@, start as int),
//| decreases end_at_ - next_at_
//@loop 2
//| invariant start <= aft <= data.len(), aft == stop(data@, start as int), taken_@ == data@.subrange(start as int, aft as int), end_back_ == taken_.len(), next_back_ <= end_back_, val == dec(taken_@.skip(taken_.len() - next_back_)),
//| decreases end_back_ - next_back_
//@top 2
//| assert(taken_@.skip(taken_.len() - next_back_).skip(1) =~= taken_@.skip(taken_.len() - next_back_ + 1));
//@leave
//| assert(taken_@.skip(0) =~= taken_@);
//@end
#[verifier::external_body] pub fn upto(data: &[u8], a: usize, z: usize) -> (r: &[u8]) requires a <= z <= data.len() ensures r@ == data@.subrange(a as int, z as int) { &data[a..z] }
}
pub mod words {
//! Texts and the table of places as a compiler hands it over, from the documentation of the standard library.
use vstd::prelude::*;
/// How an integer is written by Display.
pub uninterp spec fn decimal(n: int) -> Seq<char>;
/// CompactString
#[verifier::external_body] pub struct Text { p: String }
impl Text {
    pub uninterp spec fn chars(self) -> Seq<char>;
    #[verifier::external_body] pub fn default() -> (r: Text) ensures r.chars() == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn new(s: &str) -> (r: Text) ensures r.chars() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, s: &Text) ensures final(self).chars() == old(self).chars() + s.chars() { unimplemented!() }
    #[verifier::external_body] pub fn push_isize(&mut self, n: isize) ensures final(self).chars() == old(self).chars() + decimal(n as int) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.chars().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn or_default(x: Option<Text>) -> (r: Text) ensures r.chars() == (match x { Some(t) => t.chars(), None => Seq::<char>::empty() }) { unimplemented!() }
}
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// An empty text without characters is the empty sequence.
#[verifier::external_body] pub fn differ(a: &str, b: &Text) -> (r: bool) ensures r == (a@ != b.chars()) { unimplemented!() }
#[verifier::external_body] pub fn written_other(v: isize, a: &str) -> (r: bool) ensures r == (decimal(v as int) != a@) { unimplemented!() }
#[verifier::external_body] pub struct Bad { }
#[verifier::external_body] pub fn parse_isize(a: &str) -> Result<isize, Bad> { unimplemented!() }
/// Byte positions in a text: the character each of them stands before.
pub uninterp spec fn nth(s: Seq<char>, p: usize) -> int;
#[verifier::external_body] pub fn find_from<F: Fn(&(usize, char)) -> bool>(s: &str, f: F) -> (r: usize) requires forall|x: &(usize, char)| f.requires((x,))
    ensures 0 <= nth(s@, r) <= s@.len(), nth(s@, r) < s@.len() ==> exists|p: usize| f.ensures((&(p, s@[nth(s@, r)]),), true), forall|i: int| 0 <= i < nth(s@, r) ==> exists|p: usize| f.ensures((&(p, #[trigger] s@[i]),), false) { unimplemented!() }
#[verifier::external_body] pub fn cut_at<'a>(s: &'a str, p: usize) -> (r: (&'a str, &'a str)) requires 0 <= nth(s@, p) <= s@.len() ensures r.0@ == s@.take(nth(s@, p)), r.1@ == s@.skip(nth(s@, p)) { unimplemented!() }
#[verifier::external_body] pub fn no_text(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
/// BTreeMap<usize, &str>: ordered by position
#[verifier::external_body] pub struct Places<'a> { p: &'a str }
impl<'a> Places<'a> {
    pub uninterp spec fn all(self) -> Seq<(usize, &'a str)>;
    #[verifier::external_body] pub broadcast proof fn ordered(self) ensures #![trigger self.all()] self.all().len() < usize::MAX, forall|i: int, j: int| 0 <= i < j < self.all().len() ==> (#[trigger] self.all()[i]).0 < (#[trigger] self.all()[j]).0 { }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.all().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.all().len() { unimplemented!() }
    /// The i-th of iter()
    #[verifier::external_body] pub fn nth(&self, i: usize) -> (r: (usize, &'a str)) requires i < self.all().len() ensures r == self.all()[i as int] { unimplemented!() }
}
/// What the first place begins and ends with; whatever it is, the table is right.
#[verifier::external_body] pub fn ends_of<'a>(p: &Places<'a>) -> (Text, Text) { unimplemented!() }
/// Some number; whichever it is, the table is right.
#[verifier::external_body] pub fn least(v: &Vec<(usize, Vec<isize>)>) -> isize { unimplemented!() }
#[verifier::external_body] pub fn taken(v: &Vec<(usize, Vec<isize>)>, i: usize) -> (r: (usize, Vec<isize>)) requires i < v.len() ensures r.0 == v@[i as int].0, r.1@ == v@[i as int].1@ { unimplemented!() }
#[verifier::external_body] pub fn partition<F: Fn(&(usize, usize)) -> bool>(v: &Vec<(usize, usize)>, f: F) -> (r: usize)
    requires forall|x: &(usize, usize)| f.requires((x,)), forall|i: int, j: int| 0 <= i < j < v@.len() ==> !(f.ensures((&#[trigger] v@[i],), false) && f.ensures((&#[trigger] v@[j],), true)),
    ensures r <= v@.len(), forall|i: int| 0 <= i < r ==> f.ensures((&#[trigger] v@[i],), true), forall|i: int| r <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), false) { unimplemented!() }
/// char: one of those that numbers are written with
pub open spec fn numeric(c: char) -> bool { c == '-' || '0' <= c <= '9' }
}
pub mod places {
use vstd::prelude::*;
use crate::bits::*;
use crate::words::*;
pub enum CompileError<'a> { InvalidLocation { loc: &'a str } }
//@type src/bytecode.rs LocationTokenizer
impl<'a> LocationTokenizer<'a> {
    pub open spec fn ok(self) -> bool { self.src@.len() == 0 || numeric(self.src@[0]) == self.state }
    //@fn src/bytecode.rs "impl<'a> LocationTokenizer<'a>" new -> r vis=pub
    //| ensures r.src == src, !r.state,
    //@end
    //@fn src/bytecode.rs "impl<'a> Iterator for LocationTokenizer<'a>" next -> r vis=pub
    //@sub Self::Item ==> &'a str
    //@sub self\.src\.is_empty\(\) ==> no_text(self.src)
    //@sub let p = self\.src\.char_indices\(\)\.find\(\|x\| (.*)\)\.map\(\|x\| x\.0\)\.unwrap_or\(self\.src\.len\(\)\); ==> let state_ = self.state; let p = find_from(self.src, |x: &(usize, char)| -> (y: bool) ensures y == (\1) { \1 });
    //@sub self\.state \^ \(x ==> state_ != (x
    //@sub \('0'\.\.='9'\)\.contains\(&x\.1\) ==> ('0' <= x.1 && x.1 <= '9')
    //@sub let res;\s*\(res, self\.src\) = self\.src\.split_at\(p\); ==> let (res, rest_) = cut_at(self.src, p); self.src = rest_;
    //@sub self\.state \^= true ==> self.state = !self.state
    //| ensures match r { None => old(self).src@.len() == 0 && *final(self) == *old(self), Some(t) => old(self).src@.len() > 0 && t@ + final(self).src@ == old(self).src@ && final(self).state == !old(self).state && final(self).ok() && (old(self).ok() ==> t@.len() > 0) },
    //@leave
    //| assert(result_ matches Some(t) ==> t@ + self.src@ =~= old(self).src@);
    //@end
}
/// Peekable
pub struct Tokens<'a> { pub it: LocationTokenizer<'a> }
impl<'a> Tokens<'a> {
    pub open spec fn left(self) -> Seq<char> { self.it.src@ }
    /// What LocationTokenizer::next does.
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>) ensures match r { None => old(self).left().len() == 0 && final(self).left() == old(self).left(), Some(t) => old(self).left().len() > 0 && t@ + final(self).left() == old(self).left() && final(self).it.ok() && (old(self).it.ok() ==> t@.len() > 0) } { unimplemented!() }
    #[verifier::external_body] pub fn no_more(&mut self) -> (r: bool) ensures r == (old(self).left().len() == 0), *final(self) == *old(self) { unimplemented!() }
}
pub fn tokens<'a>(it: LocationTokenizer<'a>) -> (r: Tokens<'a>) ensures r.it == it { Tokens { it } }
#[verifier::external_body] pub struct Tag { }
impl Tag { #[verifier::external_body] pub fn default() -> Tag { unimplemented!() } }
//@type src/bytecode.rs Locations sub=/MustBeU128<FINGERPRINT>/Tag/ sub=/CompactString/Text/
/// The numbers up to the first zero.
pub open spec fn numbers(data: Seq<u8>, k: int) -> Seq<u64> decreases data.len() - k when k >= 0 via numbers_end { if k >= data.len() || number_at(data, k) == 0 { Seq::empty() } else { seq![number_at(data, k)] + numbers(data, stop(data, k)) } }
#[via_fn] proof fn numbers_end(data: Seq<u8>, k: int) { if k < data.len() { stop_range(data, k); } }
pub open spec fn ended(data: Seq<u8>, k: int) -> bool { k < stop(data, k) <= data.len() && !more(data[stop(data, k) - 1]) }
pub open spec fn closed(data: Seq<u8>, k: int) -> bool decreases data.len() - k when k >= 0 via closed_end { k < data.len() && ended(data, k) && (number_at(data, k) == 0 || closed(data, stop(data, k))) }
#[via_fn] proof fn closed_end(data: Seq<u8>, k: int) { if k < data.len() { stop_range(data, k); } }
/// Two's complement on 64 bits.
pub open spec fn wrap(n: int) -> isize { if n > isize::MAX { (n - 0x1_0000_0000_0000_0000) as isize } else if n < isize::MIN { (n + 0x1_0000_0000_0000_0000) as isize } else { n as isize } }
/// The number a code stands for, and the code of a number.
pub open spec fn value(v: u64, base: isize) -> isize { wrap(wrap((v as isize) - 1) + base) }
pub open spec fn code(t: isize, base: isize) -> u64 { ((wrap(t - base) as u64) + 1) as u64 }
pub open spec fn codes(t: Seq<isize>, base: isize) -> Seq<u64> { t.map_values(|x: isize| code(x, base)) }
pub open spec fn values_of(v: Seq<u64>, base: isize) -> Seq<isize> { v.map_values(|x: u64| value(x, base)) }
pub open spec fn joined(v: Seq<isize>, by: Seq<char>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.len() == 1 { decimal(v[0] as int) } else { joined(v.drop_last(), by) + by + decimal(v.last() as int) } }
pub open spec fn encs(v: Seq<u64>) -> Seq<u8> decreases v.len() { if v.len() == 0 { enc(0, width(0)) } else { enc(v[0], width(v[0])) + encs(v.skip(1)) } }
pub proof fn value_code(t: isize, base: isize) requires (wrap(t - base) as u64) < u64::MAX ensures value(code(t, base), base) == t, code(t, base) != 0
{
    let d = wrap(t - base); let u = d as u64; let v = code(t, base);
    assert((d as u64) as isize == d) by (bit_vector);
    assert(u as isize == d);
    assert(v == u + 1);
    assert(v == u + 1 && u < 0xffff_ffff_ffff_ffff && (u as isize) != 0x7fff_ffff_ffff_ffffisize ==> (v as isize) == (u as isize) + 1) by (bit_vector);
    assert(v == u + 1 && u < 0xffff_ffff_ffff_ffff && (u as isize) == 0x7fff_ffff_ffff_ffffisize ==> (v as isize) == -0x8000_0000_0000_0000isize) by (bit_vector);
}
proof fn stop_ext(d: Seq<u8>, e: Seq<u8>, k: int) requires 0 <= k < d.len(), ended(d, k) ensures stop(d + e, k) == stop(d, k) decreases d.len() - k
{
    assert((d + e)[k] == d[k]);
    if more(d[k]) { if k + 1 < d.len() { stop_ext(d, e, k + 1); } else { assert(stop(d, k + 1) == k + 1); } }
}
/// More data changes nothing.
pub proof fn closed_ext(d: Seq<u8>, e: Seq<u8>, k: int) requires 0 <= k, closed(d, k) ensures closed(d + e, k), numbers(d + e, k) == numbers(d, k) decreases d.len() - k
{
    stop_range(d, k); stop_ext(d, e, k);
    let s = stop(d, k);
    assert((d + e).subrange(k, s) =~= d.subrange(k, s));
    if number_at(d, k) != 0 { closed_ext(d, e, s); }
}
proof fn enc_ends(v: u64, n: nat) requires fits(v, n) ensures !more(enc(v, n).last()) decreases n
{
    enc_len(v, n);
    if n == 1 { assert(v <= 0x7f ==> (v as u8) & 0x80 == 0) by (bit_vector); } else { enc_ends(v >> 7, (n - 1) as nat); enc_len(v >> 7, (n - 1) as nat); }
}
pub proof fn encs_read(pre: Seq<u8>, v: Seq<u64>) requires forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] != 0 ensures closed(pre + encs(v), pre.len() as int), numbers(pre + encs(v), pre.len() as int) == v decreases v.len()
{
    let all = pre + encs(v); let k = pre.len() as int;
    let x = if v.len() == 0 { 0 } else { v[0] }; let post = if v.len() == 0 { Seq::empty() } else { encs(v.skip(1)) };
    width_fits(x); enc_len(x, width(x)); enc_ends(x, width(x));
    assert(all =~= pre + enc(x, width(x)) + post);
    enc_at(pre, x, width(x), post);
    assert(all[stop(all, k) - 1] == enc(x, width(x)).last());
    if v.len() > 0 {
        let p2 = pre + enc(x, width(x));
        encs_read(p2, v.skip(1));
        assert(p2 + encs(v.skip(1)) =~= all);
        assert(seq![x] + v.skip(1) =~= v);
    } else { assert(numbers(all, k) =~= v); }
}
pub open spec fn sep(s: Option<Text>) -> Seq<char> { match s { Some(t) => t.chars(), None => Seq::empty() } }
pub proof fn joined_push(v: Seq<isize>, x: isize, by: Seq<char>) ensures joined(v.push(x), by) == (if v.len() == 0 { decimal(x as int) } else { joined(v, by) + by + decimal(x as int) }) { assert(v.push(x).drop_last() =~= v); }
impl Locations {
    pub open spec fn ok(self) -> bool { (forall|i: int, j: int| 0 <= i < j < self.locs@.len() ==> (#[trigger] self.locs@[i]).0 < (#[trigger] self.locs@[j]).0) && (forall|j: int| 0 <= j < self.locs@.len() ==> closed(self.value_data@, (#[trigger] self.locs@[j]).1 as int)) }
    /// What is written for the numbers that start at k.
    pub open spec fn text(self, k: int) -> Seq<char> { self.prefix.chars() + joined(values_of(numbers(self.value_data@, k), self.base_token), self.separator.chars()) + self.suffix.chars() }
    //@fn src/bytecode.rs "impl Locations" condense -> r vis=pub
    //@sub BTreeMap<usize, &'a str> ==> Places<'a>
    //@sub tag: Default::default\(\) ==> tag: Tag::default()
    //@sub (value_data|locs): Default::default\(\) ==> \1: Vec::new()
    //@sub let \(prefix, suffix\) = \{[^;]*;[^;]*;[^;]*;\s*\(prefix, suffix\)\s*\}; ==> let (prefix, suffix) = ends_of(orig_locs);
    //@sub for \(&(\w+), &(\w+)\) in orig_locs\.iter\(\) \{ ==> for n_ in 0..orig_locs.len() { let (\1, \2) = orig_locs.nth(n_);
    //@sub LocationTokenizer::new\((\w+)\)\.peekable\(\) ==> tokens(LocationTokenizer::new(\1))
    //@sub for (\w+) in 0\.\. \{ ==> let mut next_ = 0i32; loop { let \1 = next_; next_ += 1;
    //@sub (\w+)\.parse\(\) ==> parse_isize(\1)
    //@sub (\w+)\.to_string\(\) != (\w+) ==> written_other(\1, \2)
    //@sub (\w+) != (prefix|suffix)\b ==> differ(\1, &\2)
    //@sub (\w+) != \*(\w+) ==> differ(\1, \2)
    //@sub \.peek\(\)\.is_none\(\) ==> .no_more()
    //@sub CompactString ==> Text
    //@sub value_map\.iter\(\)\.flat_map\(.*?\)\.unwrap_or\(0\) ==> least(&value_map)
    //@sub for \(\((\w+), (\w+)\), &(\w+)\) in value_map\.into_iter\(\)\.zip\(orig_locs\.values\(\)\) \{ ==> for i_ in 0..value_map.len() { let (\1, \2) = taken(&value_map, i_); let \3 = orig_locs.nth(i_).1;
    //@sub (\w+)\.unwrap_or_default\(\) ==> Text::or_default(\1)
    //@sub let mut value_map = ==> let mut value_map: Vec<(usize, Vec<isize>)> =
    //@sub let mut values = ==> let mut values: Vec<isize> =
    //@sub let mut value_data = ==> let mut value_data: Vec<u8> =
    //@sub let mut locs = ==> let mut locs: Vec<(usize, usize)> =
    //@sub let mut separator = None ==> let mut separator: Option<Text> = None
    //| requires forall|j: int| 0 <= j < orig_locs.all().len() ==> (#[trigger] orig_locs.all()[j]).1@.len() < 0x4000_0000,
    //| ensures match r {
    //|     Ok(l) => l.ok() && l.locs@.len() == orig_locs.all().len() && (forall|j: int| #![trigger l.locs@[j]] 0 <= j < l.locs@.len() ==> l.locs@[j].0 == orig_locs.all()[j].0 && l.text(l.locs@[j].1 as int) == orig_locs.all()[j].1@),
    //|     Err(CompileError::InvalidLocation { loc }) => exists|j: int| 0 <= j < orig_locs.all().len() && (#[trigger] orig_locs.all()[j]).1 == loc,
    //| },
    //@enter
    //| broadcast use Places::ordered; let ghost all = orig_locs.all();
    //@loop 1
    //| invariant end_n_ == all.len(), all == orig_locs.all(), next_n_ <= end_n_, value_map@.len() == next_n_, forall|j: int| 0 <= j < all.len() ==> (#[trigger] all[j]).1@.len() < 0x4000_0000,
    //|     forall|j: int| #![trigger value_map@[j]] 0 <= j < value_map@.len() ==> value_map@[j].0 == all[j].0 && all[j].1@ == prefix.chars() + joined(value_map@[j].1@, sep(separator)) + suffix.chars() && (value_map@[j].1@.len() <= 1 || separator is Some),
    //| decreases end_n_ - next_n_
    //@loop 2
    //| invariant_except_break 0 <= next_, next_ <= 0x4000_0002, next_ - 1 <= loc@.len() - tokens.left().len(), next_ > 0 ==> tokens.it.ok(),
    //|     tokens.left().len() <= loc@.len(), tokens.left() == loc@.skip(loc@.len() - tokens.left().len()),
    //|     next_ == 0 ==> values@.len() == 0 && tokens.left() == loc@,
    //|     next_ % 2 == 1 ==> values@.len() == (next_ - 1) / 2 && ({ let done = loc@.take(loc@.len() - tokens.left().len()); let j = prefix.chars() + joined(values@, sep(separator)); (done == (if values@.len() > 0 { j + sep(separator) } else { j }) && (values@.len() > 0 ==> separator is Some && tokens.left().len() > 0)) || (values@.len() >= 1 && tokens.left().len() == 0 && done == j + suffix.chars()) }),
    //|     next_ % 2 == 0 && next_ > 0 ==> values@.len() == next_ / 2 && loc@.take(loc@.len() - tokens.left().len()) == prefix.chars() + joined(values@, sep(separator)),
    //| invariant loc@.len() < 0x4000_0000, values@.len() <= 1 || separator is Some, exists|j: int| 0 <= j < all.len() && (#[trigger] all[j]).1 == loc, all == orig_locs.all(), 
    //|     forall|j: int| #![trigger value_map@[j]] 0 <= j < value_map@.len() ==> value_map@[j].0 == all[j].0 && all[j].1@ == prefix.chars() + joined(value_map@[j].1@, sep(separator)) + suffix.chars() && (value_map@[j].1@.len() <= 1 || separator is Some),
    //| ensures loc@ == prefix.chars() + joined(values@, sep(separator)) + suffix.chars(),
    //| decreases 0x4000_0003 - next_
    //@top 2
    //| let ghost q: i32 = next_; assert(q >= 0 ==> (q & 1i32) == q % 2) by (bit_vector);
    //| let ghost left0 = tokens.left(); let ghost k0 = loc@.len() - left0.len(); let ghost done0 = loc@.take(k0); let ghost values0 = values@; let ghost sep0 = sep(separator);
    //| proof { assert(loc@.take(loc@.len() as int) =~= loc@); assert(left0.len() == 0 && suffix.chars().len() == 0 ==> prefix.chars() + joined(values0, sep0) + suffix.chars() =~= prefix.chars() + joined(values0, sep0)); assert(prefix.chars() + joined(Seq::<isize>::empty(), sep0) =~= prefix.chars()); }
    //@ghost "Some(token) => {"
    //| let ghost k1 = loc@.len() - tokens.left().len();
    //| proof { assert(left0.len() == token@.len() + tokens.left().len()); assert(tokens.left() =~= left0.skip(token@.len() as int)); assert(tokens.left() =~= loc@.skip(k1)); assert(token@ =~= left0.take(token@.len() as int)); assert(loc@.take(k1) =~= done0 + token@); assert(done0 + token@ == loc@.take(k1)); }
    //@ghost "values.push(v);"
    //| proof { joined_push(values0, v, sep0); assert(values0.len() > 0 ==> prefix.chars() + joined(values0, sep0) + sep0 + token@ =~= prefix.chars() + (joined(values0, sep0) + sep0 + token@)); assert(values@ == values0.push(v)); assert(values0.len() == 0 ==> prefix.chars() + joined(values0, sep0) =~= prefix.chars()); }
    //@loop 3
    //| invariant end_i_ == value_map@.len(), value_map@.len() == all.len(), all == orig_locs.all(), next_i_ <= end_i_, locs@.len() == next_i_,
    //|     forall|j: int| #![trigger locs@[j]] 0 <= j < locs@.len() ==> locs@[j].0 == value_map@[j].0 && closed(value_data@, locs@[j].1 as int) && values_of(numbers(value_data@, locs@[j].1 as int), base_token) == value_map@[j].1@,
    //| decreases end_i_ - next_i_
    //@ghost "locs.push((pos, value_data.len()));"
    //| let ghost pre = value_data@; let ghost toks0 = toks@; let ghost at = next_i_ - 1; assert(value_map@[at].1@ == toks0); assert(orig_locs.all()[at].1 == loc);
    //@loop 4
    //| invariant value_data@ + encs(codes(rest_toks@, base_token)) == pre + encs(codes(toks0, base_token)), rest_toks@.len() <= toks0.len(), rest_toks@ == toks0.skip(toks0.len() - rest_toks@.len()), forall|i: int| #![trigger toks0[i]] 0 <= i < toks0.len() - rest_toks@.len() ==> code(toks0[i], base_token) != 0 && value(code(toks0[i], base_token), base_token) == toks0[i],
    //|     exists|j: int| 0 <= j < all.len() && (#[trigger] all[j]).1 == loc, all == orig_locs.all(),
    //| decreases rest_toks@.len()
    //@top 4
    //| let ghost now = value_data@;
    //| proof { let c = codes(was_toks, base_token); assert(c[0] == code(was_toks[0], base_token)); assert(c.skip(1) =~= codes(rest_toks@, base_token)); assert(rest_toks@ =~= toks0.skip(toks0.len() - rest_toks@.len())); if (wrap(tok - base_token) as u64) < u64::MAX { value_code(tok, base_token); assert(now + encs(c) =~= now + enc(c[0], width(c[0])) + encs(c.skip(1))); } }
    //@bottom 3
    //| proof {
    //|     let c = codes(toks0, base_token);
    //|     assert(codes(rest_toks@, base_token) =~= Seq::<u64>::empty());
    //|     assert(value_data@ == pre + encs(c));
    //|     encs_read(pre, c);
    //|     assert(values_of(c, base_token) =~= toks0);
    //|     assert forall|j: int| 0 <= j < locs@.len() - 1 implies closed(value_data@, (#[trigger] locs@[j]).1 as int) && values_of(numbers(value_data@, locs@[j].1 as int), base_token) == value_map@[j].1@ by { closed_ext(pre, encs(c), locs@[j].1 as int); }
    //| }
    //@end
    //@fn src/bytecode.rs "impl Locations" lookup -> r
    //@sub Option<CompactString> ==> Option<Text>
    //@sub self\.locs\.partition_point\(\|(\w+)\| ([^;]*)\); ==> partition(&self.locs, |\1: &(usize, usize)| -> (y: bool) ensures y == (\2) { \2 });
    //@sub self\.locs\.get\((\w+)\)\? ==> (if \1 < self.locs.len() { self.locs[\1] } else { return None })
    //@sub write!\((\w+), "\{\}", (.*?)\)\.unwrap\(\); ==> \1.push_isize(\2);
    //| requires self.ok(),
    //| ensures match r {
    //|     None => forall|j: int| 0 <= j < self.locs@.len() ==> (#[trigger] self.locs@[j]).0 <= bytecode_pos,
    //|     Some(t) => exists|j: int| 0 <= j < self.locs@.len() && (#[trigger] self.locs@[j]).0 > bytecode_pos && (forall|i: int| 0 <= i < j ==> (#[trigger] self.locs@[i]).0 <= bytecode_pos) && t.chars() == self.text(self.locs@[j].1 as int),
    //| },
    //@ghost "let mut res = self.prefix.clone();"
    //| let ghost at = start as int; let ghost all = numbers(self.value_data@, at); let ghost mut done: Seq<u64> = Seq::empty(); let ghost by = self.separator.chars();
    //| proof { assert(done + all =~= all); assert(res.chars() =~= self.prefix.chars() + joined(values_of(done, self.base_token), by)); }
    //@loop 1
    //| invariant_except_break done + numbers(self.value_data@, start as int) == all, closed(self.value_data@, start as int), first == (done.len() == 0),
    //| invariant by == self.separator.chars(), res.chars() == self.prefix.chars() + joined(values_of(done, self.base_token), by),
    //| ensures done == all,
    //| decreases self.value_data@.len() - start
    //@ghost "let (v, aft) = decode_u64(&self.value_data, start);"
    //| let ghost had = done; let ghost k0 = start as int; let ghost res0 = res.chars();
    //| proof { if v == 0 { assert(done + Seq::<u64>::empty() =~= done); } else { done = done.push(v); assert(done + numbers(self.value_data@, aft as int) =~= had + (seq![v] + numbers(self.value_data@, aft as int))); } }
    //@bottom 1
    //| proof { let x = value(v, self.base_token); joined_push(values_of(had, self.base_token), x, by); assert(values_of(done, self.base_token) =~= values_of(had, self.base_token).push(x)); assert(res.chars() =~= self.prefix.chars() + joined(values_of(done, self.base_token), by)); }
    //@end
}
}
}
fn main() {}
