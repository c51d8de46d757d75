use vstd::prelude::*;
verus! {
// ---- begin
pub mod letters {
use vstd::prelude::*;
/// Modelled from the standard library's documentation: trim, chars, peekable, to_ascii_uppercase, split, parse::<i32>, and the written form of an integer.
pub uninterp spec fn blank(c: char) -> bool;
pub broadcast axiom fn not_blank(c: char) ensures '!' <= c <= '~' ==> !#[trigger] blank(c);
pub open spec fn from_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { from_start(s.skip(1)) } else { s } }
pub open spec fn from_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s.last()) { from_end(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { from_end(from_start(s)) }
pub open spec fn upper(c: char) -> char { if 'a' <= c <= 'z' { ((c as u32 - 32) as u32) as char } else { c } }
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn amount(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * amount(s.drop_last()) + (s.last() as int - '0' as int) } }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// What str::parse::<i32> gives: an optional sign and at least one digit, in range.
pub open spec fn integer(s: Seq<char>) -> Option<int> {
    let signed = s.len() > 0 && (s[0] == '+' || s[0] == '-');
    let d = if signed { s.skip(1) } else { s };
    let v = if signed && s[0] == '-' { -amount(d) } else { amount(d) };
    if digits(d) && -0x8000_0000 <= v <= 0x7fff_ffff { Some(v) } else { None }
}
/// How an integer is written by Display (here only the small ones are needed).
pub uninterp spec fn decimal(n: int) -> Seq<char>;
pub axiom fn decimal_small(n: int) requires -1 <= n <= 9 ensures decimal(n) == (if n < 0 { seq!['-', '1'] } else { seq![(n + '0' as int) as u8 as char] });
pub open spec fn split_off(s: Seq<char>, by: char, so_far: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![so_far] } else if s[0] == by { seq![so_far] + split_off(s.skip(1), by, Seq::empty()) } else { split_off(s.skip(1), by, so_far.push(s[0])) }
}
#[verifier::external_body] pub struct Letters<'a> { p: std::iter::Peekable<std::str::Chars<'a>> }
impl<'a> Letters<'a> {
    pub uninterp spec fn left(self) -> Seq<char>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self).left().len() > 0 && c == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<char>) ensures final(self).left() == old(self).left(), match r { Some(c) => old(self).left().len() > 0 && c == old(self).left()[0], None => old(self).left().len() == 0 } { unimplemented!() }
}
#[verifier::external_body] pub fn letters<'a>(s: &'a str) -> (r: Letters<'a>) ensures r.left() == trimmed(s@) { unimplemented!() }
#[verifier::external_body] pub fn uppercase(c: char) -> (r: char) ensures r == upper(c) { c.to_ascii_uppercase() }
/// A piece of a text, and the pieces a text is split into.
#[verifier::external_body] pub struct Piece { p: &'static str }
impl Piece {
    pub uninterp spec fn chars(self) -> Seq<char>;
    pub uninterp spec fn size(&self) -> usize;
    pub axiom fn ascii(self) requires forall|i: int| 0 <= i < self.chars().len() ==> (#[trigger] self.chars()[i] as u32) < 128 ensures self.size() == self.chars().len();
    pub open spec fn begins(&self, c: char) -> bool { self.chars().len() > 0 && self.chars()[0] == c }
    #[verifier::external_body] #[verifier::when_used_as_spec(size)] pub fn len(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body] #[verifier::when_used_as_spec(begins)] pub fn starts_with(&self, c: char) -> (r: bool) ensures r == self.begins(c) { unimplemented!() }
}
#[verifier::external_body] pub struct Pieces { p: Vec<Piece> }
impl Pieces {
    pub uninterp spec fn all(self) -> Seq<Piece>;
    #[verifier::external_body] pub fn nth(self, n: usize) -> (r: Option<Piece>) ensures match r { Some(p) => n < self.all().len() && p == self.all()[n as int], None => n >= self.all().len() } { unimplemented!() }
    #[verifier::external_body] pub fn enumerate(self) -> (r: Counted) ensures r.all() == self.all() { unimplemented!() }
}
#[verifier::external_body] pub struct Counted { p: Vec<Piece> }
impl Counted {
    pub uninterp spec fn all(self) -> Seq<Piece>;
    #[verifier::external_body] pub fn find<F: Fn(&(usize, Piece)) -> bool>(self, f: F) -> (r: Option<(usize, Piece)>)
        requires forall|x: (usize, Piece)| #[trigger] f.requires((&x,)),
        ensures match r {
            Some(x) => x.0 < self.all().len() && x.1 == self.all()[x.0 as int] && f.ensures((&x,), true) && forall|i: int| 0 <= i < x.0 ==> f.ensures((&(i as usize, #[trigger] self.all()[i]),), false),
            None => forall|i: int| 0 <= i < self.all().len() ==> f.ensures((&(i as usize, #[trigger] self.all()[i]),), false),
        }
    { unimplemented!() }
}
/// The pieces between the occurrences of a character
pub uninterp spec fn pieces_of(s: Seq<char>, by: char) -> Seq<Piece>;
pub axiom fn pieces_are(s: Seq<char>, by: char) ensures pieces_of(s, by).len() == split_off(s, by, Seq::empty()).len(), forall|i: int| 0 <= i < pieces_of(s, by).len() ==> (#[trigger] pieces_of(s, by)[i]).chars() == split_off(s, by, Seq::empty())[i];
#[verifier::external_body] pub fn pieces(s: &'static str, by: char) -> (r: Pieces) ensures r.all() == pieces_of(s@, by) { unimplemented!() }
/// CompactString
#[verifier::external_body] pub struct Text { p: String }
impl Text {
    pub uninterp spec fn chars(self) -> Seq<char>;
    #[verifier::external_body] pub fn default() -> (r: Text) ensures r.chars().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self).chars() == old(self).chars().push(c) { unimplemented!() }
    #[verifier::external_body] pub fn parse_i32(&self) -> (r: Option<i32>) ensures match r { Some(v) => integer(self.chars()) == Some(v as int), None => integer(self.chars()) is None } { unimplemented!() }
}
#[verifier::external_body] pub fn written(p: Piece, n: i32) -> (r: Text) ensures r.chars() == p.chars() + decimal(n as int) { unimplemented!() }
}
pub mod notes {
use vstd::prelude::*;
use crate::letters::*;
//@type src/runtime.rs SHARP_NOTES
//@type src/runtime.rs FLAT_NOTES
/// How far above C of the same octave a natural note is.
pub open spec fn above_c(c: char) -> Option<int> {
    if c == 'C' { Some(0) } else if c == 'D' { Some(2) } else if c == 'E' { Some(4) } else if c == 'F' { Some(5) } else if c == 'G' { Some(7) } else if c == 'A' { Some(9) } else if c == 'B' { Some(11) } else { None }
}
/// How many of the first characters, from the k-th on, are digits.
pub open spec fn run(s: Seq<char>, k: int) -> int decreases s.len() - k when k >= 0 { if k < s.len() && digit(s[k]) { run(s, k + 1) } else { k } }
pub struct Marks { pub octave: int, pub delta: int, pub natural: bool }
/// What follows the letter: the octave exactly once, and any number of accidentals.
pub open spec fn marks(s: Seq<char>, octave: Option<int>, delta: int, natural: bool) -> Option<Marks> decreases s.len() when true via marks_end {
    if s.len() == 0 { match octave { Some(o) => Some(Marks { octave: o, delta, natural }), None => None } }
    else if s[0] == '+' || s[0] == '-' || digit(s[0]) {
        if octave is Some { None } else { let k = run(s, 1); match integer(s.take(k)) { Some(o) => marks(s.skip(k), Some(o), delta, natural), None => None } }
    }
    else if s[0] == 's' || s[0] == '#' || s[0] == '♯' { marks(s.skip(1), octave, delta + 1, true) }
    else if s[0] == 'b' || s[0] == '♭' { marks(s.skip(1), octave, delta - 1, true) }
    else if s[0] == 'n' || s[0] == '♮' { marks(s.skip(1), octave, delta, true) }
    else { None }
}
#[via_fn] proof fn marks_end(s: Seq<char>, octave: Option<int>, delta: int, natural: bool) { if s.len() > 0 { run_range(s, 1); } }
pub proof fn run_range(s: Seq<char>, k: int) requires 0 <= k <= s.len() ensures k <= run(s, k) <= s.len(), forall|i: int| k <= i < run(s, k) ==> digit(#[trigger] s[i]), run(s, k) < s.len() ==> !digit(s[run(s, k)]) decreases s.len() - k { if k < s.len() && digit(s[k]) { run_range(s, k + 1); } }
pub proof fn run_is(s: Seq<char>, j: int, k: int) requires 0 <= j <= k <= s.len(), forall|i: int| j <= i < k ==> digit(#[trigger] s[i]), k < s.len() ==> !digit(s[k]) ensures run(s, j) == k decreases k - j { if j < k { run_is(s, j + 1, k); } }
pub open spec fn wide(o: Option<i32>) -> Option<int> { match o { Some(x) => Some(x as int), None => None } }
pub open spec fn sharp_names() -> Seq<Seq<char>> { seq![seq!['A'], seq!['A', '#'], seq!['B'], seq!['C'], seq!['C', '#'], seq!['D'], seq!['D', '#'], seq!['E'], seq!['F'], seq!['F', '#'], seq!['G'], seq!['G', '#']] }
pub open spec fn flat_names() -> Seq<Seq<char>> { seq![seq!['A'], seq!['B', 'b'], seq!['B'], seq!['C'], seq!['D', 'b'], seq!['D'], seq!['E', 'b'], seq!['E'], seq!['F'], seq!['G', 'b'], seq!['G'], seq!['A', 'b']] }
pub open spec fn joined(s: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else if n == 1 { s[0] } else { joined(s, n - 1).push(' ') + s[n - 1] } }
pub proof fn scale() ensures split_off(SHARP_NOTES@, ' ', Seq::empty()) == sharp_names(), split_off(FLAT_NOTES@, ' ', Seq::empty()) == flat_names()
{
    reveal_strlit("A A# B C C# D D# E F F# G G#"); reveal_strlit("A Bb B C Db D Eb E F Gb G Ab");
    let s = seq!['A', ' ', 'A', '#', ' ', 'B', ' ', 'C', ' ', 'C', '#', ' ', 'D', ' ', 'D', '#', ' ', 'E', ' ', 'F', ' ', 'F', '#', ' ', 'G', ' ', 'G', '#']; let f = seq!['A', ' ', 'B', 'b', ' ', 'B', ' ', 'C', ' ', 'D', 'b', ' ', 'D', ' ', 'E', 'b', ' ', 'E', ' ', 'F', ' ', 'G', 'b', ' ', 'G', ' ', 'A', 'b'];
    assert(SHARP_NOTES@ =~= s); assert(FLAT_NOTES@ =~= f);
    assert(split_off(seq!['A', ' ', 'A', '#', ' ', 'B', ' ', 'C', ' ', 'C', '#', ' ', 'D', ' ', 'D', '#', ' ', 'E', ' ', 'F', ' ', 'F', '#', ' ', 'G', ' ', 'G', '#'], ' ', Seq::empty()) =~~= sharp_names()) by (compute);
    assert(split_off(seq!['A', ' ', 'B', 'b', ' ', 'B', ' ', 'C', ' ', 'D', 'b', ' ', 'D', ' ', 'E', 'b', ' ', 'E', ' ', 'F', ' ', 'G', 'b', ' ', 'G', ' ', 'A', 'b'], ' ', Seq::empty()) =~~= flat_names()) by (compute);
}
pub open spec fn named(p: Piece, s: Seq<char>) -> bool { p.chars() == s && p.size() == s.len() }
pub proof fn sharps() ensures ({ let p = pieces_of(SHARP_NOTES@, ' '); p.len() == 12 && named(p[0], sharp_names()[0]) && named(p[1], sharp_names()[1]) && named(p[2], sharp_names()[2]) && named(p[3], sharp_names()[3]) && named(p[4], sharp_names()[4]) && named(p[5], sharp_names()[5]) && named(p[6], sharp_names()[6]) && named(p[7], sharp_names()[7]) && named(p[8], sharp_names()[8]) && named(p[9], sharp_names()[9]) && named(p[10], sharp_names()[10]) && named(p[11], sharp_names()[11]) })
{
    scale(); pieces_are(SHARP_NOTES@, ' '); let p = pieces_of(SHARP_NOTES@, ' ');
    p[0].ascii(); p[1].ascii(); p[2].ascii(); p[3].ascii(); p[4].ascii(); p[5].ascii(); p[6].ascii(); p[7].ascii(); p[8].ascii(); p[9].ascii(); p[10].ascii(); p[11].ascii();
}
pub proof fn flats() ensures ({ let p = pieces_of(FLAT_NOTES@, ' '); p.len() == 12 && named(p[0], flat_names()[0]) && named(p[1], flat_names()[1]) && named(p[2], flat_names()[2]) && named(p[3], flat_names()[3]) && named(p[4], flat_names()[4]) && named(p[5], flat_names()[5]) && named(p[6], flat_names()[6]) && named(p[7], flat_names()[7]) && named(p[8], flat_names()[8]) && named(p[9], flat_names()[9]) && named(p[10], flat_names()[10]) && named(p[11], flat_names()[11]) })
{
    scale(); pieces_are(FLAT_NOTES@, ' '); let p = pieces_of(FLAT_NOTES@, ' ');
    p[0].ascii(); p[1].ascii(); p[2].ascii(); p[3].ascii(); p[4].ascii(); p[5].ascii(); p[6].ascii(); p[7].ascii(); p[8].ascii(); p[9].ascii(); p[10].ascii(); p[11].ascii();
}
/// The MIDI pitch a name spells (C of octave -1 is 0), if it spells one at all.
pub open spec fn spelled(name: Seq<char>) -> Option<(int, bool)> {
    let s = trimmed(name);
    if s.len() == 0 { None } else { match (above_c(upper(s[0])), marks(s.skip(1), None, 0, false)) { (Some(a), Some(m)) => Some((12 * (m.octave + 1) + a + m.delta, m.natural)), _ => None } }
}
/// What is written for an octave is read as that octave.
pub proof fn octave_reads(o: int, delta: int, natural: bool) requires -1 <= o <= 9 ensures marks(decimal(o), None, delta, natural) == Some(Marks { octave: o, delta, natural }), decimal(o).len() > 0, '!' <= decimal(o)[0] <= '~', '!' <= decimal(o).last() <= '~', decimal(o)[0] != ' '
{
    decimal_small(o); let d = decimal(o); let k = d.len() as int;
    run_is(d, 1, k);
    assert(d.take(k) =~= d); assert(d.skip(k) =~= Seq::<char>::empty());
    reveal_with_fuel(amount, 3);
    if o < 0 { assert(d.skip(1) =~= seq!['1']); assert(seq!['1'].drop_last() =~= Seq::<char>::empty()); assert(amount(seq!['1']) == 1); assert(digit(d.skip(1)[0])); assert(integer(d) == Some(-1int)); }
    else { assert(d.drop_last() =~= Seq::<char>::empty()); let c = d[0]; assert(c as int == o + '0' as int); assert(digit(c)); assert(amount(d) == o); assert(integer(d) == Some(o)); }
    reveal_with_fuel(marks, 3);
}
pub proof fn whole_name(s: Seq<char>) requires s.len() > 0, '!' <= s[0] <= '~', '!' <= s.last() <= '~' ensures trimmed(s) == s { broadcast use not_blank; }
/// The name of a pitch, in either spelling, spells that pitch.
pub proof fn name_reads(v: int, sharps: bool) requires 0 <= v < 128 ensures ({ let name = (if sharps { sharp_names() } else { flat_names() })[(v + 3) % 12] + decimal(v / 12 - 1); spelled(name) is Some && spelled(name)->Some_0.0 == v })
{
    let i = (v + 3) % 12; let part = (if sharps { sharp_names() } else { flat_names() })[i]; let o = v / 12 - 1; let d = decimal(o); let name = part + d;
    octave_reads(o, 0, false); octave_reads(o, 1, true); octave_reads(o, -1, true);
    whole_name(name);
    let rest = name.skip(1);
    if part.len() == 1 { assert(rest =~= d); } else { assert(part.len() == 2); assert(rest[0] == part[1]); assert(rest.skip(1) =~= d); assert(rest.len() > 0); }
}
pub struct Note(pub u8);
impl Note {
    pub open spec fn pitch(self) -> int { (self.0 & 0x7f) as int }
    pub open spec fn natural(self) -> bool { self.0 & 0x80 != 0 }
    //@fn src/runtime.rs "impl Note" from_midi -> r
    //| ensures r is Some <==> val < 128, r is Some ==> r->Some_0.pitch() == val && r->Some_0.natural() == natural,
    //@enter
    //| assert(val < 0x80u8 ==> (0x80u8 | val) & 0x7fu8 == val && (0x80u8 | val) & 0x80u8 != 0 && (0u8 | val) & 0x7fu8 == val && (0u8 | val) & 0x80u8 == 0) by (bit_vector);
    //@end
    //@fn src/runtime.rs "impl Note" get_midi -> r
    //| ensures r.0 == self.pitch(), r.1 == self.natural(), r.0 < 128,
    //@enter
    //| let ghost b = self.0; assert(b & 0x7fu8 < 128) by (bit_vector);
    //@end
    //@fn src/runtime.rs "impl Note" from_name -> r
    //@sub name\.trim\(\)\.chars\(\)\.peekable\(\) ==> letters(name)
    //@sub c\.next\(\)\.unwrap_or\('\\0'\)\.to_ascii_uppercase\(\) ==> uppercase(c.next().unwrap_or('\\0'))
    //@sub SHARP_NOTES\.split\(' '\) ==> pieces(SHARP_NOTES, ' ')
    //@sub find\(\|(\w+)\| ([^?]*)\)\?\.0 ==> find(|\1: &(usize, Piece)| -> (y: bool) ensures y == (\2) { \2 })?.0
    //@sub CompactString ==> Text
    //@sub \.parse::<i32>\(\)\.ok\(\) ==> .parse_i32()
    //| requires trimmed(name@).len() < 0x8000_0000,
    //| ensures match spelled(name@) { Some((p, n)) => (r is Some <==> 0 <= p < 128) && (r is Some ==> r->Some_0.pitch() == p && r->Some_0.natural() == n), None => r is None },
    //@enter
    //| let ghost whole = trimmed(name@);
    //| proof { sharps(); }
    //@ghost "let mut natural = false;"
    //| assert(c.left() == whole.skip(1));
    //| assert(above_c(upper(whole[0])) is Some && note as int == (above_c(upper(whole[0]))->Some_0 + 3) % 12);
    //@loop 1
    //| invariant whole == trimmed(name@), whole.len() > 0, above_c(upper(whole[0])) is Some, note as int == (above_c(upper(whole[0]))->Some_0 + 3) % 12, whole.len() < 0x8000_0000, c.left().len() < whole.len(), -(whole.len() - c.left().len()) < delta < whole.len() - c.left().len(), marks(c.left(), wide(octave), delta as int, natural) == marks(whole.skip(1), None, 0, false),
    //| ensures c.left().len() == 0,
    //| decreases c.left().len()
    //@top 1
    //| let ghost at = c.left();
    //@loop 2
    //| invariant 1 <= v.chars().len() <= at.len(), v.chars() == at.take(v.chars().len() as int), c.left() == at.skip(v.chars().len() as int), forall|i: int| 1 <= i < v.chars().len() ==> digit(#[trigger] at[i]),
    //| ensures v.chars().len() < at.len() ==> !digit(at[v.chars().len() as int]),
    //| decreases c.left().len()
    //@ghost BEFORE "octave = Some(v."
    //| proof { run_is(at, 1, v.chars().len() as int); }
    //@end
    //@fn src/runtime.rs "impl Note" get_name -> r
    //@sub CompactString ==> Text
    //@sub \}\.split\(' '\) ==> }, ' ')
    //@sub let note = if ==> let note = pieces(if
    //@sub format_compact!\("\{note\}\{octave\}"\) ==> written(note, octave)
    //| ensures spelled(r.chars()) is Some, spelled(r.chars())->Some_0.0 == self.pitch(),
    //@enter
    //| proof { sharps(); flats(); let b = self.0; assert(b & 0x7fu8 < 128) by (bit_vector); name_reads(self.pitch(), prefer_sharps); }
    //@end
}
}
// ---- end
}
fn main() {}
