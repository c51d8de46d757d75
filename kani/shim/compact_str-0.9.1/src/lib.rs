//! Verifier-only stand-in for `compact_str`: the same observable string type, backed by `String` instead of the
//! inline/heap union of the real crate. Formatting (`to_compact_string`, `format_compact!`) is abstracted to the empty
//! string under Kani: no contract discharged with this shim may depend on formatted text.
#![no_std]
extern crate alloc;
use alloc::{string::String, borrow::Cow, boxed::Box};
use core::{fmt, ops::Deref, borrow::Borrow};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct CompactString(String);
impl CompactString {
    pub fn new<T: AsRef<str>>(x: T) -> Self { Self(String::from(x.as_ref())) }
    pub const fn const_new(_: &'static str) -> Self { Self(String::new()) }
    pub fn with_capacity(n: usize) -> Self { Self(String::with_capacity(n)) }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn as_bytes(&self) -> &[u8] { self.0.as_bytes() }
    pub fn push(&mut self, c: char) { self.0.push(c) }
    pub fn push_str(&mut self, s: &str) { self.0.push_str(s) }
    pub fn pop(&mut self) -> Option<char> { self.0.pop() }
    pub fn clear(&mut self) { self.0.clear() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
    pub fn insert_str(&mut self, i: usize, s: &str) { self.0.insert_str(i, s) }
    pub fn into_string(self) -> String { self.0 }
    pub fn capacity(&self) -> usize { self.0.capacity() }
}
impl Deref for CompactString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl AsRef<str> for CompactString { fn as_ref(&self) -> &str { &self.0 } }
impl Borrow<str> for CompactString { fn borrow(&self) -> &str { &self.0 } }
impl fmt::Debug for CompactString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(self.as_str(), f) } }
impl fmt::Display for CompactString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self.as_str(), f) } }
impl fmt::Write for CompactString { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.push_str(s); Ok(()) } }
impl From<&str> for CompactString { fn from(x: &str) -> Self { Self(String::from(x)) } }
impl From<&String> for CompactString { fn from(x: &String) -> Self { Self(x.clone()) } }
impl From<String> for CompactString { fn from(x: String) -> Self { Self(x) } }
impl From<Box<str>> for CompactString { fn from(x: Box<str>) -> Self { Self(String::from(x)) } }
impl From<char> for CompactString { fn from(x: char) -> Self { let mut s = String::new(); s.push(x); Self(s) } }
impl<'a> From<Cow<'a, str>> for CompactString { fn from(x: Cow<'a, str>) -> Self { Self(x.into_owned()) } }
impl From<CompactString> for String { fn from(x: CompactString) -> Self { x.0 } }
impl core::str::FromStr for CompactString { type Err = core::convert::Infallible; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(s.into()) } }
impl PartialEq<str> for CompactString { fn eq(&self, o: &str) -> bool { self.as_str() == o } }
impl PartialEq<&str> for CompactString { fn eq(&self, o: &&str) -> bool { self.as_str() == *o } }
impl PartialEq<String> for CompactString { fn eq(&self, o: &String) -> bool { self.as_str() == o } }
impl PartialEq<CompactString> for str { fn eq(&self, o: &CompactString) -> bool { self == o.as_str() } }
impl PartialEq<CompactString> for &str { fn eq(&self, o: &CompactString) -> bool { *self == o.as_str() } }
impl PartialEq<CompactString> for String { fn eq(&self, o: &CompactString) -> bool { self == o.as_str() } }
impl core::iter::FromIterator<char> for CompactString { fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self { Self(i.into_iter().collect()) } }
impl Extend<char> for CompactString { fn extend<I: IntoIterator<Item = char>>(&mut self, i: I) { self.0.extend(i) } }

pub trait ToCompactString { fn to_compact_string(&self) -> CompactString; }
impl<T: fmt::Display> ToCompactString for T {
    #[cfg(kani)]
    fn to_compact_string(&self) -> CompactString { CompactString::default() }
    #[cfg(not(kani))]
    fn to_compact_string(&self) -> CompactString { use fmt::Write; let mut s = CompactString::default(); let _ = write!(s, "{self}"); s }
}
pub trait CompactStringExt {}
#[doc(hidden)] pub fn __fmt(_a: fmt::Arguments<'_>) -> CompactString {
    #[cfg(kani)] { CompactString::default() }
    #[cfg(not(kani))] { use fmt::Write; let mut s = CompactString::default(); let _ = s.write_fmt(_a); s }
}
#[macro_export] macro_rules! format_compact { ($($t:tt)*) => { $crate::__fmt(core::format_args!($($t)*)) } }
