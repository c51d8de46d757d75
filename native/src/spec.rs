//! Independent executable specification of values and of the value operations (plain Rust, no VM code).
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::cmp::Ordering;
use unicode_segmentation::UnicodeSegmentation;
use crate::interp::{Clo, Ent};

pub type L = Rc<RefCell<Vec<V>>>;
#[derive(Clone)]
pub enum V { Bool(bool), Num(f64), Text(String), List(L), Closure(Rc<Clo>), Entity(Rc<Ent>), Native(Rc<i32>), Image(Rc<(Vec<u8>, Option<(f64, f64)>, String)>), Audio(Rc<(Vec<u8>, String)>) }
pub type Err = String; // Debug form of the error cause
pub type R<T> = Result<T, Err>;

thread_local! { pub static STEPS: std::cell::Cell<u64> = std::cell::Cell::new(0); }
/// Work budget of one turn: a case that exceeds it is cut short there.
pub fn step() { STEPS.with(|s| { let n = s.get(); if n == 0 { std::panic::panic_any(crate::sym::Discard) } s.set(n - 1) }) }
pub fn list(v: Vec<V>) -> V { for _ in 0..v.len() / 8 { step() } V::List(Rc::new(RefCell::new(v))) }
pub fn text(s: &str) -> V { V::Text(s.to_string()) }
pub fn num(x: f64) -> R<V> { Ok(V::Num(fin(x)?)) }
pub fn fin(x: f64) -> R<f64> {
    if x.is_nan() { return Err("NumberError { error: Nan }".into()) }
    if x.is_infinite() { return Err("NumberError { error: Infinity }".into()) }
    Ok(if x == 0.0 { 0.0 } else { x })
}
pub fn ptr<T: ?Sized>(x: &Rc<T>) -> usize { Rc::as_ptr(x) as *const () as usize }
fn conv<T>(got: &V, exp: &str) -> R<T> { Err(format!("ConversionError {{ got: {}, expected: {exp} }}", got.ty())) }
impl V {
    pub fn ty(&self) -> &'static str { match self { V::Bool(_) => "Bool", V::Num(_) => "Number", V::Text(_) => "Text", V::List(_) => "List", V::Closure(_) => "Closure", V::Entity(_) => "Entity", V::Native(_) => "Native(NT)", V::Image(_) => "Image", V::Audio(_) => "Audio" } }
    pub fn bool(&self) -> R<bool> { match self { V::Bool(x) => Ok(*x), x => conv(x, "Bool") } }
    pub fn num(&self) -> R<f64> { match self { V::Num(x) => Ok(*x), V::Text(s) => match parse_num(s) { Some(x) => Ok(x), None => conv(self, "Number") }, x => conv(x, "Number") } }
    pub fn txt(&self) -> R<String> { match self { V::Text(s) => Ok(s.clone()), V::Num(x) => Ok(show_num(*x)), x => conv(x, "Text") } }
    pub fn lst(&self) -> R<L> { match self { V::List(l) => Ok(l.clone()), x => conv(x, "List") } }
    pub fn clo(&self) -> R<Rc<Clo>> { match self { V::Closure(l) => Ok(l.clone()), x => conv(x, "Closure") } }
    pub fn ent(&self) -> R<Rc<Ent>> { match self { V::Entity(l) => Ok(l.clone()), x => conv(x, "Entity") } }
    fn id(&self) -> Option<usize> { match self { V::List(l) => Some(ptr(l)), _ => None } }
}
/// Shortest text of a number that reads back as the same number.
pub fn show_num(x: f64) -> String {
    if x == 0.0 { return "0".into() }
    let s = format!("{:e}", x.abs());
    let (m, e) = s.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let n = digits.len() as i32;
    let point = e + 1; // position of the decimal point relative to the digits
    let body = if point >= n && point <= 16 { format!("{digits}{}", "0".repeat((point - n) as usize)) }
        else if point > 0 && point <= 16 { format!("{}.{}", &digits[..point as usize], &digits[point as usize..]) }
        else if point > -5 && point <= 0 { format!("0.{}{digits}", "0".repeat(-point as usize)) }
        else if n == 1 { format!("{digits}e{e}") }
        else { format!("{}.{}e{e}", &digits[..1], &digits[1..]) };
    if x < 0.0 { format!("-{body}") } else { body }
}
pub fn parse_num(s: &str) -> Option<f64> {
    let s = s.trim();
    let radix = |r: u32| -> Option<f64> {
        let t = &s[2..];
        let (neg, d) = match t.as_bytes().first()? { b'-' => (true, &t[1..]), b'+' => (false, &t[1..]), _ => (false, t) };
        if d.is_empty() { return None }
        let mut acc: i128 = 0;
        for c in d.chars() { acc = acc * r as i128 + c.to_digit(r)? as i128; if acc > 1i128 << 64 { return None } }
        let v = if neg { -acc } else { acc };
        if v < i64::MIN as i128 || v > i64::MAX as i128 { None } else { Some(v as i64 as f64) }
    };
    let v = match s.get(..2) {
        Some("0x" | "0X") => radix(16), Some("0o" | "0O") => radix(8), Some("0b" | "0B") => radix(2),
        _ => s.parse::<f64>().ok(),
    }?;
    fin(v).ok()
}
pub fn modulus(a: f64, b: f64) -> f64 {
    // sign of the divisor, magnitude strictly below it
    let r = a % b;
    if r != 0.0 && (r < 0.0) != (b < 0.0) { r + b } else { r }
}
pub fn display(v: &V) -> String {
    fn go(v: &V, out: &mut String, open: &mut Vec<usize>) {
        step();
        match v {
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Num(x) => out.push_str(&format!("{x}")),
            V::Text(s) => out.push_str(s),
            V::Entity(e) => out.push_str(&format!("Entity {:?}", e.name)),
            V::Closure(_) | V::Image(_) | V::Audio(_) => std::panic::panic_any(crate::sym::Discard), // shown with an address or a code position
            V::Native(n) => out.push_str(&format!("Nat({n})")),
            V::List(l) => {
                if open.contains(&ptr(l)) { out.push_str("[...]"); return }
                open.push(ptr(l));
                out.push('[');
                for (i, x) in l.borrow().iter().enumerate() { if i > 0 { out.push(',') } go(x, out, open) }
                out.push(']');
                open.pop();
            }
        }
    }
    let mut s = String::new();
    go(v, &mut s, &mut vec![]);
    s
}
pub fn index(v: &V, len: usize) -> R<usize> {
    let x = v.num()?;
    let i = x as i64;
    if i as f64 != x { return Err(format!("IndexNotInteger {{ index: {x:?} }}")) }
    if i < 1 || i as i128 > len as i128 { return Err(format!("IndexOutOfBounds {{ index: {i}, len: {len} }}")) }
    Ok(i as usize - 1)
}
pub fn oob0<T>() -> R<T> { Err("IndexOutOfBounds { index: 1, len: 0 }".into()) }
/// Every distinct position named by a (nested) index value, ascending.
pub fn index_set(v: &V, len: usize) -> R<Vec<usize>> {
    fn go(v: &V, len: usize, seen: &mut HashSet<usize>, out: &mut Vec<usize>) -> R<()> {
        match v {
            V::List(l) => if seen.insert(ptr(l)) { let items = l.borrow().clone(); for x in &items { go(x, len, seen, out)? } },
            x => out.push(index(x, len)?),
        }
        Ok(())
    }
    let mut out = vec![];
    go(v, len, &mut HashSet::new(), &mut out)?;
    out.sort(); out.dedup();
    Ok(out)
}
pub fn flatten(v: &V) -> R<Vec<V>> {
    fn go(v: &V, open: &mut Vec<usize>, out: &mut Vec<V>) -> R<()> {
        step();
        match v {
            V::List(l) => {
                if open.contains(&ptr(l)) { return Err("CyclicValue".into()) }
                open.push(ptr(l));
                for x in l.borrow().iter() { go(x, open, out)? }
                open.pop();
            }
            x => out.push(x.clone()),
        }
        Ok(())
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out)?;
    Ok(out)
}
/// Per nesting depth, the longest list found there.
pub fn dims(v: &V) -> R<Vec<usize>> {
    fn go(v: &V, d: usize, open: &mut Vec<usize>, out: &mut Vec<usize>) -> R<()> {
        step();
        if let V::List(l) = v {
            if open.contains(&ptr(l)) { return Err("CyclicValue".into()) }
            open.push(ptr(l));
            if out.len() == d { out.push(0) }
            out[d] = out[d].max(l.borrow().len());
            for x in l.borrow().iter() { go(x, d + 1, open, out)? }
            open.pop();
        }
        Ok(())
    }
    let mut out = vec![];
    go(v, 0, &mut vec![], &mut out)?;
    Ok(out)
}
pub fn reshape(v: &V, dims: &[usize]) -> R<V> {
    let src = flatten(v)?;
    if src.is_empty() { return Err("EmptyList".into()) }
    fn go(src: &[V], at: &mut usize, dims: &[usize]) -> V {
        step();
        match dims {
            [] => { let r = src[*at % src.len()].clone(); *at += 1; r }
            [n, rest @ ..] => { let mut out = vec![]; for _ in 0..*n { out.push(go(src, at, rest)) } list(out) }
        }
    }
    Ok(go(&src, &mut 0, dims))
}
pub fn columns(v: &V) -> R<V> {
    let rows = v.lst()?;
    let rows = rows.borrow();
    let width = rows.iter().map(|r| if let V::List(l) = r { l.borrow().len() } else { 1 }).max().unwrap_or(0);
    Ok(list((0..width).map(|c| list(rows.iter().map(|r| match r { V::List(l) => l.borrow().get(c).cloned().unwrap_or_else(|| text("")), x => x.clone() }).collect())).collect()))
}
pub fn product(src: &[L]) -> V {
    if src.is_empty() { return list(vec![]) }
    let mut acc: Vec<Vec<V>> = vec![vec![]];
    for l in src {
        let items = l.borrow().clone();
        acc = acc.into_iter().flat_map(|p| items.iter().map(move |x| { let mut q = p.clone(); q.push(x.clone()); q }).collect::<Vec<_>>()).collect();
    }
    list(acc.into_iter().map(list).collect())
}
pub fn from_csv(s: &str) -> R<V> {
    let bad = || -> R<V> { Err(format!("NotCsv {{ value: {s:?} }}")) };
    if s.is_empty() { return Ok(list(vec![])) }
    let c: Vec<char> = s.chars().collect();
    let (mut rows, mut row, mut i) = (vec![], vec![], 0);
    loop {
        let mut cell = String::new();
        if i < c.len() && c[i] == '"' {
            i += 1;
            loop {
                match c.get(i) {
                    None => return bad(),
                    Some('"') if c.get(i + 1) == Some(&'"') => { cell.push('"'); i += 2 }
                    Some('"') => { i += 1; break }
                    Some(x) => { cell.push(*x); i += 1 }
                }
            }
        } else {
            while i < c.len() && c[i] != ',' && c[i] != '\n' {
                if c[i] == '"' { return bad() }
                cell.push(c[i]); i += 1;
            }
        }
        row.push(V::Text(cell));
        match c.get(i) {
            None => { rows.push(list(row)); return Ok(list(rows)) }
            Some(',') => i += 1,
            Some('\n') => { rows.push(list(std::mem::take(&mut row))); i += 1 }
            Some(_) => return bad(),
        }
    }
}
pub fn to_csv(v: &V) -> R<String> {
    let l = v.lst()?;
    let l = l.borrow();
    let cell = |v: &V| -> R<String> { let t = v.txt()?; Ok(if t.contains(['"', ',', '\n']) { format!("\"{}\"", t.replace('"', "\"\"")) } else { t }) };
    let row = |r: &[V]| -> R<String> { Ok(r.iter().map(|x| cell(x)).collect::<R<Vec<_>>>()?.join(",")) };
    if l.iter().any(|x| matches!(x, V::List(_))) { Ok(l.iter().map(|r| { let r = r.lst()?; let r = r.borrow(); row(&r) }).collect::<R<Vec<_>>>()?.join("\n")) } else { row(&l) }
}
pub fn to_json(v: &V) -> R<serde_json::Value> {
    // cycles and complex types are rejected before images and audio
    fn simple(v: &V, open: &mut Vec<usize>) -> R<()> {
        step();
        match v {
            V::List(l) => {
                if open.contains(&ptr(l)) { return Err("ToSimpleError { error: Cyclic }".into()) }
                open.push(ptr(l));
                for x in l.borrow().iter() { simple(x, open)? }
                open.pop();
                Ok(())
            }
            V::Closure(_) | V::Entity(_) | V::Native(_) => Err(format!("ToSimpleError {{ error: ComplexType({}) }}", v.ty())),
            _ => Ok(()),
        }
    }
    fn go(v: &V) -> R<serde_json::Value> {
        step();
        Ok(match v {
            V::Bool(b) => serde_json::Value::Bool(*b),
            V::Num(x) => serde_json::Value::Number(serde_json::Number::from_f64(*x).unwrap()),
            V::Text(s) => serde_json::Value::String(s.clone()),
            V::List(l) => serde_json::Value::Array(l.borrow().iter().map(go).collect::<R<_>>()?),
            x => return Err(format!("IntoJsonError {{ error: ComplexType({}) }}", x.ty())),
        })
    }
    simple(v, &mut vec![])?;
    let j = go(v)?;
    Ok(j)
}
pub fn simple_check(v: &V) -> R<()> { match to_json(v) { Err(e) if e.starts_with("ToSimple") => Err(e), _ => Ok(()) } }
pub fn from_json(j: &serde_json::Value) -> R<V> {
    use serde_json::Value as J;
    Ok(match j {
        J::Null => return Err("FromJsonError { error: Null }".into()),
        J::Bool(b) => V::Bool(*b),
        J::Number(x) => num(x.as_f64().unwrap())?,
        J::String(s) => V::Text(s.clone()),
        J::Array(a) => list(a.iter().map(from_json).collect::<R<_>>()?),
        J::Object(o) => list(o.iter().map(|(k, v)| Ok(list(vec![text(k), from_json(v)?]))).collect::<R<_>>()?),
    })
}
pub fn cmp(a: &V, b: &V) -> R<Option<Ordering>> {
    fn fold(a: &str, b: &str) -> Ordering { unicase::UniCase::new(a).cmp(&unicase::UniCase::new(b)) }
    fn nums(a: f64, b: f64) -> Option<Ordering> { a.partial_cmp(&b) }
    fn go(a: &V, b: &V, memo: &mut HashMap<(usize, usize), Option<Option<Ordering>>>) -> R<Option<Ordering>> {
        step();
        Ok(match (a, b) {
            (V::Bool(a), V::Bool(b)) => Some(a.cmp(b)),
            (V::Num(a), V::Num(b)) => nums(*a, *b),
            (V::Text(a), V::Text(b)) => match (parse_num(a), parse_num(b)) { (Some(a), Some(b)) => nums(a, b), _ => Some(fold(a, b)) },
            (V::Num(a), V::Text(b)) => match parse_num(b) { Some(b) => nums(*a, b), None => Some(fold(&show_num(*a), b)) },
            (V::Text(a), V::Num(b)) => match parse_num(a) { Some(a) => nums(a, *b), None => Some(fold(a, &show_num(*b))) },
            (V::List(x), V::List(y)) => {
                let key = (ptr(x), ptr(y));
                match memo.get(&key) { Some(Some(r)) => return Ok(*r), Some(None) => return Err("CyclicValue".into()), None => () }
                memo.insert(key, None);
                let (x, y) = (x.borrow().clone(), y.borrow().clone());
                let mut r = None;
                for (a, b) in x.iter().zip(&y) {
                    match go(a, b, memo)? { Some(Ordering::Equal) => (), o => { r = Some(o); break } }
                }
                let r = r.unwrap_or_else(|| Some(x.len().cmp(&y.len())));
                memo.insert(key, Some(r));
                r
            }
            (V::Image(a), V::Image(b)) => same(Rc::ptr_eq(a, b)),
            (V::Audio(a), V::Audio(b)) => same(Rc::ptr_eq(a, b)),
            (V::Closure(a), V::Closure(b)) => same(Rc::ptr_eq(a, b)),
            (V::Entity(a), V::Entity(b)) => same(Rc::ptr_eq(a, b)),
            (V::Native(a), V::Native(b)) => same(Rc::ptr_eq(a, b)),
            _ => None,
        })
    }
    fn same(b: bool) -> Option<Ordering> { if b { Some(Ordering::Equal) } else { None } }
    go(a, b, &mut HashMap::new())
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rel { Eq, Ne, Lt, Le, Gt, Ge }
pub fn relation(a: &V, b: &V, r: Rel) -> R<bool> {
    let o = cmp(a, b)?;
    Ok(match (r, o) {
        (Rel::Eq, o) => o == Some(Ordering::Equal),
        (Rel::Ne, o) => o != Some(Ordering::Equal),
        (_, None) => return Err(format!("Incomparable {{ left: {}, right: {} }}", a.ty(), b.ty())),
        (Rel::Lt, Some(o)) => o == Ordering::Less, (Rel::Le, Some(o)) => o != Ordering::Greater,
        (Rel::Gt, Some(o)) => o == Ordering::Greater, (Rel::Ge, Some(o)) => o != Ordering::Less,
    })
}
pub fn identical(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Bool(a), V::Bool(b)) => a == b, (V::Num(a), V::Num(b)) => a == b, (V::Text(a), V::Text(b)) => a == b,
        (V::List(a), V::List(b)) => Rc::ptr_eq(a, b), (V::Closure(a), V::Closure(b)) => Rc::ptr_eq(a, b), (V::Entity(a), V::Entity(b)) => Rc::ptr_eq(a, b),
        (V::Native(a), V::Native(b)) => Rc::ptr_eq(a, b), (V::Image(a), V::Image(b)) => Rc::ptr_eq(a, b), (V::Audio(a), V::Audio(b)) => Rc::ptr_eq(a, b),
        _ => false,
    }
}
pub fn find(l: &L, v: &V) -> R<Option<usize>> {
    for (i, x) in l.borrow().iter().enumerate() { if cmp(x, v)? == Some(Ordering::Equal) { return Ok(Some(i)) } }
    Ok(None)
}
/// Element-wise lifting of a scalar operation over one (possibly shared or cyclic) list structure.
pub fn lift1(x: &V, det: bool, f: &mut dyn FnMut(&V) -> R<V>) -> R<V> {
    fn go(x: &V, det: bool, memo: &mut HashMap<usize, V>, f: &mut dyn FnMut(&V) -> R<V>) -> R<V> {
        step();
        match x {
            V::List(l) => {
                if let Some(r) = memo.get(&ptr(l)) { return Ok(r.clone()) }
                let res: L = Default::default();
                memo.insert(ptr(l), V::List(res.clone()));
                let items = l.borrow().clone();
                for i in &items { let r = go(i, det, memo, f)?; res.borrow_mut().push(r) }
                if !det { memo.remove(&ptr(l)); }
                Ok(V::List(res))
            }
            x => f(x),
        }
    }
    go(x, det, &mut HashMap::new(), f)
}
/// Where an operand of a lifted operation comes from: operands from the same place are the same operand.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Place { List(usize), Top, In(usize, usize) }
/// Element-wise lifting over two structures: tables pair up row by row first, then plain lists item by item; the shorter decides.
pub fn lift2(a: &V, b: &V, f: &mut dyn FnMut(&V, &V) -> R<V>) -> R<V> {
    fn table(v: &V) -> bool { match v { V::List(l) => matches!(l.borrow().first(), Some(V::List(_))), _ => false } }
    fn go(a: &V, pa: Place, b: &V, pb: Place, tables: bool, memo: &mut HashMap<(Place, Place, bool), V>, f: &mut dyn FnMut(&V, &V) -> R<V>) -> R<V> {
        step();
        let is = |v: &V| if tables { table(v) } else { matches!(v, V::List(_)) };
        let (la, lb) = (is(a), is(b));
        if !la && !lb { return if tables { go(a, pa, b, pb, false, memo, f) } else { f(a, b) } }
        let place = |v: &V, p: Place| match v { V::List(l) => Place::List(ptr(l)), _ => p };
        let (ka, kb) = (place(a, pa), place(b, pb));
        if let Some(r) = memo.get(&(ka, kb, tables)) { return Ok(r.clone()) }
        let res: L = Default::default();
        memo.insert((ka, kb, tables), V::List(res.clone()));
        let items = |v: &V| if let V::List(l) = v { l.borrow().clone() } else { unreachable!() };
        let (ia, ib) = (if la { items(a) } else { vec![] }, if lb { items(b) } else { vec![] });
        let n = match (la, lb) { (true, true) => ia.len().min(ib.len()), (true, false) => ia.len(), _ => ib.len() };
        let inside = |v: &V, i: usize| match v { V::List(l) => Place::In(ptr(l), i), _ => Place::Top };
        for i in 0..n {
            let r = go(if la { &ia[i] } else { a }, if la { inside(a, i) } else { ka }, if lb { &ib[i] } else { b }, if lb { inside(b, i) } else { kb }, tables, memo, f)?;
            res.borrow_mut().push(r);
        }
        Ok(V::List(res))
    }
    go(a, Place::Top, b, Place::Top, true, &mut HashMap::new(), f)
}
pub fn graphemes(s: &str) -> Vec<String> { s.graphemes(true).map(|x| x.to_string()).collect() }
pub fn words(s: &str) -> Vec<String> { s.unicode_words().map(|x| x.to_string()).collect() }

/// Structure of several values at once, naming every shared list by first visit: equal strings mean equal graphs (sharing and cycles included).
pub fn canon(vs: &[V]) -> String {
    let mut seen: HashMap<usize, usize> = HashMap::new();
    fn go(v: &V, seen: &mut HashMap<usize, usize>, out: &mut String) {
        let mut named = |p: usize, out: &mut String, pre: &str| -> bool { let n = seen.len(); match seen.get(&p) { Some(i) => { out.push_str(&format!("{pre}@{i}")); true } None => { seen.insert(p, n); out.push_str(&format!("{pre}#{n}")); false } } };
        match v {
            V::Bool(b) => out.push_str(&format!("{b}")),
            V::Num(x) => out.push_str(&format!("{x:?}")),
            V::Text(s) => out.push_str(&format!("{s:?}")),
            V::Native(n) => out.push_str(&format!("nat{n}")),
            V::Entity(e) => out.push_str(&format!("ent:{}", e.label())),
            V::Closure(c) => { named(ptr(c), out, "clo"); }
            V::Image(i) => { if !named(ptr(i), out, "img") { out.push_str(&format!("{:?}", (&i.0, &i.1, &i.2))) } }
            V::Audio(i) => { if !named(ptr(i), out, "snd") { out.push_str(&format!("{:?}", (&i.0, &i.1))) } }
            V::List(l) => if !named(ptr(l), out, "") {
                out.push('[');
                for (i, x) in l.borrow().iter().enumerate() { if i > 0 { out.push(' ') } go(x, seen, out) }
                out.push(']');
            }
        }
    }
    let mut out = String::new();
    for (i, v) in vs.iter().enumerate() { if i > 0 { out.push_str(" | ") } go(v, &mut seen, &mut out) }
    out
}
