//! Further independent reference definitions: note names, calendar, the JSON form of values, base64.
use crate::spec::*;
use netsblox_vm::ast::TimeQuery;

/// A note as a MIDI number (0 to 127) or as a name such as `A#3`.
pub fn note(v: &V) -> R<u8> {
    let bad = |s: &str| Err(format!("NoteNotMidi {{ note: {s:?} }}"));
    if let Ok(x) = v.num() {
        if x != x.trunc() || x.abs() > 9.3e18 { return Err(format!("NoteNotInteger {{ note: {x:?} }}")) }
        return if (0.0..=127.0).contains(&x) { Ok(x as u8) } else { bad(&format!("{}", x as i64)) }
    }
    let s = v.txt()?;
    match note_name(&s) { Some(n) => Ok(n), None => bad(&s) }
}
pub fn note_name(s: &str) -> Option<u8> {
    let t: Vec<char> = s.trim().chars().collect();
    let base = match t.first()?.to_ascii_uppercase() { 'C' => 0, 'D' => 2, 'E' => 4, 'F' => 5, 'G' => 7, 'A' => 9, 'B' => 11, _ => return None };
    let (mut delta, mut octave, mut i) = (0i64, None::<i64>, 1);
    while i < t.len() {
        match t[i] {
            's' | '#' | '♯' => { delta += 1; i += 1 }
            'b' | '♭' => { delta -= 1; i += 1 }
            'n' | '♮' => i += 1,
            '+' | '-' | '0'..='9' => {
                if octave.is_some() { return None }
                let neg = t[i] == '-';
                if !t[i].is_ascii_digit() { i += 1 }
                let st = i;
                let mut v = 0i64;
                while i < t.len() && t[i].is_ascii_digit() { v = (v * 10 + t[i] as i64 - 48).min(1 << 40); i += 1 }
                let v = if neg { -v } else { v };
                if i == st || v > i32::MAX as i64 || v < i32::MIN as i64 { return None }
                octave = Some(v);
            }
            _ => return None,
        }
    }
    let n = 12 * (octave? + 1) + base + delta;
    if (0..=127).contains(&n) { Some(n as u8) } else { None }
}
pub fn base64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 { if k <= c.len() { s.push(T[(n >> (18 - 6 * k)) as usize & 63] as char) } else { s.push('=') } }
    }
    s
}
pub fn xml(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), '"' => o.push_str("&quot;"), '\'' => o.push_str("&apos;"), '\n' => o.push_str("&#xD;"), c => o.push(c) } } o }
pub fn netsblox_json(v: &V) -> serde_json::Value {
    use serde_json::Value as J;
    match v {
        V::Bool(b) => J::Bool(*b), V::Num(x) => J::Number(serde_json::Number::from_f64(*x).unwrap()), V::Text(s) => J::String(s.clone()),
        V::List(l) => J::Array(l.borrow().iter().map(netsblox_json).collect()),
        V::Image(i) => J::String(format!("<costume name=\"{}\"{} image=\"data:image/png;base64,{}\" />", xml(&i.2), i.1.map_or(String::new(), |c| format!(" center-x=\"{}\" center-y=\"{}\"", c.0, c.1)), base64(&i.0))),
        V::Audio(i) => J::String(format!("<sound name=\"{}\" sound=\"data:audio/mpeg;base64,{}\" />", xml(&i.1), base64(&i.0))),
        _ => unreachable!(),
    }
}
/// Calendar fields of a UTC time in milliseconds since 1970 (proleptic Gregorian).
pub fn civil(ms: u64, q: &TimeQuery) -> f64 {
    let (mut days, sod) = (ms / 86_400_000, ms / 1000 % 86_400);
    let leap = |y: u64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dow = (days + 4) % 7 + 1; // 1970-01-01 was a Thursday; Sunday is 1
    let mut y = 1970;
    loop { let n = if leap(y) { 366 } else { 365 }; if days < n { break } days -= n; y += 1 }
    let mut m = 0;
    for (i, n) in [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31].into_iter().enumerate() { if days < n { m = i as u64 + 1; break } days -= n }
    (match q { TimeQuery::Year => y, TimeQuery::Month => m, TimeQuery::Date => days + 1, TimeQuery::DayOfWeek => dow, TimeQuery::Hour => sod / 3600, TimeQuery::Minute => sod / 60 % 60, TimeQuery::Second => sod % 60, TimeQuery::UnixTimestampMs => ms }) as f64
}
