//! Musical notes.
use crate::*;
use crate::sym::*;
use netsblox_vm::runtime::*;
use netsblox_vm::process::verif as v;
#[allow(unused_imports)] use crate::dummy::*;

contracts! {
    // @begin note_midi
    fn note_midi() {
        let (b, nat) = (any::<u8>(), any::<bool>());
        let n = Note::from_midi(b, nat);
        check!(n.is_some() == (b < 128), "note/from_midi accepts exactly 0..=127", b, nat);
        if let Some(n) = n { check!(n.get_midi() == (b, nat), "note/get_midi returns what was stored", b, nat); }
    }
    // @end
    // @begin note_natural_irrelevant
    fn note_natural_irrelevant() {
        let b = any::<u8>();
        assume(b < 128);
        let (a, c) = (Note::from_midi(b, false).unwrap(), Note::from_midi(b, true).unwrap());
        check!(a.get_midi().0 == c.get_midi().0, "note/pitch is independent of the natural mark", b);
    }
    // @end
    // @begin note_prep_number
    #[kani::unwind(22)]
    #[kani::stub(netsblox_vm::runtime::Note::from_name, crate::stubs::no_from_name)]
    fn note_prep_number() {
        let f = any::<f64>();
        assume(f.is_finite());
        let val: Value<C, S> = Value::Number(Number::new(f).unwrap());
        let r = v::prep_note(&val);
        let valid = f >= 0.0 && f <= 127.0 && f == (f as u8) as f64;
        check!(r.is_ok() == valid, "note/numeric note accepted exactly when an integer in 0..=127", f);
        if let Ok(n) = &r { check!(n.get_midi() == (f as u8, false), "note/numeric note keeps its pitch", f); }
        core::mem::forget(r);
        core::mem::forget(val);
    }
    // @end
    // @begin note_names
    fn note_names() {
        const SET: &[char] = &['A', 'b', 'C', 'c', 'd', 'E', 'f', 'G', 'g', 'h', '0', '1', '4', '5', '9', '-', '+', '#', 's', '\u{266f}', 'b', '\u{266d}', 'n', '\u{266e}', ' ', '\t', 'x', '#', '4', '3'];
        let n = (any::<u8>() % 8) as usize;
        let mut name: Vec<char> = (0..n).map(|_| SET[any::<u8>() as usize % SET.len()]).collect();
        if any::<bool>() { name.insert(0, ['A', 'B', 'C', 'D', 'E', 'F', 'G', 'a', 'c', 'g'][any::<u8>() as usize % 10]); }
        if any::<bool>() { name.push((b'0' + any::<u8>() % 10) as char); }
        let text: String = name.iter().collect();
        // the pitch spelled, read from the other end: strip the octave out, then count the accidentals
        let t: Vec<char> = text.trim().chars().collect();
        let spelled = (|| -> Option<i64> {
            let step = match t.first()?.to_ascii_lowercase() { 'c' => 0, 'd' => 2, 'e' => 4, 'f' => 5, 'g' => 7, 'a' => 9, 'b' => 11, _ => return None };
            let marks = &t[1..];
            let from = marks.iter().position(|c| "+-0123456789".contains(*c))?;
            let to = from + 1 + marks[from + 1..].iter().take_while(|c| c.is_ascii_digit()).count();
            let (octave, rest): (String, Vec<char>) = (marks[from..to].iter().collect(), marks[..from].iter().chain(&marks[to..]).copied().collect());
            if !octave.contains(|c: char| c.is_ascii_digit()) { return None }
            let octave: i64 = octave.trim_start_matches('+').parse().ok()?;
            let mut at = 12 * (octave + 1) + step;
            for c in rest { at += match c { 's' | '#' | '\u{266f}' => 1, 'b' | '\u{266d}' => -1, 'n' | '\u{266e}' => 0, _ => return None }; }
            if (0..128).contains(&at) { Some(at) } else { None }
        })();
        let got = Note::from_name(&text).map(|x| x.get_midi().0 as i64);
        check!(got == spelled, "note/a name is accepted exactly when it spells a pitch, and denotes that pitch", text);
        let val: Value<C, S> = Value::Text(text.as_str().into());
        let direct = text.parse::<f64>().ok();
        if direct.is_none() && !t.is_empty() && Value::<C, S>::Text(text.as_str().into()).as_number().is_err() {
            check!(v::prep_note(&val).ok().map(|x| x.get_midi().0 as i64) == spelled, "note/a name as an operand denotes the pitch it spells", text);
        }
        reach!();
    }
    // @end
    // @begin note_pitches
    fn note_pitches() {
        let _ = any::<u8>();
        for b in 0..128u8 {
            let (x, y) = (Note::from_midi(b, false).unwrap(), Note::from_midi(b, true).unwrap());
            check!(x.get_frequency().get() == y.get_frequency().get(), "note/frequency is independent of the natural mark", b);
            for sharps in [false, true] {
                check!(x.get_name(sharps) == y.get_name(sharps), "note/the name is independent of the natural mark", b, sharps);
                check!(Note::from_name(&x.get_name(sharps)).map(|n| n.get_midi().0) == Some(b), "note/reading back the name of a pitch gives the same pitch", b, sharps);
            }
        }
        reach!();
    }
    // @end
}
