//! Compiled code reads back as written.
use crate::*;
use crate::sym::*;
use netsblox_vm::runtime::*;
use netsblox_vm::bytecode::verif as b;
#[allow(unused_imports)] use crate::dummy::*;

contracts! {
    // @begin code_u64
    #[kani::unwind(13)]
    fn code_u64() {
        let (v, pre, post) = (any::<u64>(), any::<u8>(), any::<u8>());
        let mut out = Vec::with_capacity(16);
        out.push(pre);
        b::enc_u64(v, &mut out, None);
        let n = out.len();
        check!(n >= 2 && n <= 11 && out[0] == pre, "code/integer takes one to ten bytes after what was there", v);
        let bits = 64 - v.leading_zeros() as usize;
        check!(n - 1 == if bits == 0 { 1 } else { (bits + 6) / 7 }, "code/integer takes the fewest bytes", v);
        out.push(post);
        check!(b::dec_u64(&out, 1) == (v, n), "code/integer reads back and ends where written", v);
        core::mem::forget(out);
    }
    // @end
    // @begin code_u64_fixed
    #[kani::unwind(13)]
    fn code_u64_fixed() {
        let (v, post) = (any::<u64>(), any::<u8>());
        let mut out = Vec::with_capacity(16);
        b::enc_u64(v, &mut out, Some(b::MAX_U64));
        check!(out.len() == b::MAX_U64, "code/full-width integer has the full width", v);
        out.push(post);
        check!(b::dec_u64(&out, 0) == (v, b::MAX_U64), "code/full-width integer reads back", v);
        core::mem::forget(out);
    }
    // @end
    // @begin code_u64_total
    #[kani::unwind(13)]
    fn code_u64_total() {
        // decoding any canonical byte string yields a value whose encoding is that byte string
        let bytes = [any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()];
        let n = if bytes[0] < 128 { 1 } else if bytes[1] < 128 { 2 } else if bytes[2] < 128 { 3 } else { 4 };
        assume(bytes[n - 1] < 128 && (n == 1 || bytes[n - 1] != 0));
        let (v, aft) = b::dec_u64(&bytes, 0);
        check!(aft == n, "code/decoding stops at the last byte of the integer", bytes);
        let mut out = Vec::with_capacity(16);
        b::enc_u64(v, &mut out, None);
        check!(out.len() == n && out[0] == bytes[0] && out[n - 1] == bytes[n - 1], "code/decoding is injective", bytes);
        core::mem::forget(out);
    }
    // @end
    // @begin code_i32
    #[kani::unwind(13)]
    fn code_i32() {
        let v = any::<i32>();
        let mut out = Vec::with_capacity(16);
        out.push(any::<u8>());
        let (clean, x, a) = b::rt_i32(v, &mut out, 1);
        check!(clean && x == v && a == out.len(), "code/signed integer reads back", v);
        check!(out.len() <= 6, "code/signed integer takes at most five bytes", v);
        core::mem::forget(out);
    }
    // @end
    // @begin code_f64
    #[kani::unwind(13)]
    fn code_f64() {
        let v = any::<f64>();
        let mut out = Vec::with_capacity(16);
        out.push(any::<u8>());
        let (clean, x, a) = b::rt_f64(v, &mut out, 1);
        check!(clean && (x.to_bits() == v.to_bits() || v.is_nan()) && a == out.len(), "code/float reads back bit for bit", v);
        core::mem::forget(out);
    }
    // @end
    // @begin code_small
    #[kani::unwind(13)]
    fn code_small() {
        let (c, f) = (Color { r: any(), g: any(), b: any(), a: any() }, any::<bool>());
        let n = any::<usize>();
        let mut out = Vec::with_capacity(32);
        out.push(any::<u8>());
        let (clean, x, a) = b::rt_color(c, &mut out, 1);
        check!(clean && x == c && a == out.len(), "code/colour reads back", c.r, c.g, c.b, c.a);
        out.truncate(1);
        let (clean, x, a) = b::rt_bool(f, &mut out, 1);
        check!(clean && x == f && a == out.len(), "code/flag reads back", f);
        out.truncate(1);
        let (clean, x, a) = b::rt_usize(n, &mut out, 1);
        check!(clean && x == n && a == out.len(), "code/position reads back", n);
        core::mem::forget(out);
    }
    // @end
    // @begin code_len
    #[kani::unwind(13)]
    fn code_len() {
        let (n, d) = (any::<usize>(), any::<bool>());
        assume(n < usize::MAX);
        let want = if d { None } else { Some(n) };
        let mut out = Vec::with_capacity(16);
        out.push(any::<u8>());
        let (clean, x, a) = b::rt_len(want, &mut out, 1);
        check!(clean && x == want && a == out.len(), "code/operand count reads back", n, d);
        core::mem::forget(out);
    }
    // @end
    // @begin code_instr_plain
    #[kani::unwind(13)]
    fn code_instr_plain() {
        let mut out = Vec::with_capacity(32);
        check!(b::rt_plain_1(&mut out, 0) && b::rt_plain_2(&mut out, 0), "code/every plain instruction reads back as itself");
        core::mem::forget(out);
    }
    // @end
    // @begin code_instr_values
    #[kani::unwind(13)]
    fn code_instr_values() {
        let mut out = Vec::with_capacity(32);
        let (f, i, v) = (any::<bool>(), any::<i32>(), any::<f64>());
        assume(!v.is_nan());
        let c = Color { r: any(), g: any(), b: any(), a: any() };
        check!(b::rt_operand_1(&mut out, 0, f, i, v, c), "code/every value instruction reads back with its operand", f, i, v);
        core::mem::forget(out);
    }
    // @end
    // @begin code_instr_variadic
    #[kani::unwind(13)]
    fn code_instr_variadic() {
        let mut out = Vec::with_capacity(32);
        let (i, n, d) = (any::<u8>(), any::<usize>(), any::<bool>());
        assume(i < 8 && n < 1 << 20);
        check!(b::rt_operand_2(&mut out, 0, i, n, d), "code/every variadic instruction reads back with its operands", i, n, d);
        core::mem::forget(out);
    }
    // @end
    // @begin code_instr_ops
    #[kani::unwind(13)]
    fn code_instr_ops() {
        let mut out = Vec::with_capacity(32);
        let i = any::<u8>();
        assume(i < 64);
        check!(b::rt_operand_3(&mut out, 0, i), "code/every operator instruction reads back with its operator", i);
        check!(b::rt_operand_4(&mut out, 0, i), "code/every query instruction reads back with its operand", i);
        core::mem::forget(out);
    }
    // @end
    // @begin code_instr_flags
    #[kani::unwind(13)]
    fn code_instr_flags() {
        let mut out = Vec::with_capacity(32);
        let (x, y, n) = (any::<bool>(), any::<bool>(), any::<usize>());
        check!(b::rt_operand_5(&mut out, 0, x, y, n), "code/every flagged instruction reads back with its flags", x, y, n);
        core::mem::forget(out);
    }
    // @end
    // @begin code_instr_addr
    #[kani::unwind(13)]
    fn code_instr_addr() {
        let mut out = Vec::with_capacity(32);
        let (to, when) = (any::<usize>(), any::<bool>());
        check!(b::rt_addr(&mut out, 0, to, when), "code/every jump reads back with its target and is recorded for relocation", to, when);
        core::mem::forget(out);
    }
    // @end
    // @begin code_places
    #[kani::unwind(13)]
    fn code_places() {
        // locations written one way (a prefix, numbers joined by a separator, a suffix) are all accepted, and every address reports
        // the first one recorded past it; anything accepted does, however it is written
        let pick = |of: &'static [&'static str]| { let k = any::<u8>() as usize; of[k % of.len()] };
        let (pre, sep, suf) = (pick(&["item_", "", "collab_", "x", "a b:"]), pick(&["_", "::", ",", " é"]), pick(&["", "", "&", ">z"]));
        let (count, odd) = (any::<u8>() % 9, any::<u8>() % 4 == 0);
        let (mut at, mut map) = (any::<u16>() as usize, std::collections::BTreeMap::new());
        for _ in 0..count {
            let mut s = String::from(if odd && any::<u8>() % 3 == 0 { pick(&["item_", "", "itEm_", "_"]) } else { pre });
            for k in 0..1 + any::<u8>() % 4 {
                if k > 0 { s += if odd && any::<u8>() % 5 == 0 { pick(&["_", "::", ""]) } else { sep } }
                if odd && any::<u8>() % 9 == 0 { s += pick(&["-", "01", "+1", "-0", "1-", "9223372036854775808"]); continue }
                s += &(if odd { any::<i64>() } else { any::<i64>() / 4 }).to_string();
            }
            s += if odd && any::<u8>() % 3 == 0 { pick(&["", "&", "9"]) } else { suf };
            map.insert(at, s);
            at += 1 + if any::<u8>() % 2 == 0 { 0 } else { any::<u8>() as usize };
        }
        let view: std::collections::BTreeMap<usize, &str> = map.iter().map(|(k, v)| (*k, v.as_str())).collect();
        let mut asked: Vec<usize> = vec![0, any::<u16>() as usize, usize::MAX];
        for k in map.keys() { asked.extend([k.saturating_sub(1), *k, k + 1]) }
        let got = b::places(&view, &asked);
        check!(odd || got.is_some(), "code/locations written one way are accepted", format!("{map:?}"));
        if let Some(got) = got {
            reach!();
            for (p, g) in asked.iter().zip(&got) {
                let want = map.iter().find(|x| x.0 > p).map(|x| x.1.as_str());
                check!(g.as_deref() == want, "code/an address reports the first location recorded past it", format!("{map:?}"), p, format!("{g:?}"));
            }
        }
    }
    // @end
}
