//! Sprite properties.
use crate::*;
use crate::sym::*;
use crate::c_num::{num, same, anum};
use netsblox_vm::runtime::*;
use crate::dummy::*;

/// Where each number is kept, by place in an order of our own: the properties that hold numbers, then their ranges.
pub const NUMS: [Property; 21] = [Property::XPos, Property::YPos, Property::Heading, Property::Size, Property::PenSize, Property::PenColorH, Property::PenColorS, Property::PenColorV, Property::PenColorT,
    Property::Tempo, Property::Volume, Property::Balance, Property::ColorH, Property::ColorS, Property::ColorV, Property::ColorT, Property::Fisheye, Property::Whirl, Property::Pixelate, Property::Mosaic, Property::Negative];
#[derive(Clone, Copy, PartialEq)] pub enum Range { Any, Turn, Up, Percent }
pub fn range(k: usize) -> Range { match k { 2 | 5 | 12 => Range::Turn, 3 | 4 => Range::Up, 6 | 7 | 8 | 13 | 14 | 15 => Range::Percent, _ => Range::Any } }
pub fn field(p: &Properties, k: usize) -> f64 {
    match k { 0 => p.pos.0, 1 => p.pos.1, 2 => p.heading, 3 => p.size, 4 => p.pen_size, 5 => p.pen_color_h, 6 => p.pen_color_s, 7 => p.pen_color_v, 8 => p.pen_color_t, 9 => p.tempo, 10 => p.volume, 11 => p.balance,
        12 => p.effects.color_h, 13 => p.effects.color_s, 14 => p.effects.color_v, 15 => p.effects.color_t, 16 => p.effects.fisheye, 17 => p.effects.whirl, 18 => p.effects.pixelate, 19 => p.effects.mosaic, _ => p.effects.negative }.get()
}
pub fn n() -> Number { Number::new(anum()).unwrap() }
pub fn some() -> Properties {
    Properties { pos: (n(), n()), heading: n(), visible: any(), size: n(), pen_down: any(), pen_size: n(), pen_color_h: n(), pen_color_s: n(), pen_color_v: n(), pen_color_t: n(), tempo: n(), volume: n(), balance: n(),
        effects: Effects { color_h: n(), color_s: n(), color_v: n(), color_t: n(), fisheye: n(), whirl: n(), pixelate: n(), mosaic: n(), negative: n() } }
}
/// All properties but those listed are as before.
pub fn others(a: &Properties, b: &Properties, but: &[usize]) -> bool {
    let mut k = 0; let mut r = true;
    while k < 21 { let mut skip = false; let mut i = 0; while i < but.len() { if but[i] == k { skip = true } i += 1 } if !skip && !same(field(a, k), field(b, k)) { r = false } k += 1 }
    r
}
/// The remainder by 360, under the verifier an arbitrary number of the range, asked once.
#[cfg(kani)] static mut TURN: (u32, f64, f64, f64) = (0, 0.0, 0.0, 0.0);
#[cfg(kani)] pub fn turn_stub<T>(a: T, b: T) -> T { assert!(core::mem::size_of::<T>() == 8); unsafe { let t = TURN; TURN = (t.0 + 1, core::mem::transmute_copy(&a), core::mem::transmute_copy(&b), t.3); core::mem::transmute_copy(&t.3) } }
#[cfg(kani)] pub fn turn_reset() { let r: f64 = kani::any(); kani::assume(r >= 0.0 && r < 360.0 && !r.is_sign_negative()); unsafe { TURN = (0, 0.0, 0.0, r) } }
#[cfg(kani)] pub fn turn_of(x: f64) -> f64 { let t = unsafe { TURN }; crate::check!(t.0 == 1 && t.1 == x && t.2 == 360.0, "property/an angle is taken modulo 360"); t.3 }
#[cfg(not(kani))] pub fn turn_reset() { }
#[cfg(not(kani))] pub fn turn_of(x: f64) -> f64 { let r = x % 360.0; let r = if r < 0.0 { r + 360.0 } else { r }; if r == 0.0 { 0.0 } else { r } }
/// The value normalised to the documented range, if there is one.
pub fn normal(k: usize, x: f64) -> Option<f64> {
    let r = match range(k) {
        Range::Any => x,
        Range::Turn => { if !x.is_finite() { return None } turn_of(x) }
        Range::Up => if x > 0.0 { x } else { 0.0 },
        Range::Percent => if x > 100.0 { 100.0 } else if x > 0.0 { x } else { 0.0 },
    };
    if r.is_finite() { Some(r) } else { None }
}
pub fn pick(lo: usize, hi: usize) -> usize { let k = any::<u8>() as usize; assume(k >= lo && k < hi); k }
pub fn settled(before: &Properties, after: &Properties, k: usize, want: Option<f64>) -> bool { same(field(after, k), match want { Some(x) => x, None => field(before, k) }) }
pub fn answered(want: bool) -> bool { let t = told::take(); t.0 == 1 && t.1 == want }
pub fn set_one(k: usize) {
    let (mut p, x) = (some(), anum());
    let before = p; told::take(); turn_reset();
    p.perform_set_property::<C, S>(CK, NUMS[k], num(x));
    let want = normal(k, x);
    check!(settled(&before, &p, k, want), "property/set stores the value normalised to its range", k, x);
    check!(others(&before, &p, &[k]) && p.visible == before.visible && p.pen_down == before.pen_down, "property/set changes no other property", k, x);
    check!(answered(want.is_some()), "property/set is answered once", k, x);
}
pub fn change_one(k: usize) {
    let (mut p, x) = (some(), anum());
    let before = p; told::take(); turn_reset();
    let sum = field(&p, k) + x;
    assume(sum.is_finite() || range(k) == Range::Any);
    p.perform_change_property::<C, S>(CK, NUMS[k], num(x));
    let want = normal(k, sum);
    check!(settled(&before, &p, k, want), "property/change is set to the old value plus the delta", k, x);
    check!(others(&before, &p, &[k]) && p.visible == before.visible && p.pen_down == before.pen_down, "property/change changes no other property", k, x);
    check!(answered(want.is_some()), "property/change is answered once", k, x);
}
pub fn refuse_one(k: usize) {
    let (mut p, change) = (some(), any::<bool>());
    let before = p; told::take();
    if change { p.perform_change_property::<C, S>(CK, NUMS[k], Value::Bool(true)); } else { p.perform_set_property::<C, S>(CK, NUMS[k], Value::Bool(true)); }
    check!(others(&before, &p, &[]) && p.visible == before.visible && p.pen_down == before.pen_down && answered(false), "property/a value that is no number is refused and changes nothing", k, change);
}
pub fn flag_one(down: bool, change: bool) {
    let (mut p, v) = (some(), any::<bool>());
    let before = p; told::take();
    let prop = if down { Property::PenDown } else { Property::Visible };
    if change { p.perform_change_property::<C, S>(CK, prop, Value::Bool(v)); } else { p.perform_set_property::<C, S>(CK, prop, Value::Bool(v)); }
    let f = |old: bool| if change { old != v } else { v };
    check!(p.visible == if down { before.visible } else { f(before.visible) }, "property/the visible flag", down, change, v);
    check!(p.pen_down == if down { f(before.pen_down) } else { before.pen_down }, "property/the pen flag", down, change, v);
    check!(others(&before, &p, &[]), "property/flags change no other property", down, change, v);
    check!(answered(true), "property/a flag is answered once", down, change, v);
}
contracts! {
    // @begin prop_set_0
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_set_0() { set_one(0); set_one(1); set_one(2); }
    // @end
    // @begin prop_set_3
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_set_3() { set_one(3); set_one(4); set_one(5); }
    // @end
    // @begin prop_set_6
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_set_6() { set_one(6); set_one(7); set_one(8); }
    // @end
    // @begin prop_set_9
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_set_9() { set_one(9); set_one(10); set_one(11); }
    // @end
    // @begin prop_set_12
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_set_12() { set_one(12); set_one(13); set_one(14); }
    // @end
    // @begin prop_set_15
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_set_15() { set_one(15); set_one(16); set_one(17); }
    // @end
    // @begin prop_set_18
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_set_18() { set_one(18); set_one(19); set_one(20); }
    // @end
    // @begin prop_change_0
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_change_0() { change_one(0); change_one(1); change_one(2); }
    // @end
    // @begin prop_change_3
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_change_3() { change_one(3); change_one(4); change_one(5); }
    // @end
    // @begin prop_change_6
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_change_6() { change_one(6); change_one(7); change_one(8); }
    // @end
    // @begin prop_change_9
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_change_9() { change_one(9); change_one(10); change_one(11); }
    // @end
    // @begin prop_change_12
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_change_12() { change_one(12); change_one(13); change_one(14); }
    // @end
    // @begin prop_change_15
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_change_15() { change_one(15); change_one(16); change_one(17); }
    // @end
    // @begin prop_change_18
    #[kani::unwind(24)]
    #[kani::stub(netsblox_vm::util::modulus, crate::c_prop::turn_stub)] // need
    fn prop_change_18() { change_one(18); change_one(19); change_one(20); }
    // @end
    // @begin prop_get
    #[kani::unwind(24)]
    fn prop_get() {
        let (p, k) = (some(), pick(0, 24));
        told::take();
        let prop = if k < 21 { NUMS[k] } else if k == 21 { Property::Visible } else { Property::PenDown };
        assume(k < 23);
        p.perform_get_property::<C, S>(RK, prop);
        let t = told::take();
        if k < 21 { check!(t.2 == 1 && same(t.3, field(&p, k)), "property/get answers what is stored", k); }
        else { check!(t.2 == 2 && (t.3 == 1.0) == if k == 21 { p.visible } else { p.pen_down }, "property/get answers the stored flag", k); }
    }
    // @end
    // @begin prop_flags
    #[kani::unwind(24)]
    fn prop_flags() { flag_one(false, false); flag_one(false, true); flag_one(true, false); flag_one(true, true); }
    // @end
    // @begin prop_place
    #[kani::unwind(24)]
    fn prop_place() {
        let (mut p, x, y, clear) = (some(), n(), n(), any::<bool>());
        let before = p; told::take();
        if clear {
            p.perform_clear_effects::<C, S>(CK);
            let mut k = 12; let mut r = true;
            while k < 21 { if field(&p, k) != 0.0 { r = false } k += 1 }
            check!(r, "property/clearing sets every effect to zero");
            check!(others(&before, &p, &[12, 13, 14, 15, 16, 17, 18, 19, 20]), "property/clearing effects changes nothing else");
        } else {
            p.perform_goto_xy::<C, S>(CK, x, y);
            check!(same(p.pos.0.get(), x.get()) && same(p.pos.1.get(), y.get()), "property/going to a position sets it", x.get(), y.get());
            check!(others(&before, &p, &[0, 1]), "property/going to a position changes nothing else", x.get(), y.get());
        }
        check!(p.visible == before.visible && p.pen_down == before.pen_down && answered(true), "property/moving leaves the flags and is answered once");
    }
    // @end
    // @begin prop_refuse_0
    #[kani::unwind(24)]
    fn prop_refuse_0() { refuse_one(0); refuse_one(1); refuse_one(2); }
    // @end
    // @begin prop_refuse_3
    #[kani::unwind(24)]
    fn prop_refuse_3() { refuse_one(3); refuse_one(4); refuse_one(5); }
    // @end
    // @begin prop_refuse_6
    #[kani::unwind(24)]
    fn prop_refuse_6() { refuse_one(6); refuse_one(7); refuse_one(8); }
    // @end
    // @begin prop_refuse_9
    #[kani::unwind(24)]
    fn prop_refuse_9() { refuse_one(9); refuse_one(10); refuse_one(11); }
    // @end
    // @begin prop_refuse_12
    #[kani::unwind(24)]
    fn prop_refuse_12() { refuse_one(12); refuse_one(13); refuse_one(14); }
    // @end
    // @begin prop_refuse_15
    #[kani::unwind(24)]
    fn prop_refuse_15() { refuse_one(15); refuse_one(16); refuse_one(17); }
    // @end
    // @begin prop_refuse_18
    #[kani::unwind(24)]
    fn prop_refuse_18() { refuse_one(18); refuse_one(19); refuse_one(20); }
    // @end
    // @begin prop_motion
    fn prop_motion() {
        let (mut p, x, y, point) = (some(), any::<f64>(), any::<f64>(), any::<bool>());
        assume(x.abs() <= 1e6 && y.abs() <= 1e6 && p.pos.0.get().abs() <= 1e6 && p.pos.1.get().abs() <= 1e6 && p.heading.get().abs() <= 1e6);
        let x = Number::new(x).unwrap(); let y = Number::new(y).unwrap();
        let before = p; told::take();
        let near = |a: f64, b: f64| (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()));
        let (px, py, h) = (before.pos.0.get(), before.pos.1.get(), before.heading.get());
        if point {
            p.perform_point_towards_xy::<C, S>(CK, x, y);
            let (dx, dy) = (x.get() - px, y.get() - py);
            let d = (dx * dx + dy * dy).sqrt();
            let r = p.heading.get().to_radians();
            check!(p.heading.get() >= 0.0 && p.heading.get() <= 360.0, "property/a heading is within a full turn", px, py, x.get(), y.get());
            check!((r.sin() * d - dx).abs() <= 1e-6 * (1.0 + d) && (r.cos() * d - dy).abs() <= 1e-6 * (1.0 + d), "property/pointing turns towards the position", px, py, x.get(), y.get());
            check!(others(&before, &p, &[2]), "property/pointing changes only the heading");
        } else {
            p.perform_forward::<C, S>(CK, x);
            let r = h.to_radians();
            check!(near(p.pos.0.get(), px + r.sin() * x.get()) && near(p.pos.1.get(), py + r.cos() * x.get()), "property/forward moves along the heading", px, py, h, x.get());
            check!(others(&before, &p, &[0, 1]), "property/forward changes only the position");
        }
        check!(p.visible == before.visible && p.pen_down == before.pen_down && answered(true), "property/moving leaves the flags and is answered once");
    }
    // @end
    // @begin prop_pen
    fn prop_pen() {
        let (mut p, c) = (some(), any::<u32>());
        let before = p; told::take();
        p.perform_set_property::<C, S>(CK, Property::PenColor, num(c as f64));
        check!(others(&before, &p, &[5, 6, 7, 8]) && p.visible == before.visible && p.pen_down == before.pen_down && answered(true), "property/setting the pen colour changes the four colour components only", c);
        let (h, s, v, t) = (field(&p, 5), field(&p, 6), field(&p, 7), field(&p, 8));
        check!(h >= 0.0 && h < 360.0 && s >= 0.0 && s <= 100.0 && v >= 0.0 && v <= 100.0 && t >= 0.0 && t <= 100.0, "property/colour components are in range", c, h, s, v, t);
        p.perform_get_property::<C, S>(RK, Property::PenColor);
        let g = told::take();
        check!(g.2 == 1 && g.3 == c as f64, "property/the pen colour reads back", c, g.3);
        p.perform_change_property::<C, S>(CK, Property::PenColor, num(1.0));
        check!(answered(false) && field(&p, 5) == h && field(&p, 6) == s && field(&p, 7) == v && field(&p, 8) == t, "property/a colour has no relative change", c);
    }
    // @end
}
