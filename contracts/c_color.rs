//! Colours.
use crate::*;
use crate::sym::*;
use netsblox_vm::runtime::*;
#[allow(unused_imports)] use crate::dummy::*;

contracts! {
    // @begin color_forward
    #[kani::unwind(5)]
    fn color_forward() {
        let c = Color { r: any(), g: any(), b: any(), a: any() };
        let (h, s, v, a) = c.to_hsva();
        check!(h >= 0.0 && h < 360.0, "colour/hue in range", c.r, c.g, c.b, h);
        check!(s >= 0.0 && s <= 1.0 && v >= 0.0 && v <= 1.0 && a >= 0.0 && a <= 1.0, "colour/components in range", c.r, c.g, c.b, c.a);
        let mx = c.r.max(c.g).max(c.b);
        check!(v == mx as f32 / 255.0 && a == c.a as f32 / 255.0, "colour/value is the largest channel and alpha is alpha", c.r, c.g, c.b, c.a);
        check!((s == 0.0) == (c.r == c.g && c.g == c.b), "colour/exactly the greys are unsaturated", c.r, c.g, c.b);
    }
    // @end
    // @begin color_roundtrip
    fn color_roundtrip() {
        let c = Color { r: any(), g: any(), b: any(), a: any() };
        let (h, s, v, a) = c.to_hsva();
        check!(Color::from_hsva(h, s, v, a) == c, "colour/converting there and back gives the same colour", c.r, c.g, c.b, c.a);
    }
    // @end
    // @begin color_backward
    #[kani::unwind(5)]
    fn color_backward() {
        let p = any::<f64>() as f32;
        let (h, s, v, a) = (p, any::<f64>() as f32, any::<f64>() as f32, any::<f64>() as f32);
        assume(h.is_finite() && s.is_finite() && v.is_finite() && a.is_finite());
        let c = Color::from_hsva(h, s, v, a);
        let cl = |x: f32| if x < 0.0 { 0.0 } else if x > 1.0 { 1.0 } else { x };
        check!(c == Color::from_hsva(h, cl(s), cl(v), cl(a)), "colour/components outside the range are clamped", h, s, v, a);
        let near = |x: u8, y: f32| (x as f32 - y * 255.0).abs() <= 0.501;
        check!(near(c.a, cl(a)), "colour/alpha is the alpha channel", h, s, v, a);
        check!(near(c.r.max(c.g).max(c.b), cl(v)), "colour/value is the largest channel", h, s, v, a);
    }
    // @end
}
