//! Random programs, inputs and environments for the differential exploration. Each profile favours the parts of the
//! language one property is about; every profile keeps enough of the rest to make the parts interact.
use std::rc::Rc;
use netsblox_vm::ast::{self, *};
use netsblox_vm::ast::{ExprKind as E, StmtKind as T, Value as A};
use crate::interp::{Conf, Input, KEYS};
use crate::sys::{Clock, Mock, Msg, Val, mix};

#[derive(Clone)]
pub struct Case { pub role: Role, pub conf: Conf, pub clock: Clock, pub refuse: bool, pub mseed: u64, pub inputs: Vec<(usize, Input)>, pub msgs: Vec<(usize, Msg)>, pub steps: Vec<u64>, pub turns: usize }
type Wt = &'static [(&'static str, u32)];
/// (name, category weights); a category not named has weight 1 when it is in BASE and 0 otherwise.
const BASE: &[&str] = &["assign", "arith", "if", "loop", "list", "call", "say", "var", "block"];
pub const PROFILES: &[(&str, Wt)] = &[
    ("numbers", &[("arith", 20), ("trig", 12), ("strings", 4), ("cmp", 6), ("try", 3), ("random", 2), ("json", 2)]),
    ("lists", &[("list", 10), ("mut", 20), ("struct", 3), ("cmp", 2), ("try", 5), ("random", 2), ("shared", 10)]),
    ("structure", &[("list", 4), ("struct", 24), ("json", 8), ("strings", 4), ("try", 6), ("shared", 10), ("cmp", 2)]),
    ("lift", &[("arith", 12), ("trig", 4), ("lift", 30), ("strings", 6), ("shared", 14), ("list", 4), ("try", 5), ("mut", 2)]),
    ("compare", &[("cmp", 30), ("shared", 10), ("list", 4), ("struct", 2), ("try", 6), ("strings", 3), ("closure", 1), ("entity", 2)]),
    ("scoping", &[("var", 6), ("declare", 10), ("closure", 16), ("call", 8), ("upvar", 8), ("clone", 4), ("warp", 1), ("higher", 3), ("try", 2), ("fork", 3), ("tell", 4), ("entity", 3)]),
    ("calls", &[("call", 20), ("closure", 10), ("return", 8), ("recurse", 10), ("warp", 2), ("try", 4), ("tell", 5), ("higher", 3), ("upvar", 2), ("syscall", 3)]),
    ("errors", &[("try", 24), ("throw", 10), ("call", 8), ("closure", 6), ("return", 4), ("warp", 4), ("bad", 3), ("syscall", 6), ("request", 4), ("loop", 3), ("mut", 2)]),
    ("places", &[("places", 1), ("bad", 10), ("throw", 4), ("try", 6), ("call", 8), ("closure", 6), ("recurse", 2), ("return", 3), ("loop", 8), ("if", 6), ("logic", 6), ("higher", 8), ("mut", 8), ("arith", 6), ("trig", 3), ("struct", 6), ("list", 6), ("cmp", 4), ("strings", 4), ("json", 3), ("tell", 4), ("request", 3), ("command", 2), ("syscall", 2), ("msg", 3), ("net", 2), ("props", 2), ("costume", 3), ("sound", 3), ("clone", 3), ("entity", 2), ("declare", 2), ("sleep", 2), ("warp", 2), ("upvar", 2), ("fork", 3), ("lift", 3)]),
    ("warp", &[("warp", 16), ("loop", 16), ("call", 8), ("try", 4), ("return", 4), ("closure", 4), ("higher", 4), ("throw", 2), ("request", 2), ("sleep", 3)]),
    ("requests", &[("request", 24), ("command", 10), ("syscall", 10), ("ask", 6), ("net", 3), ("sleep", 3), ("try", 6), ("sound", 4), ("warp", 2), ("fork", 2), ("stop", 1)]),
    ("broadcast", &[("msg", 24), ("sleep", 5), ("clone", 3), ("try", 4), ("stop", 4), ("fork", 3), ("request", 4), ("warp", 3), ("throw", 3), ("entity", 3), ("wait", 3)]),
    ("schedule", &[("loop", 8), ("fork", 6), ("msg", 4), ("sleep", 4), ("stop", 3), ("clone", 3), ("wait", 3), ("inputs", 10), ("pause", 3), ("net", 2), ("return", 2), ("throw", 2), ("request", 2)]),
    ("stop", &[("stop", 16), ("loop", 6), ("fork", 6), ("msg", 6), ("clone", 5), ("inputs", 8), ("sleep", 4), ("tell", 3), ("try", 3), ("call", 3), ("warp", 2), ("wait", 2)]),
    ("acting", &[("stop", 12), ("closure", 22), ("tell", 12), ("loop", 14), ("inputs", 8), ("entity", 8), ("clone", 4), ("sleep", 4), ("fork", 3), ("msg", 3), ("wait", 3)]),
    ("clones", &[("clone", 20), ("delete", 8), ("entity", 8), ("var", 4), ("tell", 6), ("msg", 5), ("stop", 4), ("net", 4), ("sleep", 3), ("props", 3), ("fork", 3), ("costume", 3), ("inputs", 3)]),
    ("network", &[("net", 24), ("reply", 8), ("inputs", 8), ("sleep", 3), ("try", 5), ("json", 3), ("request", 3), ("fork", 2), ("stop", 2), ("wait", 2)]),
    ("control", &[("loop", 20), ("if", 8), ("higher", 16), ("cmp", 6), ("logic", 10), ("closure", 4), ("return", 3), ("wait", 4), ("try", 3), ("props", 6), ("sound", 2), ("costume", 3)]),
    ("data", &[("json", 16), ("strings", 16), ("struct", 5), ("try", 5), ("net", 4), ("shared", 3)]),
    ("time", &[("sleep", 16), ("timer", 12), ("loop", 4), ("wait", 4), ("try", 4), ("warp", 3), ("fork", 3), ("realtime", 6)]),
    ("initial", &[("shared", 24), ("mut", 10), ("costume", 12), ("sound", 6), ("clone", 4), ("var", 4), ("watch", 6), ("struct", 3)]),
    ("all", &[("trig", 1), ("strings", 2), ("cmp", 2), ("try", 3), ("random", 1), ("json", 1), ("mut", 3), ("struct", 2), ("shared", 3), ("lift", 1), ("closure", 3), ("declare", 2), ("upvar", 1), ("clone", 1), ("warp", 2), ("higher", 2), ("fork", 1), ("tell", 1), ("entity", 1), ("return", 1), ("recurse", 1), ("throw", 1), ("request", 2), ("command", 1), ("syscall", 1), ("ask", 1), ("net", 1), ("sleep", 1), ("sound", 1), ("stop", 1), ("msg", 2), ("wait", 1), ("inputs", 3), ("pause", 1), ("delete", 1), ("props", 1), ("costume", 1), ("reply", 1), ("logic", 1), ("timer", 1), ("realtime", 1), ("watch", 1)]),
];
#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty { N, T, B, L, C, En, A }
struct G { r: u64, wt: Wt, locals: Vec<String>, warp: bool, funcs: Vec<(String, usize, bool, bool)>, ents: usize, size: i32, fresh: usize, method: bool, bad: bool, shared: bool, upv: bool, root: bool }

fn b(e: E) -> Box<Expr> { Box::new(x(e)) }
thread_local! { static LOCS: std::cell::Cell<(u8, u32)> = const { std::cell::Cell::new((0, 0)) }; }
/// Marks a block with a location of its own: no block (0), every block (1), every block but literals and variables (2), every statement and some others (3).
fn info(plain: bool, stmt: bool) -> Box<BlockInfo> {
    let (mode, n) = LOCS.get(); LOCS.set((mode, n + 1));
    let on = match mode { 0 => false, 1 => true, 2 => stmt || !plain, _ => stmt || n % 3 == 0 };
    if !on { return BlockInfo::none() }
    Box::new(BlockInfo { location: Some(match n % 4 { 0 | 1 => format!("item_{n}"), 2 => format!("item_{}_{n}", n % 7), _ => format!("item_-{n}") }.as_str().into()), comment: None })
}
fn x(e: E) -> Expr { let i = info(matches!(e, E::Value(_) | E::Variable { .. }), false); Expr { kind: e, info: i } }
fn s(t: T) -> Stmt { let i = info(false, true); Stmt { kind: t, info: i } }
fn def(n: &str) -> VariableDef { VariableDef { name: n.into(), trans_name: n.into() } }
fn vr(n: &str) -> VariableRef { VariableRef { name: n.into(), trans_name: n.into(), location: VarLocation::Local } }
fn ty_of(n: &str) -> Ty { match n.as_bytes()[0] { b'n' => Ty::N, b't' => Ty::T, b'l' => Ty::L, b'b' => Ty::B, b'c' => Ty::C, b'e' => Ty::En, _ => Ty::A } }
const GLOBALS: &[&str] = &["n0", "n1", "t0", "b0", "l0", "l1", "l2", "x0", "x1", "x2", "c0", "e0"];
const FIELDS: &[&str] = &["n2", "l3", "x0", "x3"];
const MSGS: &[&str] = &["go", "hi", "zz"];
const SYS: &[&str] = &["enter", "poke", "look"];
impl G {
    fn n(&mut self, k: usize) -> usize { (crate::sym::next(&mut self.r) >> 11) as usize % k }
    fn p(&mut self, a: usize, of: usize) -> bool { self.n(of) < a }
    fn w(&self, c: &str) -> u32 { self.wt.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(if BASE.contains(&c) { 1 } else { 0 }) }
    fn choose(&mut self, opts: &[(&'static str, u32)]) -> usize {
        let ws: Vec<u32> = opts.iter().map(|o| self.w(o.0) * o.1).collect();
        let t: u32 = ws.iter().sum();
        if t == 0 { return 0 }
        let mut k = self.n(t as usize) as u32;
        for (i, w) in ws.iter().enumerate() { if k < *w { return i } k -= w }
        0
    }
    fn num(&mut self) -> f64 {
        const P: &[f64] = &[0.0, 1.0, 2.0, 3.0, -1.0, 0.5, 2.5, 10.0, -3.0, 1e21, 1e-7, 5.0, 100.0, -2.5, 1.5, 4.0, 360.0, 65.0, 128512.0, 1e16, 123456789.125, 0.1, -0.25, 1e300, 4294967296.0, 2.0, 1.0, 3.0, 60.0, 90.0, 45.0, -90.0];
        if self.p(1, 2) { return self.n(7) as f64 - 1.0 }
        P[self.n(P.len())]
    }
    fn text(&mut self) -> String {
        const P: &[&str] = &["", "a", "b", "hello", "Hello", "12", " 3 ", "0x1F", "é", "e\u{301}x", "👩‍👩‍👧z", "a,b", "x\ny", "1e3", "-0", "ab\tcd", "true", "1,2\n3,\"q\"", "[1,{\"a\":2}]", "nan", "inf", "0b101", "hello world, it's", "a\r\nb\n", "2", "-1", "c4", "A#3", "x\ry", "ß", "SS", "10", "9", "\"", "1.50", "[1,[2,\"x\"],true]", ".5", "5.", "+7", "0o17", "-0x10", "1e400", "9007199254740993", "00012", "-5", "+5", "007", "1 2"];
        P[self.n(P.len())].to_string()
    }
    fn var(&mut self, t: Ty) -> Option<String> {
        let fields = if self.method { 1 } else { 1 };
        let mut c: Vec<String> = self.locals.iter().rev().take(8).cloned().collect();
        c.extend(c.clone());
        c.extend(GLOBALS.iter().map(|x| x.to_string()));
        if fields > 0 { c.extend(FIELDS.iter().map(|x| x.to_string())) }
        let c: Vec<String> = c.into_iter().filter(|v| { let k = ty_of(v); k == t || t == Ty::A && k != Ty::C }).collect();
        if c.is_empty() { None } else { let i = self.n(c.len()); Some(c[i].clone()) }
    }
    fn any_var(&mut self) -> String { let t = [Ty::N, Ty::T, Ty::L, Ty::B, Ty::A, Ty::A][self.n(6)]; self.var(t).unwrap() }
    fn lit(&mut self, t: Ty) -> Expr {
        match t {
            Ty::N => { let v = self.num(); if self.p(1, 30) { x(E::Value(A::Constant(if self.p(1, 2) { Constant::Pi } else { Constant::E }))) } else { Expr::from(v) } }
            Ty::T => { let v = self.text(); Expr::from(v.as_str()) }
            Ty::B => { let v = self.p(1, 2); Expr::from(v) }
            Ty::L => { let k = self.n(4); let v = (0..k).map(|_| self.lval(1)).collect(); if self.p(1, 2) { x(E::Value(A::List(v, None))) } else { x(E::MakeList { values: v.into_iter().map(|v| x(E::Value(v))).collect() }) } }
            Ty::C => self.closure(1, 1),
            Ty::En => if self.p(1, 2) { x(E::This) } else { let e = self.ent(); x(e) },
            Ty::A => { let t = [Ty::N, Ty::N, Ty::T, Ty::B, Ty::L][self.n(5)]; self.lit(t) }
        }
    }
    /// A text in (or almost in) the form a table of values is written in, or the text that `ListCsv` gives for a list.
    fn csv(&mut self, d: usize) -> Box<Expr> {
        if self.p(1, 4) {
            let (rows, cols) = (1 + self.n(3), 1 + self.n(3));
            let cell = |g: &mut Self| if g.p(1, 2) { Expr::from(["", "a", "a,b", "\n", "\"", "x\ny", "\"\"", "p\"q,"][g.n(8)]) } else { g.expr(Ty::N, 0) };
            let row = |g: &mut Self| x(E::MakeList { values: (0..cols).map(|_| cell(g)).collect() });
            let value = if self.p(1, 4) { row(self) } else { x(E::MakeList { values: (0..rows).map(|_| row(self)).collect() }) };
            return b(E::ListCsv { value: Box::new(value) })
        }
        if self.p(1, 6) { return b(E::ListCsv { value: self.ex(Ty::L, d) }) }
        let mut t = String::new();
        for _ in 0..1 + self.n(7) { t.push_str(["a", "", "12", "b c", "\"\"", "\"a\"", "\"x,y\"", "\"p\nq\"", "\"s\"\"t\"", if self.p(1, 4) { "\"" } else { "\"1\"" }][self.n(10)]); t.push_str([",", "\n", ",", "\n", "", if self.p(1, 4) { "\r\n" } else { "\n" }][self.n(6)]) }
        Box::new(Expr::from(t.as_str()))
    }
    fn lval(&mut self, d: usize) -> A { match self.n(6) { 0 | 1 | 2 => A::Number(self.num()), 3 => A::String(self.text().into()), 4 => A::Bool(self.p(1, 2)), _ if d > 0 => { let k = self.n(4); A::List((0..k).map(|_| self.lval(d - 1)).collect(), None) } _ => A::Number(self.n(5) as f64) } }
    fn ent(&mut self) -> E { let i = self.n(self.ents + 1); let n = if i == self.ents { if self.w("bad") > 0 { 9 } else { 0 } } else { i }; E::Entity { name: format!("s{n}").into(), trans_name: format!("s{n}").into() } }
    /// A closure of `k` parameters whose body mostly returns a value of a convenient type.
    fn closure(&mut self, k: usize, d: usize) -> Expr {
        let outer = std::mem::take(&mut self.locals);
        let warp = std::mem::replace(&mut self.warp, true);
        let mut caps: Vec<String> = vec![];
        for v in &outer { if !caps.contains(v) && self.p(2, 3) { caps.push(v.clone()) } }
        if self.p(1, 8) { let v = self.any_var(); if !caps.contains(&v) { caps.push(v) } }
        self.locals = caps.clone();
        let ps: Vec<String> = (0..k).map(|i| { let c = ["np", "lp", "xp"][self.n(3)]; format!("{c}{i}") }).collect();
        self.locals.extend(ps.clone());
        let mut body = self.stmts(self.size.min(2).max(0) as usize, d.saturating_sub(1));
        if self.p(5, 6) { let t = [Ty::N, Ty::A, Ty::B, Ty::L][self.n(4)]; let v = self.expr(t, d); body.push(s(T::Return { value: Box::new(v) })) }
        self.locals = outer; self.warp = warp;
        x(E::Closure { kind: ClosureKind::Reporter, params: ps.iter().map(|p| def(p)).collect(), captures: caps.iter().map(|c| vr(c)).collect(), stmts: body })
    }
    fn pred(&mut self, d: usize) -> Expr {
        let outer = std::mem::take(&mut self.locals);
        self.locals = vec!["xp0".into()];
        let v = if self.p(1, 8) { self.expr(Ty::A, d) } else { let a = x(E::Variable { var: vr("xp0") }); let o = self.expr(Ty::N, 1); self.relation(a, o) };
        let mut body = if self.p(1, 3) { self.stmts(1, 0) } else { vec![] };
        body.push(s(T::Return { value: Box::new(v) }));
        self.locals = outer;
        x(E::Closure { kind: ClosureKind::Predicate, params: vec![def("xp0")], captures: vec![], stmts: body })
    }
    fn relation(&mut self, l: Expr, r: Expr) -> Expr { let (left, right) = (Box::new(l), Box::new(r)); x(match self.n(7) { 0 | 1 => E::Eq { left, right }, 2 => E::Neq { left, right }, 3 => E::Less { left, right }, 4 => E::LessEq { left, right }, 5 => E::Greater { left, right }, _ => E::GreaterEq { left, right } }) }
    fn ex(&mut self, t: Ty, d: usize) -> Box<Expr> { Box::new(self.expr(t, d)) }
    fn many(&mut self, t: Ty, d: usize, k: usize) -> Box<Expr> { if self.p(1, 3) { self.ex(Ty::L, d) } else { let n = self.n(k + 1); let values = (0..n).map(|_| self.expr(t, d)).collect(); b(E::MakeList { values }) } }
    fn args(&mut self, k: usize, d: usize) -> Vec<Expr> { (0..k).map(|_| { let t = [Ty::N, Ty::A, Ty::L, Ty::T][self.n(4)]; self.expr(t, d) }).collect() }
    /// (function, arguments, upvars)
    fn call(&mut self, d: usize) -> Option<(FnRef, Vec<Expr>, Vec<VariableRef>)> {
        let c: Vec<_> = self.funcs.iter().filter(|f| self.method || !f.2).cloned().collect();
        if c.is_empty() { return None }
        let f = c[self.n(c.len())].clone();
        let mut args = self.args(f.1, d);
        let mut upvars = vec![];
        if f.3 { let n = if self.p(1, 4) && self.w("bad") + self.w("try") > 0 { "vq".to_string() } else if self.p(1, 2) && !self.locals.is_empty() { let i = self.n(self.locals.len()); self.locals[i].clone() } else { self.fresh += 1; let n = format!("n{}", 4 + self.fresh % 3); self.locals.push(n.clone()); n }; if n != "vq" { upvars.push(vr(&n)) } args[0] = Expr::from(n.as_str()) }
        Some((FnRef { name: f.0.as_str().into(), trans_name: f.0.as_str().into(), location: if f.2 { FnLocation::Method } else { FnLocation::Global } }, args, upvars))
    }
    fn fields(&mut self, d: usize) -> Vec<(netsblox_vm::compact_str::CompactString, Expr)> { let k = self.n(3); (0..k).map(|i| { let t = [Ty::N, Ty::T, Ty::L, Ty::A][self.n(4)]; (format!("a{i}").into(), self.expr(t, d)) }).collect() }
    fn expr(&mut self, t: Ty, d: usize) -> Expr {
        self.size -= 1;
        let t = if self.w("bad") > 0 && self.p(1, 25) || self.bad && self.p(1, 40) { [Ty::N, Ty::T, Ty::B, Ty::L, Ty::En][self.n(5)] } else { t };
        if d == 0 || self.size < 0 { return if self.p(1, 2) { match self.var(t) { Some(v) => x(E::Variable { var: vr(&v) }), None => self.lit(t) } } else { self.lit(t) } }
        let d = d - 1;
        match t {
            Ty::A => {
                let k = self.choose(&[("var", 4), ("arith", 3), ("strings", 3), ("cmp", 3), ("list", 3), ("call", 3), ("closure", 3), ("request", 4), ("list", 2), ("higher", 2), ("syscall", 4), ("net", 3), ("entity", 2), ("ask", 2), ("if", 1), ("msg", 1), ("costume", 3), ("sound", 1), ("props", 3), ("shared", 1)]);
                match k {
                    0 | 19 => { let v = self.any_var(); x(E::Variable { var: vr(&v) }) }
                    1 => self.expr(Ty::N, d + 1), 2 => self.expr(Ty::T, d + 1), 3 => self.expr(Ty::B, d + 1), 4 => self.expr(Ty::L, d + 1),
                    5 => match self.call(d) { Some((function, args, upvars)) => x(E::CallFn { function, args, upvars }), None => self.lit(Ty::A) },
                    6 => { let k = self.n(3); let closure = if self.p(1, 3) { self.ex(Ty::C, d) } else { Box::new(self.closure(k, d)) }; let on = if self.w("tell") > 0 && self.p(1, 2) { Some(self.ex(Ty::En, d)) } else { None }; let args = self.args(k, d); x(E::CallClosure { new_entity: on, closure, args }) }
                    7 => self.ask_env(d),
                    8 => match self.n(5) { 0 => x(E::ListGetLast { list: self.ex(Ty::L, d) }), 1 if self.w("random") > 0 => x(E::ListGetRandom { list: self.ex(Ty::L, d) }), _ => x(E::ListGet { list: self.ex(Ty::L, d), index: if self.p(1, 5) { self.ex(Ty::L, d) } else { self.ex(Ty::N, d) } }) },
                    9 => match self.n(2) { 0 => x(E::FindFirst { f: Box::new(self.pred(d)), list: self.ex(Ty::L, d) }), _ => x(E::Combine { f: Box::new(self.closure(2, d)), list: self.ex(Ty::L, d) }) },
                    10 => self.sys(d, true),
                    11 => { let msg_type = MSGS[self.n(3)].into(); let values = self.fields(d); x(E::NetworkMessageReply { target: if self.p(1, 3) { self.ex(Ty::L, d) } else { self.ex(Ty::T, d) }, msg_type, values }) }
                    12 => self.expr(Ty::En, d),
                    13 => x(if self.p(1, 2) { E::Answer } else { E::RpcError }),
                    14 => x(E::Conditional { condition: self.ex(Ty::B, d), then: self.ex(Ty::A, d), otherwise: self.ex(Ty::A, d) }),
                    15 => x(E::Message),
                    16 => match self.n(4) { 0 => x(E::Costume), 1 => x(E::CostumeNumber), 2 => x(E::CostumeName { costume: Box::new(self.costume(d)) }), _ => x(E::CostumeList) },
                    17 => if self.p(1, 2) { x(E::SoundList) } else { x(E::SoundName { sound: Box::new(self.sound(d)) }) },
                    _ => x(match self.n(8) { 0 => E::XPos, 1 => E::YPos, 2 => E::Heading, 3 => E::PenDown, 4 => E::Size, 5 => E::IsVisible, 6 => E::Effect { kind: self.effect() }, _ => E::PenAttr { attr: self.pen() } }),
                }
            }
            Ty::N => {
                let lifted = self.w("lift") > 0 && self.p(1, 3);
                let o = if lifted { Ty::L } else { Ty::N };
                let k = self.choose(&[("var", 4), ("arith", 8), ("trig", 6), ("list", 3), ("strings", 3), ("cmp", 2), ("random", 3), ("if", 1), ("timer", 4), ("realtime", 3), ("call", 2), ("lift", 4), ("higher", 1), ("props", 1)]);
                match k {
                    0 => match self.var(Ty::N) { Some(v) => x(E::Variable { var: vr(&v) }), None => self.lit(Ty::N) },
                    1 | 11 => self.arith(o, d),
                    2 => { let value = self.ex(o, d); x(match self.n(12) { 0 => E::Sin { value }, 1 => E::Cos { value }, 2 => E::Tan { value }, 3 => E::Asin { value }, 4 => E::Acos { value }, 5 => E::Atan { value }, 6 => E::Sqrt { value }, 7 => E::Floor { value }, 8 => E::Ceil { value }, 9 => E::Round { value }, 10 => E::Abs { value }, _ => E::Atan2 { y: value, x: self.ex(Ty::N, d) } }) }
                    3 => match self.n(4) { 0 => x(E::ListFind { list: self.ex(Ty::L, d), value: self.ex(Ty::A, d) }), 1 => x(E::ListGet { list: self.ex(Ty::L, d), index: self.ex(Ty::N, d) }), 2 if self.w("struct") > 0 => x(E::ListRank { value: self.ex(Ty::L, d) }), _ => x(E::ListLen { value: self.ex(Ty::L, d) }) },
                    4 => match self.n(3) { 0 => x(E::StrLen { value: self.ex(Ty::T, d) }), 1 => x(E::CharToUnicode { value: self.ex(Ty::T, d) }), _ => self.expr(Ty::T, d) },
                    5 => { let values = self.many(Ty::N, d, 3); x(if self.p(1, 2) { E::Min { values } } else { E::Max { values } }) }
                    6 => x(E::Random { a: self.ex(o, d), b: self.ex(Ty::N, d) }),
                    7 => x(E::Conditional { condition: self.ex(Ty::B, d), then: self.ex(Ty::N, d), otherwise: self.ex(Ty::N, d) }),
                    8 => x(E::Timer),
                    9 => { use ast::TimeQuery::*; x(E::RealTime { query: match self.n(8) { 0 => Year, 1 => Month, 2 => Date, 3 => DayOfWeek, 4 => Hour, 5 => Minute, 6 => Second, _ => UnixTimestampMs } }) }
                    10 => match self.call(d) { Some((function, args, upvars)) => x(E::CallFn { function, args, upvars }), None => self.lit(Ty::N) },
                    12 => x(E::Combine { f: Box::new(self.closure(2, d)), list: self.ex(Ty::L, d) }),
                    _ => x(match self.n(3) { 0 => E::XPos, 1 => E::Size, _ => E::Effect { kind: self.effect() } }),
                }
            }
            Ty::T => {
                let o = if self.w("lift") > 0 && self.p(1, 5) { Ty::L } else { Ty::T };
                match self.choose(&[("var", 4), ("strings", 10), ("json", 4), ("struct", 1), ("arith", 1), ("try", 1)]) {
                    0 => match self.var(Ty::T) { Some(v) => x(E::Variable { var: vr(&v) }), None => self.lit(Ty::T) },
                    1 => match self.n(6) {
                        0 | 1 => { let t = if self.shared { Ty::N } else { Ty::A }; x(E::StrCat { values: { let t = if self.p(1, 2) { Ty::T } else { t }; self.many(t, d.min(1), 3) } }) }
                        2 => x(E::StrGet { string: self.ex(o, d), index: if o == Ty::T && self.p(1, 4) { self.ex(Ty::L, d) } else { self.ex(Ty::N, d) } }), 3 => x(E::StrGetLast { string: self.ex(o, d) }),
                        4 if self.w("random") > 0 => x(E::StrGetRandom { string: self.ex(o, d) }), _ => x(E::UnicodeToChar { value: if o == Ty::L { self.ex(Ty::L, d) } else { self.ex(Ty::N, d) } }),
                    },
                    2 => match self.n(3) { 0 => x(E::ListJson { value: self.ex(Ty::A, d) }), 1 => x(E::ListCsv { value: self.ex(Ty::L, d) }), _ => x(E::ListLines { value: self.ex(Ty::L, d) }) },
                    3 => x(E::ListLines { value: self.ex(Ty::L, d) }),
                    _ => self.lit(Ty::T),
                }
            }
            Ty::B => match self.choose(&[("cmp", 8), ("logic", 6), ("list", 2), ("var", 2), ("if", 2), ("arith", 1), ("entity", 1)]) {
                0 | 4 | 5 => { let t = if self.p(1, 2) { Ty::N } else { [Ty::T, Ty::L, Ty::A][self.n(3)] }; let u = if self.p(4, 5) { t } else { Ty::A }; let (l, r) = (self.expr(t, d), self.expr(u, d)); if self.p(1, 8) { x(E::Identical { left: Box::new(l), right: Box::new(r) }) } else { self.relation(l, r) } }
                1 => match self.n(4) { 0 => x(E::And { left: self.ex(Ty::B, d), right: self.ex(Ty::B, d) }), 1 => x(E::Or { left: self.ex(Ty::B, d), right: self.ex(Ty::B, d) }), 2 => x(E::Not { value: self.ex(Ty::B, d) }), _ => { use ast::ValueType::*; let ty = match self.n(7) { 0 => Number, 1 => Text, 2 => Bool, 3 => List, 4 => Sprite, 5 => Costume, _ => Sound }; x(E::TypeQuery { value: self.ex(Ty::A, d), ty }) } },
                2 => if self.p(1, 2) { x(E::ListContains { list: self.ex(Ty::L, d), value: self.ex(Ty::A, d) }) } else { x(E::ListIsEmpty { value: self.ex(Ty::L, d) }) },
                6 => x(E::Identical { left: self.ex(Ty::En, d), right: self.ex(Ty::En, d) }),
                _ => self.lit(Ty::B),
            },
            Ty::L => match self.choose(&[("var", 5), ("list", 4), ("struct", 10), ("strings", 3), ("higher", 6), ("shared", 2), ("lift", 4), ("json", 2)]) {
                0 | 5 => match self.var(Ty::L) { Some(v) => x(E::Variable { var: vr(&v) }), None => self.lit(Ty::L) },
                1 => match self.n(5) { 0 => { let k = self.n(4); x(E::MakeList { values: (0..k).map(|_| self.expr(Ty::A, d)).collect() }) } 1 => { let (a, c) = (self.n(6) as f64 - 1.0, self.n(6) as f64); if self.p(1, 2) { x(E::Range { start: Box::new(a.into()), stop: Box::new((c + 0.5 * (self.n(2) as f64)).into()) }) } else { x(E::Range { start: self.ex(Ty::N, 1.min(d)), stop: Box::new(c.into()) }) } } 2 => x(E::CopyList { list: self.ex(Ty::L, d) }), 3 => x(E::ListCons { item: self.ex(Ty::A, d), list: self.ex(Ty::L, d) }), _ => self.lit(Ty::L) },
                2 => match self.n(9) { 0 => x(E::ListReshape { value: self.ex(Ty::L, d), dims: if self.p(1, 4) { self.ex(Ty::L, d) } else { let k = self.n(4); b(E::MakeList { values: (0..k).map(|_| Expr::from([0.0, 1.0, 2.0, 3.0, 2.0][self.n(5)])).collect() }) } }), 1 => x(E::ListCombinations { sources: self.many(Ty::L, d, 3) }), 2 => x(E::ListColumns { value: self.ex(Ty::L, d) }), 3 => x(E::ListRev { value: self.ex(Ty::L, d) }), 4 => x(E::ListFlatten { value: self.ex(Ty::A, d) }), 5 => x(E::ListDims { value: self.ex(Ty::A, d) }), 6 => x(E::ListCat { lists: self.many(Ty::L, d, 3) }), 7 => x(E::ListCdr { value: self.ex(Ty::L, d) }), _ => x(E::ListRev { value: self.ex(Ty::L, d) }) },
                3 | 7 => { use ast::TextSplitMode::*; let mode = match self.n(8) { 0 => Letter, 1 => Word, 2 => Tab, 3 => CR, 4 => LF, 5 => Csv, 6 => Json, _ => Custom(self.ex(Ty::T, d)) }; let text = if matches!(mode, Csv) && self.p(3, 4) { self.csv(d) } else { self.ex(Ty::T, d) }; x(E::TextSplit { text, mode }) }
                4 => if self.p(1, 2) { let f = if self.p(1, 5) { self.ex(Ty::C, d) } else { Box::new(self.closure(1, d)) }; x(E::Map { f, list: self.ex(Ty::L, d) }) } else { x(E::Keep { f: Box::new(self.pred(d)), list: self.ex(Ty::L, d) }) },
                _ => self.arith(Ty::L, d),
            },
            Ty::C => match self.var(Ty::C) { Some(v) if self.p(1, 2) => x(E::Variable { var: vr(&v) }), _ => { let k = self.n(3); self.closure(k, d) } },
            Ty::En => match self.n(4) { 0 => x(E::This), 1 if self.w("clone") > 0 && self.p(1, 3) => x(E::Clone { target: self.ex(Ty::En, 0) }), 2 => { let e = self.ent(); x(e) } _ => match self.var(Ty::En) { Some(v) if self.w("clone") > 0 => x(E::Variable { var: vr(&v) }), _ => { let e = self.ent(); x(e) } } },
        }
    }
    fn arith(&mut self, o: Ty, d: usize) -> Expr {
        let u = if o == Ty::L && self.p(1, 2) { Ty::L } else { Ty::N };
        let (o, u) = if self.p(1, 2) { (o, u) } else { (u, o) };
        match self.n(9) {
            0 | 1 => x(E::Add { values: if self.p(1, 2) { b(E::MakeList { values: vec![self.expr(o, d), self.expr(u, d)] }) } else { self.many(o, d, 3) } }),
            2 => x(E::Mul { values: if self.p(1, 2) { b(E::MakeList { values: vec![self.expr(o, d), self.expr(u, d)] }) } else { self.many(o, d, 3) } }),
            3 => x(E::Sub { left: self.ex(o, d), right: self.ex(u, d) }), 4 => x(E::Div { left: self.ex(o, d), right: self.ex(u, d) }), 5 => x(E::Mod { left: self.ex(o, d), right: self.ex(u, d) }),
            6 => x(E::Neg { value: self.ex(o, d) }), 7 => x(E::Pow { base: self.ex(o, d), power: self.ex(u, d) }), _ => x(E::Log { value: self.ex(o, d), base: self.ex(u, d) }),
        }
    }
    fn sys(&mut self, d: usize, e: bool) -> Expr { if e && self.p(1, 5) { return x(E::UnknownBlock { name: "nativeSyscallError".into(), args: vec![] }) } let n = SYS[self.n(3)]; let name = if self.p(1, 12) { self.expr(Ty::A, d) } else { n.into() }; let a = self.many(Ty::A, d, 2); x(E::UnknownBlock { name: "nativeCallSyscall".into(), args: vec![name, *a] }) }
    fn ask_env(&mut self, d: usize) -> Expr {
        match self.n(3) {
            0 => { let args = self.fields(d); x(E::CallRpc { host: if self.p(1, 3) { Some("h".into()) } else { None }, service: ["Svc", "Pub"][self.n(2)].into(), rpc: ["do", "get"][self.n(2)].into(), args }) }
            1 => { let k = self.n(3); let args = self.args(k, d); x(E::UnknownBlock { name: ["blk", "zig"][self.n(2)].into(), args }) }
            _ => x(match self.n(6) { 0 => E::XPos, 1 => E::PenDown, 2 => E::RpcError, 3 => E::Heading, 4 => E::IsVisible, _ => E::PenAttr { attr: self.pen() } }),
        }
    }
    fn effect(&mut self) -> EffectKind { use EffectKind::*; match self.n(9) { 0 => Color, 1 => Saturation, 2 => Brightness, 3 => Ghost, 4 => Fisheye, 5 => Whirl, 6 => Pixelate, 7 => Mosaic, _ => Negative } }
    fn pen(&mut self) -> PenAttribute { use PenAttribute::*; match self.n(5) { 0 => Size, 1 => Hue, 2 => Saturation, 3 => Brightness, _ => Transparency } }
    fn costume(&mut self, d: usize) -> Expr { match self.n(6) { 0 => "k0".into(), 1 => "k1".into(), 2 => "".into(), 3 => x(E::Costume), 4 => x(E::ListGet { list: b(E::CostumeList), index: Box::new(Expr::from(1.0 + self.n(2) as f64)) }), _ => self.expr(Ty::A, d.min(1)) } }
    fn sound(&mut self, d: usize) -> Expr { match self.n(5) { 0 => "m0".into(), 1 => "m1".into(), 2 => "".into(), 3 => x(E::ListGet { list: b(E::SoundList), index: Box::new(1.0.into()) }), _ => self.expr(Ty::A, d.min(1)) } }
    fn stmts(&mut self, k: usize, d: usize) -> Vec<Stmt> { let mut r = vec![]; for _ in 0..k { if self.size < -20 { break } let t = self.stmt(d); r.push(t) } r }
    fn body(&mut self, d: usize) -> Vec<Stmt> { let k = 1 + self.n(3); let n = self.locals.len(); let r = self.stmts(k, d); if self.p(2, 3) { self.locals.truncate(n) } r }
    fn local(&mut self, t: &str) -> String { self.fresh += 1; let n = if self.p(1, 6) { format!("{t}0") } else { format!("{t}v{}", self.fresh % 4) }; self.locals.push(n.clone()); n }
    fn stmt(&mut self, d: usize) -> Stmt {
        self.size -= 1;
        let k = self.choose(&[("assign", 8), ("arith", 2), ("declare", 3), ("watch", 2), ("pause", 2), ("warp", 2), ("loop", 4), ("if", 3), ("try", 4), ("throw", 2), ("mut", 8), ("return", 1), ("sleep", 2), ("wait", 2), ("costume", 2), ("sound", 2), ("command", 4), ("say", 2), ("request", 4), ("call", 4), ("closure", 3), ("fork", 2), ("clone", 2), ("delete", 1), ("msg", 4), ("net", 3), ("reply", 2), ("ask", 2), ("timer", 2), ("stop", 1), ("block", 3), ("syscall", 2), ("shared", 2), ("try", 1)]);
        let d1 = d.saturating_sub(1);
        let e = 2;
        s(match k {
            0 => { let v = self.any_var(); let v = if (self.w("closure") > 0) && self.p(1, 8) { "c0".to_string() } else if self.w("clone") > 0 && self.p(1, 8) { "e0".to_string() } else { v }; T::Assign { value: self.ex(ty_of(&v), e), var: vr(&v) } }
            1 => { let t = if self.w("lift") > 0 && self.p(1, 2) { Ty::L } else { Ty::N }; let v = self.var(t).unwrap(); T::AddAssign { value: self.ex(Ty::N, e), var: vr(&v) } }
            2 => { let t = ["n", "x", "l", "t"][self.n(4)]; let k = 1 + self.n(2); let vars: Vec<_> = (0..k).map(|_| { let n = self.local(t); def(&n) }).collect(); T::DeclareLocals { vars } }
            3 => { let v = self.any_var(); let var = vr(&v); if self.p(1, 2) { T::ShowVar { var } } else { T::HideVar { var } } }
            4 => T::Pause,
            5 if d > 0 => { let w = std::mem::replace(&mut self.warp, true); let stmts = self.body(d1); self.warp = w; T::Warp { stmts } }
            6 if d > 0 => match self.n(10) {
                0 | 1 | 2 => { let times = if self.p(3, 4) { let k = self.n(5) as f64; let k = if self.p(1, 5) { k - 0.5 } else { k }; Box::new(k.into()) } else { self.ex(Ty::N, 1) }; let stmts = self.body(d1); T::Repeat { times, stmts } }
                3 | 4 => { let items = self.ex(Ty::L, e); let n = self.local("x"); let stmts = self.body(d1); T::ForeachLoop { var: vr(&n), items, stmts } }
                5 | 6 => { let (a, c) = (self.n(5) as f64 - 1.0, self.n(5) as f64); let (start, stop) = if self.p(3, 4) { (Box::new(a.into()), Box::new((c + if self.p(1, 4) { 0.5 } else { 0.0 }).into())) } else { (self.ex(Ty::N, 1), self.ex(Ty::N, 1)) }; let n = self.local("n"); let stmts = self.body(d1); T::ForLoop { var: vr(&n), start, stop, stmts } }
                7 | 8 => { let mut stmts = self.body(d1); stmts.push(s(T::AddAssign { var: vr("n0"), value: Box::new(1.0.into()) })); T::UntilLoop { condition: if self.p(3, 4) { let r = self.n(6) as f64; b(E::Greater { left: b(E::Variable { var: vr("n0") }), right: Box::new(r.into()) }) } else { self.ex(Ty::B, e) }, stmts } }
                _ if !self.warp => { let stmts = self.body(d1); T::InfLoop { stmts } }
                _ => T::Repeat { times: Box::new(2.0.into()), stmts: self.body(d1) },
            },
            7 if d > 0 => { let condition = self.ex(Ty::B, e); if self.p(1, 2) { T::If { condition, then: self.body(d1) } } else { T::IfElse { condition, then: self.body(d1), otherwise: self.body(d1) } } }
            8 | 33 if d > 0 => { let code = self.body(d1); let n = self.local("t"); let mut handler = if self.p(3, 4) { vec![s(T::Say { content: b(E::Variable { var: vr(&n) }), duration: None })] } else { vec![] }; if self.p(1, 3) { handler.extend(self.body(d1)) } T::TryCatch { code, var: vr(&n), handler } }
            9 => T::Throw { error: if self.p(4, 5) { self.ex(Ty::T, 1) } else { self.ex(Ty::A, 1) } },
            10 | 32 => self.mutate(e),
            11 => T::Return { value: self.ex(Ty::A, e) },
            12 => { let v = [0.0, 0.01, 0.02, 0.05, -1.0, 0.0005][self.n(6)]; T::Sleep { seconds: if self.p(5, 6) { Box::new(v.into()) } else { self.ex(Ty::N, 1) } } }
            13 => T::WaitUntil { condition: if self.p(1, 3) || self.warp { Box::new(self.lit(Ty::B)) } else { self.ex(Ty::B, e) } },
            14 => if self.p(1, 3) { T::NextCostume } else { T::SetCostume { costume: Box::new(self.costume(e)) } },
            15 => match self.n(4) { 0 => T::StopSounds, 1 => T::Rest { beats: self.ex(Ty::N, 1) }, 2 => T::PlaySound { sound: Box::new(self.sound(1)), blocking: self.p(1, 2) }, _ => T::PlayNotes { notes: if self.p(1, 3) { self.ex(Ty::L, 1) } else { let n = ["c4", "A#3", "60", "Db-1", "g9", "b", "C##4", "f♯2", "127", "128", "en4"][self.n(11)]; Box::new(n.into()) }, beats: self.ex(Ty::N, 1), blocking: self.p(1, 2) } },
            16 => match self.n(20) {
                0 => T::SetX { value: self.ex(Ty::N, 1) }, 1 => T::ChangeX { delta: self.ex(Ty::N, 1) }, 2 => T::SetY { value: self.ex(Ty::N, 1) }, 3 => T::ChangeY { delta: self.ex(Ty::N, 1) },
                4 => T::GotoXY { x: self.ex(Ty::N, 1), y: self.ex(Ty::N, 1) }, 5 => T::PointTowardsXY { x: self.ex(Ty::N, 1), y: self.ex(Ty::N, 1) },
                6 => T::Goto { target: if self.p(1, 2) { self.ex(Ty::En, 1) } else { b(E::MakeList { values: self.args(2, 1) }) } }, 7 => T::PointTowards { target: if self.p(1, 2) { self.ex(Ty::En, 1) } else { self.ex(Ty::L, 1) } },
                8 => T::TurnRight { angle: self.ex(Ty::N, 1) }, 9 => T::TurnLeft { angle: self.ex(Ty::N, 1) }, 10 => T::SetHeading { value: self.ex(Ty::N, 1) }, 11 => T::SetPenDown { value: self.p(1, 2) }, 12 => if self.p(1, 2) { T::PenClear } else { T::ClearEffects },
                13 => { let c = crate::sym::next(&mut self.r).to_le_bytes(); T::SetPenColor { color: (c[0], c[1], c[2], c[3]) } } 14 => T::SetVisible { value: self.p(1, 2) }, 15 => if self.p(1, 2) { T::ChangeSize { delta: self.ex(Ty::N, 1) } } else { T::SetSize { value: self.ex(Ty::N, 1) } },
                16 => if self.p(1, 2) { T::ChangePenSize { delta: self.ex(Ty::N, 1) } } else { T::SetPenSize { value: self.ex(Ty::N, 1) } },
                17 => { let kind = self.effect(); if self.p(1, 2) { T::SetEffect { kind, value: self.ex(Ty::N, 1) } } else { T::ChangeEffect { kind, delta: self.ex(Ty::N, 1) } } }
                18 => { let attr = self.pen(); if self.p(1, 2) { T::SetPenAttr { attr, value: self.ex(Ty::N, 1) } } else { T::ChangePenAttr { attr, delta: self.ex(Ty::N, 1) } } }
                _ => T::Forward { distance: self.ex(Ty::N, 1) },
            },
            18 => match self.ask_env(e).kind { E::CallRpc { host, service, rpc, args } => T::CallRpc { host, service, rpc, args }, E::UnknownBlock { name, args } => T::UnknownBlock { name, args }, k => T::Say { content: b(k), duration: None } },
            19 => match self.call(e) { Some((function, args, upvars)) => T::CallFn { function, args, upvars }, None => T::Say { content: self.ex(Ty::A, e), duration: None } },
            20 => { let k = self.n(3); let on = if self.w("tell") > 0 && self.p(1, 2) { Some(self.ex(Ty::En, 1)) } else { None }; let closure = if self.p(1, 3) { self.ex(Ty::C, e) } else { Box::new(self.closure(k, e)) }; T::CallClosure { new_entity: on, closure, args: self.args(k, 1) } }
            21 => { let k = self.n(2); let w = std::mem::replace(&mut self.warp, false); let closure = if self.p(1, 4) { self.ex(Ty::C, e) } else { Box::new(self.closure(k, e)) }; self.warp = w; T::ForkClosure { closure, args: self.args(k, 1) } }
            22 => if self.p(1, 2) { T::Assign { var: vr("e0"), value: b(E::Clone { target: self.ex(Ty::En, 1) }) } } else { T::Clone { target: self.ex(Ty::En, 1) } },
            23 => if self.w("stop") > 0 && self.p(1, 2) { let mode = if self.p(1, 2) { StopMode::AllButThisScript } else { StopMode::OtherScriptsInSprite }; T::If { condition: Box::new(true.into()), then: vec![s(T::Stop { mode }), s(T::DeleteClone)] } } else { T::DeleteClone },
            24 => T::SendLocalMessage { target: if self.p(1, 3) { Some(if self.p(1, 3) { let k = self.n(3); b(E::MakeList { values: (0..k).map(|_| self.expr(Ty::En, 1)).collect() }) } else { self.ex(Ty::En, 1) }) } else { None }, msg_type: if self.p(9, 10) { Box::new(MSGS[self.n(3)].into()) } else { self.ex(Ty::A, 1) }, wait: self.p(1, 2) },
            25 => { let msg_type = MSGS[self.n(3)].into(); let values = self.fields(e); T::SendNetworkMessage { target: if self.p(1, 3) { self.ex(Ty::L, e) } else { self.ex(Ty::T, e) }, msg_type, values } }
            26 => T::SendNetworkReply { value: self.ex(Ty::A, e) },
            27 => T::Ask { prompt: self.ex(Ty::T, e) },
            28 => T::ResetTimer,
            29 => T::Stop { mode: match self.n(6) { 0 => StopMode::All, 1 | 2 => StopMode::ThisScript, 3 => StopMode::ThisBlock, 4 => StopMode::AllButThisScript, _ => StopMode::OtherScriptsInSprite } },
            30 => { let k = 1 + self.n(2); T::UnknownBlock { name: "blk".into(), args: self.args(k, e) } }
            31 => { let E::UnknownBlock { args, .. } = self.sys(e, false).kind else { unreachable!() }; T::UnknownBlock { name: "nativeRunSyscall".into(), args } }
            _ => { let duration = if self.w("sleep") > 0 && self.p(1, 3) { Some(Box::new(0.02.into())) } else { None }; let content = self.ex(Ty::A, e); if self.p(1, 2) { T::Say { content, duration } } else { T::Think { content, duration } } }
        })
    }
    fn mutate(&mut self, e: usize) -> T {
        let list = self.ex(Ty::L, 0);
        let rnd = self.w("random") > 0;
        let index = if self.p(1, 5) { self.ex(Ty::L, 1) } else if self.p(3, 5) { let v = self.n(5) as f64; Box::new(v.into()) } else { self.ex(Ty::N, 1) };
        match self.n(12) {
            0 | 1 => T::ListInsert { list, value: self.ex(Ty::A, e), index }, 2 | 3 => T::ListInsertLast { list, value: self.ex(Ty::A, e) }, 4 if rnd => T::ListInsertRandom { list, value: self.ex(Ty::A, 1) },
            5 | 4 => T::ListRemove { list, index }, 6 => T::ListRemoveLast { list }, 7 if self.p(1, 3) => T::ListRemoveAll { list }, 8 | 9 | 7 => T::ListAssign { list, value: self.ex(Ty::A, e), index }, 10 if rnd => T::ListAssignRandom { list, value: self.ex(Ty::A, 1) }, _ => T::ListAssignLast { list, value: self.ex(Ty::A, e) },
        }
    }
}
pub fn case(profile: &str, seed: u64) -> Case {
    let wt = PROFILES.iter().find(|p| p.0 == profile).expect("profile").1;
    let mut g = G { r: seed, wt, locals: vec![], warp: false, funcs: vec![], ents: 1, size: 60, fresh: 0, method: false, bad: seed % 3 == 0, shared: wt.iter().any(|w| w.0 == "shared"), upv: false, root: false };
    let locs = wt.iter().any(|w| w.0 == "places");
    LOCS.set((if locs { 1 + (seed % 3) as u8 } else { 0 }, 0));
    g.n(2);
    g.ents = 1 + g.n(3);
    let on = |g: &G, c: &str| g.w(c) > 0;
    // functions
    let nf = if on(&g, "recurse") || g.w("call") > 1 { 1 + g.n(3) } else { g.n(3) };
    for i in 0..nf { let k = g.n(3); let up = on(&g, "upvar") && g.p(1, 2); let m = g.n(3) == 0; g.funcs.push((format!("fn{i}"), k.max(up as usize), m, up)) }
    let specs = g.funcs.clone();
    if !on(&g, "recurse") { g.funcs.clear() }
    let mut mk = |g: &mut G, f: &(String, usize, bool, bool), method: bool| -> Function {
        let params: Vec<String> = (0..f.1).map(|i| if f.3 && i == 0 { "nu0".to_string() } else { format!("{}p{i}", ["n", "x", "l"][g.n(3)]) }).collect();
        g.locals = params.clone(); g.method = method; g.warp = true;
        let mut stmts = g.body(2);
        if g.p(2, 3) { let v = g.expr(Ty::A, 2); stmts.push(s(T::Return { value: Box::new(v) })) }
        g.locals.clear(); g.warp = false; g.method = false;
        Function { name: f.0.as_str().into(), trans_name: f.0.as_str().into(), params: params.iter().map(|p| def(p)).collect(), upvars: if f.3 { vec![vr("nu0")] } else { vec![] }, returns: true, stmts }
    };
    let mut funcs = vec![];
    for f in specs.iter().filter(|f| !f.2) { g.size = 25; let x = mk(&mut g, f, false); funcs.push(x) }
    // initial values, with sharing
    let mut refs = 0;
    // texts that are nearly the same
    fn near(g: &mut G) -> String { let t = if g.p(1, 2) { ["a", "12", "hello"][g.n(3)].to_string() } else { g.text() }; match g.n(12) { 0 => format!(" {t}"), 1 => format!("{t} "), 2 => t.to_uppercase(), 3 => t.to_lowercase(), 4 => format!("{t}{t}"), _ => t } }
    let mut init = |g: &mut G, n: &str, made: &mut Vec<usize>| -> A {
        match ty_of(n) {
            Ty::N => A::Number(g.n(4) as f64), Ty::T => A::String(near(g).into()), Ty::B => A::Bool(g.p(1, 2)), Ty::C | Ty::En => A::Number(0.0),
            Ty::L => {
                if on(g, "shared") && g.p(1, 4) && !made.is_empty() { return A::Ref(RefId(made[g.n(made.len())])) }
                let id = refs; refs += 1;
                let mut v: Vec<A> = { let k = g.n(5); (0..k).map(|_| g.lval(1)).collect() };
                if g.p(1, 3) { v = (0..g.n(4)).map(|i| A::Number(i as f64 + 1.0)).collect() }
                if on(g, "shared") {
                    if g.p(1, 8) { made.push(id) } // may contain itself
                    if !made.is_empty() { for _ in 0..g.n(3) { let at = g.n(v.len() + 1); let r = made[g.n(made.len())]; v.insert(at, A::Ref(RefId(r))) } }
                    if !made.contains(&id) { made.push(id) }
                }
                A::List(v, if on(g, "shared") { Some(RefId(id)) } else { None })
            }
            Ty::A => if g.p(1, 3) { A::String(near(g).into()) } else { A::Number(g.num()) },
        }
    };
    let mut made = vec![];
    let globals: Vec<VariableDefInit> = GLOBALS.iter().map(|n| VariableDefInit { def: def(n), init: init(&mut g, n, &mut made) }).collect();
    let image = |n: &str, k: u8| A::Image(Rc::new((vec![k, k + 1], if k % 2 == 0 { Some((1.0, 2.0)) } else { None }, n.into())));
    let imgs = [image("k0", 2), image("k1", 3), image("k0", 4)];
    let snds: Vec<A> = (0..2).map(|i| A::Audio(Rc::new((vec![9, i], format!("m{i}").into())))).collect();
    let mut entities = vec![];
    for i in 0..g.ents {
        let mut fields = vec![];
        for n in FIELDS { if *n != "x0" || g.p(1, 3) { if g.p(5, 6) { fields.push(VariableDefInit { def: def(n), init: init(&mut g, n, &mut made) }) } } }
        let mut efuncs = vec![];
        for f in &specs { if f.2 || g.p(1, 8) { g.size = 25; efuncs.push(mk(&mut g, f, true)) } }
        let ks: Vec<A> = match g.n(4) { 0 => vec![], 1 => vec![imgs[0].clone()], 2 => vec![imgs[0].clone(), imgs[1].clone()], _ => vec![imgs[2].clone(), imgs[1].clone()] };
        let nc = ks.len();
        let as_init = |v: &A| VariableDefInit { def: def(match v { A::Image(i) => i.2.as_str(), A::Audio(a) => a.1.as_str(), _ => "" }), init: v.clone() };
        let sounds = snds[..g.n(3)].iter().map(as_init).collect();
        let heading = if g.p(1, 2) { 90.0 } else { [0.0, 270.0, -90.0, 360.0, 450.5, -719.75, 1080.0, 33.25][g.n(8)] };
        let full = [0, 255];
        let (pos, scale, visible, color) = if g.p(1, 2) { ((0.0, 0.0), 1.0, true, (0, 0, 0, 255)) } else { ((g.n(9) as f64 * 32.5 - 100.0, g.n(9) as f64 * -12.25 + 40.0), [1.0, 0.5, 2.0, 0.0][g.n(4)], g.p(1, 2), (full[g.n(2)], full[g.n(2)], full[g.n(2)], full[g.n(2)])) };
        entities.push(Entity { name: format!("s{i}").into(), trans_name: format!("s{i}").into(), fields, costumes: ks.iter().map(as_init).collect(), sounds, funcs: efuncs, scripts: vec![], active_costume: if nc > 0 && g.p(2, 3) { Some(g.n(nc)) } else { None }, visible, color, pos, heading, scale });
    }
    g.funcs = specs.clone();
    let total = 1 + g.n(4) + if on(&g, "msg") || on(&g, "inputs") || on(&g, "net") { 2 } else { 0 };
    for i in 0..total {
        let e = g.n(g.ents);
        let hk = if i == 0 { 0 } else { let base = [("block", 3), ("clone", 6), ("inputs", 1), ("msg", 12), ("net", 8), ("inputs", 1), ("inputs", 1)]; let opts: Vec<(&'static str, u32)> = base.to_vec(); g.choose(&opts) };
        let kind = match hk {
            0 => HatKind::OnFlag, 1 => HatKind::OnClone, 2 | 6 => HatKind::OnKey { key: ["any key", "space", "a", "up arrow"][g.n(4)].into() },
            3 => HatKind::LocalMessage { msg_type: if g.p(1, 5) { None } else { Some(MSGS[g.n(3)].into()) } },
            4 => HatKind::NetworkMessage { msg_type: MSGS[g.n(3)].into(), fields: (0..g.n(3)).map(|i| vr(&format!("xm{i}"))).collect() },
            _ => HatKind::Unknown { name: ["ev", "ew"][g.n(2)].into(), fields: (0..g.n(3)).map(|i| vr(&format!("xm{i}"))).collect() },
        };
        g.locals = match &kind { HatKind::NetworkMessage { fields, .. } | HatKind::Unknown { fields, .. } => fields.iter().map(|f| f.trans_name.to_string()).collect(), _ => vec![] };
        g.method = true;
        g.size = 60 / total.min(4) as i32 + 15;
        let k = 2 + g.n(4);
        let mut stmts = g.stmts(k, 3);
        if matches!(kind, HatKind::NetworkMessage { .. }) && on(&g, "reply") && g.p(1, 2) { let e = g.ex(Ty::A, 1); let at = g.n(stmts.len() + 1); stmts.insert(at, s(T::SendNetworkReply { value: e })) }
        // a hat only ever clones a bounded number of times
        entities[e].scripts.push(Script { hat: Some(Box::new(Hat { kind, info: BlockInfo::none() })), stmts });
        g.method = false;
    }
    let turns = 30 + g.n(50);
    let mut inputs = vec![(0, Input::Start)];
    let hats = |k: &str, es: &[Entity]| es.iter().flat_map(|e| &e.scripts).any(|s| match (&s.hat.as_ref().unwrap().kind, k) { (HatKind::OnKey { .. }, "key") | (HatKind::Unknown { .. }, "ev") | (HatKind::NetworkMessage { .. }, "net") => true, _ => false });
    let val = |g: &mut G| match g.n(6) { 0 | 1 => Val::Num(g.n(9) as f64), 2 => Val::Text(g.text()), 3 => Val::Bool(g.p(1, 2)), _ => Val::List(vec![Val::Num(1.0), Val::Text("q".into()), Val::List(vec![])]) };
    let burst = |g: &mut G, turns: usize| -> Vec<usize> { let mut at = g.n(turns); (0..1 + g.n(5)).map(|_| { if g.p(1, 4) { at = g.n(turns) } else { at = (at + g.n(3)).min(turns - 1) } at }).collect() };
    if on(&g, "inputs") && g.p(1, 3) { inputs.push((g.n(turns), Input::Start)) }
    if on(&g, "inputs") && g.p(1, 6) { inputs.push((g.n(turns), Input::Stop)) }
    if hats("key", &entities) { for t in burst(&mut g, turns) { inputs.push((t, Input::Key(KEYS[g.n(3)]))) } }
    if hats("ev", &entities) { for t in burst(&mut g, turns) { let args = (0..g.n(3)).map(|i| (format!("xm{i}"), val(&mut g))).collect(); inputs.push((t, Input::Custom { name: ["ev", "ew"][g.n(2)].into(), args, interrupt: g.p(1, 3), max: [0, 1, 2, usize::MAX][g.n(4)] })) } }
    let mut msgs: Vec<(usize, Msg)> = vec![];
    if hats("net", &entities) { for t in burst(&mut g, turns).into_iter().chain(burst(&mut g, turns)) { let fields = (0..g.n(4)).map(|i| (format!("xm{i}"), val(&mut g))).collect(); msgs.push((t, Msg { ty: MSGS[g.n(3)].into(), fields, reply: g.p(1, 2) })) } }
    inputs.sort_by_key(|x| x.0); msgs.sort_by_key(|x| x.0);
    let clock = if on(&g, "realtime") && g.p(1, 2) { Clock::Real } else if on(&g, "sleep") || on(&g, "timer") { if g.p(1, 12) { Clock::None } else { Clock::Arbitrary } } else if g.p(1, 6) { Clock::None } else { Clock::Arbitrary };
    let steps = (0..turns).map(|_| match g.n(5) { 0 => 0, 1 => 1, 2 => 7, 3 => 20, _ => 33 }).collect();
    let limit = if on(&g, "recurse") { 2 + g.n(8) } else { 20 };
    Case { role: Role { name: "role".into(), notes: "".into(), stage_size: (480, 360), globals, funcs, entities }, conf: Conf { limit, soft_rpc: g.p(1, 2), soft_sys: g.p(1, 2), locs }, clock, refuse: g.p(1, 2) && on(&g, "try"), mseed: mix(seed, 77), inputs, msgs, steps, turns }
}
