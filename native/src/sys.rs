//! A deterministic environment (requests, commands, clock, randomness, messages) shared by the specification and the VM,
//! and the `System` implementation through which the real VM runs in it.
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::rc::Rc;
use netsblox_vm::runtime::*;
use netsblox_vm::process::*;
use netsblox_vm::gc::*;
use netsblox_vm::json::*;
use netsblox_vm::vecmap::VecMap;
use netsblox_vm::compact_str::CompactString;
use rand::distr::uniform::{SampleUniform, SampleRange};

pub fn mix(a: u64, b: u64) -> u64 { let mut s = a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03); crate::sym::next(&mut s) }
#[derive(Clone, Debug)]
pub enum Val { Num(f64), Text(String), Bool(bool), List(Vec<Val>), Nat(i32) }
#[derive(Clone, Debug)]
pub struct Msg { pub ty: String, pub fields: Vec<(String, Val)>, pub reply: bool }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Clock { None, Arbitrary, Real }
pub struct Mock { pub seed: u64, pub k: u64, pend: HashMap<u64, (u64, Result<Val, String>)>, replies: HashMap<String, (u64, Option<Json>)>, pub time: u64, pub clock: Clock, pub rng: Rng, pub inbox: VecDeque<(Msg, u64)>, pub refuse: bool, pub trace: Vec<String>, msgs: u64, pub gate: bool }
pub struct Rng(pub u64);
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 { crate::sym::next(&mut self.0) as u32 }
    fn next_u64(&mut self) -> u64 { crate::sym::next(&mut self.0) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = crate::sym::next(&mut self.0) as u8 } }
}
pub fn random_val(h: u64) -> Val {
    match h % 11 {
        0..=2 => Val::Num((mix(h, 1) % 9) as f64 - 2.0), 3 => Val::Text(format!("t{}", mix(h, 2) % 5)), 4 => Val::Text(String::new()), 5 => Val::Bool(mix(h, 3) & 1 == 0),
        6 => Val::List(vec![Val::Num(4.0), Val::Text("z".into())]), 7 => Val::List(vec![]), 8 => Val::Nat(7), 9 => Val::Text("12".into()), _ => Val::Num((mix(h, 4) % 1000) as f64 / 8.0),
    }
}
impl Mock {
    pub fn new(seed: u64, clock: Clock, refuse: bool) -> Mock { Mock { seed, k: 0, pend: HashMap::new(), replies: HashMap::new(), time: 1000 + seed % 500, clock, rng: Rng(seed ^ 0xABCD), inbox: VecDeque::new(), refuse, trace: vec![], msgs: 0, gate: false } }
    pub fn log(&mut self, s: String) { self.trace.push(s) }
    pub fn perform(&mut self, desc: String, command: bool) -> Result<u64, String> {
        self.k += 1;
        let h = mix(self.seed, self.k);
        if self.refuse && h % 13 == 0 { self.log(format!("refuse {} {desc}", self.k)); return Err(format!("no{}", self.k)) }
        self.log(format!("do {} {desc}", self.k));
        let delay = match mix(h, 5) % 6 { 0..=2 => 0, 3 => 1, 4 => 2, _ => 5 };
        let res = if mix(h, 6) % 7 == 0 { Err(format!("bad{}", self.k)) } else if command { Ok(Val::Num(0.0)) } else { Ok(random_val(mix(h, 7))) };
        self.pend.insert(self.k, (delay, res));
        Ok(self.k)
    }
    pub fn poll(&mut self, k: u64) -> Option<Result<Val, String>> {
        match self.pend.get_mut(&k) {
            None => { self.log(format!("POLLED AGAIN {k}")); Some(Err("again".into())) }
            Some((0, _)) => Some(self.pend.remove(&k).unwrap().1),
            Some((d, _)) => { *d -= 1; None }
        }
    }
    pub fn now(&self) -> Option<u64> { if self.clock == Clock::None { None } else { Some(self.time) } }
    pub fn send(&mut self, desc: String, expect: bool) -> Result<Option<String>, String> {
        self.k += 1;
        let h = mix(self.seed, self.k);
        if self.refuse && h % 13 == 0 { self.log(format!("refuse {} {desc}", self.k)); return Err(format!("no{}", self.k)) }
        self.log(format!("do {} {desc}", self.k));
        if !expect { return Ok(None) }
        let id = format!("x{}", self.k);
        let v = match mix(h, 8) % 5 { 0 => None, 1 => Some(json!([1, "a", true, [2.5]])), 2 => Some(json!("pong")), 3 => Some(json!(null)), _ => Some(json!(mix(h, 9) % 50)) };
        self.replies.insert(id.clone(), (mix(h, 10) % 4, v));
        Ok(Some(id))
    }
    pub fn poll_reply(&mut self, id: &str) -> Option<Option<Json>> {
        match self.replies.get_mut(id) {
            None => { self.log(format!("POLLED AGAIN {id}")); Some(None) }
            Some((0, _)) => Some(self.replies.remove(id).unwrap().1),
            Some((d, _)) => { *d -= 1; None }
        }
    }
    pub fn push_msg(&mut self, m: Msg) { self.msgs += 1; let n = self.msgs; self.inbox.push_back((m, n)) }
}

thread_local! { pub static CLONES: Cell<usize> = Cell::new(0); pub static LATE: RefCell<Vec<String>> = RefCell::new(vec![]); }

#[derive(Debug)]
pub struct Nat(pub i32);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct NT;
impl GetType for Nat { type Output = NT; fn get_type(&self) -> NT { NT } }
pub struct Inter(SimpleValue);
impl From<SimpleValue> for Inter { fn from(v: SimpleValue) -> Self { Inter(v) } }
/// An entity: whether it is a clone, and what it was described as (stage or sprite, place, direction, size, visibility, colour).
pub struct ES { pub clone: Option<usize>, pub described: Vec<f64> }
fn described(stage: bool, p: &Properties) -> Vec<f64> { vec![stage as u8 as f64, p.pos.0.get(), p.pos.1.get(), p.heading.get(), p.size.get(), p.visible as u8 as f64, p.pen_color_h.get(), p.pen_color_s.get(), p.pen_color_v.get(), p.pen_color_t.get()] }
impl From<EntityKind<'_, '_, C, S>> for ES { fn from(k: EntityKind<'_, '_, C, S>) -> Self { match k { EntityKind::Clone { .. } => ES { clone: Some(CLONES.with(|c| { c.set(c.get() + 1); c.get() })), described: vec![] }, EntityKind::Stage { props } => ES { clone: None, described: described(true, &props) }, EntityKind::Sprite { props } => ES { clone: None, described: described(false, &props) } } } }
pub struct PS { pub from: String, pub ent: String, pub depth: usize }
impl From<ProcessKind<'_, '_, C, S>> for PS { fn from(k: ProcessKind<'_, '_, C, S>) -> Self { PS { ent: label(&*k.entity.borrow()), from: k.dispatcher.map(|p| p.state.ent.clone()).unwrap_or_default(), depth: 0 } } }
impl Unwindable for PS { type UnwindPoint = usize; fn get_unwind_point(&self) -> usize { self.depth } fn unwind_to(&mut self, p: &usize) { self.depth = *p } }
pub fn label(e: &Entity<'_, C, S>) -> String { match e.state.clone { None => e.name.to_string(), Some(n) => format!("{}#{n}", &*e.name) } }
pub struct C;
impl CustomTypes<S> for C {
    type NativeValue = Nat; type Intermediate = Inter; type EntityState = ES; type ProcessState = PS;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Value<'gc, C, S> { Value::from_simple(mc, v.0) }
}
pub struct RK(u64); impl Key<Result<Inter, CompactString>> for RK { fn complete(self, _: Result<Inter, CompactString>) {} }
pub struct CK(u64); impl Key<Result<(), CompactString>> for CK { fn complete(self, _: Result<(), CompactString>) {} }
pub struct S(pub RefCell<Mock>);
pub fn vm_val<'gc>(mc: &Mutation<'gc>, v: &Val) -> Value<'gc, C, S> {
    match v {
        Val::Num(x) => Number::new(*x).unwrap().into(), Val::Text(s) => Text::from(s.as_str()).into(), Val::Bool(b) => (*b).into(), Val::Nat(n) => Value::Native(Rc::new(Nat(*n))),
        Val::List(l) => Gc::new(mc, RefLock::new(l.iter().map(|x| vm_val(mc, x)).collect::<VecDeque<_>>())).into(),
    }
}
fn simple(v: &Val) -> SimpleValue { match v { Val::Num(x) => Number::new(*x).unwrap().into(), Val::Text(s) => CompactString::new(s).into(), Val::Bool(b) => (*b).into(), Val::List(l) => SimpleValue::List(l.iter().map(simple).collect()), Val::Nat(_) => SimpleValue::Bool(false) } }
pub fn simple_of(v: &Val) -> SimpleValue { simple(v) }
/// Structure of several values at once (same notation as the specification's `canon`).
pub fn canon(vs: &[Value<'_, C, S>]) -> String {
    let mut seen: HashMap<usize, usize> = HashMap::new();
    fn named(p: usize, seen: &mut HashMap<usize, usize>, out: &mut String, pre: &str) -> bool { let n = seen.len(); match seen.get(&p) { Some(i) => { out.push_str(&format!("{pre}@{i}")); true } None => { seen.insert(p, n); out.push_str(&format!("{pre}#{n}")); false } } }
    fn go(v: &Value<'_, C, S>, seen: &mut HashMap<usize, usize>, out: &mut String) {
        match v {
            Value::Bool(b) => out.push_str(&format!("{b}")),
            Value::Number(x) => { let x = x.get(); out.push_str(&if x == 0.0 && x.is_sign_negative() { "NEGATIVE ZERO".into() } else if !x.is_finite() { "NOT FINITE".into() } else { format!("{x:?}") }) }
            Value::Text(s) => out.push_str(&format!("{:?}", s.as_str())),
            Value::Native(n) => out.push_str(&format!("nat{}", n.0)),
            Value::Entity(e) => out.push_str(&format!("ent:{}", label(&*e.borrow()))),
            Value::Closure(c) => { named(Gc::as_ptr(*c) as *const () as usize, seen, out, "clo"); }
            Value::Image(i) => { if !named(Rc::as_ptr(i) as *const () as usize, seen, out, "img") { out.push_str(&format!("{:?}", (&i.content, i.center.map(|c| (c.0.get(), c.1.get())), i.name.as_str()))) } }
            Value::Audio(i) => { if !named(Rc::as_ptr(i) as *const () as usize, seen, out, "snd") { out.push_str(&format!("{:?}", (&i.content, i.name.as_str()))) } }
            Value::List(l) => if !named(Gc::as_ptr(*l) as *const () as usize, seen, out, "") {
                out.push('[');
                for (i, x) in l.borrow().iter().enumerate() { if i > 0 { out.push(' ') } go(x, seen, out) }
                out.push(']');
            }
        }
    }
    let mut out = String::new();
    for (i, v) in vs.iter().enumerate() { if i > 0 { out.push_str(" | ") } go(v, &mut seen, &mut out) }
    out
}
fn who(p: &Process<'_, C, S>) -> String { let f = p.get_call_stack(); format!("{}<{}@{}+{}", p.state.ent, p.state.from, label(&*f.last().unwrap().entity.borrow()), p.state.depth) }
fn opt(v: &Option<Value<'_, C, S>>) -> String { match v { None => "-".into(), Some(v) => canon(std::slice::from_ref(v)) } }
impl System<C> for S {
    type RequestKey = RK; type CommandKey = CK;
    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, range: R) -> T { range.sample_single(&mut self.0.borrow_mut().rng).unwrap() }
    fn time(&self, _: Precision) -> SysTime { let m = self.0.borrow(); match m.clock { Clock::None => SysTime::Timeless, Clock::Arbitrary => SysTime::Arbitrary { ms: m.time }, Clock::Real => SysTime::Real { local: time::OffsetDateTime::from_unix_timestamp_nanos(m.time as i128 * 1_000_000).unwrap() } } }
    fn perform_request<'gc>(&self, _mc: &Mutation<'gc>, r: Request<'gc, C, Self>, p: &mut Process<'gc, C, Self>) -> Result<RK, ErrorCause<C, Self>> {
        let d = match &r {
            Request::Input { prompt } => format!("input {}", opt(prompt)),
            Request::Syscall { name, args } => { if name == "enter" { p.state.depth += 1 } format!("syscall {name:?} {}", canon(args)) }
            Request::Rpc { host, service, rpc, args } => format!("rpc {host:?} {service:?} {rpc:?} {:?} {}", args.iter().map(|x| x.0.as_str()).collect::<Vec<_>>(), canon(&args.iter().map(|x| x.1.clone()).collect::<Vec<_>>())),
            Request::Property { prop } => format!("get {prop:?}"),
            Request::UnknownBlock { name, args } => format!("block {name:?} {}", canon(args)),
        };
        let w = who(p);
        self.0.borrow_mut().perform(format!("{w} {d}"), false).map(RK).map_err(|m| ErrorCause::Custom { msg: m.into() })
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &RK, _: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Value<'gc, C, Self>, CompactString>>, ErrorCause<C, Self>> {
        Ok(match self.0.borrow_mut().poll(key.0) { None => AsyncResult::Pending, Some(r) => AsyncResult::Completed(r.map(|v| vm_val(mc, &v)).map_err(|e| e.into())) })
    }
    fn perform_command<'gc>(&self, _mc: &Mutation<'gc>, c: Command<'gc, '_, C, Self>, p: &mut Process<'gc, C, Self>) -> Result<CK, ErrorCause<C, Self>> {
        let one = |v: &Value<'gc, C, S>| canon(std::slice::from_ref(v));
        let d = match &c {
            Command::Print { style, value } => format!("{style:?} {}", opt(value)),
            Command::SetProperty { prop, value } => format!("set {prop:?} {}", one(value)),
            Command::ChangeProperty { prop, delta } => format!("change {prop:?} {}", one(delta)),
            Command::ClearEffects => "clear effects".into(), Command::ClearDrawings => "clear drawings".into(), Command::SetCostume => format!("costume {}", p.get_call_stack().last().unwrap().entity.borrow().costume.as_ref().map(|x| x.name.to_string()).unwrap_or_default()),
            Command::PlaySound { sound, blocking } => format!("sound {} {blocking}", sound.name),
            Command::PlayNotes { notes, beats, blocking } => format!("notes {:?} {:?} {blocking}", notes.iter().map(|n| n.get_midi().0).collect::<Vec<_>>(), beats.get()),
            Command::StopSounds => "stop sounds".into(),
            Command::GotoXY { x, y } => format!("goto {:?} {:?}", x.get(), y.get()), Command::GotoEntity { target } => format!("goto {}", label(target)),
            Command::PointTowardsXY { x, y } => format!("point {:?} {:?}", x.get(), y.get()), Command::PointTowardsEntity { target } => format!("point {}", label(target)),
            Command::Forward { distance } => format!("forward {:?}", distance.get()),
        };
        let w = who(p);
        self.0.borrow_mut().perform(format!("{w} {d}"), true).map(CK).map_err(|m| ErrorCause::Custom { msg: m.into() })
    }
    fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, key: &CK, _: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
        Ok(match self.0.borrow_mut().poll(key.0) { None => AsyncResult::Pending, Some(r) => AsyncResult::Completed(r.map(|_| ()).map_err(|e| e.into())) })
    }
    fn send_message(&self, ty: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect: bool) -> Result<Option<ExternReplyKey>, ErrorCause<C, Self>> {
        let d = format!("message {ty:?} {:?} to {targets:?} {expect}", values.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect::<Vec<_>>());
        self.0.borrow_mut().send(d, expect).map(|k| k.map(|k| ExternReplyKey { request_id: k.into() })).map_err(|m| ErrorCause::Custom { msg: m.into() })
    }
    fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> { match self.0.borrow_mut().poll_reply(&key.request_id) { None => AsyncResult::Pending, Some(x) => AsyncResult::Completed(x) } }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> { self.0.borrow_mut().log(format!("reply {} {} {value}", key.src_id, key.request_id)); Ok(()) }
    fn receive_message(&self) -> Option<IncomingMessage> {
        let mut m = self.0.borrow_mut();
        if !std::mem::replace(&mut m.gate, false) { return None } // at most one message arrives per turn, with its first step
        m.inbox.pop_front().map(|(m, n)| IncomingMessage { msg_type: m.ty.into(), values: m.fields.iter().map(|(k, v)| (k.as_str().into(), simple(v))).collect(), reply_key: if m.reply { Some(InternReplyKey { src_id: "src".into(), request_id: format!("r{n}").into() }) } else { None } })
    }
}
