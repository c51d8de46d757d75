//! Independent executable specification of programs: what blocks mean, how scripts are scheduled, stopped and woken.
//! It interprets the syntax tree directly with coroutines (no bytecode, no stacks shared with the code under test).
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use netsblox_vm::ast::{self, Expr, ExprKind as E, Stmt, StmtKind as T, HatKind};
use crate::spec::{self, *};
use crate::sys::{self, Mock, Val, Msg, Clock};
use crate::sym::{Discard};

pub type Loc = Rc<RefCell<V>>;
pub type Vars = Vec<(String, Loc)>;
pub struct Clo { pub params: Vec<String>, pub caps: Vars, pub stmts: &'static [Stmt], pub code: Option<usize> }
pub struct Ent { pub idx: usize, pub name: String, pub clone: Option<usize>, pub fields: RefCell<Vars>, pub original: Option<Rc<Ent>>, pub costumes: Rc<Vec<V>>, pub sounds: Rc<Vec<V>>, pub costume: RefCell<Option<V>> }
impl Ent { pub fn label(&self) -> String { match self.clone { None => self.name.clone(), Some(n) => format!("{}#{n}", self.name) } } }
pub enum Exn { Err(String), Custom(String), Ret(V), Abort }
impl From<String> for Exn { fn from(s: String) -> Exn { Exn::Err(s) } }
type B<X> = Pin<Box<dyn Future<Output = X>>>;
type X<Y> = Result<Y, Exn>;

pub struct Proc { pid: u64, warp: Cell<usize>, rpc_err: RefCell<Option<V>>, sys_err: RefCell<Option<V>>, answer: RefCell<Option<V>>, message: RefCell<Option<V>>, reply: RefCell<Option<u64>>, barrier: RefCell<Option<Rc<()>>>, ent: Rc<Ent>, entl: String, from: String, depth: Cell<usize>, fails: RefCell<Vec<(usize, String)>> }
pub struct Frame { locals: RefCell<Vars>, ent: Rc<Ent>, code: Option<usize>, parent: Option<Rc<Frame>>, depth: usize }
struct Task { fut: Option<B<X<V>>>, proc: Rc<Proc> }
struct Ctx { locals: Vec<(String, V)>, from: String, barrier: Option<Rc<()>>, reply: Option<u64>, message: Option<String> }
struct Script { hat: &'static HatKind, ent: Rc<Ent>, stmts: &'static [Stmt], pid: Cell<Option<u64>>, queue: RefCell<VecDeque<Ctx>> }
#[derive(Clone, Copy, Debug)]
pub struct Conf { pub limit: usize, pub soft_rpc: bool, pub soft_sys: bool, pub locs: bool }
enum Sig { Yield, Token(String) }
pub struct World { pub places: RefCell<Vec<(usize, String)>>, pub role: &'static ast::Role, pub conf: Conf, pub mock: RefCell<Mock>, globals: Vars, ents: Vec<Rc<Ent>>, scripts: RefCell<Vec<Rc<Script>>>, tasks: RefCell<BTreeMap<u64, Task>>, next: Cell<u64>, queue: RefCell<VecDeque<u64>>, timer: Cell<u64>, sig: RefCell<Option<Sig>>, pub budget: Cell<u64> }
type W = Rc<World>;
type P = Rc<Proc>;
type F = Rc<Frame>;

#[derive(Clone, Debug)]
pub enum Input { Start, Stop, Key(&'static str), Custom { name: String, args: Vec<(String, Val)>, interrupt: bool, max: usize } }
pub const KEYS: &[&str] = &["space", "a", "up arrow"];

struct Pause(bool);
impl Future for Pause { type Output = (); fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending } } }

fn of_val(v: &Val) -> V { match v { Val::Num(x) => V::Num(*x), Val::Text(s) => text(s), Val::Bool(b) => V::Bool(*b), Val::List(l) => list(l.iter().map(of_val).collect()), Val::Nat(n) => V::Native(Rc::new(*n)) } }
fn undefined<Y>(name: &str) -> X<Y> { Err(Exn::Err(format!("UndefinedVariable {{ name: {name:?} }}"))) }
fn find(v: &Vars, n: &str) -> Option<Loc> { v.iter().find(|x| x.0 == n).map(|x| x.1.clone()) }
fn define(v: &mut Vars, n: &str, x: Loc) { match v.iter_mut().find(|y| y.0 == n) { Some(y) => y.1 = x, None => v.push((n.to_string(), x)) } }
fn cell(v: V) -> Loc { Rc::new(RefCell::new(v)) }
fn name_of(v: &V) -> &str { match v { V::Image(i) => &i.2, V::Audio(a) => &a.1, _ => unreachable!() } }
fn same(a: &V, b: &V) -> bool { spec::identical(a, b) }

impl World {
    pub fn new(role: &'static ast::Role, conf: Conf, mock: Mock) -> W {
        let mut refs: BTreeMap<usize, V> = BTreeMap::new();
        let (mut imgs, mut auds): (Vec<(usize, V)>, Vec<(usize, V)>) = (vec![], vec![]);
        // sharing in the initial state follows the reference marks of the syntax tree
        fn shells(v: &ast::Value, refs: &mut BTreeMap<usize, V>) { if let ast::Value::List(l, r) = v { if let Some(r) = r { refs.entry(r.0).or_insert_with(|| list(vec![])); } l.iter().for_each(|x| shells(x, refs)) } }
        fn build(v: &ast::Value, refs: &BTreeMap<usize, V>, imgs: &mut Vec<(usize, V)>, auds: &mut Vec<(usize, V)>) -> V {
            match v {
                ast::Value::Bool(b) => V::Bool(*b), ast::Value::Number(x) => V::Num(if *x == 0.0 { 0.0 } else { *x }), ast::Value::String(s) => text(s),
                ast::Value::Constant(ast::Constant::E) => V::Num(std::f64::consts::E), ast::Value::Constant(ast::Constant::Pi) => V::Num(std::f64::consts::PI),
                ast::Value::Image(i) => { let p = ptr(i); if let Some(x) = imgs.iter().find(|x| x.0 == p) { return x.1.clone() } let x = V::Image(Rc::new((i.0.clone(), i.1, i.2.to_string()))); imgs.push((p, x.clone())); x }
                ast::Value::Audio(i) => { let p = ptr(i); if let Some(x) = auds.iter().find(|x| x.0 == p) { return x.1.clone() } let x = V::Audio(Rc::new((i.0.clone(), i.1.to_string()))); auds.push((p, x.clone())); x }
                ast::Value::Ref(r) => refs[&r.0].clone(),
                ast::Value::List(l, r) => {
                    let items: Vec<V> = l.iter().map(|x| build(x, refs, imgs, auds)).collect();
                    match r { Some(r) => { let V::List(x) = &refs[&r.0] else { unreachable!() }; *x.borrow_mut() = items; V::List(x.clone()) } None => list(items) }
                }
            }
        }
        for g in &role.globals { shells(&g.init, &mut refs) }
        for e in &role.entities { for g in &e.fields { shells(&g.init, &mut refs) } }
        let mut globals = vec![];
        for g in &role.globals { define(&mut globals, &g.def.trans_name, cell(build(&g.init, &refs, &mut imgs, &mut auds))) }
        let mut ents: Vec<Rc<Ent>> = vec![];
        let mut scripts = vec![];
        for (idx, e) in role.entities.iter().enumerate() {
            let mut fields = vec![];
            for g in &e.fields { define(&mut fields, &g.def.trans_name, cell(build(&g.init, &refs, &mut imgs, &mut auds))) }
            let costumes: Vec<V> = e.costumes.iter().map(|c| build(&c.init, &refs, &mut imgs, &mut auds)).collect();
            let sounds: Vec<V> = e.sounds.iter().map(|c| build(&c.init, &refs, &mut imgs, &mut auds)).collect();
            let costume = e.active_costume.map(|i| costumes[i].clone());
            let ent = Rc::new(Ent { idx, name: e.trans_name.to_string(), clone: None, fields: RefCell::new(fields), original: None, costumes: Rc::new(costumes), sounds: Rc::new(sounds), costume: RefCell::new(costume) });
            for s in &e.scripts { if let Some(h) = &s.hat { scripts.push(Rc::new(Script { hat: &h.kind, ent: ent.clone(), stmts: &s.stmts, pid: Cell::new(None), queue: Default::default() })) } }
            ents.push(ent);
        }
        let timer = mock.now().unwrap_or(0);
        Rc::new(World { places: Default::default(), role, conf, mock: RefCell::new(mock), globals, ents, scripts: RefCell::new(scripts), tasks: Default::default(), next: Cell::new(0), queue: Default::default(), timer: Cell::new(timer), sig: RefCell::new(None), budget: Cell::new(0) })
    }
    /// Ends every run (also breaks the reference cycles through them).
    pub fn close(&self) { let t: Vec<Task> = std::mem::take(&mut *self.tasks.borrow_mut()).into_values().collect(); drop(t); self.scripts.borrow_mut().clear() }
    pub fn state(&self) -> String {
        let table = |t: &Vars| { let mut l: Vec<_> = t.iter().map(|(k, v)| (k.clone(), v.borrow().clone())).collect(); l.sort_by(|a, b| a.0.cmp(&b.0)); l.into_iter().map(|x| x.1).collect::<Vec<_>>() };
        let mut vs: Vec<V> = table(&self.globals);
        for e in &self.ents { vs.extend(table(&e.fields.borrow())) }
        for e in &self.ents { vs.push(e.costume.borrow().clone().unwrap_or_else(|| text(""))) }
        // where and how the stage and the sprites were described to be (directions are angles from 0 to 360, sizes and transparency are in percent)
        for (i, e) in self.role.entities.iter().enumerate() {
            let mut heading = e.heading; while heading < 0.0 { heading += 360.0 } while heading >= 360.0 { heading -= 360.0 }
            let (r, g, b, a) = e.color;
            let hue = match (r, g, b) { (255, 255, 0) => 60.0, (0, 255, 0) => 120.0, (0, 255, 255) => 180.0, (0, 0, 255) => 240.0, (255, 0, 255) => 300.0, _ => 0.0 };
            let (most, least) = (r.max(g).max(b), r.min(g).min(b));
            let pct = |x: u8| if x == 255 { 100.0 } else { 0.0 };
            vs.extend([(i == 0) as u8 as f64, e.pos.0, e.pos.1, heading, e.scale * 100.0, e.visible as u8 as f64, hue, pct(most - least), pct(most), 100.0 - pct(a)].map(V::Num));
        }
        canon(&vs)
    }
    fn tick(&self) { let b = self.budget.get(); if b == 0 { std::panic::panic_any(Discard) } self.budget.set(b - 1) }
    fn alive(&self, pid: u64) -> bool { self.tasks.borrow().contains_key(&pid) }
    fn kill(&self, pid: u64) { let t = self.tasks.borrow_mut().remove(&pid); if let Some(t) = t { *t.proc.barrier.borrow_mut() = None; *t.proc.reply.borrow_mut() = None; drop(t.fut) } }
    fn spawn(self: &Rc<Self>, ent: Rc<Ent>, code: Option<usize>, stmts: &'static [Stmt], locals: Vars, c: Ctx) -> u64 {
        let pid = self.next.get(); self.next.set(pid + 1);
        if self.tasks.borrow().len() > 60 { std::panic::panic_any(Discard) }
        let proc = Rc::new(Proc { pid, warp: Cell::new(0), rpc_err: Default::default(), sys_err: Default::default(), answer: Default::default(), message: RefCell::new(c.message.map(|m| text(&m))), reply: RefCell::new(c.reply), barrier: RefCell::new(c.barrier), entl: ent.label(), ent: ent.clone(), from: c.from, depth: Cell::new(0), fails: Default::default() });
        let frame = Rc::new(Frame { locals: RefCell::new(locals), ent, code, parent: None, depth: 1 });
        let (w, p) = (self.clone(), proc.clone());
        let fut: B<X<V>> = Box::pin(async move { body(w, p, frame, &[], stmts).await });
        self.tasks.borrow_mut().insert(pid, Task { fut: Some(fut), proc });
        self.queue.borrow_mut().push_back(pid);
        pid
    }
    fn start_queued(self: &Rc<Self>, s: &Rc<Script>) {
        if s.pid.get().map_or(false, |p| self.alive(p)) { return }
        let Some(mut c) = s.queue.borrow_mut().pop_front() else { return };
        let mut locals = vec![];
        for (k, v) in c.locals.drain(..) { define(&mut locals, &k, cell(v)) }
        s.pid.set(Some(self.spawn(s.ent.clone(), Some(s.ent.idx), s.stmts, locals, c)));
    }
    fn start_all_queued(self: &Rc<Self>) { self.tick(); let all = self.scripts.borrow().clone(); for s in &all { self.start_queued(s) } }
    fn stop_script(&self, s: &Rc<Script>) { if let Some(p) = s.pid.take() { self.kill(p) } s.queue.borrow_mut().clear() }
    fn schedule(self: &Rc<Self>, s: &Rc<Script>, c: Ctx, max: usize) {
        s.queue.borrow_mut().push_back(c);
        self.start_queued(s);
        if s.queue.borrow().len() > max { s.queue.borrow_mut().pop_back(); }
    }
    pub fn input(self: &Rc<Self>, i: &Input) {
        let all = self.scripts.borrow().clone();
        let plain = || Ctx { locals: vec![], from: String::new(), barrier: None, reply: None, message: None };
        match i {
            Input::Start => { self.start_all_queued_if(&all, |h| matches!(h, HatKind::OnFlag)); for s in &all { if let HatKind::OnFlag = s.hat { self.stop_script(s); self.schedule(s, plain(), 0) } } }
            Input::Stop => { for s in &all { self.stop_script(s) } let pids: Vec<u64> = self.tasks.borrow().keys().copied().collect(); for p in pids { self.kill(p) } self.queue.borrow_mut().clear() }
            Input::Key(k) => { let hit = |h: &HatKind| matches!(h, HatKind::OnKey { key } if key == "any key" || key == *k); self.start_all_queued_if(&all, hit); for s in &all { if hit(s.hat) { self.schedule(s, plain(), 0) } } }
            Input::Custom { name, args, interrupt, max } => {
                let hit = |h: &HatKind| matches!(h, HatKind::Unknown { name: n, .. } if n == name);
                self.start_all_queued_if(&all, hit);
                for s in &all { if let HatKind::Unknown { name: n, fields } = s.hat { if n == name {
                    if *interrupt { self.stop_script(s) }
                    self.schedule(s, Ctx { locals: fields.iter().map(|f| (f.trans_name.to_string(), args.iter().find(|a| a.0 == *f.trans_name).map_or(V::Num(0.0), |a| of_val(&a.1)))).collect(), ..plain() }, *max);
                } } }
            }
        }
    }
    fn start_all_queued_if(self: &Rc<Self>, all: &[Rc<Script>], hit: impl Fn(&HatKind) -> bool) { if all.iter().any(|s| hit(s.hat)) { self.start_all_queued() } }
    /// Runs up to the next observable pause (a yield, the end of a run, a watcher or pause request, or nothing left to do).
    pub fn turn(self: &Rc<Self>) -> String {
        let m = self.mock.borrow_mut().inbox.pop_front();
        if let Some((m, n)) = m {
            let all = self.scripts.borrow().clone();
            let hit = |h: &HatKind| matches!(h, HatKind::NetworkMessage { msg_type, .. } if *msg_type == m.ty);
            self.start_all_queued_if(&all, hit);
            for s in &all { if let HatKind::NetworkMessage { fields, .. } = s.hat { if hit(s.hat) {
                self.schedule(s, Ctx { locals: fields.iter().map(|f| (f.trans_name.to_string(), m.fields.iter().rev().find(|a| a.0 == *f.trans_name).map_or(V::Num(0.0), |a| of_val(&a.1)))).collect(), from: String::new(), barrier: None, reply: if m.reply { Some(n) } else { None }, message: None }, usize::MAX);
            } } }
        }
        loop {
            let Some(pid) = self.queue.borrow_mut().pop_front() else { return "idle".into() };
            let Some((mut fut, proc)) = self.tasks.borrow_mut().get_mut(&pid).map(|t| (t.fut.take().unwrap(), t.proc.clone())) else { continue };
            let r = fut.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop()));
            let mut put = |fut| if let Some(t) = self.tasks.borrow_mut().get_mut(&pid) { t.fut = Some(fut) };
            match r {
                Poll::Pending => match self.sig.borrow_mut().take() {
                    Some(Sig::Yield) => { put(fut); self.start_all_queued(); self.queue.borrow_mut().push_back(pid); return "yield".into() }
                    Some(Sig::Token(t)) => { put(fut); self.queue.borrow_mut().push_front(pid); return t }
                    None => continue, // the run was stopped from within
                },
                Poll::Ready(r) => {
                    drop(fut); self.kill(pid); self.start_all_queued();
                    let mut places = std::mem::take(&mut *proc.fails.borrow_mut()); places.sort();
                    *self.places.borrow_mut() = places;
                    match r {
                        Ok(v) => return format!("end {}", canon(&[v])),
                        Err(Exn::Err(e)) => return format!("error {e}"),
                        Err(Exn::Custom(m)) => return format!("error Custom {{ msg: {m:?} }}"),
                        Err(Exn::Abort) => continue,
                        Err(Exn::Ret(_)) => unreachable!(),
                    }
                }
            }
        }
    }
}
async fn pause(w: &W, s: Sig) { *w.sig.borrow_mut() = Some(s); Pause(false).await }
async fn yield_always(w: &W) { pause(w, Sig::Yield).await }
async fn yield_now(w: &W, p: &P) { if p.warp.get() == 0 { yield_always(w).await } }
/// After an operation that may have stopped the running script itself: if so, it never continues.
async fn if_alive(w: &W, p: &P) { if !w.alive(p.pid) { loop { Pause(false).await } } }
fn who(p: &P, f: &F) -> String { format!("{}<{}@{}+{}", p.entl, p.from, f.ent.label(), p.depth.get()) }
async fn request(w: &W, p: &P, f: &F, d: String) -> X<Result<V, String>> {
    let k = w.mock.borrow_mut().perform(format!("{} {d}", who(p, f)), false).map_err(Exn::Custom)?;
    loop { let r = w.mock.borrow_mut().poll(k); match r { Some(r) => return Ok(r.map(|v| of_val(&v))), None => yield_always(w).await } }
}
async fn command(w: &W, p: &P, f: &F, d: String) -> X<()> {
    let k = w.mock.borrow_mut().perform(format!("{} {d}", who(p, f)), true).map_err(Exn::Custom)?;
    loop { let r = w.mock.borrow_mut().poll(k); match r { Some(r) => return r.map(|_| ()).map_err(promoted), None => yield_always(w).await } }
}
fn promoted(e: String) -> Exn { Exn::Err(format!("Promoted {{ error: {e:?} }}")) }
fn soft(r: Result<V, String>, soft: bool, last: &RefCell<Option<V>>) -> X<V> {
    match r {
        Ok(v) => { *last.borrow_mut() = None; Ok(v) }
        Err(e) if soft => { *last.borrow_mut() = Some(text(&e)); Ok(text(&e)) }
        Err(e) => Err(promoted(e)),
    }
}
fn lookup(w: &W, f: &F, n: &str) -> X<Loc> {
    if let Some(x) = find(&f.locals.borrow(), n) { return Ok(x) }
    if let Some(x) = find(&f.ent.fields.borrow(), n) { return Ok(x) }
    find(&w.globals, n).map_or_else(|| undefined(n), Ok)
}
/// A function, closure or script body: its value is what it returns, or an empty text when it falls off its end.
fn body(w: W, p: P, f: F, upvars: &'static [ast::VariableRef], stmts: &'static [Stmt]) -> B<X<V>> {
    Box::pin(async move {
        for u in upvars {
            let t = lookup(&w, &f, &u.trans_name)?.borrow().txt()?;
            let Some(parent) = &f.parent else { return Err(Exn::Err("UpvarAtRoot".into())) };
            let Some(c) = find(&parent.locals.borrow(), &t) else { return undefined(&u.trans_name) };
            define(&mut f.locals.borrow_mut(), &u.trans_name, c);
        }
        match block(&w, &p, &f, stmts).await { Ok(()) => Ok(text("")), Err(Exn::Ret(v)) => Ok(v), Err(e) => Err(e) }
    })
}
async fn enter(w: &W, p: &P, f: &F, ent: Rc<Ent>, code: Option<usize>, locals: Vars, upvars: &'static [ast::VariableRef], stmts: &'static [Stmt]) -> X<V> {
    let (warp, depth) = (p.warp.get(), p.depth.get());
    let g = Rc::new(Frame { locals: RefCell::new(locals), ent, code, parent: Some(f.clone()), depth: f.depth + 1 });
    let r = body(w.clone(), p.clone(), g, upvars, stmts).await?;
    p.warp.set(warp); p.depth.set(depth);
    Ok(r)
}
fn deep(w: &W, f: &F) -> X<()> { if f.depth >= w.conf.limit { Err(Exn::Err(format!("CallDepthLimit {{ limit: {} }}", w.conf.limit))) } else { Ok(()) } }
fn bind(c: &V, args: &[V]) -> X<(Rc<Clo>, Vars)> {
    let c = c.clo()?;
    if c.params.len() != args.len() { return Err(Exn::Err(format!("ClosureArgCount {{ expected: {}, got: {} }}", c.params.len(), args.len()))) }
    let mut locals = c.caps.clone();
    for (k, v) in c.params.iter().zip(args) { define(&mut locals, k, cell(v.clone())) }
    Ok((c, locals))
}
async fn call_closure(w: &W, p: &P, f: &F, c: &V, args: &[V], on: Option<&V>) -> X<V> {
    deep(w, f)?;
    let (c, locals) = bind(c, args)?;
    let ent = match on { Some(e) => e.ent()?, None => f.ent.clone() };
    enter(w, p, f, ent, c.code, locals, &[], c.stmts).await
}
async fn call_fn(w: &W, p: &P, f: &F, function: &'static ast::FnRef, args: &'static [Expr], upvars: &'static [ast::VariableRef]) -> X<V> {
    for u in upvars { define(&mut f.locals.borrow_mut(), &u.name, cell(V::Num(0.0))) }
    let mut vs = vec![];
    for a in args { vs.push(eval(w, p, f, a).await?) }
    deep(w, f)?;
    let method = f.code.and_then(|i| w.role.entities[i].funcs.iter().find(|x| x.trans_name == function.trans_name));
    let (func, code) = match method { Some(m) => (m, f.code), None => (w.role.funcs.iter().find(|x| x.trans_name == function.trans_name).unwrap(), None) };
    let mut locals = vec![];
    for (k, v) in func.params.iter().zip(vs) { define(&mut locals, &k.trans_name, cell(v)) }
    enter(w, p, f, f.ent.clone(), code, locals, &func.upvars, &func.stmts).await
}
async fn all(w: &W, p: &P, f: &F, es: &'static [Expr]) -> X<Vec<V>> { let mut r = vec![]; for e in es { r.push(eval(w, p, f, e).await?) } Ok(r) }
fn literal(v: &'static ast::Value) -> V { match v { ast::Value::List(l, _) => list(l.iter().map(literal).collect()), ast::Value::Bool(b) => V::Bool(*b), ast::Value::Number(x) => V::Num(if *x == 0.0 { 0.0 } else { *x }), ast::Value::String(s) => text(s), ast::Value::Constant(ast::Constant::E) => V::Num(std::f64::consts::E), ast::Value::Constant(ast::Constant::Pi) => V::Num(std::f64::consts::PI), _ => unreachable!() } }
/// The operands of a block that takes any number of them: written out, or the items of one list.
async fn variadic(w: &W, p: &P, f: &F, e: &'static Expr) -> X<Vec<V>> {
    match &e.kind {
        E::MakeList { values } => all(w, p, f, values).await,
        E::Value(ast::Value::List(l, _)) => Ok(l.iter().map(literal).collect()),
        _ => { let v = eval(w, p, f, e).await?; Ok(v.lst()?.borrow().clone()) }
    }
}
fn rand_index(w: &W, n: usize) -> R<usize> { if n == 0 { return oob0() } Ok(rand_in(w, 0..n)) }
fn rand_in<Y: rand::distr::uniform::SampleUniform>(w: &W, r: impl rand::distr::uniform::SampleRange<Y>) -> Y { r.sample_single(&mut w.mock.borrow_mut().rng).unwrap() }
fn time_of(w: &W) -> X<u64> { w.mock.borrow().now().ok_or_else(|| Exn::Err("NotSupported { feature: ArbitraryTime }".into())) }
fn arith(a: &V, b: &V, op: &dyn Fn(f64, f64) -> f64) -> R<V> { lift2(a, b, &mut |a, b| num(op(a.num()?, b.num()?))) }
pub fn add(a: &V, b: &V) -> R<V> { arith(a, b, &|a, b| a + b) }
pub fn sub(a: &V, b: &V) -> R<V> { arith(a, b, &|a, b| a - b) }
fn strings(it: impl Iterator<Item = String>) -> V { list(it.map(V::Text).collect()) }
fn fnum(op: &'static dyn Fn(f64) -> f64) -> Box<dyn FnMut(&V) -> R<V>> { Box::new(move |x| num(op(x.num()?))) }
fn costume_arg(v: &V, list: &[V], kind: &str) -> X<Option<V>> {
    let image = kind == "Costume";
    match v {
        V::Image(_) if image => Ok(Some(v.clone())), V::Audio(_) if !image => Ok(Some(v.clone())),
        V::Text(s) if s.is_empty() => Ok(None),
        V::Text(s) => match list.iter().find(|c| name_of(c) == s) { Some(c) => Ok(Some(c.clone())), None => Err(Exn::Err(format!("Undefined{kind} {{ name: {s:?} }}"))) },
        x => Err(Exn::Err(format!("ConversionError {{ got: {}, expected: {} }}", x.ty(), if image { "Image" } else { "Audio" }))),
    }
}
fn note(v: &V) -> R<u8> {
    crate::util::note(v)
}
fn json_nb(v: &V) -> R<serde_json::Value> { simple_check(v)?; Ok(crate::util::netsblox_json(v)) }
async fn send(w: &W, p: &P, f: &F, target: &'static Expr, ty: &str, values: &'static [(netsblox_vm::compact_str::CompactString, Expr)], expect: bool) -> X<Option<V>> {
    let mut vs = vec![];
    for (k, e) in values { vs.push((k.to_string(), eval(w, p, f, e).await?)) }
    let t = eval(w, p, f, target).await?;
    let bad = |x: &V| Exn::Err(format!("VariadicConversionError {{ got: {}, expected: Text }}", x.ty()));
    let targets: Vec<String> = match &t { V::Text(s) => vec![s.clone()], V::List(l) => { let mut r = vec![]; for x in l.borrow().iter() { match x { V::Text(s) => r.push(s.clone()), x => return Err(bad(x)) } } r } x => return Err(bad(x)) };
    let mut js = vec![];
    for (k, v) in &vs { js.push((k.clone(), json_nb(v)?.to_string())) }
    let r = w.mock.borrow_mut().send(format!("message {ty:?} {js:?} to {targets:?} {expect}"), expect).map_err(Exn::Custom)?;
    let Some(id) = r else { return Ok(None) };
    loop {
        let r = w.mock.borrow_mut().poll_reply(&id);
        match r { None => yield_always(w).await, Some(None) => return Ok(Some(text(""))), Some(Some(j)) => return Ok(Some(from_netsblox(&j)?)) }
    }
}
fn from_netsblox(j: &serde_json::Value) -> R<V> {
    use serde_json::Value as J;
    Ok(match j { J::Null => return Err("FromNetsBloxJsonError { error: Null }".into()), J::Array(a) => list(a.iter().map(from_netsblox).collect::<R<_>>()?), J::Object(_) => unreachable!("not generated"), _ => from_json(j)? })
}
fn property(k: &ast::EffectKind) -> &'static str { use ast::EffectKind::*; match k { Color => "ColorH", Saturation => "ColorS", Brightness => "ColorV", Ghost => "ColorT", Fisheye => "Fisheye", Whirl => "Whirl", Pixelate => "Pixelate", Mosaic => "Mosaic", Negative => "Negative" } }
fn pen(a: &ast::PenAttribute) -> &'static str { use ast::PenAttribute::*; match a { Size => "PenSize", Hue => "PenColorH", Saturation => "PenColorS", Brightness => "PenColorV", Transparency => "PenColorT" } }

/// The innermost block with a location that was at work in each frame when an error arose.
fn failed<Y>(p: &P, f: &F, info: &ast::BlockInfo, r: &X<Y>) {
    let (Err(Exn::Err(_) | Exn::Custom(_)), Some(at)) = (r, &info.location) else { return };
    let mut t = p.fails.borrow_mut();
    if t.iter().all(|x| x.0 != f.depth) { t.push((f.depth, at.to_string())) }
}
fn eval<'a>(w: &'a W, p: &'a P, f: &'a F, e: &'static Expr) -> Pin<Box<dyn Future<Output = X<V>> + 'a>> {
    if !w.conf.locs { return evaluate(w, p, f, e) }
    Box::pin(async move { let r = evaluate(w, p, f, e).await; failed(p, f, &e.info, &r); r })
}
fn evaluate<'a>(w: &'a W, p: &'a P, f: &'a F, e: &'static Expr) -> Pin<Box<dyn Future<Output = X<V>> + 'a>> {
    Box::pin(async move {
        w.tick();
        macro_rules! ev { ($e:expr) => { eval(w, p, f, $e).await? } }
        macro_rules! un { ($v:expr, $g:expr) => {{ let x = ev!($v); lift1(&x, true, &mut $g)? }} }
        macro_rules! bin { ($a:expr, $b:expr, $g:expr) => {{ let a = ev!($a); let b = ev!($b); lift2(&a, &b, &mut $g)? }} }
        macro_rules! ar { ($a:expr, $b:expr, $g:expr) => {{ let a = ev!($a); let b = ev!($b); arith(&a, &b, &$g)? }} }
        macro_rules! rel { ($a:expr, $b:expr, $r:expr) => {{ let a = ev!($a); let b = ev!($b); V::Bool(relation(&a, &b, $r)?) }} }
        let deg = |x: f64| x.to_degrees();
        let r = match &e.kind {
            E::Value(v) => literal(v),
            E::Variable { var } => lookup(w, f, &var.trans_name)?.borrow().clone(),
            E::Add { values } | E::Mul { values } => {
                let mul = matches!(&e.kind, E::Mul { .. });
                let vs = variadic(w, p, f, values).await?;
                let op = |a: &V, b: &V| arith(a, b, &|a, b| if mul { a * b } else { a + b });
                match vs.len() { 0 => V::Num(if mul { 1.0 } else { 0.0 }), 1 => lift1(&vs[0], true, &mut |x| num(x.num()?))?, _ => { let mut acc = vs[0].clone(); for v in &vs[1..] { acc = op(&acc, v)? } acc } }
            }
            E::Min { values } | E::Max { values } => {
                let r = if matches!(&e.kind, E::Min { .. }) { Rel::Lt } else { Rel::Gt };
                let vs = variadic(w, p, f, values).await?;
                if vs.is_empty() { return Err(Exn::Err("EmptyList".into())) }
                let mut best = vs[0].clone();
                for v in &vs[1..] { if relation(v, &best, r)? { best = v.clone() } }
                best
            }
            E::Sub { left, right } => ar!(left, right, |a, b| a - b),
            E::Div { left, right } => ar!(left, right, |a, b| a / b),
            E::Mod { left, right } => ar!(left, right, |a, b| modulus(a, b)),
            E::Pow { base, power } => ar!(base, power, |a, b| libm::pow(a, b)),
            E::Log { value, base } => bin!(base, value, |b: &V, v: &V| { let v = v.num()?; let b = b.num()?; num(libm::log(v) / libm::log(b)) }),
            E::Atan2 { y, x } => ar!(y, x, |y: f64, x| libm::atan2(y, x).to_degrees()),
            E::And { left, right } => { let l = ev!(left); let r = if l.bool()? { ev!(right) } else { l }; V::Bool(r.bool()?) }
            E::Or { left, right } => { let l = ev!(left); let r = if l.bool()? { l } else { ev!(right) }; V::Bool(r.bool()?) }
            E::Conditional { condition, then, otherwise } => if ev!(condition).bool()? { ev!(then) } else { ev!(otherwise) },
            E::Identical { left, right } => { let a = ev!(left); let b = ev!(right); V::Bool(identical(&a, &b)) }
            E::Eq { left, right } => rel!(left, right, Rel::Eq), E::Neq { left, right } => rel!(left, right, Rel::Ne),
            E::Less { left, right } => rel!(left, right, Rel::Lt), E::LessEq { left, right } => rel!(left, right, Rel::Le),
            E::Greater { left, right } => rel!(left, right, Rel::Gt), E::GreaterEq { left, right } => rel!(left, right, Rel::Ge),
            E::Random { a, b } => bin!(a, b, |a: &V, b: &V| {
                let (mut a, mut b) = (a.num()?, b.num()?);
                if a > b { std::mem::swap(&mut a, &mut b) }
                num(if a.round() == a && b.round() == b { rand_in(w, a as i64..=b as i64) as f64 } else { rand_in(w, a..=b) })
            }),
            E::Range { start, stop } => bin!(start, stop, |a: &V, b: &V| {
                let (a, b) = (a.num()?, b.num()?);
                let n = (b - a).abs();
                if n > 3000.0 { std::panic::panic_any(Discard) }
                let (mut r, mut x) = (vec![], a);
                while if a <= b { x <= b } else { x >= b } { r.push(num(x)?); x += if a <= b { 1.0 } else { -1.0 } }
                Ok(list(r))
            }),
            E::MakeList { values } => list(all(w, p, f, values).await?),
            E::CopyList { list: l } => list(variadic(w, p, f, l).await?),
            E::ListCat { lists } => { let mut r = vec![]; for l in variadic(w, p, f, lists).await? { r.extend(l.lst()?.borrow().iter().cloned()) } list(r) }
            E::ListLen { value } => V::Num(ev!(value).lst()?.borrow().len() as f64),
            E::ListRank { value } => V::Num(dims(&ev!(value))?.len() as f64),
            E::ListDims { value } => list(dims(&ev!(value))?.iter().map(|x| V::Num(*x as f64)).collect()),
            E::ListFlatten { value } => list(flatten(&ev!(value))?),
            E::ListColumns { value } => columns(&ev!(value))?,
            E::ListRev { value } => { let l = ev!(value).lst()?; let r = l.borrow().iter().rev().cloned().collect(); list(r) }
            E::ListLines { value } => { let l = ev!(value).lst()?; let r = l.borrow().iter().map(|x| x.txt()).collect::<R<Vec<_>>>()?.join("\n"); V::Text(r) }
            E::ListCsv { value } => V::Text(to_csv(&ev!(value))?),
            E::ListJson { value } => V::Text(to_json(&ev!(value))?.to_string()),
            E::ListReshape { value, dims: d } => {
                let v = ev!(value);
                let mut ds = vec![];
                let mut total = 1.0;
                for d in variadic(w, p, f, d).await? { let x = d.num()?; if x < 0.0 || x != x.trunc() || x > usize::MAX as f64 { return Err(Exn::Err(format!("InvalidSize {{ value: {x:?} }}"))) } total *= x.max(1.0); ds.push(x as usize) }
                if total > 3000.0 || ds.iter().any(|d| *d > 3000) { std::panic::panic_any(Discard) }
                reshape(&v, &ds)?
            }
            E::ListCombinations { sources } => { let mut r = vec![]; let mut total = 1; for l in variadic(w, p, f, sources).await? { let l = l.lst()?; total = (total * l.borrow().len().max(1)).min(1 << 30); r.push(l) } if total > 3000 { std::panic::panic_any(Discard) } product(&r) }
            E::ListIsEmpty { value } => V::Bool(ev!(value).lst()?.borrow().is_empty()),
            E::ListCdr { value } => { let l = ev!(value).lst()?; let l = l.borrow(); if l.is_empty() { return Ok(oob0()?) } list(l[1..].to_vec()) }
            E::ListCons { item, list: l } => { let i = ev!(item); let l = ev!(l).lst()?; let mut r = vec![i]; r.extend(l.borrow().iter().cloned()); list(r) }
            E::ListFind { list, value } => { let v = ev!(value); let l = ev!(list).lst()?; V::Num(spec::find(&l, &v)?.map_or(0.0, |i| i as f64 + 1.0)) }
            E::ListContains { list, value } => { let l = ev!(list); let v = ev!(value); V::Bool(spec::find(&l.lst()?, &v)?.is_some()) }
            E::ListGet { list, index: i } => { let i = ev!(i); let l = ev!(list).lst()?; lift1(&i, true, &mut |x| { let l = l.borrow(); let k = index(x, l.len())?; Ok(l[k].clone()) })? }
            E::ListGetLast { list } => { let l = ev!(list).lst()?; let r = l.borrow().last().cloned(); match r { Some(x) => x, None => oob0()? } }
            E::ListGetRandom { list } => { let l = ev!(list).lst()?; let i = rand_index(w, l.borrow().len())?; let r = l.borrow()[i].clone(); r }
            E::StrGet { string, index: i } => bin!(i, string, |i: &V, s: &V| { let g = graphemes(&s.txt()?); Ok(V::Text(g[index(i, g.len())?].clone())) }),
            E::StrGetLast { string } => un!(string, |s: &V| match graphemes(&s.txt()?).pop() { Some(x) => Ok(V::Text(x)), None => oob0() }),
            E::StrGetRandom { string } => { let x = ev!(string); lift1(&x, false, &mut |s: &V| { let g = graphemes(&s.txt()?); let i = rand_index(w, g.len())?; Ok(V::Text(g[i].clone())) })? }
            E::StrCat { values } => V::Text(variadic(w, p, f, values).await?.iter().map(display).collect()),
            E::StrLen { value } => un!(value, |s: &V| num(graphemes(&s.txt()?).len() as f64)),
            E::UnicodeToChar { value } => un!(value, |x: &V| { let x = x.num()?; if x == x.trunc() && x >= 0.0 && x <= 4294967295.0 { if let Some(c) = char::from_u32(x as u32) { return Ok(V::Text(c.to_string())) } } Err(format!("InvalidUnicode {{ value: {x:?} }}")) }),
            E::CharToUnicode { value } => un!(value, |x: &V| { let c: Vec<V> = x.txt()?.chars().map(|c| V::Num(c as u32 as f64)).collect(); Ok(if c.len() == 1 { c[0].clone() } else { list(c) }) }),
            E::Not { value } => un!(value, |x: &V| Ok(V::Bool(!x.bool()?))),
            E::Neg { value } => un!(value, |x: &V| num(-x.num()?)),
            E::Abs { value } => un!(value, |x: &V| num(x.num()?.abs())),
            E::Sqrt { value } => un!(value, |x: &V| num(libm::sqrt(x.num()?))),
            E::Floor { value } => un!(value, |x: &V| num(x.num()?.floor())),
            E::Ceil { value } => un!(value, |x: &V| num(x.num()?.ceil())),
            E::Round { value } => un!(value, |x: &V| num(x.num()?.round())),
            E::Sin { value } => un!(value, |x: &V| num(libm::sin(x.num()?.to_radians()))),
            E::Cos { value } => un!(value, |x: &V| num(libm::cos(x.num()?.to_radians()))),
            E::Tan { value } => un!(value, |x: &V| num(libm::tan(x.num()?.to_radians()))),
            E::Asin { value } => un!(value, |x: &V| num(deg(libm::asin(x.num()?)))),
            E::Acos { value } => un!(value, |x: &V| num(deg(libm::acos(x.num()?)))),
            E::Atan { value } => un!(value, |x: &V| num(deg(libm::atan(x.num()?)))),
            E::TextSplit { text: t, mode } => {
                use ast::TextSplitMode::*;
                match mode {
                    Custom(pat) => bin!(t, pat, |a: &V, b: &V| { let (a, b) = (a.txt()?, b.txt()?); Ok(strings(a.split(b.as_str()).map(|x| x.to_string()))) }),
                    Letter => un!(t, |x: &V| Ok(strings(graphemes(&x.txt()?).into_iter()))),
                    Word => un!(t, |x: &V| Ok(strings(words(&x.txt()?).into_iter()))),
                    Tab => un!(t, |x: &V| Ok(strings(x.txt()?.split('\t').map(|x| x.into())))),
                    CR => un!(t, |x: &V| Ok(strings(x.txt()?.split('\r').map(|x| x.into())))),
                    LF => un!(t, |x: &V| Ok(strings(x.txt()?.lines().map(|x| x.into())))),
                    Csv => un!(t, |x: &V| from_csv(&x.txt()?)),
                    Json => un!(t, |x: &V| { let s = x.txt()?; match serde_json::from_str::<serde_json::Value>(&s) { Ok(j) => from_json(&j), Err(_) => Err(format!("NotJson {{ value: {s:?} }}")) } }),
                }
            }
            E::CallRpc { host, service, rpc, args } => rpc_call(w, p, f, host.as_deref(), service, rpc, args).await?,
            E::CallFn { function, args, upvars } => call_fn(w, p, f, function, args, upvars).await?,
            E::CallClosure { new_entity, closure, args } => {
                let on = match new_entity { Some(n) => Some(ev!(n)), None => None };
                let c = ev!(closure);
                let a = all(w, p, f, args).await?;
                call_closure(w, p, f, &c, &a, on.as_ref()).await?
            }
            E::Closure { kind: _, params, captures, stmts } => {
                let mut caps = vec![];
                for c in captures { define(&mut caps, &c.trans_name, lookup(w, f, &c.trans_name)?) }
                V::Closure(Rc::new(Clo { params: params.iter().map(|x| x.trans_name.to_string()).collect(), caps, stmts, code: f.code }))
            }
            E::Map { f: g, list: l } => {
                let g = ev!(g); let items = ev!(l).lst()?.borrow().clone();
                let mut r = vec![];
                for x in items { w.tick(); r.push(call_closure(w, p, f, &g, &[x], None).await?); yield_now(w, p).await }
                list(r)
            }
            E::Keep { f: g, list: l } => {
                let g = ev!(g); let items = ev!(l).lst()?.borrow().clone();
                let mut r = vec![];
                for x in items { w.tick(); if call_closure(w, p, f, &g, &[x.clone()], None).await?.bool()? { r.push(x) } yield_now(w, p).await }
                list(r)
            }
            E::FindFirst { f: g, list: l } => {
                let g = ev!(g); let items = ev!(l).lst()?.borrow().clone();
                for x in items { w.tick(); if call_closure(w, p, f, &g, &[x.clone()], None).await?.bool()? { return Ok(x) } yield_now(w, p).await }
                text("")
            }
            E::Combine { f: g, list: l } => {
                let items = ev!(l).lst()?.borrow().clone(); let g = ev!(g);
                let mut it = items.into_iter();
                let Some(mut acc) = it.next() else { return Ok(V::Num(0.0)) };
                for x in it { w.tick(); acc = call_closure(w, p, f, &g, &[acc, x], None).await?; yield_now(w, p).await }
                acc
            }
            E::NetworkMessageReply { target, msg_type, values } => send(w, p, f, target, msg_type, values, true).await?.unwrap(),
            E::Effect { kind } => request(w, p, f, format!("get {}", property(kind))).await?.map_err(promoted)?,
            E::PenAttr { attr } => request(w, p, f, format!("get {}", pen(attr))).await?.map_err(promoted)?,
            E::XPos => request(w, p, f, "get XPos".into()).await?.map_err(promoted)?,
            E::YPos => request(w, p, f, "get YPos".into()).await?.map_err(promoted)?,
            E::Heading => request(w, p, f, "get Heading".into()).await?.map_err(promoted)?,
            E::PenDown => request(w, p, f, "get PenDown".into()).await?.map_err(promoted)?,
            E::Size => request(w, p, f, "get Size".into()).await?.map_err(promoted)?,
            E::IsVisible => request(w, p, f, "get Visible".into()).await?.map_err(promoted)?,
            E::CostumeList => list(f.ent.costumes.to_vec()),
            E::Costume => f.ent.costume.borrow().clone().unwrap_or_else(|| text("")),
            E::CostumeNumber => { let c = f.ent.costume.borrow().clone(); V::Num(c.and_then(|c| f.ent.costumes.iter().position(|x| same(x, &c))).map_or(0.0, |i| i as f64 + 1.0)) }
            E::CostumeName { costume } => { let v = ev!(costume); costume_arg(&v, &f.ent.costumes, "Costume")?.map_or(text(""), |c| text(name_of(&c))) }
            E::SoundList => list(f.ent.sounds.to_vec()),
            E::SoundName { sound } => { let v = ev!(sound); match costume_arg(&v, &f.ent.sounds, "Sound")? { Some(c) => text(name_of(&c)), None => return Err(Exn::Err("UndefinedSound { name: \"\" }".into())) } }
            E::UnknownBlock { name, args } => match name.as_str() {
                "nativeCallSyscall" => syscall(w, p, f, args).await?,
                "nativeSyscallError" => p.sys_err.borrow().clone().unwrap_or_else(|| text("")),
                _ => { let a = all(w, p, f, args).await?; request(w, p, f, format!("block {name:?} {}", canon(&a))).await?.map_err(promoted)? }
            },
            E::TypeQuery { value, ty } => { let v = ev!(value); let t = match ty { ast::ValueType::Number => "Number", ast::ValueType::Text => "Text", ast::ValueType::Bool => "Bool", ast::ValueType::List => "List", ast::ValueType::Sprite => "Entity", ast::ValueType::Costume => "Image", ast::ValueType::Sound => "Audio", _ => unreachable!() }; V::Bool(v.ty() == t) }
            E::RealTime { query } => {
                let m = w.mock.borrow();
                if m.clock != Clock::Real { return Err(Exn::Err("NotSupported { feature: RealTime }".into())) }
                V::Num(crate::util::civil(m.time, query))
            }
            E::This => V::Entity(f.ent.clone()),
            E::Entity { trans_name, .. } => match w.ents.iter().find(|x| x.name == **trans_name) { Some(x) => V::Entity(x.clone()), None => return Err(Exn::Err(format!("UndefinedEntity {{ name: {trans_name:?} }}"))) },
            E::Answer => p.answer.borrow().clone().unwrap_or_else(|| text("")),
            E::Message => p.message.borrow().clone().unwrap_or_else(|| text("")),
            E::RpcError => p.rpc_err.borrow().clone().unwrap_or_else(|| text("")),
            E::Timer => V::Num(time_of(w)?.saturating_sub(w.timer.get()) as f64 / 1000.0),
            E::Clone { target } => clone(w, p, f, target).await?,
            _ => unreachable!("expression not generated"),
        };
        match &r { V::Text(s) if s.len() > 20_000 => std::panic::panic_any(Discard), V::List(l) if l.borrow().len() > 5_000 => std::panic::panic_any(Discard), _ => () }
        Ok(r)
    })
}
async fn rpc_call(w: &W, p: &P, f: &F, host: Option<&str>, service: &str, rpc: &str, args: &'static [(netsblox_vm::compact_str::CompactString, Expr)]) -> X<V> {
    let mut vs = vec![];
    for (_, e) in args { vs.push(eval(w, p, f, e).await?) }
    let host = host.filter(|h| !h.is_empty());
    let r = request(w, p, f, format!("rpc {host:?} {service:?} {rpc:?} {:?} {}", args.iter().map(|x| x.0.as_str()).collect::<Vec<_>>(), canon(&vs))).await?;
    soft(r, w.conf.soft_rpc, &p.rpc_err)
}
async fn syscall(w: &W, p: &P, f: &F, args: &'static [Expr]) -> X<V> {
    let name = eval(w, p, f, &args[0]).await?;
    let a = variadic(w, p, f, &args[1]).await?;
    let name = name.txt()?;
    if name == "enter" { p.depth.set(p.depth.get() + 1) }
    let r = request(w, p, f, format!("syscall {name:?} {}", canon(&a))).await?;
    soft(r, w.conf.soft_sys, &p.sys_err)
}
async fn clone(w: &W, p: &P, f: &F, target: &'static Expr) -> X<V> {
    let t = eval(w, p, f, target).await?.ent()?;
    let root = t.original.clone().unwrap_or_else(|| t.clone());
    let n = sys::CLONES.with(|c| { c.set(c.get() + 1); c.get() });
    let new = Rc::new(Ent { idx: t.idx, name: t.name.clone(), clone: Some(n), fields: RefCell::new(t.fields.borrow().iter().map(|(k, v)| (k.clone(), cell(v.borrow().clone()))).collect()), original: Some(root.clone()), costumes: t.costumes.clone(), sounds: t.sounds.clone(), costume: RefCell::new(t.costume.borrow().clone()) });
    let fresh: Vec<Rc<Script>> = w.scripts.borrow().iter().filter(|s| Rc::ptr_eq(&s.ent, &root)).map(|s| Rc::new(Script { hat: s.hat, ent: new.clone(), stmts: s.stmts, pid: Cell::new(None), queue: Default::default() })).collect();
    if fresh.iter().any(|s| matches!(s.hat, HatKind::OnClone)) { w.start_all_queued() }
    for s in &fresh { if let HatKind::OnClone = s.hat { w.schedule(s, Ctx { locals: vec![], from: p.entl.clone(), barrier: None, reply: None, message: None }, 0) } }
    w.scripts.borrow_mut().extend(fresh);
    if w.scripts.borrow().len() > 40 { std::panic::panic_any(Discard) }
    Ok(V::Entity(new))
}
async fn block(w: &W, p: &P, f: &F, stmts: &'static [Stmt]) -> X<()> { for s in stmts { exec(w, p, f, s).await? } Ok(()) }
fn assign(w: &W, f: &F, n: &str, v: V) -> X<()> { *lookup(w, f, n)?.borrow_mut() = v; Ok(()) }
fn exec<'a>(w: &'a W, p: &'a P, f: &'a F, s: &'static Stmt) -> Pin<Box<dyn Future<Output = X<()>> + 'a>> {
    if !w.conf.locs { return execute(w, p, f, s) }
    Box::pin(async move { let r = execute(w, p, f, s).await; failed(p, f, &s.info, &r); r })
}
fn execute<'a>(w: &'a W, p: &'a P, f: &'a F, s: &'static Stmt) -> Pin<Box<dyn Future<Output = X<()>> + 'a>> {
    Box::pin(async move {
        w.tick();
        macro_rules! ev { ($e:expr) => { eval(w, p, f, $e).await? } }
        macro_rules! cmd { ($($t:tt)*) => { command(w, p, f, format!($($t)*)).await? } }
        macro_rules! set { ($n:expr, $e:expr) => {{ let v = ev!($e); command(w, p, f, format!("set {} {}", $n, canon(&[v]))).await? }} }
        macro_rules! change { ($n:expr, $e:expr) => {{ let v = ev!($e); command(w, p, f, format!("change {} {}", $n, canon(&[v]))).await? }} }
        match &s.kind {
            T::DeclareLocals { vars } => for v in vars { define(&mut f.locals.borrow_mut(), &v.trans_name, cell(V::Num(0.0))) },
            T::Assign { var, value } => { let v = ev!(value); assign(w, f, &var.trans_name, v)? }
            T::AddAssign { var, value } => { let v = ev!(value); let old = lookup(w, f, &var.trans_name)?.borrow().clone(); assign(w, f, &var.trans_name, add(&old, &v)?)? }
            T::ShowVar { var } | T::HideVar { var } => {
                let v = lookup(w, f, &var.trans_name)?.borrow().clone();
                pause(w, Sig::Token(format!("watch {} {} {} {}", matches!(&s.kind, T::ShowVar { .. }), var.trans_name, canon(&[v]), f.ent.label()))).await
            }
            T::Pause => pause(w, Sig::Token("pause".into())).await,
            T::Warp { stmts } => { p.warp.set(p.warp.get() + 1); block(w, p, f, stmts).await?; p.warp.set(p.warp.get() - 1) }
            T::InfLoop { stmts } => loop { w.tick(); block(w, p, f, stmts).await?; yield_now(w, p).await },
            T::ForeachLoop { var, items, stmts } => {
                define(&mut f.locals.borrow_mut(), &var.name, cell(V::Num(0.0)));
                let items = ev!(items).lst()?.borrow().clone();
                for x in items { assign(w, f, &var.trans_name, x)?; block(w, p, f, stmts).await?; yield_now(w, p).await }
            }
            T::ForLoop { var, start, stop, stmts } => {
                define(&mut f.locals.borrow_mut(), &var.name, cell(V::Num(0.0)));
                let mut a = V::Num(ev!(start).num()?); let b = V::Num(ev!(stop).num()?);
                let delta = V::Num(if relation(&a, &b, Rel::Gt)? { -1.0 } else { 1.0 });
                let mut left = lift1(&sub(&b, &a)?, true, &mut |x| num(x.num()?.abs()))?;
                while !relation(&left, &V::Num(0.0), Rel::Lt)? {
                    w.tick();
                    assign(w, f, &var.trans_name, a.clone())?;
                    block(w, p, f, stmts).await?;
                    left = sub(&left, &V::Num(1.0))?;
                    a = add(&a, &delta)?;
                    yield_now(w, p).await;
                }
            }
            T::UntilLoop { condition, stmts } => loop { if ev!(condition).bool()? { break } block(w, p, f, stmts).await?; yield_now(w, p).await },
            T::WaitUntil { condition } => loop { if ev!(condition).bool()? { break } yield_now(w, p).await },
            T::Repeat { times, stmts } => {
                let mut n = ev!(times);
                while relation(&n, &V::Num(0.0), Rel::Gt)? { w.tick(); block(w, p, f, stmts).await?; n = sub(&n, &V::Num(1.0))?; yield_now(w, p).await }
            }
            T::If { condition, then } => if ev!(condition).bool()? { block(w, p, f, then).await? },
            T::IfElse { condition, then, otherwise } => if ev!(condition).bool()? { block(w, p, f, then).await? } else { block(w, p, f, otherwise).await? },
            T::TryCatch { code, var, handler } => {
                let (warp, depth) = (p.warp.get(), p.depth.get());
                let msg = match block(w, p, f, code).await { Err(Exn::Err(e)) => e, Err(Exn::Custom(m)) => m, r => return r };
                p.warp.set(warp); p.depth.set(depth); p.fails.borrow_mut().clear();
                define(&mut f.locals.borrow_mut(), &var.trans_name, cell(text(&msg)));
                block(w, p, f, handler).await?
            }
            T::Throw { error } => return Err(Exn::Custom(ev!(error).txt()?)),
            T::ListInsert { list, value, index: i } => {
                let v = ev!(value); let i = ev!(i); let l = ev!(list).lst()?;
                let n = l.borrow().len() + 1;
                for k in index_set(&i, n)?.into_iter().rev() { l.borrow_mut().insert(k, v.clone()) }
            }
            T::ListInsertLast { list, value } => { let v = ev!(value); let l = ev!(list).lst()?; l.borrow_mut().push(v) }
            T::ListInsertRandom { list, value } => { let v = ev!(value); let l = ev!(list).lst()?; let i = rand_index(w, l.borrow().len() + 1)?; l.borrow_mut().insert(i, v) }
            T::ListRemove { list, index: i } => { let i = ev!(i); let l = ev!(list).lst()?; let n = l.borrow().len(); for k in index_set(&i, n)?.into_iter().rev() { l.borrow_mut().remove(k); } }
            T::ListRemoveLast { list } => { let l = ev!(list).lst()?; if l.borrow_mut().pop().is_none() { oob0::<()>()? } }
            T::ListRemoveAll { list } => ev!(list).lst()?.borrow_mut().clear(),
            T::ListAssign { list, value, index: i } => { let i = ev!(i); let l = ev!(list); let v = ev!(value); let l = l.lst()?; let n = l.borrow().len(); for k in index_set(&i, n)? { l.borrow_mut()[k] = v.clone() } }
            T::ListAssignLast { list, value } => { let l = ev!(list); let v = ev!(value); let l = l.lst()?; let n = l.borrow().len(); if n == 0 { oob0::<()>()? } l.borrow_mut()[n - 1] = v }
            T::ListAssignRandom { list, value } => { let l = ev!(list); let v = ev!(value); let l = l.lst()?; let i = rand_index(w, l.borrow().len())?; l.borrow_mut()[i] = v }
            T::Return { value } => return Err(Exn::Ret(ev!(value))),
            T::Sleep { seconds } => sleep(w, p, f, seconds).await?,
            T::SetCostume { costume } => {
                let v = ev!(costume);
                let c = costume_arg(&v, &f.ent.costumes, "Costume")?;
                wear(w, p, f, c).await?
            }
            T::NextCostume => {
                let c = f.ent.costume.borrow().clone();
                if let Some(i) = c.and_then(|c| f.ent.costumes.iter().position(|x| same(x, &c))) { let next = f.ent.costumes[(i + 1) % f.ent.costumes.len()].clone(); wear(w, p, f, Some(next)).await? }
            }
            T::PlaySound { sound, blocking } => { let v = ev!(sound); if let Some(s) = costume_arg(&v, &f.ent.sounds, "Sound")? { cmd!("sound {} {blocking}", name_of(&s)) } }
            T::PlayNotes { notes, beats, blocking } => { let n = ev!(notes); let b = ev!(beats); play(w, p, f, &n, &b, *blocking).await? }
            T::Rest { beats } => { let b = ev!(beats); play(w, p, f, &list(vec![]), &b, true).await? }
            T::StopSounds => cmd!("stop sounds"),
            T::Forward { distance } => { let d = ev!(distance).num()?; cmd!("forward {d:?}") }
            T::SetX { value } => set!("XPos", value), T::ChangeX { delta } => change!("XPos", delta),
            T::SetY { value } => set!("YPos", value), T::ChangeY { delta } => change!("YPos", delta),
            T::GotoXY { x, y } => { let x = ev!(x); let y = ev!(y); let y = y.num()?; let x = x.num()?; cmd!("goto {x:?} {y:?}") }
            T::PointTowardsXY { x, y } => { let x = ev!(x); let y = ev!(y); let y = y.num()?; let x = x.num()?; cmd!("point {x:?} {y:?}") }
            T::Goto { target } | T::PointTowards { target } => {
                let verb = if matches!(&s.kind, T::Goto { .. }) { "goto" } else { "point" };
                match ev!(target) {
                    V::List(l) => {
                        let n = l.borrow().len();
                        if n != 2 { return Err(Exn::Err(format!("InvalidListLength {{ expected: 2, got: {n} }}"))) }
                        let (x, y) = { let l = l.borrow(); (l[0].num()?, l[1].num()?) };
                        cmd!("{verb} {x:?} {y:?}")
                    }
                    V::Entity(e) => cmd!("{verb} {}", e.label()),
                    x => return Err(Exn::Err(format!("ConversionError {{ got: {}, expected: Entity }}", x.ty()))),
                }
            }
            T::TurnRight { angle } => change!("Heading", angle),
            T::TurnLeft { angle } => { let v = ev!(angle); let v = lift1(&v, true, &mut |x| num(-x.num()?))?; cmd!("change Heading {}", canon(&[v])) }
            T::SetHeading { value } => set!("Heading", value),
            T::SetPenDown { value } => cmd!("set PenDown {value}"),
            T::PenClear => cmd!("clear drawings"),
            T::SetPenColor { color: (r, g, b, a) } => cmd!("set PenColor {}", canon(&[V::Num(((*a as u32) << 24 | (*r as u32) << 16 | (*g as u32) << 8 | *b as u32) as f64)])),
            T::Say { content, duration } | T::Think { content, duration } => {
                let style = if matches!(&s.kind, T::Say { .. }) { "Say" } else { "Think" };
                let v = ev!(content);
                let d = match &v { V::Text(s) if s.is_empty() => "-".to_string(), v => canon(std::slice::from_ref(v)) };
                cmd!("{style} {d}");
                if let Some(t) = duration { sleep(w, p, f, t).await?; cmd!("{style} -") }
            }
            T::SetVisible { value } => cmd!("set Visible {value}"),
            T::ChangeSize { delta } => change!("Size", delta), T::SetSize { value } => set!("Size", value),
            T::ChangePenSize { delta } => change!("PenSize", delta), T::SetPenSize { value } => set!("PenSize", value),
            T::CallRpc { host, service, rpc, args } => { rpc_call(w, p, f, host.as_deref(), service, rpc, args).await?; }
            T::CallFn { function, args, upvars } => { call_fn(w, p, f, function, args, upvars).await?; }
            T::CallClosure { new_entity, closure, args } => {
                let on = match new_entity { Some(n) => Some(ev!(n)), None => None };
                let c = ev!(closure);
                let a = all(w, p, f, args).await?;
                call_closure(w, p, f, &c, &a, on.as_ref()).await?;
            }
            T::ForkClosure { closure, args } => {
                let c = ev!(closure);
                let a = all(w, p, f, args).await?;
                let (c, locals) = bind(&c, &a)?;
                w.start_all_queued();
                w.spawn(f.ent.clone(), c.code, c.stmts, locals, Ctx { locals: vec![], from: p.entl.clone(), barrier: None, reply: None, message: None });
            }
            T::Clone { target } => { clone(w, p, f, target).await?; }
            T::DeleteClone => if f.ent.original.is_some() {
                w.scripts.borrow_mut().retain(|s| !Rc::ptr_eq(&s.ent, &f.ent));
                let pids: Vec<u64> = w.tasks.borrow().iter().filter(|t| Rc::ptr_eq(&t.1.proc.ent, &f.ent)).map(|t| *t.0).collect();
                for q in pids { w.kill(q) }
                w.start_all_queued();
                if_alive(w, p).await
            },
            T::SendLocalMessage { target, msg_type, wait } => {
                let m = ev!(msg_type);
                let targets = match target { None => None, Some(t) => { let t = ev!(t); Some(match &t { V::List(l) => l.borrow().iter().map(|x| x.ent()).collect::<R<Vec<_>>>()?, x => vec![x.ent()?] }) } };
                let m = m.txt()?;
                let barrier = if *wait { Some(Rc::new(())) } else { None };
                let hit: Vec<Rc<Script>> = w.scripts.borrow().iter().filter(|s| matches!(s.hat, HatKind::LocalMessage { msg_type } if msg_type.as_ref().map_or(true, |t| *t == m)) && targets.as_ref().map_or(true, |t| t.iter().any(|t| Rc::ptr_eq(t, &s.ent)))).cloned().collect();
                if !hit.is_empty() { w.start_all_queued() }
                for s in &hit { w.stop_script(s); w.schedule(s, Ctx { locals: vec![], from: p.entl.clone(), barrier: barrier.clone(), reply: None, message: Some(m.clone()) }, 0) }
                if_alive(w, p).await;
                if let Some(b) = barrier { while Rc::strong_count(&b) > 1 { yield_always(w).await } }
            }
            T::SendNetworkMessage { target, msg_type, values } => { send(w, p, f, target, msg_type, values, false).await?; }
            T::SendNetworkReply { value } => {
                let v = ev!(value);
                let j = json_nb(&v)?;
                let k = p.reply.borrow_mut().take();
                if let Some(n) = k { w.mock.borrow_mut().log(format!("reply src r{n} {j}")) }
            }
            T::Ask { prompt } => {
                let v = ev!(prompt);
                let d = match &v { V::Text(s) if s.is_empty() => "-".to_string(), v => canon(std::slice::from_ref(v)) };
                let r = request(w, p, f, format!("input {d}")).await?.map_err(promoted)?;
                *p.answer.borrow_mut() = Some(r);
            }
            T::ResetTimer => w.timer.set(time_of(w)?),
            T::SetEffect { kind, value } => set!(property(kind), value), T::ChangeEffect { kind, delta } => change!(property(kind), delta),
            T::ClearEffects => cmd!("clear effects"),
            T::SetPenAttr { attr, value } => set!(pen(attr), value), T::ChangePenAttr { attr, delta } => change!(pen(attr), delta),
            T::Stop { mode } => match mode {
                ast::StopMode::ThisBlock => return Err(Exn::Ret(text(""))),
                ast::StopMode::ThisScript => return Err(Exn::Abort),
                ast::StopMode::All => { let all = w.scripts.borrow().clone(); for s in &all { w.stop_script(s) } let pids: Vec<u64> = w.tasks.borrow().keys().copied().collect(); for q in pids { w.kill(q) } w.queue.borrow_mut().clear(); if_alive(w, p).await }
                ast::StopMode::AllButThisScript => { let pids: Vec<u64> = w.tasks.borrow().keys().copied().filter(|q| *q != p.pid).collect(); for q in pids { w.kill(q) } w.queue.borrow_mut().clear() }
                ast::StopMode::OtherScriptsInSprite => { let pids: Vec<u64> = w.tasks.borrow().iter().filter(|t| *t.0 != p.pid && Rc::ptr_eq(&t.1.proc.ent, &f.ent)).map(|t| *t.0).collect(); for q in pids { w.kill(q) } }
                _ => unreachable!(),
            },
            T::UnknownBlock { name, args } => match name.as_str() {
                "nativeRunSyscall" => { syscall(w, p, f, args).await?; }
                _ => { let a = all(w, p, f, args).await?; request(w, p, f, format!("block {name:?} {}", canon(&a))).await?.map_err(promoted)?; }
            },
            _ => unreachable!("statement not generated"),
        }
        Ok(())
    })
}
async fn sleep(w: &W, p: &P, f: &F, e: &'static Expr) -> X<()> {
    let ms = eval(w, p, f, e).await?.num()? * 1000.0;
    if ms <= 0.0 { yield_always(w).await; return Ok(()) }
    let until = time_of(w)?.saturating_add(ms as u64);
    while time_of(w)? < until { yield_always(w).await }
    Ok(())
}
async fn wear(w: &W, p: &P, f: &F, c: Option<V>) -> X<()> {
    let old = f.ent.costume.borrow().clone();
    let unchanged = match (&old, &c) { (None, None) => true, (Some(a), Some(b)) => same(a, b), _ => false };
    if unchanged { return Ok(()) }
    *f.ent.costume.borrow_mut() = c.clone();
    command(w, p, f, format!("costume {}", c.map(|c| name_of(&c).to_string()).unwrap_or_default())).await
}
async fn play(w: &W, p: &P, f: &F, notes: &V, beats: &V, blocking: bool) -> X<()> {
    let b = beats.num()?;
    let ns: Vec<u8> = match notes { V::List(l) => l.borrow().iter().map(note).collect::<R<_>>()?, x => vec![note(x)?] };
    if b > 0.0 { command(w, p, f, format!("notes {ns:?} {b:?} {blocking}")).await? }
    Ok(())
}
