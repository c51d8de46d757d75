//! Runs one generated case in the specification and in the real VM and compares everything observable.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::process::ErrorSummary;
use netsblox_vm::gc::*;
use netsblox_vm::project::{self, Project, ProjectStep};
use netsblox_vm::runtime::{self, *};
use netsblox_vm::ast::{self, *};
use crate::programs::Case;
use crate::interp::{Input, World};
use crate::sym::Discard;
use crate::sys::{self, Mock, C, S, CLONES, LATE};

#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { proj: Gc<'gc, RefLock<Project<'gc, C, S>>> }

pub const OPS: u64 = 20_000;
pub const STEPS: u64 = 3_000_000;
#[derive(Clone, Debug, PartialEq)]
pub struct Obs { token: String, trace: Vec<String>, state: String, places: Vec<(usize, String)> }
pub enum Verdict { Ok { turns: usize, hash: u64, events: usize }, Discard, Fail { turn: usize, msg: String } }

pub static PHASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0); // 2n: specification side of the n-th run, 2n+1: VM side
pub static CASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn phase(vm: bool) { use std::sync::atomic::Ordering::SeqCst; let n = PHASE.load(SeqCst); PHASE.store((n / 2 + !vm as u64) * 2 + vm as u64, SeqCst) }
/// Reports a run that stays inside one step of the VM (or of the specification) for too long.
pub fn watchdog(secs: u64) {
    use std::sync::atomic::Ordering::SeqCst;
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let p = PHASE.load(SeqCst);
            if p != last { last = p; since = std::time::Instant::now(); continue }
            if p != 0 && since.elapsed().as_secs() >= secs {
                let case = CASE.load(SeqCst);
                println!("{}", if p % 2 == 1 { serde_json::json!({"status": "fail", "case": case, "msg": format!("a step of the VM does not finish within {secs} s"), "program": ""}) } else { serde_json::json!({"status": "crash", "case": case, "msg": "the specification does not finish"}) });
                std::process::exit(0);
            }
        }
    });
}
fn spec_run(role: &'static Role, c: &Case) -> Vec<Obs> {
    CLONES.with(|x| x.set(0));
    let mut out = vec![];
    let w = catch_unwind(AssertUnwindSafe(|| World::new(role, c.conf, Mock::new(c.mseed, c.clock, c.refuse))));
    let Ok(w) = w else { return out };
    for t in 0..c.turns {
        let r = catch_unwind(AssertUnwindSafe(|| {
            w.budget.set(OPS); crate::spec::STEPS.with(|s| s.set(200_000));
            { let mut m = w.mock.borrow_mut(); m.time += c.steps[t]; for (_, x) in c.msgs.iter().filter(|x| x.0 == t) { m.push_msg(x.clone()) } }
            for (_, i) in c.inputs.iter().filter(|x| x.0 == t) { w.input(i) }
            let token = w.turn();
            let trace = std::mem::take(&mut w.mock.borrow_mut().trace);
            let state = w.state();
            if state.len() > 30_000 || token.len() > 30_000 { std::panic::panic_any(Discard) }
            let places = if c.conf.locs && token.starts_with("error") { std::mem::take(&mut *w.places.borrow_mut()) } else { vec![] };
            Obs { token, trace, state, places }
        }));
        match r { Ok(o) => out.push(o), Err(e) => { if !e.is::<Discard>() { out.push(Obs { token: format!("SPEC PANIC {}", crate::contracts::LAST.with(|l| l.borrow().clone())), trace: vec![], state: String::new(), places: vec![] }) } break } }
    }
    w.close();
    out
}
fn key(k: &str) -> KeyCode { match k { "space" => KeyCode::Char(' '), "a" => KeyCode::Char('a'), _ => KeyCode::Up } }
fn vm_input(i: &Input) -> project::Input {
    match i {
        Input::Start => project::Input::Start, Input::Stop => project::Input::Stop, Input::Key(k) => project::Input::KeyDown { key: key(k) },
        Input::Custom { name, args, interrupt, max } => project::Input::CustomEvent { name: name.as_str().into(), args: args.iter().map(|(k, v)| (k.as_str().into(), sys::simple_of(v))).collect(), interrupt: *interrupt, max_queue: *max },
    }
}
fn show(o: &Obs) -> String { format!("outcome `{}`, environment calls {:?}, state `{}`", o.token, o.trace, o.state) }
fn table<'gc>(t: &SymbolTable<'gc, C, S>) -> Vec<runtime::Value<'gc, C, S>> { let mut l: Vec<_> = t.iter().map(|(k, v)| (k.to_string(), v.get().clone())).collect(); l.sort_by(|a, b| a.0.cmp(&b.0)); l.into_iter().map(|x| x.1).collect() }
pub fn run(role: &'static Role, c: &Case) -> Verdict {
    phase(false);
    let want = spec_run(role, c);
    if want.is_empty() { return Verdict::Discard }
    CLONES.with(|x| x.set(0));
    let at = std::cell::Cell::new(0);
    phase(true);
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), (usize, String)> {
        let (bytecode, init, locs, _) = ByteCode::compile(role).map_err(|e| (0, format!("program does not compile: {e:?}")))?;
        let system = Rc::new(S(RefCell::new(Mock::new(c.mseed, c.clock, c.refuse))));
        let scheme = |s| if s { ErrorScheme::Soft } else { ErrorScheme::Hard };
        let settings = Settings { max_call_depth: c.conf.limit, rpc_error_scheme: scheme(c.conf.soft_rpc), syscall_error_scheme: scheme(c.conf.soft_sys) };
        let mut arena = Arena::<Rootable![Env<'_>]>::new(|mc| Env { proj: Gc::new(mc, RefLock::new(Project::from_init(mc, &init, Rc::new(bytecode), settings, system.clone()))) });
        for (t, o) in want.iter().enumerate() {
            at.set(t);
            if o.token.starts_with("SPEC PANIC") { return Err((t, o.token.clone())) }
            { let mut m = system.0.borrow_mut(); m.gate = true; m.time += c.steps[t]; for (_, x) in c.msgs.iter().filter(|x| x.0 == t) { m.push_msg(x.clone()) } }
            let got = arena.mutate(|mc, env| {
                let mut p = env.proj.borrow_mut(mc);
                for (_, i) in c.inputs.iter().filter(|x| x.0 == t) { p.input(mc, vm_input(i)) }
                let (mut n, mut places) = (0, vec![]);
                let token = loop {
                    n += 1;
                    if n > STEPS { break "NEVER PAUSES".to_string() }
                    break match p.step(mc) {
                        ProjectStep::Normal => continue,
                        ProjectStep::Idle => "idle".into(), ProjectStep::Yield => "yield".into(), ProjectStep::Pause => "pause".into(),
                        ProjectStep::ProcessTerminated { result, .. } => format!("end {}", sys::canon(&[result])),
                        ProjectStep::Error { error, proc } => {
                            if c.conf.locs { places = ErrorSummary::extract(&error, &proc, &locs).trace.iter().enumerate().map(|(i, x)| (i + 1, x.location.to_string())).collect() }
                            format!("error {:?}", error.cause)
                        }
                        ProjectStep::Watcher { create, watcher } => format!("watch {create} {} {} {}", watcher.name, watcher.value.upgrade(mc).map_or("gone".into(), |v| sys::canon(&[v.borrow().clone()])), watcher.entity.upgrade(mc).map_or("gone".into(), |e| sys::label(&e.borrow()))),
                    };
                };
                let trace = std::mem::take(&mut system.0.borrow_mut().trace);
                let g = p.get_global_context();
                let g = g.borrow();
                let mut vs = vec![];
                vs.extend(table(&g.globals));
                for e in g.entities.iter() { vs.extend(table(&e.1.borrow().fields)) }
                for e in g.entities.iter() { vs.push(e.1.borrow().costume.clone().map_or_else(|| Text::default().into(), runtime::Value::Image)) }
                for e in g.entities.iter() { vs.extend(e.1.borrow().state.described.iter().map(|x| Number::new(*x).unwrap().into())) }
                // (a frame that failed before any of its blocks was at work has no place to report)
                for (i, x) in places.iter_mut() { if o.places.iter().all(|y| y.0 != *i) { x.clear() } }
                places.retain(|x| !x.1.is_empty());
                Obs { token, trace, state: sys::canon(&vs), places }
            });
            if got != *o {
                let what = if got.token != o.token { format!("expected outcome `{}`, got `{}`", o.token, got.token) }
                    else if got.trace != o.trace { let i = (0..).find(|i| got.trace.get(*i) != o.trace.get(*i)).unwrap(); format!("expected environment call {:?}, got {:?}", o.trace.get(i), got.trace.get(i)) }
                    else if got.state != o.state { format!("expected state `{}`, got `{}`", o.state, got.state) }
                    else { format!("expected error location {:?}, got {:?} for {}", o.places, got.places, got.token) };
                return Err((t, what));
            }
            if t % 8 == 7 { arena.collect_all() }
        }
        Ok(())
    }));
    match r {
        Ok(Ok(())) => {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            for o in &want { o.token.hash(&mut h); o.trace.hash(&mut h); o.state.hash(&mut h) }
            Verdict::Ok { turns: want.len(), hash: h.finish(), events: want.iter().filter(|o| o.token != "idle").count() }
        }
        Ok(Err((turn, msg))) => Verdict::Fail { turn, msg },
        Err(e) if e.is::<Discard>() => Verdict::Discard,
        Err(_) => Verdict::Fail { turn: at.get(), msg: crate::contracts::LAST.with(|l| l.borrow().clone()) },
    }
}
/// Runs a case and releases its program afterwards.
pub fn run_owned(mut c: Case) -> (Verdict, Case) {
    let role = Box::into_raw(Box::new(std::mem::replace(&mut c.role, Role { name: "".into(), notes: "".into(), stage_size: (1, 1), globals: vec![], funcs: vec![], entities: vec![] })));
    let v = run(unsafe { &*role }, &c);
    PHASE.store((PHASE.load(std::sync::atomic::Ordering::SeqCst) / 2 + 1) * 2, std::sync::atomic::Ordering::SeqCst);
    c.role = *unsafe { Box::from_raw(role) };
    (v, c)
}

// ---- shrinking (for reports only) ----
fn bodies(s: &mut Stmt) -> Vec<&mut Vec<Stmt>> {
    use StmtKind as T;
    match &mut s.kind {
        T::Warp { stmts } | T::InfLoop { stmts } | T::ForeachLoop { stmts, .. } | T::ForLoop { stmts, .. } | T::UntilLoop { stmts, .. } | T::Repeat { stmts, .. } | T::If { then: stmts, .. } => vec![stmts],
        T::IfElse { then, otherwise, .. } => vec![then, otherwise],
        T::TryCatch { code, handler, .. } => vec![code, handler],
        _ => vec![],
    }
}
fn exprs(s: &mut Stmt) -> Vec<&mut Expr> {
    use StmtKind as T;
    match &mut s.kind {
        T::Assign { value, .. } | T::AddAssign { value, .. } | T::Return { value } | T::SendNetworkReply { value } | T::SetX { value } | T::SetY { value } | T::SetSize { value } | T::SetHeading { value } | T::SetPenSize { value } | T::SetEffect { value, .. } | T::SetPenAttr { value, .. } => vec![value],
        T::ForeachLoop { items: e, .. } | T::UntilLoop { condition: e, .. } | T::WaitUntil { condition: e } | T::Repeat { times: e, .. } | T::If { condition: e, .. } | T::IfElse { condition: e, .. } | T::Throw { error: e } | T::ListRemoveLast { list: e } | T::ListRemoveAll { list: e } | T::Sleep { seconds: e } | T::SetCostume { costume: e } | T::PlaySound { sound: e, .. } | T::Ask { prompt: e } | T::Clone { target: e } | T::Say { content: e, .. } | T::Think { content: e, .. } | T::Goto { target: e } | T::PointTowards { target: e } => vec![e],
        T::ForLoop { start, stop, .. } => vec![start, stop],
        T::ListInsert { list, value, index } | T::ListAssign { list, value, index } => vec![list, value, index],
        T::ListInsertLast { list, value } | T::ListInsertRandom { list, value } | T::ListAssignLast { list, value } | T::ListAssignRandom { list, value } => vec![list, value],
        T::ListRemove { list, index } => vec![list, index],
        T::CallRpc { args, .. } => args.iter_mut().map(|x| &mut x.1).collect(),
        T::CallFn { args, .. } | T::UnknownBlock { args, .. } => args.iter_mut().collect(),
        T::CallClosure { new_entity, closure, args } => new_entity.iter_mut().map(|x| &mut **x).chain(std::iter::once(&mut **closure)).chain(args.iter_mut()).collect(),
        T::ForkClosure { closure, args } => std::iter::once(&mut **closure).chain(args.iter_mut()).collect(),
        T::SendLocalMessage { target, msg_type, .. } => target.iter_mut().map(|x| &mut **x).chain(std::iter::once(&mut **msg_type)).collect(),
        T::SendNetworkMessage { target, values, .. } => std::iter::once(&mut **target).chain(values.iter_mut().map(|x| &mut x.1)).collect(),
        T::PlayNotes { notes, beats, .. } => vec![notes, beats],
        _ => vec![],
    }
}
fn kids(e: &mut Expr) -> Vec<&mut Expr> {
    use ExprKind as E;
    match &mut e.kind {
        E::Add { values: v } | E::Mul { values: v } | E::Min { values: v } | E::Max { values: v } | E::CopyList { list: v } | E::ListCat { lists: v } | E::ListLen { value: v } | E::ListRank { value: v } | E::ListDims { value: v } | E::ListFlatten { value: v } | E::ListColumns { value: v } | E::ListRev { value: v } | E::ListLines { value: v } | E::ListCsv { value: v } | E::ListJson { value: v } | E::ListCombinations { sources: v } | E::ListIsEmpty { value: v } | E::ListCdr { value: v } | E::ListGetLast { list: v } | E::StrGetLast { string: v } | E::StrCat { values: v } | E::StrLen { value: v } | E::Not { value: v } | E::Neg { value: v } | E::Abs { value: v } | E::TextSplit { text: v, .. } | E::Clone { target: v } | E::TypeQuery { value: v, .. } | E::CostumeName { costume: v } | E::SoundName { sound: v } => vec![v],
        E::Sub { left: a, right: b } | E::Div { left: a, right: b } | E::Mod { left: a, right: b } | E::And { left: a, right: b } | E::Or { left: a, right: b } | E::Identical { left: a, right: b } | E::Eq { left: a, right: b } | E::Neq { left: a, right: b } | E::Less { left: a, right: b } | E::LessEq { left: a, right: b } | E::Greater { left: a, right: b } | E::GreaterEq { left: a, right: b } | E::Pow { base: a, power: b } | E::ListCons { item: a, list: b } | E::ListFind { list: a, value: b } | E::ListContains { list: a, value: b } | E::ListGet { list: a, index: b } | E::ListReshape { value: a, dims: b } | E::StrGet { string: a, index: b } | E::Map { f: a, list: b } | E::Keep { f: a, list: b } | E::FindFirst { f: a, list: b } | E::Combine { f: a, list: b } | E::Range { start: a, stop: b } => vec![a, b],
        E::Conditional { condition, then, otherwise } => vec![condition, then, otherwise],
        E::MakeList { values } => values.iter_mut().collect(),
        E::CallFn { args, .. } | E::UnknownBlock { args, .. } => args.iter_mut().collect(),
        E::CallRpc { args, .. } => args.iter_mut().map(|x| &mut x.1).collect(),
        E::CallClosure { new_entity, closure, args } => new_entity.iter_mut().map(|x| &mut **x).chain(std::iter::once(&mut **closure)).chain(args.iter_mut()).collect(),
        _ => vec![],
    }
}
type Edit<'a> = &'a mut dyn FnMut(&mut Vec<Stmt>, usize) -> bool; // returns true when it applied an edit
fn each_stmt(c: &mut Case, f: Edit) -> bool {
    fn expr(e: &mut Expr, f: Edit) -> bool {
        if let ExprKind::Closure { stmts, .. } = &mut e.kind { return go(stmts, f) }
        kids(e).into_iter().any(|k| expr(k, f))
    }
    fn go(v: &mut Vec<Stmt>, f: Edit) -> bool {
        for i in 0..v.len() { if f(v, i) { return true } if bodies(&mut v[i]).into_iter().any(|b| go(b, f)) { return true } if exprs(&mut v[i]).into_iter().any(|e| expr(e, f)) { return true } }
        false
    }
    for x in &mut c.role.funcs { if go(&mut x.stmts, f) { return true } }
    for e in &mut c.role.entities { for x in &mut e.funcs { if go(&mut x.stmts, f) { return true } } for s in &mut e.scripts { if go(&mut s.stmts, f) { return true } } }
    false
}
/// Applies the `k`-th possible simplification; false when there are fewer.
fn simplify(c: &mut Case, mut k: usize) -> bool {
    let mut hit = move || { if k == 0 { true } else { k -= 1; false } };
    for e in 0..c.role.entities.len() { for s in 0..c.role.entities[e].scripts.len() { if hit() { c.role.entities[e].scripts.remove(s); return true } } }
    for i in 0..c.inputs.len() { if hit() { c.inputs.remove(i); return true } }
    for i in 0..c.msgs.len() { if hit() { c.msgs.remove(i); return true } }
    if c.refuse && hit() { c.refuse = false; return true }
    let mut edit = |v: &mut Vec<Stmt>, i: usize| -> bool {
        if hit() { v.remove(i); return true }
        let n = bodies(&mut v[i]).len();
        for b in 0..n { if hit() { let x = std::mem::take(bodies(&mut v[i]).remove(b)); v.splice(i..=i, x); return true } }
        fn ex(e: &mut Expr, hit: &mut dyn FnMut() -> bool) -> bool {
            if !matches!(&e.kind, ExprKind::Value(_) | ExprKind::Variable { .. } | ExprKind::This) {
                for lit in [ast::Value::Number(1.0), ast::Value::String("".into())] { if hit() { e.kind = ExprKind::Value(lit); return true } }
                let n = kids(e).len();
                for k in 0..n { if hit() { let x = std::mem::replace(kids(e).remove(k), ast::Value::Number(0.0).into()); *e = x; return true } }
                if let ExprKind::Closure { .. } = &e.kind { return false }
                return kids(e).into_iter().any(|k| ex(k, hit));
            }
            false
        }
        exprs(&mut v[i]).into_iter().any(|e| ex(e, &mut hit))
    };
    each_stmt(c, &mut edit)
}
pub fn shrink(mut c: Case, secs: f64) -> Case {
    let t = std::time::Instant::now();
    let (v, back) = run_owned(c); c = back;
    let Verdict::Fail { turn, msg } = v else { return c };
    let kind = |m: &str| m.chars().take(24).collect::<String>();
    let base = kind(&msg);
    c.turns = c.turns.min(turn + 1);
    let mut k = 0;
    while t.elapsed().as_secs_f64() < secs {
        let mut d = c.clone();
        if !simplify(&mut d, k) { break }
        let (v, mut d) = run_owned(d);
        match v { Verdict::Fail { turn, msg } if kind(&msg) == base => { d.turns = d.turns.min(turn + 1); c = d; } _ => k += 1 }
    }
    c
}
pub fn describe(c: &Case) -> String {
    let mut s = format!("inputs {:?}\nmessages {:?}\nclock {:?} refuse {} conf {:?}\n", c.inputs, c.msgs, c.clock, c.refuse, c.conf);
    for g in &c.role.globals { s.push_str(&format!("global {} = {:?}\n", g.def.trans_name, g.init)) }
    for f in &c.role.funcs { s.push_str(&format!("fn {}({:?}) up {:?}\n{}", f.trans_name, f.params.iter().map(|p| p.trans_name.as_str()).collect::<Vec<_>>(), f.upvars.len(), stmts(&f.stmts))) }
    for e in &c.role.entities {
        s.push_str(&format!("entity {} costume {:?} of {} at {:?} towards {} scale {} visible {} colour {:?}\n", e.trans_name, e.active_costume, e.costumes.len(), e.pos, e.heading, e.scale, e.visible, e.color));
        for g in &e.fields { s.push_str(&format!(" field {} = {:?}\n", g.def.trans_name, g.init)) }
        for f in &e.funcs { s.push_str(&format!(" method {}({:?})\n{}", f.trans_name, f.params.iter().map(|p| p.trans_name.as_str()).collect::<Vec<_>>(), stmts(&f.stmts))) }
        for x in &e.scripts { s.push_str(&format!(" script {:?}\n{}", x.hat.as_ref().unwrap().kind, stmts(&x.stmts))) }
    }
    strip(&s)
}
fn stmts(v: &[Stmt]) -> String { v.iter().map(|s| format!("    {:?}\n", s.kind)).collect() }
fn strip(s: &str) -> String {
    if std::env::var("RAW").is_ok() { return s.replace("name: \"","") }
    let mut s = s.to_string();
    while let Some(i) = s.find(", info: BlockInfo {") { let j = s[i + 2..].find('}').unwrap() + i + 3; s.replace_range(i..j, ""); }
    while let Some(i) = s.find("{ name: \"") { // variable references and definitions: keep the translated name
        let Some(k) = s[i..].find("trans_name: ").map(|k| k + i) else { break };
        if k - i > 60 { s.replace_range(i..i + 8, "{ nAme:"); continue }
        let e = s[k..].find('}').unwrap() + k + 1;
        let v = s[k + 12..e].split(['"']).nth(1).unwrap_or("").to_string();
        s.replace_range(i..e, &v);
    }
    s.replace("Expr { kind: ", "(").replace("Value(Number(", "((")
}
