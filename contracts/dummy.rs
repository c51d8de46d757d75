use netsblox_vm::runtime::*;
use netsblox_vm::process::*;
use netsblox_vm::vecmap::VecMap;
use netsblox_vm::gc::*;
use netsblox_vm::json::*;
use netsblox_vm::compact_str::CompactString;
use rand::distr::uniform::{SampleUniform, SampleRange};
#[derive(Debug)]
pub struct Nat;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct NT;
impl GetType for Nat { type Output = NT; fn get_type(&self) -> NT { NT } }
/// What the environment was told: answers to commands (how many, whether the last one was a success) and the last value answered to a request (0 none, 1 number, 2 boolean, 3 other).
pub mod told {
    pub type Told = (u32, bool, u8, f64);
    #[cfg(kani)] static mut T: Told = (0, false, 0, 0.0);
    #[cfg(kani)] pub fn with(f: impl FnOnce(&mut Told)) { unsafe { let mut t = T; f(&mut t); T = t; } }
    #[cfg(not(kani))] thread_local! { static T: std::cell::Cell<Told> = const { std::cell::Cell::new((0, false, 0, 0.0)) }; }
    #[cfg(not(kani))] pub fn with(f: impl FnOnce(&mut Told)) { T.with(|c| { let mut t = c.get(); f(&mut t); c.set(t) }) }
    pub fn take() -> Told { let mut r = (0, false, 0, 0.0); with(|t| { r = *t; *t = (0, false, 0, 0.0) }); r }
}
pub struct Inter;
impl From<SimpleValue> for Inter { fn from(v: SimpleValue) -> Self { let v = std::mem::ManuallyDrop::new(v); told::with(|t| match &*v { SimpleValue::Number(n) => { t.2 = 1; t.3 = n.get() } SimpleValue::Bool(b) => { t.2 = 2; t.3 = *b as u8 as f64 } _ => t.2 = 3 }); Inter } }
pub struct ES;
impl From<EntityKind<'_, '_, C, S>> for ES { fn from(_: EntityKind<'_, '_, C, S>) -> Self { ES } }
pub struct PS;
impl From<ProcessKind<'_, '_, C, S>> for PS { fn from(_: ProcessKind<'_, '_, C, S>) -> Self { PS } }
impl Unwindable for PS { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct C;
impl CustomTypes<S> for C {
    type NativeValue = Nat; type Intermediate = Inter; type EntityState = ES; type ProcessState = PS;
    fn from_intermediate<'gc>(_: &Mutation<'gc>, _: Inter) -> Value<'gc, C, S> { Value::Bool(true) }
}
pub struct RK; impl Key<Result<Inter, CompactString>> for RK { fn complete(self, _: Result<Inter, CompactString>) {} }
pub struct CK; impl Key<Result<(), CompactString>> for CK { fn complete(self, r: Result<(), CompactString>) { told::with(|t| { t.0 += 1; t.1 = r.is_ok() }); std::mem::forget(r) } }
pub struct S;
impl System<C> for S {
    type RequestKey = RK; type CommandKey = CK;
    fn rand<T: SampleUniform, R: SampleRange<T>>(&self, _range: R) -> T { panic!() }
    fn time(&self, _: Precision) -> SysTime { SysTime::Timeless }
    fn perform_request<'gc>(&self, _mc: &Mutation<'gc>, _request: Request<'gc, C, Self>, _proc: &mut Process<'gc, C, Self>) -> Result<RK, ErrorCause<C, Self>> { Ok(RK) }
    fn poll_request<'gc>(&self, _mc: &Mutation<'gc>, _key: &RK, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Value<'gc, C, Self>, CompactString>>, ErrorCause<C, Self>> { Ok(AsyncResult::Pending) }
    fn perform_command<'gc>(&self, _mc: &Mutation<'gc>, _command: Command<'gc, '_, C, Self>, _proc: &mut Process<'gc, C, Self>) -> Result<CK, ErrorCause<C, Self>> { Ok(CK) }
    fn poll_command<'gc>(&self, _mc: &Mutation<'gc>, _key: &CK, _proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> { Ok(AsyncResult::Pending) }
    fn send_message(&self, _: CompactString, _: VecMap<CompactString, Json, false>, _: Vec<CompactString>, _: bool) -> Result<Option<ExternReplyKey>, ErrorCause<C, Self>> { Ok(None) }
    fn poll_reply(&self, _key: &ExternReplyKey) -> AsyncResult<Option<Json>> { AsyncResult::Pending }
    fn send_reply(&self, _key: InternReplyKey, _value: Json) -> Result<(), ErrorCause<C, Self>> { Ok(()) }
    fn receive_message(&self) -> Option<IncomingMessage> { None }
}
