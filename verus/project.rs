//! The scheduler: scripts, processes and the process queue.
use vstd::prelude::*;
verus! {
//@include slotmap
pub mod world {
//! Everything the scheduler only passes around: opaque, nothing is assumed about it except what is written here.
use vstd::prelude::*;
use std::marker::PhantomData;
pub trait Unwindable: Sized { type UnwindPoint; fn get_unwind_point(&self) -> Self::UnwindPoint; fn unwind_to(&mut self, point: &Self::UnwindPoint); }
pub trait CustomTypes<S>: Sized { type ProcessState: Unwindable; }
pub trait System<C>: Sized { type RequestKey; type CommandKey; }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Gc<'gc, T> { p: PhantomData<&'gc T> }
impl<'gc, T> Clone for Gc<'gc, T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'gc, T> Copy for Gc<'gc, T> { }
impl<'gc, T> Gc<'gc, T> {
    /// Identity of a cell is equality of its handles.
    #[verifier::external_body] pub fn ptr_eq(a: Gc<'gc, T>, b: Gc<'gc, T>) -> (r: bool) ensures r == (a == b) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct RefLock<T> { p: PhantomData<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct GlobalContext<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Entity<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Value<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct SymbolTable<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] pub struct Barrier { }
#[verifier::external_body] pub struct BarrierCondition { }
#[verifier::external_body] pub struct InternReplyKey { }
#[verifier::external_body] pub struct ExternReplyKey { }
#[verifier::external_body] pub struct Text { }
#[verifier::external_body] pub struct CompactString { }
#[verifier::external_body] pub struct KeyCode { }
pub assume_specification<T> [core::mem::replace] (a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a);
#[verifier::external_body] #[verifier::accept_recursive_types(C)] #[verifier::accept_recursive_types(S)] pub struct Watcher<'gc, C, S> { p: PhantomData<&'gc (C, S)> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] #[verifier::accept_recursive_types(S)] pub struct OtherCause<T, S> { p: PhantomData<(T, S)> }
/// The causes of an error, as far as the scheduler looks at them.
pub enum ErrorCause<C, S> { Custom { msg: CompactString }, Other(OtherCause<C, S>) }
impl Clone for CompactString { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for InternReplyKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Barrier { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn description<C, S>(x: ErrorCause<C, S>) -> CompactString;
#[verifier::external_body] pub fn describe<C, S>(x: &ErrorCause<C, S>) -> (r: CompactString) ensures r == description(*x) { unimplemented!() }
pub uninterp spec fn text_of<'gc, C, S>(t: CompactString) -> Value<'gc, C, S>;
#[verifier::external_body] pub fn text_value<'gc, C, S>(t: &CompactString) -> (r: Value<'gc, C, S>) ensures r == text_of::<C, S>(*t) { unimplemented!() }
pub uninterp spec fn defined<'gc, C, S>(t: SymbolTable<'gc, C, S>, name: CompactString, v: Value<'gc, C, S>) -> SymbolTable<'gc, C, S>;
/// Vec::drain(n..) with its result dropped.
#[verifier::external_body] pub fn cut<T>(v: &mut Vec<T>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.take(n as int) { unimplemented!() }
#[verifier::external_body] pub struct Mutation<'gc> { p: PhantomData<&'gc ()> }
#[verifier::external_body] pub struct SimpleValue { }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct VecMap<K, V, const SORTED: bool> { p: PhantomData<(K, V)> }
pub uninterp spec fn no_locals<'gc, C, S>() -> SymbolTable<'gc, C, S>;
impl<'gc, C, S> SymbolTable<'gc, C, S> {
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r == no_locals::<C, S>() { unimplemented!() }
    #[verifier::external_body] pub fn define_or_redefine(&mut self, name: &CompactString, value: Value<'gc, C, S>) ensures *final(self) == defined(*old(self), *name, value) { unimplemented!() }
}
/// The value an event or message carries under a name, zero when it carries none.
#[verifier::external_body] pub fn field_value<'gc, C, S>(mc: &Mutation<'gc>, values: &VecMap<CompactString, SimpleValue, false>, name: &CompactString) -> Value<'gc, C, S> { unimplemented!() }
pub struct IncomingMessage { pub msg_type: CompactString, pub values: VecMap<CompactString, SimpleValue, false>, pub reply_key: Option<InternReplyKey> }
/// The message the environment has for the project, if any.
#[verifier::external_body] pub fn next_message<'gc, C, S>(context: Gc<'gc, RefLock<GlobalContext<'gc, C, S>>>) -> Option<IncomingMessage> { unimplemented!() }
/// What a clone was made of.
pub uninterp spec fn original<'gc, C, S>(clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> Gc<'gc, RefLock<Entity<'gc, C, S>>>;
#[verifier::external_body] pub fn original_of<'gc, C, S>(clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> (r: Gc<'gc, RefLock<Entity<'gc, C, S>>>) ensures r == original(clone) { unimplemented!() }
#[verifier::external_body] pub fn listens(filter: &Option<CompactString>, text: &Text) -> (r: bool) ensures r == (*filter is None || says(filter->0, *text)) { unimplemented!() }
#[verifier::external_body] pub fn among<'gc, C, S>(targets: &Vec<Gc<'gc, RefLock<Entity<'gc, C, S>>>>, who: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> (r: bool) ensures r == targets@.contains(who) { unimplemented!() }
/// Vec::retain_mut.
#[verifier::external_body] pub fn retain_all<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: &mut T| #[trigger] f.requires((x,))
    ensures forall|keep: spec_fn(T) -> bool| (forall|x: &mut T, r: bool| #[trigger] f.ensures((x,), r) ==> r == keep(*x) && *final(x) == *x) ==> final(v)@ == #[trigger] old(v)@.filter(keep)
{ unimplemented!() }
#[verifier::external_body] pub fn same_text(a: &CompactString, b: &CompactString) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn hears(filter: &Option<KeyCode>, key: &KeyCode) -> (r: bool) ensures r == (*filter is None || *filter == Some(*key)) { unimplemented!() }
/// The text of a broadcast as the value of the message block.
pub uninterp spec fn says(a: CompactString, b: Text) -> bool;
pub uninterp spec fn message_of<'gc, C, S>(t: Text) -> Value<'gc, C, S>;
#[verifier::external_body] pub fn message_value<'gc, C, S>(t: Option<Text>) -> (r: Option<Value<'gc, C, S>>) ensures r == match t { Some(x) => Some(message_of(x)), None => None } { unimplemented!() }
}
pub mod proc {
use vstd::prelude::*;
use super::world::*;
//@type src/runtime.rs Event
//@type src/process.rs RequestAction
//@type src/process.rs Defer
//@type src/process.rs Handler
//@type src/process.rs CallFrame
//@type src/process.rs ProcContext
//@type src/process.rs Process
//@type src/runtime.rs ProcessKind
//@type src/bytecode.rs AbortMode
//@type src/process.rs ProcessStep
//@type src/process.rs ExecError
/// One instruction took `p` to `q` with outcome `r`.
pub uninterp spec fn stepped<'gc, C: CustomTypes<S>, S: System<C>>(p: Process<'gc, C, S>, q: Process<'gc, C, S>, r: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>) -> bool;
/// The outcomes that end a process.
pub open spec fn ends<'gc, C: CustomTypes<S>, S: System<C>, E>(r: Result<ProcessStep<'gc, C, S>, E>) -> bool {
    r is Err || r->Ok_0 is Terminate || r->Ok_0 is Abort && (r->Ok_0->mode is Current || r->Ok_0->mode is All)
}
/// The environment's state for a new process: nothing is assumed about it.
#[verifier::external_body] pub fn new_state<'gc, 'a, C: CustomTypes<S>, S: System<C>>(kind: ProcessKind<'gc, 'a, C, S>) -> C::ProcessState { unimplemented!() }
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    /// A process at rest at the start of its script.
    pub open spec fn fresh(self, c: ProcContext<'gc, C, S>) -> bool {
        &&& self.pos == c.start_pos && self.global_context == c.global_context && self.barrier == c.barrier && self.reply_key == c.reply_key && self.state == c.state
        &&& self.call_stack@.len() == 1 && self.call_stack@[0].entity == c.entity && self.call_stack@[0].locals == c.locals && self.call_stack@[0].warp_counter == 0 && self.call_stack@[0].value_stack_size == 0 && self.call_stack@[0].handler_stack_size == 0
        &&& self.value_stack@.len() == 0 && self.handler_stack@.len() == 0 && self.warp_counter == 0 && self.defer is None
        &&& self.last_syscall_error is None && self.last_rpc_error is None && self.last_answer is None && self.last_message == match c.local_message { Some(x) => Some(message_of(x)), None => None }
    }
    /// Handlers point below the tops of the stacks.
    pub open spec fn sound(self) -> bool {
        self.call_stack@.len() > 0 && forall|i: int| 0 <= i < self.handler_stack@.len() ==> 0 < (#[trigger] self.handler_stack@[i]).call_stack_size <= self.call_stack@.len() && self.handler_stack@[i].value_stack_size <= self.value_stack@.len() && self.handler_stack@[i].pos != usize::MAX
            && forall|j: int| i < j < self.handler_stack@.len() ==> self.handler_stack@[i].call_stack_size <= (#[trigger] self.handler_stack@[j]).call_stack_size && self.handler_stack@[i].value_stack_size <= self.handler_stack@[j].value_stack_size
    }
    pub open spec fn running(self) -> bool { self.pos != usize::MAX && self.sound() }
    pub open spec fn root(self) -> Gc<'gc, RefLock<Entity<'gc, C, S>>> { self.call_stack@[0].entity }
    /// `p` is the process after its turn and `r` what the turn asks of the project.
    pub open spec fn acts(self, p: Self, r: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>) -> bool { exists|q: Self, e: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>| #[trigger] stepped(self, q, e) && p.settles(q, e, r) }
    /// What a turn makes of `q`, the process after its instruction, whose outcome was `e`: an error goes to the innermost handler.
    pub open spec fn settles(self, q: Self, e: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>, r: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>) -> bool {
        &&& self.global_context == q.global_context && self.root() == q.root() && self.handler_stack == q.handler_stack
        &&& match e {
            Ok(x) => r == Ok::<_, ExecError<C, S>>(x) && self.warp_counter == q.warp_counter && self.call_stack == q.call_stack && self.value_stack == q.value_stack && self.state == q.state
                && if ends(e) { self.pos == usize::MAX && self.barrier is None && self.reply_key is None && self.defer is None } else { self == q },
            Err(cause) => if q.handler_stack@.len() > 0 {
                let h = q.handler_stack@.last();
                let n = h.call_stack_size - 1;
                let msg = match cause { ErrorCause::Custom { msg } => msg, _ => description(cause) };
                &&& r is Ok && r->Ok_0 is Normal && self.pos == h.pos && self.warp_counter == h.warp_counter && self.value_stack@ =~= q.value_stack@.take(h.value_stack_size as int)
                &&& self.call_stack@.len() == n + 1 && self.call_stack@.take(n) =~= q.call_stack@.take(n) && self.call_stack@[n].entity == q.call_stack@[n].entity && self.call_stack@[n].locals == defined(q.call_stack@[n].locals, h.var, text_of::<C, S>(msg))
                &&& self.barrier == q.barrier && self.reply_key == q.reply_key && self.defer == q.defer
            } else {
                &&& r is Err && r->Err_0.cause == cause && r->Err_0.pos == q.pos && self.call_stack == q.call_stack
                &&& self.pos == usize::MAX && self.barrier is None && self.reply_key is None && self.defer is None
            }
        }
    }
    /// Assumed of the instruction itself: a running process keeps its stacks sound, its root sprite and its project.
    #[verifier::external_body] fn step_impl(&mut self, mc: &Mutation<'gc>) -> (r: Result<ProcessStep<'gc, C, S>, ErrorCause<C, S>>)
        requires old(self).running()
        ensures stepped(*old(self), *final(self), r), final(self).sound(), final(self).root() == old(self).root(), final(self).global_context == old(self).global_context,
            r is Ok && !ends(r) ==> final(self).pos != usize::MAX && !(r->Ok_0 is Idle), r is Ok && r->Ok_0 is Fork ==> r->Ok_0->Fork_pos != usize::MAX,
    { unimplemented!() }
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" get_call_stack -> r
    //| ensures r@ == self.call_stack@,
    //@end
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" step -> r
    //@sub self\.step_impl\(mc\)\.map_err\(\|cause\| ExecError \{ cause, pos: self\.pos \}\) ==> match self.step_impl(mc) { Ok(x) => Ok(x), Err(cause) => Err(ExecError { cause, pos: self.pos }) }
    //@sub self\.(call_stack|value_stack)\.drain\(([^;]*?)\.\.\); ==> cut(&mut self.\1, \2);
    //@sub format_compact!\("\{x:\?\}"\) ==> describe(x)
    //@sub Shared::Unique\(Text::from\(msg\.as_str\(\)\)\.into\(\)\) ==> text_value(&msg)
    //| requires old(self).sound(),
    //| ensures old(self).pos == usize::MAX ==> *final(self) == *old(self) && r is Ok && r->Ok_0 is Idle,
    //|     old(self).pos != usize::MAX ==> final(self).sound() && final(self).root() == old(self).root() && final(self).global_context == old(self).global_context && (final(self).pos == usize::MAX) == ends(r) && !(r is Ok && r->Ok_0 is Idle) && (r is Ok && r->Ok_0 is Fork ==> r->Ok_0->Fork_pos != usize::MAX),
    //|     old(self).pos != usize::MAX ==> old(self).acts(*final(self), r),
    //@end
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" new -> r
    //@sub context\.local_message\.map\(\|x\| Text::from\(x\.as_str\(\)\)\.into\(\)\) ==> message_value(context.local_message)
    //| ensures r.fresh(context),
    //@end
    //@fn src/process.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S>" is_running -> r
    //| ensures r == (self.pos != usize::MAX),
    //@end
}
}
pub mod facts {
use vstd::prelude::*;
pub proof fn filter_push<A>(s: Seq<A>, x: A, p: spec_fn(A) -> bool) ensures s.push(x).filter(p) == if p(x) { s.filter(p).push(x) } else { s.filter(p) } { reveal(Seq::filter); assert(s.push(x).drop_last() =~= s); }
pub proof fn filter_in<A>(s: Seq<A>, p: spec_fn(A) -> bool) ensures s.filter(p).len() <= s.len(), forall|i: int| 0 <= i < s.filter(p).len() ==> s.contains(#[trigger] s.filter(p)[i]) && p(s.filter(p)[i]) decreases s.len() {
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last(); filter_in(t, p);
        assert forall|i: int| 0 <= i < s.filter(p).len() implies s.contains(#[trigger] s.filter(p)[i]) && p(s.filter(p)[i]) by {
            if i < t.filter(p).len() { let j = choose|j: int| 0 <= j < t.len() && t[j] == t.filter(p)[i]; assert(s[j] == s.filter(p)[i]); } else { assert(s[s.len() - 1] == s.filter(p)[i]); }
        }
    }
}
pub broadcast proof fn add_push<A>(a: Seq<A>, b: Seq<A>, x: A) ensures #[trigger] (a + b).push(x) == a + b.push(x) { assert((a + b).push(x) =~= a + b.push(x)); }
pub broadcast proof fn contains_push<A>(s: Seq<A>, x: A, k: A) ensures #[trigger] s.push(x).contains(k) == (s.contains(k) || x == k) {
    if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(x)[i] == k); }
    if x == k { assert(s.push(x)[s.len() as int] == k); }
}
}
pub mod order {
use vstd::prelude::*;
use super::world::*;
use super::proc::*;
use super::code::*;
use super::project::*;
use super::facts::{add_push, filter_in, filter_push, contains_push};
broadcast use super::facts::contains_push;
/// Keys of the runs started for the first `n` scripts, in script order.
pub open spec fn starts<'gc, C: CustomTypes<S>, S: System<C>>(old_scripts: Seq<Script<'gc, C, S>>, old_state: State<'gc, C, S>, scripts: Seq<Script<'gc, C, S>>, n: int) -> Seq<ProcessKey> decreases n {
    if n <= 0 { seq![] } else {
        let r = starts(old_scripts, old_state, scripts, n - 1);
        if old_scripts[n - 1].waiting(old_state) { r.push(scripts[n - 1].process->0) } else { r }
    }
}
/// Keys of the runs an input starts at once in the first `n` scripts, in script order.
pub open spec fn launches<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, scripts: Seq<Script<'gc, C, S>>, n: int) -> Seq<ProcessKey> decreases n {
    if n <= 0 { seq![] } else {
        let r = launches(o, inp, scripts, n - 1);
        if Project::launches(o, inp, n - 1) { r.push(scripts[n - 1].process->0) } else { r }
    }
}
pub broadcast proof fn launches_prefix<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Seq<Script<'gc, C, S>>, b: Seq<Script<'gc, C, S>>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).process == b[i].process
    ensures #[trigger] launches(o, inp, a, n) == #[trigger] launches(o, inp, b, n)
    decreases n
{ if n > 0 { assert(a[n - 1].process == b[n - 1].process); launches_prefix(o, inp, a, b, n - 1); } }
pub open spec fn hit_at<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, n: int) -> bool { inp.hits(o.scripts@[n].event.0, o.scripts@[n].entity) }
pub proof fn launches_none<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Seq<Script<'gc, C, S>>, n: int)
    requires forall|k: int| 0 <= k < n ==> !inp.hits((#[trigger] o.scripts@[k]).event.0, o.scripts@[k].entity)
    ensures launches(o, inp, a, n) == Seq::<ProcessKey>::empty()
    decreases n
{ if n > 0 { launches_none(o, inp, a, n - 1); assert(!inp.hits(o.scripts@[n - 1].event.0, o.scripts@[n - 1].entity)); } }
pub proof fn respond_none<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, n: int)
    requires o.wf(), 0 <= n <= o.scripts@.len(), forall|k: int| 0 <= k < n ==> !inp.hits((#[trigger] o.scripts@[k]).event.0, o.scripts@[k].entity)
    ensures o.responded(o, inp, n)
{
    launches_none(o, inp, o.scripts@, n);
    assert(o.state.process_queue@ + Seq::<ProcessKey>::empty() =~= o.state.process_queue@);
    assert forall|i: int| 0 <= i < n implies #[trigger] o.answered(o, inp, i) by { assert(!inp.hits(o.scripts@[i].event.0, o.scripts@[i].entity)); }
    assert forall|k: ProcessKey| o.state.issued(k) implies o.state.proc(k) == if exists|i: int| 0 <= i < n && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k) { None } else { o.state.proc(k) } by { }
}
pub proof fn respond_skip<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Project<'gc, C, S>, n: int)
    requires a.responded(o, inp, n), 0 <= n < o.scripts@.len(), !inp.hits(o.scripts@[n].event.0, o.scripts@[n].entity)
    ensures a.responded(o, inp, n + 1)
{
    assert(a.scripts@[n].same(o.scripts@[n]));
    assert(a.answered(o, inp, n));
    assert forall|k: ProcessKey| o.state.issued(k) implies a.state.proc(k) == if exists|i: int| 0 <= i < n + 1 && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k) { None } else { o.state.proc(k) } by {
        if exists|i: int| 0 <= i < n + 1 && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k) {
            let i = choose|i: int| 0 <= i < n + 1 && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k);
            assert(i < n);
        }
    }
}
/// Script `n` of `a` is given `inp`, with nothing else changed.
pub open spec fn gives<'gc, C: CustomTypes<S>, S: System<C>>(a: Project<'gc, C, S>, inp: Cause<'gc, C, S>, b: Project<'gc, C, S>, n: int) -> bool {
    let (x, y) = (a.scripts@[n], b.scripts@[n]);
    &&& b.scripts@ == a.scripts@.update(n, y) && y.event == x.event && y.entity == x.entity && b.state.global_context == a.state.global_context
    &&& if inp.interrupts() || !x.busy(a.state) {
        &&& y.context_queue@.len() == 0 && y.process is Some && !a.state.issued(y.process->0) && b.state.live(y.process->0)
        &&& inp.run(a.state.global_context, y.event.1, y.entity, b.state.proc(y.process->0)->0)
        &&& b.state.process_queue@ == a.state.process_queue@.push(y.process->0)
        &&& forall|q: ProcessKey| q != y.process->0 ==> b.state.proc(q) == if x.process == Some(q) { None } else { a.state.proc(q) }
        &&& forall|q: ProcessKey| b.state.issued(q) <==> a.state.issued(q) || q == y.process->0
    } else {
        &&& b.state.same(a.state) && y.process == x.process
        &&& if x.context_queue@.len() < inp.waits() { y.context_queue@.len() == x.context_queue@.len() + 1 && y.context_queue@.drop_last() == x.context_queue@ } else { y.context_queue@ == x.context_queue@ }
    }
}
pub proof fn same_busy<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Project<'gc, C, S>, n: int)
    requires o.wf(), a.responded(o, inp, n), 0 <= n < o.scripts@.len()
    ensures a.scripts@[n].same(o.scripts@[n]), a.scripts@[n].busy(a.state) == o.scripts@[n].busy(o.state)
{
    let x = a.scripts@[n];
    assert(x.same(o.scripts@[n]));
    assert(o.scripts@[n].wf(o.state));
    assert(x.busy(a.state) == o.scripts@[n].busy(o.state)) by {
        if o.scripts@[n].process is Some {
            let k = o.scripts@[n].process->0;
            assert(o.state.issued(k));
            if exists|i: int| 0 <= i < n && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k) {
                let i = choose|i: int| 0 <= i < n && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k);
                assert(o.scripts@[i].process != o.scripts@[n].process);
            }
        }
    }
}
pub proof fn respond_hit<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Project<'gc, C, S>, b: Project<'gc, C, S>, n: int)
    requires o.wf(), a.wf(), a.responded(o, inp, n), 0 <= n < o.scripts@.len(), inp.hits(o.scripts@[n].event.0, o.scripts@[n].entity), gives(a, inp, b, n)
    ensures b.responded(o, inp, n + 1)
{
    let (x, y) = (a.scripts@[n], b.scripts@[n]);
    same_busy(o, inp, a, n);
    assert(Project::launches(o, inp, n) == (inp.interrupts() || !x.busy(a.state)));
    launches_prefix(o, inp, a.scripts@, b.scripts@, n);
    add_push(o.state.process_queue@, launches(o, inp, a.scripts@, n), y.process->0);
    assert forall|k: int| 0 <= k < n + 1 implies #[trigger] b.answered(o, inp, k) by {
        if k < n {
            assert(a.answered(o, inp, k)); assert(b.scripts@[k] == a.scripts@[k]); assert(a.scripts@[k].wf(a.state)); assert(a.scripts@[k].process != a.scripts@[n].process || a.scripts@[k].process is None);
            if Project::launches(o, inp, k) { let key = b.scripts@[k].process->0; assert(a.state.issued(key)); assert(b.state.proc(key) == a.state.proc(key)); assert(b.state.live(key)); }
        }
    }
    assert forall|k: ProcessKey| o.state.issued(k) implies b.state.proc(k) == if exists|i: int| 0 <= i < n + 1 && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k) { None } else { o.state.proc(k) } by {
        assert(a.state.issued(k));
        if exists|i: int| 0 <= i < n + 1 && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k) {
            let i = choose|i: int| 0 <= i < n + 1 && Project::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k);
            if i == n { } else { assert(0 <= i < n); }
        } else if o.scripts@[n].process == Some(k) { assert(!Project::launches(o, inp, n)); }
    }
}
pub proof fn responded_settled<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Project<'gc, C, S>)
    requires o.wf(), o.settled(), a.responded(o, inp, o.scripts@.len() as int)
    ensures a.settled(), a.resting()
{
    let len = o.scripts@.len() as int;
    assert forall|i: int| 0 <= i < a.scripts@.len() implies !(#[trigger] a.scripts@[i]).waiting(a.state) by {
        assert(a.answered(o, inp, i));
        assert(!o.scripts@[i].waiting(o.state));
        assert(o.scripts@[i].wf(o.state));
        if !Project::launches(o, inp, i) && o.scripts@[i].process is Some {
            let k = o.scripts@[i].process->0;
            if exists|j: int| 0 <= j < len && Project::launches(o, inp, j) && #[trigger] o.scripts@[j].process == Some(k) {
                let j = choose|j: int| 0 <= j < len && Project::launches(o, inp, j) && #[trigger] o.scripts@[j].process == Some(k);
                assert(i != j);
            }
            assert(a.state.proc(k) == o.state.proc(k));
        }
    }
    settled_rests(a);
}
pub proof fn settled_rests<'gc, C: CustomTypes<S>, S: System<C>>(a: Project<'gc, C, S>)
    requires a.settled()
    ensures a.resting()
{
    if forall|k: ProcessKey| (#[trigger] a.state.processes.at(k.0 as int, k.1 as int)) is None {
        assert forall|i: int| 0 <= i < a.scripts@.len() implies (#[trigger] a.scripts@[i]).context_queue@.len() == 0 by { assert(!a.scripts@[i].waiting(a.state)); }
    }
}
/// The other processes of `m` that run come after the first.
pub proof fn picked<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int)
    requires m.wf(), m.state.covered(None, None), m.first(n)
    ensures !m.state.process_queue@.skip(n + 1).contains(m.state.process_queue@[n]), m.state.issued(m.state.process_queue@[n]), m.state.proc(m.state.process_queue@[n])->0.running(),
        forall|k: ProcessKey| #[trigger] m.state.live(k) && k != m.state.process_queue@[n] ==> m.state.process_queue@.skip(n + 1).contains(k),
{
    let queue = m.state.process_queue@; let rest = queue.skip(n + 1);
    assert(m.state.processes.at(queue[n].0 as int, queue[n].1 as int) is Some);
    if rest.contains(queue[n]) { let j = choose|j: int| 0 <= j < rest.len() && rest[j] == queue[n]; assert(queue[n + 1 + j] == queue[n]); }
    assert forall|k: ProcessKey| #[trigger] m.state.live(k) && k != queue[n] implies rest.contains(k) by {
        assert(m.state.processes.at(k.0 as int, k.1 as int) is Some);
        let j = choose|j: int| 0 <= j < queue.len() && queue[j] == k;
        assert(!(j < n));
        assert(rest[j - n - 1] == k);
    }
}
pub proof fn idles<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, s: Project<'gc, C, S>)
    requires m.wf(), m.state.covered(None, None), m.resting(), s.requeued(m, seq![]), s.state.processes.wf(), forall|j: int| 0 <= j < m.state.process_queue@.len() ==> !m.state.live(#[trigger] m.state.process_queue@[j])
    ensures s.wf(), s.state.covered(None, None), s.resting(), s.quiet()
{
    assert forall|k: ProcessKey| !m.state.live(k) by {
        if m.state.live(k) { assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); let j = choose|j: int| 0 <= j < m.state.process_queue@.len() && m.state.process_queue@[j] == k; }
    }
    assert forall|k: ProcessKey| (#[trigger] m.state.processes.at(k.0 as int, k.1 as int)) is None by { assert(!m.state.live(k)); }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is None by { assert(s.state.proc(k) == m.state.proc(k)); assert(!m.state.live(k)); }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(m.scripts@[i].wf(m.state)); }
}
/// The process stays at the front.
pub proof fn kept<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, p: Process<'gc, C, S>, s: Project<'gc, C, S>)
    requires m.wf(), m.state.covered(None, None), m.first(n), p.running(), s.state.processes.wf(), s.moved(m, m.state.process_queue@[n], seq![m.state.process_queue@[n]] + m.state.process_queue@.skip(n + 1), Some(p))
    ensures s.wf(), s.state.covered(None, None), s.resting()
{
    picked(m, n);
    let queue = m.state.process_queue@; let key = queue[n]; let rest = queue.skip(n + 1); let q = s.state.process_queue@;
    assert(q[0] == key);
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) by { assert(q[i] == queue[n + i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(q[i] == queue[n + i] && q[j] == queue[n + j]); }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.proc(k)->0.running() && s.state.issued(k) && q.contains(k) by {
        if k != key { assert(m.state.live(k)); assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); let j = choose|j: int| 0 <= j < rest.len() && rest[j] == k; assert(q[j + 1] == k); }
    }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(m.scripts@[i].wf(m.state)); }
    assert(s.state.proc(key) is Some);
    assert(s.state.processes.at(key.0 as int, key.1 as int) is Some);
}
/// The process is out of the queue.
pub proof fn out<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, p: Option<Process<'gc, C, S>>, s: Project<'gc, C, S>)
    requires m.wf(), m.state.covered(None, None), m.first(n), p is Some ==> p->0.running(), s.state.processes.wf(), s.moved(m, m.state.process_queue@[n], m.state.process_queue@.skip(n + 1), p)
    ensures s.wf(), s.state.covered(Some(m.state.process_queue@[n]), None), p is None ==> s.state.covered(None, None)
{
    picked(m, n);
    let queue = m.state.process_queue@; let key = queue[n]; let q = s.state.process_queue@;
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) by { assert(q[i] == queue[n + 1 + i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(q[i] == queue[n + 1 + i] && q[j] == queue[n + 1 + j]); }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.proc(k)->0.running() && s.state.issued(k) && (q.contains(k) || k == key && p is Some) by {
        if k != key { assert(m.state.live(k)); assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); }
    }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(m.scripts@[i].wf(m.state)); }
}
/// The process goes to the end of the queue.
pub proof fn back<'gc, C: CustomTypes<S>, S: System<C>>(z: Project<'gc, C, S>, key: ProcessKey, s: Project<'gc, C, S>)
    requires z.wf(), z.state.covered(Some(key), None), z.state.live(key), s.state.processes.wf(), s.requeued(z, z.state.process_queue@.push(key))
    ensures s.wf(), s.state.covered(None, None), s.resting()
{
    let q = s.state.process_queue@; let zq = z.state.process_queue@;
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) by { if i < zq.len() { assert(q[i] == zq[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(q[i] == zq[i]); if j < zq.len() { assert(q[j] == zq[j]); } else { assert(zq.contains(zq[i])); } }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.proc(k)->0.running() && s.state.issued(k) && q.contains(k) by {
        assert(s.state.proc(k) == z.state.proc(k)); assert(z.state.processes.at(k.0 as int, k.1 as int) is Some);
        if k != key { let j = choose|j: int| 0 <= j < zq.len() && zq[j] == k; assert(q[j] == k); } else { assert(q[zq.len() as int] == k); }
    }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(z.scripts@[i].wf(z.state)); }
    assert(s.state.proc(key) is Some);
    assert(s.state.processes.at(key.0 as int, key.1 as int) is Some);
}
pub open spec fn apart<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<Script<'gc, C, S>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).process is Some ==> s[i].process != (#[trigger] s[j]).process }
pub proof fn filter_apart<'gc, C: CustomTypes<S>, S: System<C>>(s: Seq<Script<'gc, C, S>>, p: spec_fn(Script<'gc, C, S>) -> bool)
    requires apart(s)
    ensures apart(s.filter(p))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let t = s.drop_last();
        assert(apart(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() && (#[trigger] t[i]).process is Some implies t[i].process != (#[trigger] t[j]).process by { assert(s[i] == t[i] && s[j] == t[j]); } }
        filter_apart(t, p); filter_in(t, p);
        let f = s.filter(p);
        assert forall|i: int, j: int| 0 <= i < j < f.len() && (#[trigger] f[i]).process is Some implies f[i].process != (#[trigger] f[j]).process by {
            if j == t.filter(p).len() { let k = choose|k: int| 0 <= k < t.len() && t[k] == t.filter(p)[i]; assert(s[k] == f[i]); assert(s[s.len() - 1] == f[j]); }
            else { assert(t.filter(p)[i] == f[i] && t.filter(p)[j] == f[j]); }
        }
    }
}
/// What a deleted clone leaves.
pub proof fn without_ok<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, p: Process<'gc, C, S>, s: Project<'gc, C, S>, clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>)
    requires m.wf(), m.state.covered(None, None), m.first(n), p.running(), s.state.processes.wf(), s.without(m, m.state.process_queue@[n], m.state.process_queue@.skip(n + 1), p, clone)
    ensures s.wf(), s.state.covered(Some(m.state.process_queue@[n]), None)
{
    picked(m, n);
    let queue = m.state.process_queue@; let key = queue[n]; let q = s.state.process_queue@;
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) by { assert(q[i] == queue[n + 1 + i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(q[i] == queue[n + 1 + i] && q[j] == queue[n + 1 + j]); }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.proc(k)->0.running() && s.state.issued(k) && (q.contains(k) || k == key) by {
        assert(s.state.proc(k) is Some);
        if k != key { assert(m.state.live(k)); assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); }
    }
    filter_in(m.scripts@, not_of(clone)); filter_apart(m.scripts@, not_of(clone));
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { let j = choose|j: int| 0 <= j < m.scripts@.len() && m.scripts@[j] == s.scripts@[i]; assert(m.scripts@[j].wf(m.state)); }
    assert(apart(s.scripts@));
}
/// A forked process is in the table.
pub proof fn forked_ok<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, p: Process<'gc, C, S>, fork: ProcessKey, s: Project<'gc, C, S>)
    requires m.wf(), m.state.covered(None, None), m.first(n), p.running(), s.state.processes.wf(), s.scripts@ == m.scripts@, s.state.process_queue@ == m.state.process_queue@.skip(n + 1), !m.state.issued(fork),
        s.state.live(fork), s.state.proc(fork)->0.running(), forall|k: ProcessKey| k != fork ==> s.state.proc(k) == if k == m.state.process_queue@[n] { Some(p) } else { m.state.proc(k) }, forall|k: ProcessKey| s.state.issued(k) <==> m.state.issued(k) || k == fork
    ensures s.wf(), s.state.covered(Some(m.state.process_queue@[n]), Some(fork)), fork != m.state.process_queue@[n]
{
    picked(m, n);
    let queue = m.state.process_queue@; let key = queue[n]; let q = s.state.process_queue@;
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) && q[i] != fork by { assert(q[i] == queue[n + 1 + i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(q[i] == queue[n + 1 + i] && q[j] == queue[n + 1 + j]); }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.proc(k)->0.running() && s.state.issued(k) && (q.contains(k) || k == key || k == fork) by {
        if k != key && k != fork { assert(m.state.live(k)); assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); }
    }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(m.scripts@[i].wf(m.state)); }
}
/// The process goes back to the front, and the one it forked, if any, to the end.
pub proof fn front<'gc, C: CustomTypes<S>, S: System<C>>(z: Project<'gc, C, S>, key: ProcessKey, fork: Option<ProcessKey>, s: Project<'gc, C, S>)
    requires z.wf(), z.state.covered(Some(key), fork), fork != Some(key), z.state.live(key) || z.resting(), s.state.processes.wf(), s.requeued(z, seq![key] + match fork { Some(f) => z.state.process_queue@.push(f), None => z.state.process_queue@ })
    ensures s.wf(), s.state.covered(None, None), s.resting()
{
    let q = s.state.process_queue@; let zq = z.state.process_queue@; let n = zq.len() as int;
    assert(q[0] == key);
    assert forall|i: int| 1 <= i <= n implies #[trigger] q[i] == zq[i - 1] by { }
    if fork is Some { assert(q[n + 1] == fork->0); }
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) by { if 1 <= i <= n { assert(z.state.issued(zq[i - 1])); } }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { if i > 0 { assert(zq.contains(zq[i - 1])); } if j <= n { assert(zq.contains(zq[j - 1])); } }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.proc(k)->0.running() && s.state.issued(k) && q.contains(k) by {
        assert(s.state.proc(k) == z.state.proc(k)); assert(z.state.processes.at(k.0 as int, k.1 as int) is Some);
        if k != key && fork != Some(k) { let j = choose|j: int| 0 <= j < zq.len() && zq[j] == k; assert(q[j + 1] == k); }
    }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(z.scripts@[i].wf(z.state)); }
    assert(s.resting()) by {
        assert(s.state.proc(key) == z.state.proc(key)); assert(s.state.processes.at(key.0 as int, key.1 as int) == s.state.proc(key));
        if forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is None { assert forall|k: ProcessKey| (#[trigger] z.state.processes.at(k.0 as int, k.1 as int)) is None by { assert(s.state.proc(k) == z.state.proc(k)); assert(s.state.processes.at(k.0 as int, k.1 as int) is None); } }
    }
}
/// Others were stopped.
pub proof fn fewer<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, p: Process<'gc, C, S>, s: Project<'gc, C, S>)
    requires m.wf(), m.state.covered(None, None), m.first(n), p.running(), s.state.processes.wf(), s.scripts@ == m.scripts@, s.state.proc(m.state.process_queue@[n]) == Some(p),
        s.state.process_queue@ == seq![m.state.process_queue@[n]] + m.state.process_queue@.skip(n + 1) || s.state.process_queue@ == seq![m.state.process_queue@[n]] && forall|k: ProcessKey| k != m.state.process_queue@[n] ==> !s.state.live(k),
        forall|k: ProcessKey| k != m.state.process_queue@[n] ==> s.state.proc(k) is None || s.state.proc(k) == m.state.proc(k), forall|k: ProcessKey| s.state.issued(k) == m.state.issued(k)
    ensures s.wf(), s.state.covered(None, None), s.resting()
{
    picked(m, n);
    let queue = m.state.process_queue@; let key = queue[n]; let rest = queue.skip(n + 1); let q = s.state.process_queue@;
    assert(q[0] == key);
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) by { assert(q[i] == queue[n + i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(q[i] == queue[n + i] && q[j] == queue[n + j]); }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.proc(k)->0.running() && s.state.issued(k) && q.contains(k) by {
        assert(s.state.live(k));
        if k != key { assert(m.state.live(k)); assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); let j = choose|j: int| 0 <= j < rest.len() && rest[j] == k; assert(q[j + 1] == k); }
    }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(m.scripts@[i].wf(m.state)); }
    assert(s.state.processes.at(key.0 as int, key.1 as int) is Some);
}
pub proof fn respond_skips<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Project<'gc, C, S>, n: int, to: int)
    requires a.responded(o, inp, n), 0 <= n <= to <= o.scripts@.len(), forall|k: int| n <= k < to ==> !hit_at(o, inp, k)
    ensures a.responded(o, inp, to)
    decreases to - n
{ if n < to { assert(!hit_at(o, inp, n)); respond_skip(o, inp, a, n); respond_skips(o, inp, a, n + 1, to); } }
pub proof fn begun_none<'gc, C: CustomTypes<S>, S: System<C>>(adds: Seq<Script<'gc, C, S>>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] adds[i]).process is None
    ensures begun(adds, n) == Seq::<ProcessKey>::empty()
    decreases n
{ if n > 0 { assert(adds[n - 1].process is None); begun_none(adds, n - 1); } }
pub proof fn begun_prefix<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<Script<'gc, C, S>>, b: Seq<Script<'gc, C, S>>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).process == b[i].process
    ensures begun(a, n) == begun(b, n)
    decreases n
{ if n > 0 { assert(a[n - 1].process == b[n - 1].process); begun_prefix(a, b, n - 1); } }
/// The script number `n` of a new clone has been looked at.
pub proof fn copied_next<'gc, C: CustomTypes<S>, S: System<C>>(a: Seq<Script<'gc, C, S>>, st: State<'gc, C, S>, b: Seq<Script<'gc, C, S>>, st2: State<'gc, C, S>, z: Project<'gc, C, S>, clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>, from: Seq<Script<'gc, C, S>>, n: int)
    requires copied(a, st, z, clone, from, n), 0 <= n < a.len(), b.len() == a.len(), forall|i: int| 0 <= i < a.len() && i != n ==> #[trigger] b[i] == a[i], apart(a),
        forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).process is Some ==> st.issued(a[i].process->0),
        st.process_queue@ == z.state.process_queue@ + begun(a, n), forall|k: ProcessKey| z.state.issued(k) ==> st.issued(k) && st.proc(k) == z.state.proc(k),
        if from[n].event.0 is OnClone { b[n].event == a[n].event && b[n].entity == a[n].entity && b[n].context_queue@.len() == 0 && b[n].process is Some && st2.entered(st, b[n].process->0) && st2.proc(b[n].process->0)->0.clone_run(z.state.global_context, from[n].event.1, clone) }
        else { b[n] == a[n] && st2 == st }
    ensures copied(b, st2, z, clone, from, n + 1), apart(b), st2.process_queue@ == z.state.process_queue@ + begun(b, n + 1), forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]).process is Some ==> st2.issued(b[i].process->0),
        forall|k: ProcessKey| z.state.issued(k) ==> st2.issued(k) && st2.proc(k) == z.state.proc(k),
{
    begun_prefix(a, b, n);
    assert(a[n].process is None);
    assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]).process is Some implies st2.issued(b[i].process->0) by { if i != n { assert(b[i] == a[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < b.len() && (#[trigger] b[i]).process is Some implies b[i].process != (#[trigger] b[j]).process by {
        if i != n { assert(b[i] == a[i]); assert(st.issued(a[i].process->0)); } if j != n { assert(b[j] == a[j]); }
    }
    if b[n].process is Some { add_push(z.state.process_queue@, begun(a, n), b[n].process->0); }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).event == from[i].event && b[i].entity == clone && b[i].context_queue@.len() == 0
        && if i < n + 1 && from[i].event.0 is OnClone { b[i].process is Some && !z.state.issued(b[i].process->0) && st2.live(b[i].process->0) && st2.proc(b[i].process->0)->0.clone_run(z.state.global_context, from[i].event.1, clone) } else { b[i].process is None } by {
        if i != n { assert(b[i] == a[i]); }
    }
}
pub open spec fn firsts<T>(s: Seq<(usize, T)>) -> Seq<int> { s.map_values(|x: (usize, T)| x.0 as int) }
/// `r` are the scripts between `lo` and `hi` that `inp` is for, in order.
pub open spec fn picks<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, r: Seq<int>, lo: int, hi: int) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> lo <= #[trigger] r[j] < hi && hit_at(o, inp, r[j])
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> r[i] < r[j]
    &&& forall|k: int| lo <= k < hi && #[trigger] hit_at(o, inp, k) ==> r.contains(k)
}
pub proof fn pick_skip<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, r: Seq<int>, n: int)
    requires picks(o, inp, r, 0, n), !hit_at(o, inp, n)
    ensures picks(o, inp, r, 0, n + 1)
{ }
pub proof fn pick_push<'gc, C: CustomTypes<S>, S: System<C>, T>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, a: Seq<(usize, T)>, b: Seq<(usize, T)>, n: int)
    requires picks(o, inp, firsts(a), 0, n), hit_at(o, inp, n), b.len() == a.len() + 1, b.drop_last() == a, b.last().0 == n, 0 <= n
    ensures picks(o, inp, firsts(b), 0, n + 1)
{ assert(firsts(b) =~= firsts(a).push(n)) by { assert forall|i: int| 0 <= i < a.len() implies b[i] == a[i] by { assert(b.drop_last()[i] == b[i]); } } }
pub proof fn pick_take<'gc, C: CustomTypes<S>, S: System<C>, T>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, s: Seq<(usize, T)>, lo: int, hi: int)
    requires picks(o, inp, firsts(s), lo, hi), s.len() > 0
    ensures lo <= s[0].0 < hi, hit_at(o, inp, s[0].0 as int), forall|k: int| lo <= k < s[0].0 ==> !hit_at(o, inp, k), picks(o, inp, firsts(s.remove(0)), s[0].0 + 1, hi)
{
    let r = firsts(s); let t = firsts(s.remove(0)); let i = s[0].0 as int;
    assert(r[0] == i);
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == r[j + 1] by { }
    assert forall|k: int| lo <= k < i implies !hit_at(o, inp, k) by { if hit_at(o, inp, k) { let j = choose|j: int| 0 <= j < r.len() && r[j] == k; assert(r[0] <= r[j]); } }
    assert forall|k: int| i + 1 <= k < hi && #[trigger] hit_at(o, inp, k) implies t.contains(k) by { let j = choose|j: int| 0 <= j < r.len() && r[j] == k; assert(j > 0); assert(t[j - 1] == k); }
}
pub proof fn picks_same<'gc, C: CustomTypes<S>, S: System<C>>(a: Project<'gc, C, S>, b: Project<'gc, C, S>, inp: Cause<'gc, C, S>, r: Seq<int>, lo: int, hi: int)
    requires picks(a, inp, r, lo, hi), b.caught_up(a), 0 <= lo, hi <= a.scripts@.len()
    ensures picks(b, inp, r, lo, hi)
{
    assert forall|k: int| 0 <= k < a.scripts@.len() implies hit_at(a, inp, k) == hit_at(b, inp, k) by { let x = b.scripts@[k]; }
    assert forall|j: int| 0 <= j < r.len() implies lo <= #[trigger] r[j] < hi && hit_at(b, inp, r[j]) by { assert(hit_at(a, inp, r[j])); }
    assert forall|k: int| lo <= k < hi && #[trigger] hit_at(b, inp, k) implies r.contains(k) by { assert(hit_at(a, inp, k)); }
}
/// The scripts of a new clone join.
pub proof fn grown<'gc, C: CustomTypes<S>, S: System<C>>(z: Project<'gc, C, S>, a: Project<'gc, C, S>, key: ProcessKey, adds: Seq<Script<'gc, C, S>>, s: Project<'gc, C, S>)
    requires z.wf(), a.wf(), a.scripts@ == z.scripts@, a.state.covered(Some(key), None), a.state.live(key), apart(adds), s.scripts@ == a.scripts@ + adds, s.state.processes.wf(), s.state.global_context == a.state.global_context,
        s.state.process_queue@ == seq![key] + a.state.process_queue@, forall|k: ProcessKey| s.state.proc(k) == a.state.proc(k), forall|k: ProcessKey| s.state.issued(k) == a.state.issued(k),
        forall|i: int| 0 <= i < adds.len() ==> (#[trigger] adds[i]).wf(a.state) && (adds[i].process is Some ==> !z.state.issued(adds[i].process->0)),
    ensures s.wf(), s.state.covered(None, None), s.resting()
{
    let b = Project { scripts: a.scripts, state: s.state };
    assert(b.requeued(a, seq![key] + a.state.process_queue@));
    front(a, key, None, b);
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { if i < a.scripts@.len() { assert(a.scripts@[i].wf(a.state)); } else { assert(adds[i - a.scripts@.len()].wf(a.state)); } }
    assert forall|i: int, j: int| 0 <= i < j < s.scripts@.len() && (#[trigger] s.scripts@[i]).process is Some implies s.scripts@[i].process != (#[trigger] s.scripts@[j]).process by {
        let n = a.scripts@.len() as int;
        if i < n { assert(s.scripts@[i] == z.scripts@[i]); assert(z.scripts@[i].wf(z.state)); } else { assert(s.scripts@[i] == adds[i - n]); }
        if j < n { assert(s.scripts@[j] == z.scripts@[j]); } else { assert(s.scripts@[j] == adds[j - n]); }
    }
    assert(s.state.proc(key) is Some);
    assert(s.state.processes.at(key.0 as int, key.1 as int) is Some);
}
/// The process has ended but is still in the table.
pub proof fn ended<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, p: Process<'gc, C, S>, s: Project<'gc, C, S>)
    requires m.wf(), m.state.covered(None, None), m.first(n), s.state.processes.wf(), s.moved(m, m.state.process_queue@[n], m.state.process_queue@.skip(n + 1), Some(p))
    ensures s.tabled()
{
    picked(m, n);
    let queue = m.state.process_queue@; let key = queue[n]; let q = s.state.process_queue@;
    assert forall|i: int| 0 <= i < q.len() implies s.state.issued(#[trigger] q[i]) by { assert(q[i] == queue[n + 1 + i]); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(q[i] == queue[n + 1 + i] && q[j] == queue[n + 1 + j]); }
    assert forall|k: ProcessKey| (#[trigger] s.state.processes.at(k.0 as int, k.1 as int)) is Some implies s.state.issued(k) by { assert(s.state.proc(k) is Some); if k != key { assert(s.state.proc(k) == m.state.proc(k)); assert(m.state.live(k)); assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); } }
    assert forall|i: int| 0 <= i < s.scripts@.len() implies (#[trigger] s.scripts@[i]).wf(s.state) by { assert(m.scripts@[i].wf(m.state)); }
}
pub broadcast proof fn starts_prefix<'gc, C: CustomTypes<S>, S: System<C>>(o: Seq<Script<'gc, C, S>>, st: State<'gc, C, S>, a: Seq<Script<'gc, C, S>>, b: Seq<Script<'gc, C, S>>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).process == b[i].process
    ensures #[trigger] starts(o, st, a, n) == #[trigger] starts(o, st, b, n)
    decreases n
{ if n > 0 { assert(a[n - 1].process == b[n - 1].process); starts_prefix(o, st, a, b, n - 1); } }
}
pub mod project {
use super::order::*;
use super::facts::*;
use vstd::prelude::*;
use std::collections::VecDeque;
use std::rc::Rc;
use super::world::*;
use super::proc::*;
use super::code::*;
pub type ProcessKey = AnyKey;
broadcast use super::facts::contains_push;
//@type src/project.rs PartialProcContext
//@type src/project.rs Script
//@type src/project.rs AllContextsConsumer
//@type src/project.rs State
//@type src/project.rs Project
/// The derived equality of keys.
pub fn same_key(a: ProcessKey, b: ProcessKey) -> (r: bool) ensures r == (a == b) { a.0 == b.0 && a.1 == b.1 }
//@type src/project.rs Input
//@type src/project.rs ProjectStep
impl<'gc, C: CustomTypes<S>, S: System<C>> State<'gc, C, S> {
    pub open spec fn proc(self, k: ProcessKey) -> Option<Process<'gc, C, S>> { self.processes.at(k.0 as int, k.1 as int) }
    pub open spec fn live(self, k: ProcessKey) -> bool { self.proc(k) is Some }
    pub open spec fn issued(self, k: ProcessKey) -> bool { self.processes.issued(k.0 as int, k.1 as int) }
    /// Every process in the table runs; queued keys were handed out by the table and are queued once.
    pub open spec fn wf(self) -> bool { self.tabled() && forall|k: ProcessKey| (#[trigger] self.processes.at(k.0 as int, k.1 as int)) is Some ==> self.proc(k)->0.running() }
    pub open spec fn tabled(self) -> bool {
        &&& self.processes.wf()
        &&& forall|k: ProcessKey| (#[trigger] self.processes.at(k.0 as int, k.1 as int)) is Some ==> self.issued(k)
        &&& forall|i: int| 0 <= i < self.process_queue@.len() ==> self.issued(#[trigger] self.process_queue@[i])
        &&& forall|i: int, j: int| 0 <= i < j < self.process_queue@.len() ==> self.process_queue@[i] != self.process_queue@[j]
    }
    /// Every process in the table is queued, but for the one that is having its turn and the one it just forked.
    pub open spec fn covered(self, turn: Option<ProcessKey>, fork: Option<ProcessKey>) -> bool {
        &&& forall|k: ProcessKey| (#[trigger] self.processes.at(k.0 as int, k.1 as int)) is Some ==> self.process_queue@.contains(k) || turn == Some(k) || fork == Some(k)
        &&& turn is Some ==> self.issued(turn->0) && !self.process_queue@.contains(turn->0)
        &&& fork is Some ==> self.issued(fork->0) && !self.process_queue@.contains(fork->0)
    }
    /// Nothing happened.
    pub open spec fn same(self, o: Self) -> bool {
        self.process_queue@ == o.process_queue@ && self.global_context == o.global_context && (forall|k: ProcessKey| self.proc(k) == o.proc(k)) && (forall|k: ProcessKey| self.issued(k) == o.issued(k))
    }
    /// A process `p` was entered under the new key `k` at the end of the queue and nothing else happened.
    pub open spec fn entered(self, o: Self, k: ProcessKey) -> bool {
        &&& !o.issued(k) && self.live(k) && self.process_queue@ == o.process_queue@.push(k) && self.global_context == o.global_context
        &&& forall|q: ProcessKey| q != k ==> self.proc(q) == o.proc(q)
        &&& forall|q: ProcessKey| self.issued(q) <==> o.issued(q) || q == k
    }
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Script<'gc, C, S> {
    pub open spec fn wf(self, state: State<'gc, C, S>) -> bool { self.event.1 != usize::MAX && (self.process is Some ==> state.issued(self.process->0)) }
    pub open spec fn busy(self, state: State<'gc, C, S>) -> bool { self.process is Some && state.live(self.process->0) }
    /// A run is pending and the script is free to start it.
    pub open spec fn waiting(self, state: State<'gc, C, S>) -> bool { !self.busy(state) && self.context_queue@.len() > 0 }
    pub open spec fn same(self, o: Self) -> bool { self.event == o.event && self.entity == o.entity && self.process == o.process && self.context_queue@ == o.context_queue@ }
    /// The process a run of this script with context `c` starts as.
    pub open spec fn run_of(self, gc: Gc<'gc, RefLock<GlobalContext<'gc, C, S>>>, c: PartialProcContext<'gc, C, S>, p: Process<'gc, C, S>) -> bool {
        p.fresh(ProcContext { global_context: gc, entity: self.entity, locals: c.locals, state: c.state, start_pos: self.event.1, barrier: c.barrier, reply_key: c.reply_key, local_message: c.local_message })
    }
    /// `self` is `o` after its pending run `c` was started.
    pub open spec fn started(self, o: Self, st: State<'gc, C, S>, ost: State<'gc, C, S>, c: PartialProcContext<'gc, C, S>) -> bool {
        self.event == o.event && self.entity == o.entity && self.process is Some && st.entered(ost, self.process->0) && self.run_of(ost.global_context, c, st.proc(self.process->0)->0)
    }
    /// `self` is `o` with its first pending run `p` running under a new key.
    pub open spec fn began(self, o: Self, st: State<'gc, C, S>, ost: State<'gc, C, S>) -> bool {
        self.event == o.event && self.entity == o.entity && self.process is Some && !ost.issued(self.process->0) && st.live(self.process->0) && self.run_of(ost.global_context, o.context_queue@[0], st.proc(self.process->0)->0)
    }
    //@fn src/project.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Script<'gc, C, S>" consume_context vis=pub
    //@sub self\.process\.and_then\(\|key\| Some\(\(key, state\.processes\.get_mut\(key\)\?\)\)\) ==> match self.process { Some(key) => match state.processes.get_mut(key) { Some(v_) => Some((key, v_)), None => None }, None => None }
    //| requires old(self).wf(*old(state)), old(state).wf(),
    //| ensures final(self).wf(*final(state)), final(state).wf(),
    //|     forall|turn: Option<ProcessKey>, fork: Option<ProcessKey>| old(state).covered(turn, fork) ==> #[trigger] final(state).covered(turn, fork),
    //|    
    //|     old(self).busy(*old(state)) || old(self).context_queue@.len() == 0 ==> final(self).same(*old(self)) && final(state).same(*old(state)),
    //|     !old(self).busy(*old(state)) && old(self).context_queue@.len() > 0 ==> final(self).context_queue@ == old(self).context_queue@.drop_first() && final(self).started(*old(self), *final(state), *old(state), old(self).context_queue@[0]),
    //@end
    //@fn src/project.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Script<'gc, C, S>" stop_all vis=pub
    //| requires old(self).wf(*old(state)), old(state).tabled(),
    //| ensures final(self).wf(*final(state)), final(state).tabled(), old(state).wf() ==> final(state).wf(),
    //|     forall|turn: Option<ProcessKey>, fork: Option<ProcessKey>| old(state).covered(turn, fork) ==> #[trigger] final(state).covered(turn, fork),
    //|     !final(self).busy(*final(state)), final(self).process is None, final(self).context_queue@.len() == 0,
    //|     final(self).event == old(self).event, final(self).entity == old(self).entity,
    //|     final(state).process_queue@ == old(state).process_queue@, final(state).global_context == old(state).global_context,
    //|     forall|k: ProcessKey| #[trigger] final(state).proc(k) == if Some(k) == old(self).process { None } else { old(state).proc(k) },
    //|     forall|k: ProcessKey| final(state).issued(k) == old(state).issued(k),
    //@end
    //@fn src/project.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Script<'gc, C, S>" schedule vis=pub
    //| requires old(self).wf(*old(state)), old(state).wf(),
    //| ensures final(self).wf(*final(state)), final(state).wf(),
    //|     forall|turn: Option<ProcessKey>, fork: Option<ProcessKey>| old(state).covered(turn, fork) ==> #[trigger] final(state).covered(turn, fork),
    //|     final(self).busy(*final(state)),
    //|     old(self).busy(*old(state)) ==> final(state).same(*old(state)) && final(self).event == old(self).event && final(self).entity == old(self).entity && final(self).process == old(self).process
    //|         && final(self).context_queue@ == if old(self).context_queue@.len() < max_queue { old(self).context_queue@.push(context) } else { old(self).context_queue@ },
    //|     !old(self).busy(*old(state)) ==> final(self).started(*old(self), *final(state), *old(state), if old(self).context_queue@.len() == 0 { context } else { old(self).context_queue@[0] }),
    //|     !old(self).busy(*old(state)) && old(self).context_queue@.len() == 0 ==> final(self).context_queue@.len() == 0,
    //@end
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
    pub open spec fn wf(self) -> bool {
        &&& self.state.wf()
        &&& forall|i: int| 0 <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).wf(self.state)
        &&& forall|i: int, j: int| 0 <= i < j < self.scripts@.len() && (#[trigger] self.scripts@[i]).process is Some ==> self.scripts@[i].process != (#[trigger] self.scripts@[j]).process
    }
    /// Like `wf`, but a process in the table may have ended.
    pub open spec fn tabled(self) -> bool {
        &&& self.state.tabled()
        &&& forall|i: int| 0 <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).wf(self.state)
    }
    /// No script has a pending run it could start.
    pub open spec fn settled(self) -> bool { forall|i: int| 0 <= i < self.scripts@.len() ==> !(#[trigger] self.scripts@[i]).waiting(self.state) }
    /// `self` is `o` after every script that was free started its first pending run, in script order.
    pub open spec fn caught_up(self, o: Self) -> bool {
        &&& self.settled() && self.scripts@.len() == o.scripts@.len()
        &&& forall|i: int| 0 <= i < self.scripts@.len() ==> if o.scripts@[i].waiting(o.state) { (#[trigger] self.scripts@[i]).context_queue@ == o.scripts@[i].context_queue@.drop_first() && self.scripts@[i].began(o.scripts@[i], self.state, o.state) } else { self.scripts@[i].same(o.scripts@[i]) }
        &&& self.state.global_context == o.state.global_context
        &&& self.state.process_queue@ == o.state.process_queue@ + starts(o.scripts@, o.state, self.scripts@, self.scripts@.len() as int)
        &&& forall|k: ProcessKey| o.state.issued(k) ==> self.state.proc(k) == o.state.proc(k) && self.state.issued(k)
    }
}
pub enum Cause<'gc, C: CustomTypes<S>, S: System<C>> {
    Input(Input),
    Message { msg_type: CompactString, reply_key: Option<InternReplyKey> },
    Broadcast { msg_type: Text, barrier: Option<Barrier>, targets: Option<Vec<Gc<'gc, RefLock<Entity<'gc, C, S>>>>> },
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Cause<'gc, C, S> {
    pub open spec fn hits(self, e: Event, who: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> bool {
        match self {
            Cause::Input(x) => x.hits(e),
            Cause::Message { msg_type, .. } => e is NetworkMessage && e->NetworkMessage_msg_type == msg_type,
            Cause::Broadcast { msg_type, targets, .. } => e is LocalMessage && (e->LocalMessage_msg_type is None || says(e->LocalMessage_msg_type->0, msg_type)) && (targets is None || targets->0@.contains(who)),
        }
    }
    pub open spec fn interrupts(self) -> bool { match self { Cause::Input(x) => x.interrupts(), Cause::Message { .. } => false, Cause::Broadcast { .. } => true } }
    pub open spec fn waits(self) -> int { match self { Cause::Input(x) => x.waits(), Cause::Message { .. } => usize::MAX as int, Cause::Broadcast { .. } => 0 } }
    /// `p` is the run of the script at `pos` of `who` that this asks for.
    pub open spec fn run(self, gc: Gc<'gc, RefLock<GlobalContext<'gc, C, S>>>, pos: usize, who: Gc<'gc, RefLock<Entity<'gc, C, S>>>, p: Process<'gc, C, S>) -> bool {
        &&& p.pos == pos && p.global_context == gc && p.call_stack@.len() == 1 && p.call_stack@[0].entity == who && p.call_stack@[0].warp_counter == 0
        &&& p.value_stack@.len() == 0 && p.handler_stack@.len() == 0 && p.warp_counter == 0 && p.defer is None && p.last_syscall_error is None && p.last_rpc_error is None && p.last_answer is None
        &&& p.barrier == match self { Cause::Broadcast { barrier, .. } => barrier, _ => None }
        &&& p.reply_key == match self { Cause::Message { reply_key, .. } => reply_key, _ => None }
        &&& p.last_message == match self { Cause::Broadcast { msg_type, .. } => Some(message_of(msg_type)), _ => None }
        &&& !(self is Message) && !(self matches Cause::Input(x) && x is CustomEvent) ==> p.call_stack@[0].locals == no_locals::<C, S>()
    }
}

impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
    /// Whenever a run is pending, some process is running.
    pub open spec fn resting(self) -> bool { (forall|k: ProcessKey| (#[trigger] self.state.processes.at(k.0 as int, k.1 as int)) is None) ==> forall|i: int| 0 <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).context_queue@.len() == 0 }
    /// `self` is `m` with the queue `q` and the process `key` replaced or removed.
    pub open spec fn moved(self, m: Self, key: ProcessKey, q: Seq<ProcessKey>, p: Option<Process<'gc, C, S>>) -> bool {
        &&& self.scripts@ == m.scripts@ && self.state.process_queue@ == q && self.state.global_context == m.state.global_context
        &&& forall|k: ProcessKey| self.state.proc(k) == if k == key { p } else { m.state.proc(k) }
        &&& forall|k: ProcessKey| self.state.issued(k) == m.state.issued(k)
    }
    /// `self` is `o` with the queue `q`.
    pub open spec fn requeued(self, o: Self, q: Seq<ProcessKey>) -> bool {
        &&& self.scripts@ == o.scripts@ && self.state.process_queue@ == q && self.state.global_context == o.state.global_context
        &&& forall|k: ProcessKey| self.state.proc(k) == o.state.proc(k)
        &&& forall|k: ProcessKey| self.state.issued(k) == o.state.issued(k)
    }
    /// Nothing runs and nothing is pending.
    pub open spec fn stopped(self, o: Self) -> bool {
        &&& self.state.process_queue@.len() == 0 && self.scripts@.len() == o.scripts@.len() && (forall|k: ProcessKey| !self.state.live(k))
        &&& forall|i: int| 0 <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).process is None && self.scripts@[i].context_queue@.len() == 0 && self.scripts@[i].event == o.scripts@[i].event && self.scripts@[i].entity == o.scripts@[i].entity
    }
    /// `self` is `o` after the environment's message, if there was one, was given to its scripts.
    pub open spec fn delivered(self, o: Self) -> bool {
        self == o || exists|mid: Self, cause: Cause<'gc, C, S>| cause is Message && (mid == o || mid.caught_up(o)) && #[trigger] self.responded(mid, cause, mid.scripts@.len() as int)
    }
    /// Process number `n` of the queue is the first that runs.
    pub open spec fn first(self, n: int) -> bool { 0 <= n < self.state.process_queue@.len() && self.state.live(self.state.process_queue@[n]) && forall|j: int| 0 <= j < n ==> !self.state.live(#[trigger] self.state.process_queue@[j]) }
    /// `self` is `m` after the turn of the first running process, number `n` of its queue: `ps` is what its instruction asked for and `p` the process after it,
    /// `y` the project before and `z` after pending runs were started, `w` the project after a broadcast.
    pub open spec fn turn(self, m: Self, n: int, ps: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>, p: Process<'gc, C, S>, y: Self, z: Self, w: Self) -> bool {
        let queue = m.state.process_queue@;
        let key = queue[n];
        let rest = queue.skip(n + 1);
        match ps {
            Ok(ProcessStep::Idle) => false,
            Ok(ProcessStep::Normal) => self.moved(m, key, seq![key] + rest, Some(p)),
            Ok(ProcessStep::Pause) => self.moved(m, key, seq![key] + rest, Some(p)),
            Ok(ProcessStep::Watcher { .. }) => self.moved(m, key, seq![key] + rest, Some(p)),
            Ok(ProcessStep::Yield) => y.moved(m, key, rest, Some(p)) && z.caught_up(y) && self.requeued(z, z.state.process_queue@.push(key)),
            Ok(ProcessStep::Terminate { .. }) => y.moved(m, key, rest, None) && self.caught_up(y),
            Err(error) => y.moved(m, key, rest, None) && self.caught_up(y),
            Ok(ProcessStep::Abort { mode: AbortMode::Current }) => y.moved(m, key, rest, None) && self.caught_up(y),
            Ok(ProcessStep::Abort { mode: AbortMode::All }) => self.stopped(m),
            Ok(ProcessStep::Abort { mode: AbortMode::Others }) => {
                &&& self.scripts@ == m.scripts@ && self.state.process_queue@ == seq![key] && self.state.proc(key) == Some(p)
                &&& forall|k: ProcessKey| k != key ==> !self.state.live(k)
            }
            Ok(ProcessStep::Abort { mode: AbortMode::MyOthers }) => {
                &&& self.scripts@ == m.scripts@ && self.state.process_queue@ == seq![key] + rest && self.state.proc(key) == Some(p)
                &&& forall|k: ProcessKey| k != key ==> self.state.proc(k) == if m.state.live(k) && m.state.proc(k)->0.root() != p.call_stack@.last().entity { m.state.proc(k) } else { None }
            }
            Ok(ProcessStep::Fork { pos, locals, entity }) => y.forked(m, key, rest, p, self.state.process_queue@.last(), pos, locals, entity) && z.caught_up(y) && self.requeued(z, seq![key] + z.state.process_queue@.push(self.state.process_queue@.last())),
            Ok(ProcessStep::DeletedClone { clone }) => y.without(m, key, rest, p, clone) && z.caught_up(y) && self.requeued(z, seq![key] + z.state.process_queue@),
            Ok(ProcessStep::Broadcast { msg_type, barrier, targets }) => {
                &&& y.moved(m, key, rest, Some(p)) && (z == y || z.caught_up(y))
                &&& w.responded(z, Cause::Broadcast { msg_type, barrier, targets }, z.scripts@.len() as int) && self.requeued(w, seq![key] + w.state.process_queue@)
            }
            Ok(ProcessStep::CreatedClone { clone }) => {
                &&& y.moved(m, key, rest, Some(p)) && (z == y || z.caught_up(y))
                &&& self.scripts@.len() >= z.scripts@.len() && self.scripts@.take(z.scripts@.len() as int) == z.scripts@
                &&& copied(self.scripts@.skip(z.scripts@.len() as int), self.state, z, clone, m.scripts@.filter(of(original(clone))), self.scripts@.len() - z.scripts@.len())
                &&& self.state.process_queue@ == seq![key] + z.state.process_queue@ + begun(self.scripts@.skip(z.scripts@.len() as int), self.scripts@.len() - z.scripts@.len())
                &&& self.state.global_context == z.state.global_context && forall|k: ProcessKey| z.state.issued(k) ==> self.state.issued(k) && self.state.proc(k) == z.state.proc(k)
            }
        }
    }
    /// `self` is `m` with the process `key` out of the queue and a new process at `fork`.
    pub open spec fn forked(self, m: Self, key: ProcessKey, rest: Seq<ProcessKey>, p: Process<'gc, C, S>, fork: ProcessKey, pos: usize, locals: SymbolTable<'gc, C, S>, entity: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> bool {
        &&& self.scripts@ == m.scripts@ && self.state.process_queue@ == rest && !m.state.issued(fork) && self.state.live(fork) && self.state.global_context == m.state.global_context
        &&& (forall|k: ProcessKey| k != fork ==> self.state.proc(k) == if k == key { Some(p) } else { m.state.proc(k) })
        &&& (forall|k: ProcessKey| self.state.issued(k) <==> m.state.issued(k) || k == fork)
        &&& exists|st: C::ProcessState| self.state.proc(fork)->0.fresh(#[trigger] fork_of(m.state.global_context, entity, locals, st, pos))
    }
    /// `self` is `m` with the process `key` out of the queue and nothing of `clone` left.
    pub open spec fn without(self, m: Self, key: ProcessKey, rest: Seq<ProcessKey>, p: Process<'gc, C, S>, clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> bool {
        &&& self.scripts@ == m.scripts@.filter(not_of(clone)) && self.state.process_queue@ == rest && self.state.global_context == m.state.global_context
        &&& forall|k: ProcessKey| #[trigger] self.state.proc(k) == { let q = if k == key { Some(p) } else { m.state.proc(k) }; if q is Some && q->0.root() != clone { q } else { None } }
        &&& forall|k: ProcessKey| self.state.issued(k) == m.state.issued(k)
    }
    /// What the caller is told after a turn.
    pub open spec fn told(r: ProjectStep<'gc, C, S>, ps: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>, p: Process<'gc, C, S>) -> bool {
        match ps {
            Ok(ProcessStep::Yield) => r is Yield,
            Ok(ProcessStep::Pause) => r is Pause,
            Ok(ProcessStep::Watcher { create, watcher }) => r == (ProjectStep::Watcher { create, watcher }),
            Ok(ProcessStep::Terminate { result }) => r == (ProjectStep::ProcessTerminated { result, proc: p }),
            Err(error) => r == (ProjectStep::Error { error, proc: p }),
            _ => r is Normal,
        }
    }
    /// One step takes `o` to `self` and tells the caller `r`.
    pub open spec fn goes(self, o: Self, r: ProjectStep<'gc, C, S>) -> bool {
        exists|m: Self| #[trigger] m.delivered(o) && if r is Idle { self.requeued(m, seq![]) && self.quiet() } else { exists|n: int, ps: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>, p: Process<'gc, C, S>, y: Self, z: Self, w: Self|
            m.first(n) && m.state.proc(m.state.process_queue@[n])->0.acts(p, ps) && #[trigger] self.turn(m, n, ps, p, y, z, w) && Self::told(r, ps, p) }
    }
    /// Nothing runs and nothing waits.
    pub open spec fn quiet(self) -> bool { (forall|k: ProcessKey| !self.state.live(k)) && forall|i: int| 0 <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).context_queue@.len() == 0 }
}
pub open spec fn fork_of<'gc, C: CustomTypes<S>, S: System<C>>(gc: Gc<'gc, RefLock<GlobalContext<'gc, C, S>>>, entity: Gc<'gc, RefLock<Entity<'gc, C, S>>>, locals: SymbolTable<'gc, C, S>, st: C::ProcessState, pos: usize) -> ProcContext<'gc, C, S> { ProcContext { global_context: gc, entity, locals, state: st, start_pos: pos, barrier: None, reply_key: None, local_message: None } }
pub open spec fn of<'gc, C: CustomTypes<S>, S: System<C>>(e: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> spec_fn(Script<'gc, C, S>) -> bool { |s: Script<'gc, C, S>| s.entity == e }
pub open spec fn not_of<'gc, C: CustomTypes<S>, S: System<C>>(e: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> spec_fn(Script<'gc, C, S>) -> bool { |s: Script<'gc, C, S>| s.entity != e }
/// The runs of the first `n` of the scripts `adds`.
pub open spec fn begun<'gc, C: CustomTypes<S>, S: System<C>>(adds: Seq<Script<'gc, C, S>>, n: int) -> Seq<ProcessKey> decreases n {
    if n <= 0 { seq![] } else if adds[n - 1].process is Some { begun(adds, n - 1).push(adds[n - 1].process->0) } else { begun(adds, n - 1) }
}
/// `adds` are the scripts of `clone`, one for each of `from`; of the first `n`, those waiting for the clone's creation run.
pub open spec fn copied<'gc, C: CustomTypes<S>, S: System<C>>(adds: Seq<Script<'gc, C, S>>, st: State<'gc, C, S>, z: Project<'gc, C, S>, clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>, from: Seq<Script<'gc, C, S>>, n: int) -> bool {
    &&& adds.len() == from.len()
    &&& forall|i: int| 0 <= i < adds.len() ==> (#[trigger] adds[i]).event == from[i].event && adds[i].entity == clone && adds[i].context_queue@.len() == 0
        && if i < n && from[i].event.0 is OnClone { adds[i].process is Some && !z.state.issued(adds[i].process->0) && st.live(adds[i].process->0) && st.proc(adds[i].process->0)->0.clone_run(z.state.global_context, from[i].event.1, clone) } else { adds[i].process is None }
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
    /// `self` is the run of a clone's script at `pos`.
    pub open spec fn clone_run(self, gc: Gc<'gc, RefLock<GlobalContext<'gc, C, S>>>, pos: usize, clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>) -> bool {
        &&& self.pos == pos && self.global_context == gc && self.call_stack@.len() == 1 && self.call_stack@[0].entity == clone && self.call_stack@[0].locals == no_locals::<C, S>() && self.call_stack@[0].warp_counter == 0
        &&& self.value_stack@.len() == 0 && self.handler_stack@.len() == 0 && self.warp_counter == 0 && self.defer is None && self.barrier is None && self.reply_key is None && self.last_message is None && self.last_answer is None
    }
}
impl Input {
    /// The scripts an input is for.
    pub open spec fn hits(self, e: Event) -> bool {
        match self {
            Input::Start => e is OnFlag,
            Input::Stop => false,
            Input::KeyDown { key } => e is OnKey && (e->key_filter is None || e->key_filter == Some(key)),
            Input::KeyUp { .. } => false,
            Input::CustomEvent { name, .. } => e is Custom && e->name == name,
        }
    }
    /// Whether it restarts the ones already running.
    pub open spec fn interrupts(self) -> bool { match self { Input::Start => true, Input::CustomEvent { interrupt, .. } => interrupt, _ => false } }
    /// How many runs may wait for one that is running.
    pub open spec fn waits(self) -> int { match self { Input::CustomEvent { max_queue, .. } => max_queue as int, _ => 0 } }
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
    /// Script `i` of `o` gets a new run at once.
    pub open spec fn launches(o: Self, inp: Cause<'gc, C, S>, i: int) -> bool { inp.hits(o.scripts@[i].event.0, o.scripts@[i].entity) && (inp.interrupts() || !o.scripts@[i].busy(o.state)) }
    /// Script `i` of `o` as `inp` leaves it.
    pub open spec fn answered(self, o: Self, inp: Cause<'gc, C, S>, i: int) -> bool {
        let (a, b) = (o.scripts@[i], self.scripts@[i]);
        if !inp.hits(a.event.0, a.entity) { b.same(a) }
        else if Self::launches(o, inp, i) {
            &&& b.event == a.event && b.entity == a.entity && b.context_queue@.len() == 0
            &&& b.process is Some && !o.state.issued(b.process->0) && self.state.live(b.process->0)
            &&& inp.run(o.state.global_context, b.event.1, b.entity, self.state.proc(b.process->0)->0)
        } else {
            &&& b.event == a.event && b.entity == a.entity && b.process == a.process
            &&& if a.context_queue@.len() < inp.waits() { b.context_queue@.len() == a.context_queue@.len() + 1 && b.context_queue@.drop_last() == a.context_queue@ } else { b.context_queue@ == a.context_queue@ }
        }
    }
    /// `self` is `o` after the first `n` scripts have been given `inp`.
    pub open spec fn responded(self, o: Self, inp: Cause<'gc, C, S>, n: int) -> bool {
        &&& self.scripts@.len() == o.scripts@.len() && self.state.global_context == o.state.global_context
        &&& forall|i: int| 0 <= i < n ==> #[trigger] self.answered(o, inp, i)
        &&& forall|i: int| n <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).same(o.scripts@[i])
        &&& self.state.process_queue@ == o.state.process_queue@ + launches(o, inp, self.scripts@, n)
        &&& forall|k: ProcessKey| o.state.issued(k) ==> self.state.issued(k)
        &&& forall|k: ProcessKey| o.state.issued(k) ==> self.state.proc(k) == if exists|i: int| 0 <= i < n && Self::launches(o, inp, i) && #[trigger] o.scripts@[i].process == Some(k) { None } else { o.state.proc(k) }
    }
}
impl AllContextsConsumer {
    //@fn src/project.rs "impl AllContextsConsumer" new -> r vis=pub
    //| ensures !r.did_it,
    //@end
    //@fn src/project.rs "impl AllContextsConsumer" do_once vis=pub
    //| requires old(proj).wf(),
    //| ensures final(self).did_it, final(proj).wf(), forall|turn: Option<ProcessKey>, fork: Option<ProcessKey>| old(proj).state.covered(turn, fork) ==> #[trigger] final(proj).state.covered(turn, fork),
    //|     old(self).did_it ==> *final(proj) == *old(proj),
    //|     !old(self).did_it ==> final(proj).caught_up(*old(proj)),
    //@loop 1
    //| invariant forall|turn: Option<ProcessKey>, fork: Option<ProcessKey>| old(proj).state.covered(turn, fork) ==> #[trigger] proj.state.covered(turn, fork), proj.scripts@.len() == old(proj).scripts@.len(), old(proj).wf(), proj.wf(), i_ <= proj.scripts@.len(),
    //|     forall|i: int| 0 <= i < i_ ==> if old(proj).scripts@[i].waiting(old(proj).state) { (#[trigger] proj.scripts@[i]).context_queue@ == old(proj).scripts@[i].context_queue@.drop_first() && proj.scripts@[i].began(old(proj).scripts@[i], proj.state, old(proj).state) } else { proj.scripts@[i].same(old(proj).scripts@[i]) },
    //|     forall|i: int| i_ <= i < proj.scripts@.len() ==> #[trigger] proj.scripts@[i] == old(proj).scripts@[i],
    //|     proj.state.global_context == old(proj).state.global_context,
    //|     proj.state.process_queue@ == old(proj).state.process_queue@ + starts(old(proj).scripts@, old(proj).state, proj.scripts@, i_ as int),
    //|     forall|k: ProcessKey| old(proj).state.issued(k) ==> proj.state.proc(k) == old(proj).state.proc(k) && proj.state.issued(k),
    //| decreases proj.scripts@.len() - i_
    //@top 1
    //| let ghost bef = *proj;
    //@bottom 1
    //| proof { let n = i_ as int; starts_prefix(old(proj).scripts@, old(proj).state, bef.scripts@, proj.scripts@, n); assert(bef.scripts@[n].waiting(bef.state) == old(proj).scripts@[n].waiting(old(proj).state)); }
    //@enter
    //| broadcast use super::facts::add_push;
    //@end
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
    //@fn src/project.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S>" new -> r
    //@sub processes: Default::default\(\) ==> processes: SlotMap::new()
    //@sub process_queue: Default::default\(\) ==> process_queue: VecDeque::new()
    //@sub scripts: Default::default\(\) ==> scripts: Vec::new()
    //| ensures r.wf(), r.settled(), r.resting(), r.state.covered(None, None), r.scripts@.len() == 0, r.state.process_queue@.len() == 0, r.state.global_context == global_context,
    //@end
    //@fn src/project.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S>" add_script
    //@sub context_queue: Default::default\(\) ==> context_queue: VecDeque::new()
    //| requires old(self).wf(), start_pos != usize::MAX,
    //| ensures final(self).wf(), final(self).state == old(self).state, final(self).scripts@.drop_last() == old(self).scripts@, old(self).resting() ==> final(self).resting(),
    //|     ({ let s = final(self).scripts@.last(); s.event.0 == event && s.event.1 == start_pos && s.entity == entity && s.process is None && s.context_queue@.len() == 0 }), final(self).scripts@.len() == old(self).scripts@.len() + 1,
    //@end
    //@fn src/project.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S>" input
    //@sub C::ProcessState::from\( ==> new_state(
    //@sub key_filter\.map\(\|x\| x == input_key\)\.unwrap_or\(true\) ==> hears(key_filter, &input_key)
    //@sub name != \*script_event_name ==> !same_text(&name, script_event_name)
    //@sub args\.get\(field\)\.map\(\|x\| Value::from_simple\(mc, x\.clone\(\)\)\)\.unwrap_or_else\(\|\| Number::new\(0\.0\)\.unwrap\(\)\.into\(\)\) ==> field_value(mc, &args, field)
    //@sub define_or_redefine\(field, value\.into\(\)\) ==> define_or_redefine(field, value)
    //@sub locals: Default::default\(\) ==> locals: SymbolTable::default()
    //| requires old(self).wf(), old(self).state.covered(None, None), !(input is KeyUp),
    //| ensures final(self).wf(), final(self).state.covered(None, None), old(self).resting() ==> final(self).resting(),
    //|     input is Stop ==> final(self).state.process_queue@.len() == 0 && final(self).scripts@.len() == old(self).scripts@.len() && (forall|k: ProcessKey| !final(self).state.live(k))
    //|         && (forall|i: int| 0 <= i < final(self).scripts@.len() ==> (#[trigger] final(self).scripts@[i]).process is None && final(self).scripts@[i].context_queue@.len() == 0 && final(self).scripts@[i].event == old(self).scripts@[i].event && final(self).scripts@[i].entity == old(self).scripts@[i].entity),
    //|     !(input is Stop) ==> exists|mid: Project<'gc, C, S>| (mid == *old(self) || mid.caught_up(*old(self))) && #[trigger] final(self).responded(mid, Cause::Input(input), mid.scripts@.len() as int),
    //@leave
    //| proof { if !(input0 is Stop) { if all_contexts_consumer.did_it { responded_settled(mid, cause, *self); } else { assert(*self == *old(self)); } } }
    //@enter
    //| let ghost input0 = input; let ghost cause = Cause::Input(input); let ghost mut mid = *self;
    //@loop 1
    //| invariant cause == Cause::<C, S>::Input(input0), input0 is Start, self.wf(), self.state.covered(None, None), mid.wf(), next_i <= end_i, end_i == self.scripts@.len(), end_i == old(self).scripts@.len(), self.responded(mid, cause, next_i as int), old(self).wf(),
    //|     !all_contexts_consumer.did_it ==> *self == *old(self) && mid == *old(self) && (forall|k: int| 0 <= k < next_i ==> !cause.hits((#[trigger] mid.scripts@[k]).event.0, mid.scripts@[k].entity)), all_contexts_consumer.did_it ==> mid.caught_up(*old(self)),
    //| decreases end_i - next_i
    //@top 1
    //| let ghost was = all_contexts_consumer.did_it; let ghost mut aft = *self; let ghost mut hit = false; let ghost mut pre = *self;
    //| proof { assert(self.scripts@[i as int].same(mid.scripts@[i as int])); if !hit_at(mid, cause, i as int) { respond_skip(mid, cause, *self, i as int); } }
    //@bottom 1
    //| proof { if hit {
    //|     let n = i as int; let (x, z, y) = (aft.scripts@[n], pre.scripts@[n], self.scripts@[n]);
    //|     assert(pre.scripts@ == aft.scripts@.update(n, z) && pre.state.global_context == aft.state.global_context && pre.state.process_queue@ == aft.state.process_queue@);
    //|     assert(forall|q: ProcessKey| pre.state.proc(q) == if cause.interrupts() && x.process == Some(q) { None } else { aft.state.proc(q) });
    //|     assert(self.scripts@ == aft.scripts@.update(n, y));
    //|     if cause.interrupts() || !x.busy(aft.state) { assert(cause.run(aft.state.global_context, y.event.1, y.entity, self.state.proc(y.process->0)->0)); }
    //|     if !cause.interrupts() && x.busy(aft.state) && x.context_queue@.len() < cause.waits() { assert(y.context_queue@.drop_last() =~= x.context_queue@); }
    //|     assert(gives(aft, cause, *self, n));
    //|     respond_hit(mid, cause, aft, *self, n);
    //| } }
    //@ghost BEFORE "self.scripts[i].schedule("#1
    //| proof { pre = *self; }
    //@ghost "all_contexts_consumer.do_once(self);"#1
    //| proof { if !was { mid = *self; respond_none(mid, cause, i as int); } aft = *self; hit = true; same_busy(mid, cause, *self, i as int); assert(!mid.scripts@[i as int].waiting(mid.state)); assert(cause.hits(mid.scripts@[i as int].event.0, mid.scripts@[i as int].entity)); }
    //@loop 2
    //| invariant cause == Cause::<C, S>::Input(input0), input0 == (Input::CustomEvent { name, args, interrupt, max_queue }), self.wf(), self.state.covered(None, None), mid.wf(), next_i <= end_i, end_i == self.scripts@.len(), end_i == old(self).scripts@.len(), self.responded(mid, cause, next_i as int), old(self).wf(),
    //|     !all_contexts_consumer.did_it ==> *self == *old(self) && mid == *old(self) && (forall|k: int| 0 <= k < next_i ==> !cause.hits((#[trigger] mid.scripts@[k]).event.0, mid.scripts@[k].entity)), all_contexts_consumer.did_it ==> mid.caught_up(*old(self)),
    //| decreases end_i - next_i
    //@top 2
    //| let ghost was = all_contexts_consumer.did_it; let ghost mut aft = *self; let ghost mut hit = false; let ghost mut pre = *self;
    //| proof { assert(self.scripts@[i as int].same(mid.scripts@[i as int])); if !hit_at(mid, cause, i as int) { respond_skip(mid, cause, *self, i as int); } }
    //@bottom 2
    //| proof { if hit {
    //|     let n = i as int; let (x, z, y) = (aft.scripts@[n], pre.scripts@[n], self.scripts@[n]);
    //|     assert(pre.scripts@ == aft.scripts@.update(n, z) && pre.state.global_context == aft.state.global_context && pre.state.process_queue@ == aft.state.process_queue@);
    //|     assert(forall|q: ProcessKey| pre.state.proc(q) == if cause.interrupts() && x.process == Some(q) { None } else { aft.state.proc(q) });
    //|     assert(self.scripts@ == aft.scripts@.update(n, y));
    //|     if cause.interrupts() || !x.busy(aft.state) { assert(cause.run(aft.state.global_context, y.event.1, y.entity, self.state.proc(y.process->0)->0)); }
    //|     if !cause.interrupts() && x.busy(aft.state) && x.context_queue@.len() < cause.waits() { assert(y.context_queue@.drop_last() =~= x.context_queue@); }
    //|     assert(gives(aft, cause, *self, n));
    //|     respond_hit(mid, cause, aft, *self, n);
    //| } }
    //@ghost BEFORE "self.scripts[i].schedule("#2
    //| proof { pre = *self; }
    //@ghost "all_contexts_consumer.do_once(self);"#2
    //| proof { if !was { mid = *self; respond_none(mid, cause, i as int); } aft = *self; hit = true; same_busy(mid, cause, *self, i as int); assert(!mid.scripts@[i as int].waiting(mid.state)); assert(cause.hits(mid.scripts@[i as int].event.0, mid.scripts@[i as int].entity)); }
    //@loop 5
    //| invariant cause == Cause::<C, S>::Input(input0), input0 == (Input::KeyDown { key: input_key }), self.wf(), self.state.covered(None, None), mid.wf(), next_i <= end_i, end_i == self.scripts@.len(), end_i == old(self).scripts@.len(), self.responded(mid, cause, next_i as int), old(self).wf(),
    //|     !all_contexts_consumer.did_it ==> *self == *old(self) && mid == *old(self) && (forall|k: int| 0 <= k < next_i ==> !cause.hits((#[trigger] mid.scripts@[k]).event.0, mid.scripts@[k].entity)), all_contexts_consumer.did_it ==> mid.caught_up(*old(self)),
    //| decreases end_i - next_i
    //@top 5
    //| let ghost was = all_contexts_consumer.did_it; let ghost mut aft = *self; let ghost mut hit = false; let ghost mut pre = *self;
    //| proof { assert(self.scripts@[i as int].same(mid.scripts@[i as int])); if !hit_at(mid, cause, i as int) { respond_skip(mid, cause, *self, i as int); } }
    //@bottom 5
    //| proof { if hit {
    //|     let n = i as int; let (x, z, y) = (aft.scripts@[n], pre.scripts@[n], self.scripts@[n]);
    //|     assert(pre.scripts@ == aft.scripts@.update(n, z) && pre.state.global_context == aft.state.global_context && pre.state.process_queue@ == aft.state.process_queue@);
    //|     assert(forall|q: ProcessKey| pre.state.proc(q) == if cause.interrupts() && x.process == Some(q) { None } else { aft.state.proc(q) });
    //|     assert(self.scripts@ == aft.scripts@.update(n, y));
    //|     if cause.interrupts() || !x.busy(aft.state) { assert(cause.run(aft.state.global_context, y.event.1, y.entity, self.state.proc(y.process->0)->0)); }
    //|     if !cause.interrupts() && x.busy(aft.state) && x.context_queue@.len() < cause.waits() { assert(y.context_queue@.drop_last() =~= x.context_queue@); }
    //|     assert(gives(aft, cause, *self, n));
    //|     respond_hit(mid, cause, aft, *self, n);
    //| } }
    //@ghost BEFORE "self.scripts[i].schedule("#3
    //| proof { pre = *self; }
    //@ghost "all_contexts_consumer.do_once(self);"#3
    //| proof { if !was { mid = *self; respond_none(mid, cause, i as int); } aft = *self; hit = true; same_busy(mid, cause, *self, i as int); assert(!mid.scripts@[i as int].waiting(mid.state)); assert(cause.hits(mid.scripts@[i as int].event.0, mid.scripts@[i as int].entity)); }
    //@loop 3
    //| invariant next_field <= fields.len(),
    //| decreases fields.len() - next_field
    //@loop 4
    //| invariant i_ <= self.scripts@.len(), self.scripts@.len() == old(self).scripts@.len(), self.wf(), self.state.covered(None, None),
    //|     forall|i: int| 0 <= i < i_ ==> (#[trigger] self.scripts@[i]).process is None && self.scripts@[i].context_queue@.len() == 0,
    //|     forall|i: int| 0 <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).event == old(self).scripts@[i].event && self.scripts@[i].entity == old(self).scripts@[i].entity,
    //| decreases self.scripts@.len() - i_
    //@end
}
impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
    //@fn src/project.rs "impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S>" step -> r
    //@attr #[verifier::rlimit(300)]
    //@attr #[verifier::spinoff_prover]
    //@sub C::ProcessState::from\( ==> new_state(
    //@sub self\.state\.global_context\.borrow\(\)\.system\.receive_message\(\) ==> next_message(self.state.global_context)
    //@sub let values: BTreeMap<_,_> = values\.into_iter\(\)\.collect\(\); ==> proof { message = Cause::Message { msg_type, reply_key }; }
    //@sub match proc\.step\(mc\) \{ ==> let step_ = proc.step(mc); let ghost ps = step_; let ghost p = *proc; match step_ {
    //@result (ProcessKey, &mut Process<'gc, C, S>)
    //@sub msg_type != \*script_msg_type ==> !same_text(&msg_type, script_msg_type)
    //@sub values\.get\(field\)\.map\(\|x\| Value::from_simple\(mc, x\.clone\(\)\)\)\.unwrap_or_else\(\|\| Number::new\(0\.0\)\.unwrap\(\)\.into\(\)\) ==> field_value(mc, &values, field)
    //@sub define_or_redefine\(field, value\.into\(\)\) ==> define_or_redefine(field, value)
    //@sub locals: Default::default\(\) ==> locals: SymbolTable::default()
    //@sub context_queue: Default::default\(\) ==> context_queue: VecDeque::new()
    //@sub dispatcher: Some\(proc\) ==> dispatcher: Some(&*proc)
    //@sub clone\.borrow\(\)\.original\.unwrap\(\) ==> original_of(clone)
    //@sub recv_type\.as_deref\(\)\.map\(\|x\| x == msg_type\)\.unwrap_or\(true\) ==> listens(recv_type, &msg_type)
    //@sub targets\.iter\(\)\.any\(\|&target\| Gc::ptr_eq\((.*?), target\)\) ==> among(targets, \1)
    //@sub self\.scripts\.extend\(new_scripts\) ==> self.scripts.append(&mut new_scripts)
    //@sub let mut new_scripts = vec!\[\]; ==> let mut new_scripts: Vec<Script<'gc, C, S>> = vec![];
    //@sub let mut receivers = vec!\[\]; ==> let mut receivers: Vec<(usize, C::ProcessState)> = vec![];
    //@sub \bk == proc_key ==> same_key(k, proc_key)
    //@sub self\.scripts\.retain_mut\(\|script\| (.*?)\); ==> retain_all(&mut self.scripts, |script: &mut Script<'gc, C, S>| -> (keep: bool) ensures keep == (old(script).entity != clone), *final(script) == *old(script) { \1 });
    //@sub retain_mut\(\|_, proc\| (.*?)\); ==> retain_mut(|_k: ProcessKey, proc: &mut Process<'gc, C, S>| -> (keep: bool) requires old(proc).call_stack@.len() > 0 ensures keep == (old(proc).root() != clone), *final(proc) == *old(proc) { \1 });
    //@sub retain_mut\(\|k, _\| (.*?)\); ==> retain_mut(|k: ProcessKey, _v: &mut Process<'gc, C, S>| -> (keep: bool) ensures keep == (k == proc_key), *final(_v) == *old(_v) { \1 });
    //@sub retain_mut\(\|k, v\| (.*?)\); ==> retain_mut(|k: ProcessKey, v: &mut Process<'gc, C, S>| -> (keep: bool) requires old(v).call_stack@.len() > 0 ensures keep == (k == proc_key || old(v).root() != entity), *final(v) == *old(v) { \1 });
    //| requires old(self).wf(), old(self).state.covered(None, None), old(self).resting(),
    //| ensures final(self).wf(), final(self).state.covered(None, None), final(self).resting(), final(self).goes(*old(self), r),
    //@loop 1
    //| invariant self.wf(), self.state.covered(None, None), mid.wf(), next_i <= end_i, end_i == self.scripts@.len(), end_i == old(self).scripts@.len(), self.responded(mid, Cause::Message { msg_type, reply_key }, next_i as int), old(self).wf(),
    //|     !all_contexts_consumer.did_it ==> *self == *old(self) && mid == *old(self) && (forall|k: int| 0 <= k < next_i ==> !Cause::<C, S>::Message { msg_type, reply_key }.hits((#[trigger] mid.scripts@[k]).event.0, mid.scripts@[k].entity)), all_contexts_consumer.did_it ==> mid.caught_up(*old(self)),
    //| decreases end_i - next_i
    //@top 1
    //| let ghost cause = Cause::<C, S>::Message { msg_type, reply_key };
    //| let ghost was = all_contexts_consumer.did_it; let ghost mut aft = *self; let ghost mut hit = false; let ghost mut pre = *self;
    //| proof { assert(self.scripts@[i as int].same(mid.scripts@[i as int])); if !hit_at(mid, cause, i as int) { respond_skip(mid, cause, *self, i as int); } }
    //@bottom 1
    //| proof { if hit {
    //|     let n = i as int; let (x, z, y) = (aft.scripts@[n], pre.scripts@[n], self.scripts@[n]);
    //|     assert(self.scripts@ == aft.scripts@.update(n, y));
    //|     if !x.busy(aft.state) { assert(cause.run(aft.state.global_context, y.event.1, y.entity, self.state.proc(y.process->0)->0)); }
    //|     if x.busy(aft.state) && x.context_queue@.len() < cause.waits() { assert(y.context_queue@.drop_last() =~= x.context_queue@); }
    //|     assert(gives(aft, cause, *self, n));
    //|     respond_hit(mid, cause, aft, *self, n);
    //| } }
    //@ghost BEFORE "self.scripts[i].schedule("#1
    //| proof { pre = *self; }
    //@ghost "all_contexts_consumer.do_once(self);"#1
    //| proof { if !was { mid = *self; respond_none(mid, cause, i as int); } aft = *self; hit = true; same_busy(mid, cause, *self, i as int); assert(!mid.scripts@[i as int].waiting(mid.state)); assert(cause.hits(mid.scripts@[i as int].event.0, mid.scripts@[i as int].entity)); }
    //@loop 2
    //| invariant next_field <= fields.len(),
    //| decreases fields.len() - next_field
    //@loop 3
    //| invariant_except_break m.delivered(*old(self)), self.wf(), m.state.covered(None, None), m.wf(), m.resting(), self.scripts@ == m.scripts@, self.state.global_context == m.state.global_context,
    //|     forall|k: ProcessKey| self.state.proc(k) == m.state.proc(k), forall|k: ProcessKey| self.state.issued(k) == m.state.issued(k),
    //|     0 <= popped <= m.state.process_queue@.len(), self.state.process_queue@ == m.state.process_queue@.skip(popped), forall|j: int| 0 <= j < popped ==> !m.state.live(#[trigger] m.state.process_queue@[j]),
    //| ensures m.wf(), m.resting(), m.state.covered(None, None), self.scripts@ == m.scripts@, self.state.global_context == m.state.global_context, after_borrow(self.state).processes.wf(),
    //|     0 < popped <= m.state.process_queue@.len(), self.state.process_queue@ == m.state.process_queue@.skip(popped), forall|j: int| 0 <= j < popped - 1 ==> !m.state.live(#[trigger] m.state.process_queue@[j]),
    //|     result_.0 == m.state.process_queue@[popped - 1], m.state.proc(result_.0) == Some(*result_.1), after_borrow(self.state).proc(result_.0) == Some(*final(result_.1)),
    //|     forall|k: ProcessKey| k != result_.0 ==> after_borrow(self.state).proc(k) == m.state.proc(k), forall|k: ProcessKey| after_borrow(self.state).issued(k) == m.state.issued(k),
    //| decreases self.state.process_queue@.len()
    //@top 3
    //| proof { popped = popped + 1; }
    //@ghost BEFORE "let mut all_contexts_consumer = AllContextsConsumer::new();"#2
    //| let ghost m = *self; let ghost mut popped: int = 0;
    //| proof { if all_contexts_consumer.did_it { responded_settled(mid, message, m); } assert(m.delivered(*old(self))); }
    //@enter
    //| let ghost mut mid = *self; let ghost mut message: Cause<'gc, C, S> = arbitrary(); let ghost mut y: Self = *self; let ghost mut z: Self = *self; let ghost mut w: Self = *self;
    //@ghost BEFORE "return ProjectStep::Idle;"
    //| proof { assert(self.state.process_queue@ =~= seq![]); idles(m, *self); assert(self.goes(*old(self), ProjectStep::Idle)) by { assert(m.delivered(*old(self))); } }
    //@ghost BEFORE "let step_ = proc.step(mc);"
    //| proof { picked(m, popped - 1); }
    //@ghost "self.state.process_queue.push_front(proc_key);"#1
    //| proof { kept(m, popped - 1, p, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost "self.state.process_queue.push_front(proc_key);"#2
    //| proof { kept(m, popped - 1, p, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost "self.state.process_queue.push_front(proc_key);"#3
    //| proof { kept(m, popped - 1, p, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "all_contexts_consumer.do_once(self);"#2
    //| proof { y = *self; out(m, popped - 1, Some(p), y); }
    //@ghost "all_contexts_consumer.do_once(self);"#2
    //| proof { z = *self; }
    //@ghost "self.state.process_queue.push_back(proc_key);"#1
    //| proof { back(z, proc_key, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "all_contexts_consumer.do_once(self);"#3
    //| proof { y = *self; forked_ok(m, popped - 1, p, fork_proc_key, y); assert(y.state.proc(fork_proc_key)->0.fresh(fork_of(m.state.global_context, entity, locals, state, pos))); }
    //@ghost "all_contexts_consumer.do_once(self);"#3
    //| proof { z = *self; }
    //@ghost "self.state.process_queue.push_front(proc_key);"#4
    //| proof { assert(self.state.process_queue@ =~= seq![proc_key] + z.state.process_queue@.push(fork_proc_key)); front(z, proc_key, Some(fork_proc_key), *self); assert(self.state.process_queue@.last() == fork_proc_key); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "let original = original_of(clone);"
    //| proof { y = *self; z = *self; out(m, popped - 1, Some(p), y); }
    //| let ghost from = m.scripts@.filter(of(original(clone)));
    //@loop 4
    //| invariant y == *self, self.wf(), from == self.scripts@.filter(of(original)), next_script <= self.scripts.len(), new_scripts@.len() == self.scripts@.take(next_script as int).filter(of(original)).len(),
    //|     forall|i: int| 0 <= i < new_scripts@.len() ==> (#[trigger] new_scripts@[i]).event == self.scripts@.take(next_script as int).filter(of(original))[i].event && new_scripts@[i].event.1 != usize::MAX && new_scripts@[i].entity == clone && new_scripts@[i].process is None && new_scripts@[i].context_queue@.len() == 0,
    //| decreases self.scripts.len() - next_script
    //@top 4
    //| proof { let n = next_script - 1; assert(self.scripts@[n].wf(self.state)); assert(self.scripts@.take(n + 1) =~= self.scripts@.take(n).push(self.scripts@[n])); filter_push(self.scripts@.take(n), self.scripts@[n], of(original)); }
    //@ghost BEFORE "let mut i_ = 0;"#1
    //| proof { assert(self.scripts@.take(self.scripts@.len() as int) =~= self.scripts@); filter_in(m.scripts@, of(original)); assert forall|i: int| 0 <= i < from.len() implies (#[trigger] from[i]).event.1 != usize::MAX by { let j = choose|j: int| 0 <= j < m.scripts@.len() && m.scripts@[j] == from[i]; assert(m.scripts@[j].wf(m.state)); } }
    //@loop 5
    //| invariant i_ <= new_scripts.len(), self.wf(), z.wf(), self.state.covered(Some(proc_key), None), z.state.live(proc_key), z.state.issued(proc_key), self.scripts@ == z.scripts@, self.state.global_context == z.state.global_context,
    //|     copied(new_scripts@, self.state, z, clone, from, i_ as int), self.state.process_queue@ == z.state.process_queue@ + begun(new_scripts@, i_ as int),
    //|     forall|i: int| 0 <= i < from.len() ==> (#[trigger] from[i]).event.1 != usize::MAX,
    //|     forall|k: ProcessKey| z.state.issued(k) ==> self.state.issued(k) && self.state.proc(k) == z.state.proc(k),
    //|     forall|i: int| 0 <= i < new_scripts@.len() && (#[trigger] new_scripts@[i]).process is Some ==> self.state.issued(new_scripts@[i].process->0), apart(new_scripts@),
    //|     !all_contexts_consumer.did_it ==> *self == z && z == y && (forall|i: int| 0 <= i < i_ ==> !((#[trigger] from[i]).event.0 is OnClone)), all_contexts_consumer.did_it ==> z.caught_up(y),
    //|     y.state.live(proc_key), y.state.issued(proc_key),
    //| decreases new_scripts.len() - i_
    //@top 5
    //| let ghost bef = new_scripts@; let ghost mut st = self.state; let ghost was = all_contexts_consumer.did_it;
    //@ghost "all_contexts_consumer.do_once(self);"#4
    //| proof { if !was { z = *self; begun_none(bef, i_ as int); assert(z.state.process_queue@ + Seq::<ProcessKey>::empty() =~= z.state.process_queue@); } st = self.state; }
    //@bottom 5
    //| proof { let n = i_ as int; copied_next(bef, st, new_scripts@, self.state, z, clone, from, n); }
    //@ghost "self.state.process_queue.push_front(proc_key);"#5
    //| proof { let k = z.scripts@.len() as int; let adds = self.scripts@.skip(k); assert(adds =~= news); assert(self.scripts@.take(k) =~= z.scripts@); assert(self.state.process_queue@ =~= seq![proc_key] + z.state.process_queue@ + begun(adds, adds.len() as int)); grown(z, aft, proc_key, adds, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "self.scripts.append(&mut new_scripts);"
    //| let ghost news = new_scripts@; let ghost aft = *self;
    //@ghost BEFORE "retain_all(&mut self.scripts,"
    //| let ghost a0 = *self; proof { out(m, popped - 1, Some(p), a0); }
    //@ghost BEFORE "all_contexts_consumer.do_once(self);"#5
    //| proof { y = *self; without_ok(m, popped - 1, p, y, clone); }
    //@ghost "all_contexts_consumer.do_once(self);"#5
    //| proof { z = *self; settled_rests(z); }
    //@ghost "self.state.process_queue.push_front(proc_key);"#6
    //| proof { front(z, proc_key, None, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "let mut receivers: Vec"
    //| proof { y = *self; z = *self; out(m, popped - 1, Some(p), y); }
    //| let ghost cause = Cause::<C, S>::Broadcast { msg_type, barrier, targets }; let ghost mut at: int = 0; proof { respond_none(z, cause, 0); }
    //@loop 6
    //| invariant *self == y, y.wf(), y.state.live(proc_key), next_i <= end_i, end_i == self.scripts@.len(), cause == (Cause::<C, S>::Broadcast { msg_type, barrier, targets }), picks(y, cause, firsts(receivers@), 0, next_i as int),
    //| decreases end_i - next_i
    //@top 6
    //| let ghost rec = receivers@;
    //| proof { if !hit_at(y, cause, i as int) { pick_skip(y, cause, firsts(rec), i as int); } }
    //@ghost "receivers.push((i, state));"
    //| proof { assert(receivers@.drop_last() =~= rec); pick_push(y, cause, rec, receivers@, i as int); }
    //@loop 7
    //| invariant self.wf(), z.wf(), 0 <= at <= self.scripts@.len(), self.scripts@.len() == z.scripts@.len(), self.responded(z, cause, at), picks(z, cause, firsts(rest_receivers@), at, z.scripts@.len() as int), cause == (Cause::<C, S>::Broadcast { msg_type, barrier, targets }),
    //|     self.state.covered(Some(proc_key), None), y.wf(), !all_contexts_consumer.did_it ==> *self == y && z == y && at == 0, all_contexts_consumer.did_it ==> z.caught_up(y),
    //| decreases rest_receivers.len()
    //@top 7
    //| let ghost was = all_contexts_consumer.did_it; let ghost mut aft = *self; let ghost mut pre = *self;
    //@ghost "all_contexts_consumer.do_once(self);"#6
    //| proof { if !was { z = *self; picks_same(y, z, cause, firsts(was_receivers), 0, z.scripts@.len() as int); respond_none(z, cause, 0); } pick_take(z, cause, was_receivers, at, z.scripts@.len() as int); respond_skips(z, cause, *self, at, i as int); aft = *self; }
    //@ghost "self.scripts[i].stop_all(&mut self.state);"
    //| proof { pre = *self; }
    //@bottom 7
    //| proof {
    //|     let n = i as int; let (sx, sz, sy) = (aft.scripts@[n], pre.scripts@[n], self.scripts@[n]);
    //|     assert(pre.scripts@ == aft.scripts@.update(n, sz) && pre.state.global_context == aft.state.global_context && pre.state.process_queue@ == aft.state.process_queue@);
    //|     assert(forall|q: ProcessKey| pre.state.proc(q) == if sx.process == Some(q) { None } else { aft.state.proc(q) });
    //|     assert(self.scripts@ == aft.scripts@.update(n, sy));
    //|     assert(cause.run(aft.state.global_context, sy.event.1, sy.entity, self.state.proc(sy.process->0)->0));
    //|     assert(gives(aft, cause, *self, n));
    //|     respond_hit(z, cause, aft, *self, n);
    //|     at = n + 1;
    //| }
    //@ghost BEFORE "self.state.process_queue.push_front(proc_key);"#7
    //| proof { respond_skips(z, cause, *self, at, z.scripts@.len() as int); w = *self; if all_contexts_consumer.did_it { responded_settled(z, cause, w); } }
    //@ghost "self.state.process_queue.push_front(proc_key);"#7
    //| proof { front(w, proc_key, None, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "all_contexts_consumer.do_once(self);"#7
    //| proof { y = *self; out(m, popped - 1, None, y); }
    //@ghost "all_contexts_consumer.do_once(self);"#7
    //| proof { settled_rests(*self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "all_contexts_consumer.do_once(self);"#8
    //| proof { y = *self; out(m, popped - 1, None, y); }
    //@ghost "all_contexts_consumer.do_once(self);"#8
    //| proof { settled_rests(*self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "all_contexts_consumer.do_once(self);"#9
    //| proof { y = *self; out(m, popped - 1, None, y); }
    //@ghost "all_contexts_consumer.do_once(self);"#9
    //| proof { settled_rests(*self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost "self.state.process_queue.push_front(proc_key);"#8
    //| proof { fewer(m, popped - 1, p, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "self.state.processes.retain_mut(|k: ProcessKey, v"
    //| proof { out(m, popped - 1, Some(p), *self); }
    //@ghost "self.state.process_queue.push_front(proc_key);"#9
    //| proof { fewer(m, popped - 1, p, *self); assert(self.turn(m, popped - 1, ps, p, y, z, w)); }
    //@ghost BEFORE "let mut i_ = 0;"#2
    //| proof { ended(m, popped - 1, p, *self); }
    //@loop 8
    //| invariant i_ <= self.scripts@.len(), self.scripts@.len() == m.scripts@.len(), self.tabled(),
    //|     forall|i: int| 0 <= i < i_ ==> (#[trigger] self.scripts@[i]).process is None && self.scripts@[i].context_queue@.len() == 0,
    //|     forall|i: int| 0 <= i < self.scripts@.len() ==> (#[trigger] self.scripts@[i]).event == m.scripts@[i].event && self.scripts@[i].entity == m.scripts@[i].entity,
    //| decreases self.scripts@.len() - i_
    //@leave
    //| proof { assert(m.delivered(*old(self))); assert(m.first(popped - 1)); assert(self.turn(m, popped - 1, ps, p, y, z, w)); assert(Self::told(result_, ps, p)); }
    //@end
}
}
pub mod rounds {
//! What follows from the contracts: turns are taken in order, newcomers wait at the end, and nothing that ended runs again.
use vstd::prelude::*;
use super::world::*;
use super::proc::*;
use super::code::*;
use super::project::*;
use super::order::*;
use super::facts::*;
pub open spec fn before(q: Seq<ProcessKey>, a: ProcessKey, b: ProcessKey) -> bool { exists|i: int, j: int| 0 <= i < j < q.len() && #[trigger] q[i] == a && #[trigger] q[j] == b }
pub open spec fn fresh_keys<'gc, C: CustomTypes<S>, S: System<C>>(st: State<'gc, C, S>, t: Seq<ProcessKey>) -> bool { forall|i: int| 0 <= i < t.len() ==> !st.issued(#[trigger] t[i]) }
pub proof fn starts_fresh<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, s: Project<'gc, C, S>, n: int)
    requires s.caught_up(o), 0 <= n <= o.scripts@.len()
    ensures fresh_keys(o.state, starts(o.scripts@, o.state, s.scripts@, n))
    decreases n
{ if n > 0 { starts_fresh(o, s, n - 1); let x = s.scripts@[n - 1]; } }
pub proof fn launches_fresh<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, s: Project<'gc, C, S>, n: int)
    requires s.responded(o, inp, o.scripts@.len() as int), 0 <= n <= o.scripts@.len()
    ensures fresh_keys(o.state, launches(o, inp, s.scripts@, n))
    decreases n
{ if n > 0 { launches_fresh(o, inp, s, n - 1); assert(s.answered(o, inp, n - 1)); } }
/// `s` comes from `o` by adding new processes at the end of the queue and ending old ones.
pub open spec fn grows<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, s: Project<'gc, C, S>) -> bool {
    &&& exists|t: Seq<ProcessKey>| s.state.process_queue@ == #[trigger] (o.state.process_queue@ + t) && fresh_keys(o.state, t)
    &&& forall|k: ProcessKey| o.state.issued(k) ==> #[trigger] s.state.issued(k)
    &&& forall|k: ProcessKey| o.state.issued(k) ==> #[trigger] s.state.proc(k) is None || s.state.proc(k) == o.state.proc(k)
}
pub proof fn caught_grows<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, s: Project<'gc, C, S>) requires s.caught_up(o) ensures grows(o, s) { starts_fresh(o, s, o.scripts@.len() as int); assert(s.state.process_queue@ == o.state.process_queue@ + starts(o.scripts@, o.state, s.scripts@, o.scripts@.len() as int)); }
pub proof fn responded_grows<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, inp: Cause<'gc, C, S>, s: Project<'gc, C, S>) requires s.responded(o, inp, o.scripts@.len() as int) ensures grows(o, s) { launches_fresh(o, inp, s, o.scripts@.len() as int); assert(s.state.process_queue@ == o.state.process_queue@ + launches(o, inp, s.scripts@, o.scripts@.len() as int)); }
pub proof fn grows_same<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>) ensures grows(o, o) { assert(o.state.process_queue@ =~= o.state.process_queue@ + Seq::<ProcessKey>::empty()); }
pub proof fn grows_on<'gc, C: CustomTypes<S>, S: System<C>>(a: Project<'gc, C, S>, b: Project<'gc, C, S>, c: Project<'gc, C, S>) requires grows(a, b), grows(b, c) ensures grows(a, c) {
    let t = choose|t: Seq<ProcessKey>| b.state.process_queue@ == #[trigger] (a.state.process_queue@ + t) && fresh_keys(a.state, t);
    let u = choose|u: Seq<ProcessKey>| c.state.process_queue@ == #[trigger] (b.state.process_queue@ + u) && fresh_keys(b.state, u);
    assert(c.state.process_queue@ =~= a.state.process_queue@ + (t + u));
    assert forall|i: int| 0 <= i < (t + u).len() implies !a.state.issued(#[trigger] (t + u)[i]) by { if i >= t.len() { assert(!b.state.issued(u[i - t.len()])); } }
}
pub proof fn delivered_grows<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, m: Project<'gc, C, S>) requires m.delivered(o) ensures grows(o, m) {
    if m == o { grows_same(o); } else {
        let (mid, cause) = choose|mid: Project<'gc, C, S>, cause: Cause<'gc, C, S>| cause is Message && (mid == o || mid.caught_up(o)) && #[trigger] m.responded(mid, cause, mid.scripts@.len() as int);
        responded_grows(mid, cause, m);
        if mid == o { grows_same(o); } else { caught_grows(o, mid); }
        grows_on(o, mid, m);
    }
}
/// A message ends nothing that runs.
pub proof fn delivered_keeps<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, m: Project<'gc, C, S>, k: ProcessKey) requires o.state.tabled(), m.delivered(o), o.state.live(k) ensures m.state.proc(k) == o.state.proc(k) {
    assert(o.state.processes.at(k.0 as int, k.1 as int) is Some); assert(o.state.issued(k));
    if m != o {
        let (mid, cause) = choose|mid: Project<'gc, C, S>, cause: Cause<'gc, C, S>| cause is Message && (mid == o || mid.caught_up(o)) && #[trigger] m.responded(mid, cause, mid.scripts@.len() as int);
        assert(mid.state.issued(k)); assert(mid.state.proc(k) == o.state.proc(k));
        assert forall|i: int| 0 <= i < mid.scripts@.len() && Project::launches(mid, cause, i) implies #[trigger] mid.scripts@[i].process != Some(k) by { assert(!mid.scripts@[i].busy(mid.state)); assert(mid.state.live(k)); }
        assert(m.state.proc(k) == mid.state.proc(k));
    }
}
/// The queue after a turn: the process (0) in front, (1) at the end or (2) ended, the others in between in their order, new ones after them; or (3) nothing else runs.
pub open spec fn lined<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, s: Project<'gc, C, S>, how: int, t: Seq<ProcessKey>) -> bool {
    let key = m.state.process_queue@[n]; let rest = m.state.process_queue@.skip(n + 1); let q = s.state.process_queue@;
    &&& fresh_keys(m.state, t)
    &&& how == 0 && q == seq![key] + rest + t || how == 1 && q == rest + t + seq![key] || how == 2 && q == rest + t && !s.state.live(key) || how == 3 && forall|k: ProcessKey| #[trigger] s.state.live(k) ==> k == key && m.state.issued(k)
}
/// Processes that ended stay ended.
pub open spec fn ends_stay<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, s: Project<'gc, C, S>) -> bool { forall|k: ProcessKey| o.state.issued(k) && !o.state.live(k) ==> !#[trigger] s.state.live(k) }
pub proof fn begun_fresh<'gc, C: CustomTypes<S>, S: System<C>>(adds: Seq<Script<'gc, C, S>>, st: State<'gc, C, S>, z: Project<'gc, C, S>, clone: Gc<'gc, RefLock<Entity<'gc, C, S>>>, from: Seq<Script<'gc, C, S>>, n: int, to: int)
    requires copied(adds, st, z, clone, from, to), 0 <= n <= to <= adds.len()
    ensures fresh_keys(z.state, begun(adds, n))
    decreases n
{ if n > 0 { begun_fresh(adds, st, z, clone, from, n - 1, to); let x = adds[n - 1]; } }
pub proof fn grown_by<'gc, C: CustomTypes<S>, S: System<C>>(a: Project<'gc, C, S>, b: Project<'gc, C, S>) -> (t: Seq<ProcessKey>) requires grows(a, b) ensures b.state.process_queue@ == a.state.process_queue@ + t, fresh_keys(a.state, t) { choose|t: Seq<ProcessKey>| b.state.process_queue@ == #[trigger] (a.state.process_queue@ + t) && fresh_keys(a.state, t) }
pub open spec fn how<'gc, C: CustomTypes<S>, S: System<C>>(ps: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>) -> int {
    match ps { Ok(ProcessStep::Yield) => 1, Ok(ProcessStep::Terminate { .. }) => 2, Err(_) => 2, Ok(ProcessStep::Abort { mode: AbortMode::Current }) => 2, Ok(ProcessStep::Abort { mode: AbortMode::All }) => 3, Ok(ProcessStep::Abort { mode: AbortMode::Others }) => 3, _ => 0 }
}
pub proof fn line<'gc, C: CustomTypes<S>, S: System<C>>(m: Project<'gc, C, S>, n: int, ps: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>, p: Process<'gc, C, S>, y: Project<'gc, C, S>, z: Project<'gc, C, S>, w: Project<'gc, C, S>, s: Project<'gc, C, S>) -> (t: Seq<ProcessKey>)
    requires m.wf(), m.first(n), s.turn(m, n, ps, p, y, z, w)
    ensures lined(m, n, s, how(ps), t), ends_stay(m, s)
{
    let queue = m.state.process_queue@; let key = queue[n]; let rest = queue.skip(n + 1); let q = s.state.process_queue@;
    assert(m.state.processes.at(key.0 as int, key.1 as int) is Some); assert(m.state.issued(key));
    let none = Seq::<ProcessKey>::empty();
    match ps {
        Ok(ProcessStep::Idle) => { none }
        Ok(ProcessStep::Normal) => { assert(q =~= seq![key] + rest + none); none }
        Ok(ProcessStep::Pause) => { assert(q =~= seq![key] + rest + none); none }
        Ok(ProcessStep::Watcher { .. }) => { assert(q =~= seq![key] + rest + none); none }
        Ok(ProcessStep::Yield) => { caught_grows(y, z); let t = grown_by(y, z); assert(q =~= rest + t + seq![key]); t }
        Ok(ProcessStep::Terminate { .. }) => { caught_grows(y, s); let t = grown_by(y, s); assert(s.state.proc(key) is None); t }
        Err(_) => { caught_grows(y, s); let t = grown_by(y, s); assert(s.state.proc(key) is None); t }
        Ok(ProcessStep::Abort { mode }) => match mode {
            AbortMode::Current => { caught_grows(y, s); let t = grown_by(y, s); assert(s.state.proc(key) is None); t }
            AbortMode::All => none,
            AbortMode::Others => none,
            AbortMode::MyOthers => { assert(q =~= seq![key] + rest + none); assert forall|k: ProcessKey| m.state.issued(k) && !m.state.live(k) implies !#[trigger] s.state.live(k) by { assert(k != key); } none }
        },
        Ok(ProcessStep::Fork { .. }) => {
            caught_grows(y, z); let u = grown_by(y, z); let fork = s.state.process_queue@.last(); let t = u.push(fork);
            assert(q =~= seq![key] + rest + t);
            assert forall|k: ProcessKey| m.state.issued(k) && !m.state.live(k) implies !#[trigger] s.state.live(k) by { assert(k != fork); assert(y.state.proc(k) == m.state.proc(k)); assert(y.state.issued(k)); assert(z.state.proc(k) == y.state.proc(k)); }
            t
        }
        Ok(ProcessStep::DeletedClone { .. }) => {
            caught_grows(y, z); let t = grown_by(y, z); assert(q =~= seq![key] + rest + t);
            assert forall|k: ProcessKey| m.state.issued(k) && !m.state.live(k) implies !#[trigger] s.state.live(k) by { assert(k != key); assert(y.state.proc(k) is None); assert(y.state.issued(k)); assert(z.state.proc(k) == y.state.proc(k)); }
            t
        }
        Ok(ProcessStep::Broadcast { msg_type, barrier, targets }) => {
            if z == y { grows_same(y); } else { caught_grows(y, z); }
            responded_grows(z, Cause::Broadcast { msg_type, barrier, targets }, w); grows_on(y, z, w);
            let t = grown_by(y, w); assert(q =~= seq![key] + rest + t);
            assert forall|k: ProcessKey| m.state.issued(k) && !m.state.live(k) implies !#[trigger] s.state.live(k) by { assert(y.state.proc(k) == m.state.proc(k)); assert(y.state.issued(k)); assert(w.state.proc(k) == s.state.proc(k)); }
            t
        }
        Ok(ProcessStep::CreatedClone { clone }) => {
            if z == y { grows_same(y); } else { caught_grows(y, z); }
            let u = grown_by(y, z); let adds = s.scripts@.skip(z.scripts@.len() as int); let l = s.scripts@.len() - z.scripts@.len();
            begun_fresh(adds, s.state, z, clone, m.scripts@.filter(of(original(clone))), l, l);
            let t = u + begun(adds, l); assert(q =~= seq![key] + rest + t);
            assert forall|i: int| 0 <= i < t.len() implies !m.state.issued(#[trigger] t[i]) by { if i >= u.len() { assert(!z.state.issued(begun(adds, l)[i - u.len()])); if m.state.issued(t[i]) { assert(y.state.issued(t[i])); assert(z.state.issued(t[i])); } } else { assert(!y.state.issued(u[i])); } }
            assert forall|k: ProcessKey| m.state.issued(k) && !m.state.live(k) implies !#[trigger] s.state.live(k) by { assert(y.state.proc(k) == m.state.proc(k)); assert(y.state.issued(k)); assert(z.state.issued(k)); assert(z.state.proc(k) == y.state.proc(k)); assert(s.state.proc(k) == z.state.proc(k)); }
            t
        }
    }
}
/// Every running process other than the one that had its turn keeps its place among the others, those that started during the step come after all of them,
/// and a process that yields comes last of all.
pub proof fn fair<'gc, C: CustomTypes<S>, S: System<C>>(o: Project<'gc, C, S>, m: Project<'gc, C, S>, n: int, ps: Result<ProcessStep<'gc, C, S>, ExecError<C, S>>, p: Process<'gc, C, S>, y: Project<'gc, C, S>, z: Project<'gc, C, S>, w: Project<'gc, C, S>, s: Project<'gc, C, S>)
    requires o.wf(), o.state.covered(None, None), m.wf(), m.state.covered(None, None), s.wf(), s.state.covered(None, None), m.delivered(o), m.first(n), s.turn(m, n, ps, p, y, z, w)
    ensures
        forall|a: ProcessKey, b: ProcessKey| #[trigger] s.state.live(a) && #[trigger] s.state.live(b) && (before(o.state.process_queue@, a, b) || o.state.live(a) && !o.state.issued(b)) && !(ps is Ok && ps->Ok_0 is Yield && a == m.state.process_queue@[n]) ==> before(s.state.process_queue@, a, b),
        ps is Ok && ps->Ok_0 is Yield ==> forall|b: ProcessKey| #[trigger] s.state.live(b) && b != m.state.process_queue@[n] ==> before(s.state.process_queue@, b, m.state.process_queue@[n]),
        ends_stay(o, s),
        // the turn is that of the first running process of the queue, and if anything ran before the step it is one of those
        forall|k: ProcessKey| #[trigger] m.state.live(k) && k != m.state.process_queue@[n] ==> before(m.state.process_queue@, m.state.process_queue@[n], k),
        forall|k: ProcessKey| #[trigger] o.state.live(k) ==> o.state.live(m.state.process_queue@[n]) && (k != m.state.process_queue@[n] ==> before(o.state.process_queue@, m.state.process_queue@[n], k)),
{
    delivered_grows(o, m);
    let u = grown_by(o, m);
    let t = line(m, n, ps, p, y, z, w, s);
    let oq = o.state.process_queue@; let mq = m.state.process_queue@; let q = s.state.process_queue@; let key = mq[n]; let rest = mq.skip(n + 1);
    let h = how(ps);
    assert(m.state.processes.at(key.0 as int, key.1 as int) is Some); assert(m.state.issued(key));
    assert(ends_stay(o, m)) by { assert forall|k: ProcessKey| o.state.issued(k) && !o.state.live(k) implies !#[trigger] m.state.live(k) by { assert(m.state.proc(k) is None || m.state.proc(k) == o.state.proc(k)); } }
    assert forall|k: ProcessKey| o.state.issued(k) && !o.state.live(k) implies !#[trigger] s.state.live(k) by { assert(!m.state.live(k)); assert(m.state.issued(k)); }
    // what runs is queued and issued
    assert forall|k: ProcessKey| #[trigger] o.state.live(k) implies oq.contains(k) && o.state.issued(k) by { assert(o.state.processes.at(k.0 as int, k.1 as int) is Some); }
    assert forall|k: ProcessKey| #[trigger] m.state.live(k) implies mq.contains(k) && m.state.issued(k) by { assert(m.state.processes.at(k.0 as int, k.1 as int) is Some); }
    assert forall|k: ProcessKey| #[trigger] s.state.live(k) implies q.contains(k) && s.state.issued(k) by { assert(s.state.processes.at(k.0 as int, k.1 as int) is Some); }
    assert forall|k: ProcessKey| #[trigger] m.state.live(k) && k != key implies before(mq, key, k) by {
        let j = choose|j: int| 0 <= j < mq.len() && mq[j] == k; assert(!(j < n)); assert(mq[n] == key && mq[j] == k);
    }
    assert forall|k: ProcessKey| #[trigger] o.state.live(k) implies o.state.live(key) && (k != key ==> before(oq, key, k)) by {
        delivered_keeps(o, m, k); assert(m.state.live(k));
        let i = choose|i: int| 0 <= i < oq.len() && oq[i] == k; assert(mq[i] == k); assert(!(i < n)); assert(oq[n] == key);
        assert(o.state.issued(key)); assert(m.state.live(key));
        if k != key { assert(oq[n] == key && oq[i] == k); }
    }
    if h == 3 {
        assert forall|a: ProcessKey, b: ProcessKey| #[trigger] s.state.live(a) && #[trigger] s.state.live(b) && (before(oq, a, b) || o.state.live(a) && !o.state.issued(b)) implies before(q, a, b) by {
            assert(a == key && b == key);
            if before(oq, a, b) { let (i, j) = choose|i: int, j: int| 0 <= i < j < oq.len() && #[trigger] oq[i] == a && #[trigger] oq[j] == b; assert(oq[i] != oq[j]); }
        }
    } else {
        let off = if h == 0 { n } else { n + 1 };
        assert forall|i: int| off <= i < mq.len() implies q[i - off] == #[trigger] mq[i] by { if i > n { assert(rest[i - n - 1] == mq[i]); } }
        assert forall|a: ProcessKey, b: ProcessKey| #[trigger] s.state.live(a) && #[trigger] s.state.live(b) && (before(oq, a, b) || o.state.live(a) && !o.state.issued(b)) && !(h == 1 && a == key) implies before(q, a, b) by {
            assert(o.state.issued(a)) by { if before(oq, a, b) { let (i, j) = choose|i: int, j: int| 0 <= i < j < oq.len() && #[trigger] oq[i] == a && #[trigger] oq[j] == b; } }
            assert(o.state.live(a)); assert(m.state.issued(a)); assert(m.state.live(a));
            let i = choose|i: int| 0 <= i < oq.len() && oq[i] == a; assert(mq[i] == a);
            assert(!(i < n)); assert(off <= i);
            assert(q[i - off] == a);
            if before(oq, a, b) {
                let (i2, j) = choose|i2: int, j: int| 0 <= i2 < j < oq.len() && #[trigger] oq[i2] == a && #[trigger] oq[j] == b;
                assert(i2 == i); assert(mq[j] == b); assert(q[j - off] == b);
            } else {
                let l = choose|l: int| 0 <= l < q.len() && q[l] == b;
                if l <= i - off { assert(mq[l + off] == b); assert(oq[l + off] == b); assert(false); }
                assert(q[i - off] == a && q[l] == b);
            }
        }
        if h == 1 { assert forall|b: ProcessKey| #[trigger] s.state.live(b) && b != key implies before(q, b, key) by { let l = choose|l: int| 0 <= l < q.len() && q[l] == b; assert(q[q.len() - 1] == key); assert(q[l] == b && q[q.len() - 1] == key); } }
    }
}
}
}
fn main() {}
