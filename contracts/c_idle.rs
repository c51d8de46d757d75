//! The idle action.
use crate::*;
use crate::sym::*;
use netsblox_vm::runtime::*;
use netsblox_vm::project::*;
use netsblox_vm::process::*;
use netsblox_vm::gc::*;
use netsblox_vm::project::verif as p;
#[allow(unused_imports)] use crate::dummy::*;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::mem::ManuallyDrop;

static FIRED: AtomicUsize = AtomicUsize::new(0);
contracts! {
    // @begin idle_step
    #[kani::unwind(4)]
    fn idle_step() {
        // one step from any reachable state: fires exactly when this step completes the threshold
        let (count, thresh, kind) = (any::<usize>(), any::<usize>(), any::<u8>());
        assume(kind < 4 && count < usize::MAX);
        assume(count == 0 || count < thresh);
        FIRED.store(0, Relaxed);
        let mut a = ManuallyDrop::new(IdleAction::new(thresh, Box::new(|| { FIRED.fetch_add(1, Relaxed); })));
        check!(p::idle_count(&a) == 0, "idle/counting starts at zero");
        p::idle_set(&mut a, count);
        let res: ManuallyDrop<ProjectStep<'_, C, S>> = ManuallyDrop::new(match kind { 0 => ProjectStep::Idle, 1 => ProjectStep::Yield, 2 => ProjectStep::Pause, _ => ProjectStep::Normal });
        a.consume(&res);
        let fires = kind < 3 && count + 1 >= thresh;
        check!(FIRED.load(Relaxed) == fires as usize, "idle/fires exactly at the threshold", count, thresh, kind);
        check!(p::idle_count(&a) == if kind < 3 && !fires { count + 1 } else { 0 }, "idle/counts consecutive idle steps", count, thresh, kind);
        check!(p::idle_count(&a) == 0 || p::idle_count(&a) < thresh, "idle/stays below the threshold", count, thresh, kind);
    }
    // @end
    // @begin idle_work
    #[kani::unwind(4)]
    fn idle_work() {
        // a step that ends a run, fails or shows a variable counts as work, whatever the count
        arena!(mc => {
            let (count, thresh, kind) = (any::<usize>(), any::<usize>(), any::<u8>());
            assume(kind < 3);
            FIRED.store(0, Relaxed);
            let mut a = ManuallyDrop::new(IdleAction::new(thresh, Box::new(|| { FIRED.fetch_add(1, Relaxed); })));
            p::idle_set(&mut a, count);
            let proc = crate::mk::mk(mc);
            let res: ManuallyDrop<ProjectStep<'_, C, S>> = ManuallyDrop::new(match kind {
                0 => ProjectStep::ProcessTerminated { result: Value::Bool(true), proc },
                1 => ProjectStep::Error { error: ExecError { cause: ErrorCause::EmptyList, pos: 0 }, proc },
                _ => {
                    let w = Watcher { entity: Gc::downgrade(proc.get_call_stack()[0].entity), name: Default::default(), value: Gc::downgrade(Gc::new(mc, RefLock::new(Value::Bool(true)))) };
                    std::mem::forget(proc);
                    ProjectStep::Watcher { create: true, watcher: w }
                }
            });
            a.consume(&res);
            check!(FIRED.load(Relaxed) == 0 && p::idle_count(&a) == 0, "idle/work restarts the count and never fires", count, thresh, kind);
        })
    }
    // @end
    // @begin idle_trigger
    #[kani::unwind(4)]
    fn idle_trigger() {
        let (count, thresh) = (any::<usize>(), any::<usize>());
        FIRED.store(0, Relaxed);
        let mut a = ManuallyDrop::new(IdleAction::new(thresh, Box::new(|| { FIRED.fetch_add(1, Relaxed); })));
        p::idle_set(&mut a, count);
        a.trigger();
        check!(FIRED.load(Relaxed) == 1 && p::idle_count(&a) == 0, "idle/an explicit trigger fires once and restarts the count", count, thresh);
    }
    // @end
}
