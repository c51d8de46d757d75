//! The slot map, one operation from an arbitrary well-formed state.
use crate::*;
use crate::sym::*;
use netsblox_vm::slotmap::*;
use netsblox_vm::slotmap::verif as m;
use netsblox_vm::vecmap::VecMap;
use std::mem::ManuallyDrop;
#[allow(unused_imports)] use crate::dummy::*;

netsblox_vm::new_key! { pub struct TK; }
type M = SlotMap<TK, u32>;
const N: usize = 2;
struct St { val: [Option<u32>; N], gen_: [usize; N], n: usize }
/// An arbitrary well-formed map of two slots: every slot is either occupied or on the free list, once.
fn make() -> (ManuallyDrop<M>, St) {
    let mut st = St { val: [None; N], gen_: [0; N], n: N };
    let (o, x, g) = ([any::<bool>(), any::<bool>()], [any::<u32>(), any::<u32>()], [any::<usize>(), any::<usize>()]);
    let rev = any::<bool>();
    assume(g[0] < usize::MAX && g[1] < usize::MAX);
    let mut t = M::new();
    m::reserve(&mut t, 4);
    for i in 0..N { st.gen_[i] = g[i]; if o[i] { st.val[i] = Some(x[i]); } m::push_slot(&mut t, st.val[i], g[i]); }
    for k in 0..N { let i = if rev { N - 1 - k } else { k }; if !o[i] { m::push_empty(&mut t, i); } }
    (ManuallyDrop::new(t), st)
}
fn wf(x: &M) -> bool {
    let (mut live, mut ok) = (0, true);
    for i in 0..m::slot_count(x) { if m::slot(x, i).0.is_some() { live += 1; } }
    ok &= live == x.len() && live + m::empty(x).len() == m::slot_count(x);
    for k in 0..m::empty(x).len() { ok &= m::empty(x)[k] < m::slot_count(x) && m::slot(x, m::empty(x)[k]).0.is_none(); }
    ok
}
/// The entry a key designates in the abstract state.
fn look(st: &St, k: TK) -> Option<u32> { let i = k.get_slot(); if i < st.n && st.gen_[i] == k.get_generation() { st.val[i] } else { None } }
fn key() -> TK { TK::new(any::<usize>(), any::<usize>()) }
contracts! {
    // @begin slot_insert
    #[kani::unwind(6)]
    fn slot_insert() {
        let (mut x, st) = make();
        let (v, k) = (any::<u32>(), key());
        let before = x.len();
        let fresh = x.insert(v);
        check!(look(&st, fresh).is_none() && (fresh.get_slot() >= st.n || fresh.get_generation() >= st.gen_[fresh.get_slot()]), "slots/a new key designated nothing before", v);
        check!(x.get(fresh) == Some(&v), "slots/a new key designates what was inserted", v);
        if k != fresh { check!(x.get(k).copied() == look(&st, k), "slots/inserting changes no other entry"); }
        check!(x.len() == before + 1 && wf(&x), "slots/insert keeps the map well formed");
    }
    // @end
    // @begin slot_remove
    #[kani::unwind(6)]
    fn slot_remove() {
        let (mut x, st) = make();
        let (r, k) = (key(), key());
        let before = x.len();
        let got = x.remove(r);
        check!(got == look(&st, r), "slots/removing returns the entry");
        check!(x.get(r).is_none(), "slots/a removed key designates nothing");
        if k != r { check!(x.get(k).copied() == look(&st, k), "slots/removing changes no other entry"); }
        check!(x.len() == before - got.is_some() as usize && wf(&x), "slots/remove keeps the map well formed");
        // the storage may be reused, the key is not
        let again = x.insert(any());
        if got.is_some() { check!(again != r && x.get(r).is_none(), "slots/a removed key is never given out again"); }
    }
    // @end
    // @begin slot_clear
    #[kani::unwind(6)]
    fn slot_clear() {
        let (mut x, st) = make();
        let k = key();
        x.clear();
        check!(x.get(k).is_none() && x.len() == 0 && x.is_empty(), "slots/clearing removes every entry");
        check!(wf(&x) && m::slot_count(&x) == st.n, "slots/clear keeps the map well formed");
        let again = x.insert(any());
        if look(&st, k).is_some() { check!(again != k && x.get(k).is_none(), "slots/a cleared key is never given out again"); }
    }
    // @end
    // @begin slot_retain
    #[kani::unwind(6)]
    fn slot_retain() {
        let (mut x, st) = make();
        let (k, keep) = (key(), any::<u8>());
        let mut seen = 0u8;
        let mut right = true;
        x.retain_mut(|q, v| { right &= look(&st, q) == Some(*v); seen += 1; if keep >> q.get_slot() & 1 == 1 { *v = v.wrapping_add(1); true } else { false } });
        let live = st.val.iter().filter(|v| v.is_some()).count();
        check!(right && seen as usize == live, "slots/every entry is offered once, under its key", keep);
        let want = match look(&st, k) { Some(v) if keep >> k.get_slot() & 1 == 1 => Some(v.wrapping_add(1)), _ => None };
        check!(x.get(k).copied() == want, "slots/retain keeps exactly the accepted entries", keep);
        check!(wf(&x), "slots/retain keeps the map well formed", keep);
        let again = x.insert(any());
        if look(&st, k).is_some() { check!(again != k, "slots/a dropped key is never given out again", keep); }
    }
    // @end
    // @begin slot_iter
    #[kani::unwind(6)]
    fn slot_iter() {
        let (mut x, st) = make();
        let mut i = 0;
        let mut ok = true;
        for (k, v) in x.iter() {
            while i < st.n && st.val[i].is_none() { i += 1; }
            ok &= i < st.n && k == TK::new(i, st.gen_[i]) && st.val[i] == Some(*v);
            i += 1;
        }
        while i < st.n && st.val[i].is_none() { i += 1; }
        check!(ok && i == st.n, "slots/iteration visits exactly the live entries, in order");
        let k = key();
        if let Some(v) = x.get_mut(k) { *v = 7; }
        check!(x.get(k).copied() == look(&st, k).map(|_| 7), "slots/a mutable lookup reaches the entry");
        let other = key();
        if other != k { check!(x.get(other).copied() == look(&st, other), "slots/a mutable lookup reaches no other entry"); }
    }
    // @end
    // @begin vecmap_unsorted
    #[kani::unwind(5)]
    fn vecmap_unsorted() {
        let mut t = ManuallyDrop::new(VecMap::<u8, u32, false>::new());
        let (k, x) = ([any::<u8>(), any::<u8>(), any::<u8>()], [any::<u32>(), any::<u32>(), any::<u32>()]);
        let q = any::<u8>();
        let mut prev = [None; 3];
        for i in 0..3 { prev[i] = t.insert(k[i], x[i]); }
        let at = |n: usize, q: u8| { let mut r = None; for i in 0..n { if k[i] == q { r = Some(x[i]); } } r };
        check!(prev[0].is_none() && prev[1] == at(1, k[1]) && prev[2] == at(2, k[2]), "map/storing returns what was stored before", k);
        check!(t.get(&q).copied() == at(3, q), "map/a name reads the last value stored under it", k, q);
        let n = 1 + (k[1] != k[0]) as usize + (k[2] != k[0] && k[2] != k[1]) as usize;
        check!(t.len() == n && !t.is_empty(), "map/one entry per name", k);
    }
    // @end
    // @begin vecmap_sorted
    #[kani::unwind(5)]
    fn vecmap_sorted() {
        let mut t = ManuallyDrop::new(VecMap::<u8, u32, true>::new());
        let (k, x) = ([any::<u8>(), any::<u8>(), any::<u8>()], [any::<u32>(), any::<u32>(), any::<u32>()]);
        let q = any::<u8>();
        let mut prev = [None; 3];
        for i in 0..3 { prev[i] = t.insert(k[i], x[i]); }
        let at = |n: usize, q: u8| { let mut r = None; for i in 0..n { if k[i] == q { r = Some(x[i]); } } r };
        check!(prev[0].is_none() && prev[1] == at(1, k[1]) && prev[2] == at(2, k[2]), "map/storing returns what was stored before", k);
        check!(t.get(&q).copied() == at(3, q), "map/a name reads the last value stored under it", k, q);
        let s = t.as_slice();
        let mut ok = true;
        for i in 1..s.len() { ok &= s[i - 1].key < s[i].key; }
        check!(ok, "map/entries are in ascending order", k);
        if let Some(v) = t.get_mut(&q) { *v = 9; }
        check!(t.get(&q).copied() == at(3, q).map(|_| 9), "map/a mutable lookup reaches the entry", k, q);
    }
    // @end
}
