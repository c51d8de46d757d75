// @begin idle
#[allow(dead_code)] pub fn idle_set(x: &mut IdleAction, count: usize) { x.count = count }
#[allow(dead_code)] pub fn idle_count(x: &IdleAction) -> usize { x.count }
// @end
