// @begin parts
#[allow(dead_code)] pub fn reserve<K: Key, T>(m: &mut SlotMap<K, T>, n: usize) { m.slots = Vec::with_capacity(n); m.empty_slots = Vec::with_capacity(n); }
#[allow(dead_code)] pub fn push_slot<K: Key, T>(m: &mut SlotMap<K, T>, value: Option<T>, generation: usize) { if value.is_some() { m.num_values += 1; } m.slots.push(Slot { value, generation }) }
#[allow(dead_code)] pub fn push_empty<K: Key, T>(m: &mut SlotMap<K, T>, i: usize) { m.empty_slots.push(i) }
// @end
// @begin view
#[allow(dead_code)] pub fn slot_count<K: Key, T>(m: &SlotMap<K, T>) -> usize { m.slots.len() }
#[allow(dead_code)] pub fn slot<K: Key, T>(m: &SlotMap<K, T>, i: usize) -> (Option<&T>, usize) { (m.slots[i].value.as_ref(), m.slots[i].generation) }
#[allow(dead_code)] pub fn empty<K: Key, T>(m: &SlotMap<K, T>) -> &[usize] { &m.empty_slots }
// @end
