// @begin bc
#[allow(dead_code)] pub fn bc(code: Box<[u8]>, data: Box<[u8]>) -> ByteCode { ByteCode { tag: Default::default(), code, data } }
#[allow(dead_code)] pub fn code_of(b: &ByteCode) -> &[u8] { &b.code }
#[allow(dead_code)] pub fn data_of(b: &ByteCode) -> &[u8] { &b.data }
// @end
// @begin enums
/// Operations by fixed numbers of their own, whatever the declaration order is.
#[allow(dead_code)] pub(crate) fn binop(i: u8) -> BinaryOp { [BinaryOp::Add, BinaryOp::Sub, BinaryOp::Mul, BinaryOp::Div, BinaryOp::Mod, BinaryOp::Pow, BinaryOp::Log, BinaryOp::Atan2][i as usize] }
#[allow(dead_code)] pub(crate) fn unop(i: u8) -> UnaryOp { [UnaryOp::ToNumber, UnaryOp::Not, UnaryOp::Abs, UnaryOp::Neg, UnaryOp::Sqrt, UnaryOp::Round, UnaryOp::Floor, UnaryOp::Ceil, UnaryOp::Sin, UnaryOp::Cos, UnaryOp::Tan, UnaryOp::Asin, UnaryOp::Acos, UnaryOp::Atan][i as usize] }
#[allow(dead_code)] pub(crate) fn relation(i: u8) -> Relation { [Relation::Equal, Relation::NotEqual, Relation::Less, Relation::LessEq, Relation::Greater, Relation::GreaterEq][i as usize] }
// @end
// @begin read_sel
/// Instruction under test for the step contracts: opcode selector and operands, chosen by the harness before `step` is called.
pub static OP: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
#[allow(dead_code)] pub(crate) fn read_warp<'a: 'a>(_code: &'a [u8], _data: &'a [u8], start: usize) -> (Instruction<'a>, usize) {
    (match OP.load(core::sync::atomic::Ordering::Relaxed) { 0 => Instruction::WarpStart, 1 => Instruction::WarpStop, _ => Instruction::Yield }, start + 1)
}
// @end
// @begin codec_u64
#[allow(dead_code)] pub fn enc_u64(v: u64, out: &mut Vec<u8>, bytes: Option<usize>) { encode_u64(v, out, bytes) }
#[allow(dead_code)] pub fn dec_u64(data: &[u8], start: usize) -> (u64, usize) { decode_u64(data, start) }
#[allow(dead_code)] pub const MAX_U64: usize = MAX_U64_ENCODED_BYTES;
// @end
// @begin codec_any
#[allow(dead_code)] fn put<T: BinaryWrite>(v: &T, out: &mut Vec<u8>) -> bool {
    let (mut pool, mut info) = (BinPool::new(), vec![]);
    BinaryWrite::append(v, out, &mut pool, &mut info);
    let clean = info.is_empty() && pool.len() == 0;
    core::mem::forget(pool); core::mem::forget(info);
    clean
}
#[allow(dead_code)] pub fn rt_i32(v: i32, out: &mut Vec<u8>, start: usize) -> (bool, i32, usize) { let c = put(&v, out); let (x, a) = <i32 as BinaryRead>::read(out, &[], start); (c, x, a) }
#[allow(dead_code)] pub fn rt_f64(v: f64, out: &mut Vec<u8>, start: usize) -> (bool, f64, usize) { let c = put(&v, out); let (x, a) = <f64 as BinaryRead>::read(out, &[], start); (c, x, a) }
#[allow(dead_code)] pub fn rt_usize(v: usize, out: &mut Vec<u8>, start: usize) -> (bool, usize, usize) { let c = put(&v, out); let (x, a) = <usize as BinaryRead>::read(out, &[], start); (c, x, a) }
#[allow(dead_code)] pub fn rt_color(v: Color, out: &mut Vec<u8>, start: usize) -> (bool, Color, usize) { let c = put(&v, out); let (x, a) = <Color as BinaryRead>::read(out, &[], start); (c, x, a) }
#[allow(dead_code)] pub fn rt_bool(v: bool, out: &mut Vec<u8>, start: usize) -> (bool, bool, usize) { let c = put(&v, out); let (x, a) = <bool as BinaryRead>::read(out, &[], start); (c, x, a) }
#[allow(dead_code)] pub fn rt_len(v: Option<usize>, out: &mut Vec<u8>, start: usize) -> (bool, Option<usize>, usize) {
    let c = put(&match v { Some(x) => VariadicLen::Fixed(x), None => VariadicLen::Dynamic }, out);
    let (x, a) = <VariadicLen as BinaryRead>::read(out, &[], start);
    (c, match x { VariadicLen::Fixed(x) => Some(x), VariadicLen::Dynamic => None }, a)
}
// @end
// @begin codec_instr
/// Appends an instruction and reads it back: whether the same instruction came back, ending where the code ends.
macro_rules! rt_instr { ($out:ident, $start:ident; $($i:expr => $p:pat $(if $c:expr)?),* $(,)?) => {{
    $({
        $out.truncate($start);
        let ok = put(&$i, $out);
        let (x, a) = <Instruction as BinaryRead>::read($out, &[], $start);
        if !ok || a != $out.len() || !matches!(x, $p $(if $c)?) { return false }
    })*
    true
}} }
macro_rules! rt_plain { ($out:ident, $start:ident; $($n:ident)*) => { rt_instr!($out, $start; $(Instruction::$n => Instruction::$n),*) } }
#[allow(dead_code)] pub fn rt_plain_1(out: &mut Vec<u8>, start: usize) -> bool {
    rt_plain!(out, start; Yield WarpStart WarpStop PushSelf PopValue ToBool ToNumber ListCons ListCdr ListFind ListContains ListIsEmpty ListLength ListDims ListRank ListRev ListFlatten ListJson ListCsv ListColumns ListLines ListInsert ListInsertLast ListInsertRandom ListGet ListGetLast ListGetRandom ListAssign ListAssignLast ListAssignRandom ListRemove ListRemoveLast ListRemoveAll Identical)
}
#[allow(dead_code)] pub fn rt_plain_2(out: &mut Vec<u8>, start: usize) -> bool {
    rt_plain!(out, start; Pause Return PopHandler Throw PushRpcError PushSyscallError PushLocalMessage Ask PushAnswer ResetTimer PushTimer Sleep SendNetworkReply PushCostume PushCostumeNumber PushCostumeList SetCostume NextCostume PushSoundList StopSounds Clone DeleteClone ClearEffects ClearDrawings GotoXY Goto PointTowardsXY PointTowards Forward)
}
#[allow(dead_code)] pub fn rt_operand_1(out: &mut Vec<u8>, start: usize, b: bool, i: i32, f: f64, c: Color) -> bool {
    rt_instr!(out, start;
        Instruction::PushBool { value: b } => Instruction::PushBool { value } if value == b,
        Instruction::PushInt { value: i } => Instruction::PushInt { value } if value == i,
        Instruction::PushIntString { value: i } => Instruction::PushIntString { value } if value == i,
        Instruction::PushNumber { value: f } => Instruction::PushNumber { value } if value.to_bits() == f.to_bits(),
        Instruction::PushColor { value: c } => Instruction::PushColor { value } if value == c,
        Instruction::PushString { value: "" } => Instruction::PushString { value: "" })
}
#[allow(dead_code)] pub fn rt_operand_2(out: &mut Vec<u8>, start: usize, i: u8, n: usize, dynamic: bool) -> bool {
    let len = || if dynamic { VariadicLen::Dynamic } else { VariadicLen::Fixed(n) };
    let same = |x: VariadicLen| match x { VariadicLen::Dynamic => dynamic, VariadicLen::Fixed(k) => !dynamic && k == n };
    let vop = match VariadicOp::from_u8(i) { Some(x) => x, None => return true };
    rt_instr!(out, start;
        Instruction::VariadicOp { op: vop, len: len() } => Instruction::VariadicOp { op, len } if op as u8 == i && same(len),
        Instruction::ListReshape { len: len() } => Instruction::ListReshape { len } if same(len),
        Instruction::ListCartesianProduct { len: len() } => Instruction::ListCartesianProduct { len } if same(len),
        Instruction::Syscall { len: len() } => Instruction::Syscall { len } if same(len))
}
#[allow(dead_code)] pub fn rt_operand_3(out: &mut Vec<u8>, start: usize, i: u8) -> bool {
    if let Some(x) = BinaryOp::from_u8(i) { if !rt_instr!(out, start; Instruction::BinaryOp { op: x } => Instruction::BinaryOp { op } if op as u8 == i) { return false } }
    if let Some(x) = UnaryOp::from_u8(i) { if !rt_instr!(out, start; Instruction::UnaryOp { op: x } => Instruction::UnaryOp { op } if op as u8 == i) { return false } }
    if let Some(x) = Relation::from_u8(i) { if !rt_instr!(out, start; Instruction::Cmp { relation: x } => Instruction::Cmp { relation } if relation as u8 == i) { return false } }
    true
}
#[allow(dead_code)] pub fn rt_operand_4(out: &mut Vec<u8>, start: usize, i: u8) -> bool {
    if let Some(x) = TimeQuery::from_u8(i) { if !rt_instr!(out, start; Instruction::PushRealTime { query: x } => Instruction::PushRealTime { query } if query as u8 == i) { return false } }
    if let Some(x) = AbortMode::from_u8(i) { if !rt_instr!(out, start; Instruction::Abort { mode: x } => Instruction::Abort { mode } if mode as u8 == i) { return false } }
    if let Some(x) = BasicType::from_u8(i) { if !rt_instr!(out, start; Instruction::TypeQuery { ty: x } => Instruction::TypeQuery { ty } if ty as u8 == i) { return false } }
    if let Some(x) = Property::from_u8(i) { if !rt_instr!(out, start;
        Instruction::PushProperty { prop: x } => Instruction::PushProperty { prop } if prop as u8 == i,
        Instruction::SetProperty { prop: x } => Instruction::SetProperty { prop } if prop as u8 == i,
        Instruction::ChangeProperty { prop: x } => Instruction::ChangeProperty { prop } if prop as u8 == i) { return false } }
    true
}
#[allow(dead_code)] pub fn rt_operand_5(out: &mut Vec<u8>, start: usize, a: bool, b: bool, n: usize) -> bool {
    rt_instr!(out, start;
        Instruction::CallClosure { new_entity: a, args: n } => Instruction::CallClosure { new_entity, args } if new_entity == a && args == n,
        Instruction::ForkClosure { args: n } => Instruction::ForkClosure { args } if args == n,
        Instruction::SendLocalMessage { wait: a, target: b } => Instruction::SendLocalMessage { wait, target } if wait == a && target == b,
        Instruction::PlaySound { blocking: a } => Instruction::PlaySound { blocking } if blocking == a,
        Instruction::PlayNotes { blocking: a } => Instruction::PlayNotes { blocking } if blocking == a,
        Instruction::Print { style: PrintStyle::Say } => Instruction::Print { style: PrintStyle::Say },
        Instruction::Print { style: PrintStyle::Think } => Instruction::Print { style: PrintStyle::Think },
        Instruction::DupeValue { top_index: 0 } => Instruction::DupeValue { top_index: 0 },
        Instruction::DupeValue { top_index: 1 } => Instruction::DupeValue { top_index: 1 },
        Instruction::DupeValue { top_index: 2 } => Instruction::DupeValue { top_index: 2 },
        Instruction::DupeValue { top_index: 3 } => Instruction::DupeValue { top_index: 3 },
        Instruction::SwapValues { top_index_1: 0, top_index_2: 1 } => Instruction::SwapValues { top_index_1: 0, top_index_2: 1 },
        Instruction::SwapValues { top_index_1: 0, top_index_2: 2 } => Instruction::SwapValues { top_index_1: 0, top_index_2: 2 },
        Instruction::SwapValues { top_index_1: 1, top_index_2: 2 } => Instruction::SwapValues { top_index_1: 1, top_index_2: 2 },
        Instruction::SwapValues { top_index_1: 1, top_index_2: 3 } => Instruction::SwapValues { top_index_1: 1, top_index_2: 3 })
}
// @end
// @begin codec_addr
/// Code addresses are written relocatable: an address operand must be recorded, at its full width, where the reader finds it.
#[allow(dead_code)] pub fn rt_addr(out: &mut Vec<u8>, start: usize, to: usize, when: bool) -> bool {
    let chk = |i: Instruction<'_>, f: &dyn Fn(&Instruction<'_>) -> bool, out: &mut Vec<u8>| {
        out.truncate(start);
        let (mut pool, mut info) = (BinPool::new(), vec![]);
        BinaryWrite::append(&i, out, &mut pool, &mut info);
        let (x, a) = <Instruction as BinaryRead>::read(out, &[], start);
        let rel = match info.as_slice() { [RelocateInfo::Code { code_addr }] => *code_addr == start + 1, _ => false };
        let ok = rel && a == out.len() && f(&x);
        core::mem::forget(pool); core::mem::forget(info);
        ok
    };
    chk(Instruction::Jump { to }, &|x| matches!(x, Instruction::Jump { to: t } if *t == to), out)
        && chk(Instruction::ConditionalJump { to, when }, &|x| matches!(x, Instruction::ConditionalJump { to: t, when: w } if *t == to && *w == when), out)
        && chk(Instruction::ListPopFirstOrElse { goto: to }, &|x| matches!(x, Instruction::ListPopFirstOrElse { goto } if *goto == to), out)
        && chk(Instruction::Call { pos: to, tokens: "" }, &|x| matches!(x, Instruction::Call { pos, tokens: "" } if *pos == to), out)
}
// @end
// @begin places
/// What each address reports for a map from end address to location, or nothing where the map is refused.
#[allow(dead_code)] pub fn places(map: &BTreeMap<usize, &str>, at: &[usize]) -> Option<Vec<Option<CompactString>>> { let l = Locations::condense(map).ok()?; Some(at.iter().map(|p| l.lookup(*p)).collect()) }
// @end
