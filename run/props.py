CAP = {'quick': 420, 'thorough': 3000}
TECHNIQUE = 'contract-based deductive verification: contracts on the functions of /repo, extracted mechanically and discharged by Verus or compiled and discharged by Kani/CBMC on every run; bounded differential execution against an executable specification where the verifier does not reach'
TRUSTED = [
    'Kani 0.68.0 / CBMC 6.11.0 and rustc: translation of the compiled MIR of /repo and of its dependencies to a SAT problem',
    'under the verifier only: gc-arena, compact_str and our-string are replaced by shims with the same interface (allocation never collects; strings are plain heap strings)',
]
SCHED = 'project:Script::consume_context,Script::stop_all,Script::schedule,AllContextsConsumer::new,AllContextsConsumer::do_once,Project::new,Project::add_script,Project::input,Project::step,Process::new,Process::is_running'
SCHED_FNS = ['Project::new, add_script, input, step', 'AllContextsConsumer::new, do_once', 'Script::schedule, consume_context, stop_all', 'Process::new, is_running, get_call_stack, step', 'SlotMap (every method the scheduler uses)']
SCHED_TRUST = ['verus/project.rs: one instruction (Process::step_impl) is any function that keeps the handler stack sound, the root sprite and the project of a running process (verus/interp.rs discharges this for every instruction, given that the compiled code is balanced); environment-made values (process states, message fields, texts) are opaque; Vec::retain_mut keeps exactly the elements the closure accepts; slot generations and table sizes stay below 2^64']
def I(*arms, fns=()): return 'interp:' + ','.join([f'Process::step_impl[{x}]' for x in arms] + list(fns))
def IF(*arms, fns=()): return ([f'Process::step_impl, the instructions {", ".join(arms)}'] if arms else []) + list(fns)
INTERP_TRUST = ['verus/interp.rs: the heap is ghost state behind the references (borrow, borrow_mut, alloc have the obvious meaning; a double borrow is not modelled); the environment may change the heap and the state of the process it is called with but none of its private fields, and not the global context held meanwhile; iterator chains and formatting are replaced by functions with the obvious contract, listed under extraction',
    'verus/interp.rs: operators and list operations (ops::*) have contracts over uninterpreted relations, decided by the other parts of the checks; SymbolTable, VecMap and LookupGroup have the contracts that verus/vecmap.rs discharges on their code; texts have assumed contracts',
    'verus/interp.rs: compiled code is balanced (Process::fetch: the instruction at a position that a process reaches finds the operands, handlers and warp sections it needs)']
def V(p, *verus, functions=(), trusted=()):
    PROPS[p]['verus'] = PROPS[p].get('verus', []) + list(verus); PROPS[p].setdefault('functions', []); PROPS[p].setdefault('trusted', [])
    PROPS[p]['functions'] = PROPS[p]['functions'] + list(functions); PROPS[p]['trusted'] = PROPS[p]['trusted'] + list(trusted)
TABLE_FNS = ['VecMap::new, with_capacity, get, get_mut, insert, from_iter, len, is_empty, iter, iter_mut, into_iter, as_slice and the next of the three iterators', 'SymbolTable::define_or_redefine, lookup, lookup_mut, clone, len, is_empty; LookupGroup::lookup, lookup_mut']
TABLE_TRUST = ['verus/vecmap.rs: keys have a strict total order that agrees for both forms of a key (the laws of Ord and Borrow); slice::binary_search_by, Iterator::find, slice and vector iterators, split_last_mut and mem::replace behave as documented; the fields of VecMap are private, so every table is one its own methods made',
    'verus/vecmap.rs: the two forms of a name (CompactString, str) carry the same characters; what an aliased variable holds lies in a heap that is not written meanwhile; lookup_mut: the loop over the tables is verified as the recursion over them']
RULE = 'a run counts as distinct and non-trivial when at least two of its turns did something and no earlier run had the same outcomes, environment calls and states; contract inputs are drawn at random with boundary bias and distinct accepted tuples are counted'
Q = 18
def K(*names, **kw): return [dict(name=n, **kw) for n in names]
def X(*profiles, w=4): return [(p, Q, w) for p in profiles]
PROP_FAST = ['prop_get', 'prop_flags', 'prop_place'] + [f'prop_{x}_{g}' for x in ('set', 'refuse') for g in range(0, 21, 3)] + ['prop_change_0', 'prop_change_12']
PROP_SLOW = [f'prop_change_{g}' for g in (3, 6, 9, 15, 18)]
PROPS = {
    'M01': dict(level='proof', kani=K('c_note::note_midi', 'c_note::note_natural_irrelevant', 'c_note::note_prep_number'),
        contracts=['note_midi', 'note_natural_irrelevant', 'note_prep_number', 'note_names', 'note_pitches'], verus=['notes'],
        functions=['Note::from_midi, get_midi, from_name, get_name (with the tables of names; lemmas: the name of every pitch, in both spellings, spells that pitch)', 'ops::prep_note (numeric branch)'],
        trusted=['verus/notes.rs: trim, chars, peekable, to_ascii_uppercase, split, enumerate, find, nth, parse::<i32> and the written form of -1..9 are modelled from the documentation of the standard library; names are shorter than 2^31 characters', 'frequency: libm::exp2 is a function of its argument (note_pitches runs get_frequency and the names on all 128 pitches)']),
    'N01': dict(level='exploration', explore=X('numbers'),
        kani=K('c_num::num_new', 'c_num::num_add', 'c_num::num_sub', 'c_num::num_mul', 'c_num::num_div', 'c_num::num_pow', 'c_num::num_log', 'c_num::num_sqrt', 'c_num::num_neg_abs', 'c_num::num_round', 'c_num::num_bool'),
        contracts=['num_new', 'num_add', 'num_sub', 'num_mul', 'num_div', 'num_pow', 'num_log', 'num_sqrt', 'num_neg_abs', 'num_round', 'num_mod', 'num_bool'],
        trusted=['num_mul, num_div, num_pow, num_log, num_sqrt: the floating-point operation itself is an uninterpreted function, called once with the operands of the block'],
        functions=['Number::new', 'NumberChecker::validate', 'ops::binary_op_impl (Add, Sub, Mul, Div, Pow, Log on numbers)', 'ops::unary_op_impl (Not, Abs, Neg, Sqrt, Round, Floor, Ceil)', 'Value::as_number']),
    'N02': dict(level='exploration', explore=X('data', 'numbers', w=2), kani=K('c_num::num_convert'), contracts=['num_convert', 'text_roundtrip', 'text_radix'],
        functions=['Value::as_number', 'Value::as_bool']),
    'L01': dict(level='exploration', explore=X('lists'), kani=K('c_index::index_number', 'c_index::index_bool'), contracts=['index_number', 'index_bool', 'index_text'],
        functions=['ops::prep_index (number and boolean operands)'],
        assumptions=['list lengths stay at or below isize::MAX / 2 (a longer list cannot be allocated)']),
    'L02': dict(level='exploration', explore=X('structure', 'data', w=2)),
    'L03': dict(level='exploration', explore=X('lift')),
    'C01': dict(level='exploration', explore=X('compare'), kani=K('c_cmp::cmp_numbers', 'c_cmp::cmp_bools', 'c_cmp::cmp_relations', 'c_cmp::cmp_identical'), contracts=['cmp_numbers', 'cmp_bools', 'cmp_relations', 'cmp_identical', 'cmp_text'],
        functions=['ops::cmp (numbers, booleans)', 'ops::check_relation (against the contract of ops::cmp)', 'ops::identical']),
    'V01': dict(level='exploration', explore=X('scoping'), kani=K('c_rt::shared_store', 'c_rt::shared_separate', 'c_scope::scope_redefine_alias'), contracts=['shared_store', 'shared_separate', 'scope_redefine_alias', 'scope_lookup', 'scope_table'],
        functions=['Shared::get, set, alias', 'SymbolTable::define_or_redefine']),
    'P01': dict(level='exploration', explore=X('calls')),
    'T01': dict(level='exploration', explore=X('errors'), verus=['project:Process::step'], functions=['Process::step (delivery of an error to the innermost handler)'], trusted=SCHED_TRUST),
    'W01': dict(level='exploration', explore=X('warp'), kani=K('c_step::step_warp'), functions=['Process::step (WarpStart, WarpStop, Yield)'],
        trusted=['c_step: Instruction::read is replaced by a stand-in that yields the chosen instruction; operator functions not reached by these instructions are replaced by stand-ins that fail the proof when called']),
    'D01': dict(level='exploration', explore=X('requests'), kani=K('c_rt::async_once'), contracts=['async_once'], functions=['AsyncResult::new, complete, poll']),
    'U01': dict(level='exploration', explore=X('time'), kani=K('c_rt::clock_ms'), contracts=['clock_ms'], functions=['SysTime::to_real_ms and friends']),
    'B01': dict(level='exploration', explore=X('broadcast'), kani=K('c_rt::barrier_waits'), contracts=['barrier_waits'], verus=[SCHED + ',Process::step'], trusted=SCHED_TRUST, functions=SCHED_FNS + ['Barrier::new, clone, drop, get_condition', 'BarrierCondition::is_completed']),
    'S01': dict(level='exploration', explore=X('schedule'), verus=[SCHED], functions=SCHED_FNS, trusted=SCHED_TRUST),
    'S02': dict(level='exploration', explore=X('stop', 'acting'), verus=[SCHED], functions=SCHED_FNS, trusted=SCHED_TRUST),
    'S03': dict(level='exploration', explore=[('clones', 40, 6)], verus=[SCHED], functions=SCHED_FNS, trusted=SCHED_TRUST),
    'R01': dict(level='exploration', explore=X('network')),
    'F01': dict(level='exploration', explore=X('control')),
    'J01': dict(level='exploration', explore=X('data')),
    'X01': dict(level='exploration', explore=X('initial')),
    'E01': dict(level='exploration', kani=K(*['c_prop::' + n for n in PROP_FAST]) + K(*['c_prop::' + n for n in PROP_SLOW], thorough=True),
        contracts=PROP_FAST + PROP_SLOW + ['prop_motion', 'prop_pen'],
        functions=['Properties::perform_set_property, perform_change_property, perform_get_property (all properties except the combined pen colour, which is checked by execution), perform_clear_effects, perform_goto_xy', 'Properties::perform_forward, perform_point_towards_xy and the combined pen colour: checked by execution only (trigonometry and colour conversion are out of reach of the solver)'],
        trusted=['util::modulus is replaced by its contract in the proofs: called once with the value and 360, it yields some number in [0, 360) (that contract on the real function: num_mod, checked by execution)',
            'the relative changes of Size, PenSize, pen colour components, volume, balance and most effects take minutes each and are discharged in the thorough tier; the quick tier discharges those of position, heading and the colour effect and executes the others']),
    'I01': dict(level='proof', kani=K('c_idle::idle_step', 'c_idle::idle_work', 'c_idle::idle_trigger'), contracts=['idle_step', 'idle_work', 'idle_trigger'], functions=['IdleAction::new, consume, trigger']),
    'A01': dict(level='proof', verus=['slotmap', 'vecmap'],
        contracts=['slot_insert', 'slot_remove', 'slot_clear', 'slot_retain', 'slot_iter', 'vecmap_unsorted', 'vecmap_sorted'],
        functions=['SlotMap::new, insert, remove, clear, retain_mut, get, get_mut, len, is_empty, iter, iter_mut, into_iter and the next of the three iterators', TABLE_FNS[0]], trusted=['verus/slotmap.rs: slot generations and table sizes stay below 2^64; slice and vector iterators under enumerate yield each element once, in order', TABLE_TRUST[0]]),
    'K01': dict(level='exploration', contracts=['color_forward', 'color_backward', 'color_roundtrip']),
    'Y01': dict(level='exploration', explore=X('places'), kani=K('c_code::code_u64', 'c_code::code_u64_fixed', 'c_code::code_u64_total', 'c_code::code_i32', 'c_code::code_f64', 'c_code::code_small', 'c_code::code_len', 'c_code::code_instr_plain'),
        contracts=['code_u64', 'code_u64_fixed', 'code_u64_total', 'code_i32', 'code_f64', 'code_small', 'code_len', 'code_instr_plain', 'code_instr_values', 'code_instr_variadic', 'code_instr_ops', 'code_instr_flags', 'code_instr_addr', 'code_places'],
        functions=['encode_u64', 'decode_u64', 'BinaryRead/BinaryWrite for i32, f64, bool, usize, Color, VariadicLen', 'Instruction write/read (instructions without operands)', 'Locations::condense, lookup', 'ByteCode::compile, ErrorSummary::extract and Process::step on generated programs with locations']),
}
_TURN = ('Process::resume', 'Process::dispatch', 'Process::step', 'Process::new', 'Process::is_running')
_INTERP = { # property: (instructions, other functions)
    'P01': (('Call', 'CallClosure', 'ForkClosure', 'MakeClosure', 'Return'), ('prep_call_closure', 'Process::dispatch')),
    'T01': (('PushHandler', 'PopHandler', 'Throw', 'Return'), ('Process::dispatch', 'Process::step', 'Process::new', 'Process::is_running')),
    'W01': (('WarpStart', 'WarpStop', 'Yield', 'Return', 'Call', 'CallClosure', 'PushHandler', 'Pause'), ()),
    'S02': (('Abort',), ()),
    'S03': (('Clone', 'DeleteClone'), ()),
    'F01': (('Jump', 'ConditionalJump', 'PopValue', 'DupeValue', 'SwapValues', 'PushBool', 'PushInt', 'PushIntString', 'PushNumber', 'PushColor', 'PushString', 'ToBool', 'ToNumber', 'Pause'), ('Process::dispatch',)),
    'D01': (('CallRpc', 'Syscall', 'UnknownBlock', 'Ask', 'PushProperty', 'Print', 'SetProperty', 'ChangeProperty', 'StopSounds', 'ClearEffects', 'ClearDrawings', 'GotoXY', 'PointTowardsXY', 'Forward', 'Goto', 'PointTowards', 'PlaySound', 'PlayNotes', 'SetCostume', 'NextCostume', 'PushCostume', 'PushCostumeNumber', 'PushCostumeProperty', 'PushCostumeList', 'PushSoundList', 'PushSoundProperty', 'PushRpcError', 'PushSyscallError', 'PushAnswer'), ('process_result', 'Process::resume')),
    'U01': (('Sleep', 'ResetTimer', 'PushTimer', 'PushRealTime'), ('Process::resume',)),
    'B01': (('SendLocalMessage', 'PushLocalMessage'), ('Process::resume',)),
    'R01': (('SendNetworkReply', 'SendNetworkMessage'), ('Process::resume',)),
    'L01': (('ListGet', 'ListGetLast', 'ListGetRandom', 'ListInsert', 'ListInsertLast', 'ListInsertRandom', 'ListAssign', 'ListAssignLast', 'ListAssignRandom', 'ListRemove', 'ListRemoveLast', 'ListRemoveAll', 'ListPopFirstOrElse', 'ListLength', 'ListIsEmpty', 'ListFind', 'ListContains'), ()),
    'L02': (('ListCons', 'ListCdr', 'ListRev', 'ListLines', 'ListRank', 'ListDims', 'ListFlatten', 'ListReshape', 'ListColumns', 'ListCartesianProduct', 'ListCsv', 'ListJson', 'VariadicOp'), ('Process::combine', 'combine_as_binary', 'combine_by_relation')),
    'V01': (('PushVariable', 'PushSelf', 'PushEntity', 'DeclareLocal', 'Assign', 'InitUpvar', 'MakeClosure', 'Watcher', 'BinaryOpAssign'), ('Shared::set', 'Shared::alias', 'Shared::alias_inner', 'prep_call_closure')),
    'C01': (('Cmp', 'Identical', 'TypeQuery'), ('Value::as_bool', 'Value::as_list', 'Value::as_closure', 'Value::as_entity')),
    'L03': (('BinaryOp', 'UnaryOp'), ()),
}
for _p, (_a, _f) in _INTERP.items(): V(_p, I(*_a, fns=_f), functions=IF(*_a, fns=_f), trusted=INTERP_TRUST)
_LISTS = { # property: functions of mod ops
    'L01': ('index_list', 'unary_op_impl', 'as_list', 'prep_index_set', 'set_impl', 'prep_rand_index', 'find', 'cmp_impl', 'check_relation', 'cmp'),
    'L02': ('flatten', 'flatten_impl', 'dimensions', 'dimensions_impl', 'reshape', 'reshape_impl', 'columns', 'cartesian_product', 'cartesian_product_impl'),
    'L03': ('unary_op', 'binary_op', 'unary_op_impl', 'binary_op_impl', 'as_list', 'as_matrix'),
    'N01': ('unary_op', 'binary_op'),
    'C01': ('cmp_impl', 'cmp', 'check_relation', 'identical', 'find'),
}
LISTS_TRUST = ['verus/lists.rs: what a list holds is fixed while one list operation runs (the operations write to no list that existed before; new lists are made with their content); two lists are at one place only if they are the same list (what Value::identity reads)',
    'verus/lists.rs: BTreeSet, BTreeMap, VecDeque used at its back, slice iterators, split_first, max and cycle are modelled from the documentation of the standard library; allocation always succeeds; recursion is not shown to end and its depth is not bounded',
    'verus/lists.rs: prep_index, the order of numbers and of texts without regard to case, and reading and writing numbers are uninterpreted (the Kani and native contracts index_*, cmp_* and text_* are about them); for unary_op_impl and binary_op_impl a scalar operation is any function',
    'verus/lists.rs, unary_op and binary_op: the arithmetic of Number and libm are uninterpreted functions (the contracts num_* are about them), so are grapheme clusters, words, lines and parts of a text, code points and what CSV and JSON texts stand for; the bodies of the blocks Range, Random, UnicodeToChar and of the JSON parser are left out']
for _p, _f in _LISTS.items(): V(_p, 'lists:' + ','.join('ops::' + x for x in _f), functions=['ops::' + ', '.join(_f) + ' (verus/lists.rs, every list graph: cycles and sharing included)'], trusted=LISTS_TRUST)
V('J01', 'lists:Value::simplify,Value::to_simple,Value::from_simple,SimpleValue::into_json,SimpleValue::from_json,SimpleValue::into_netsblox_json,SimpleValue::from_netsblox_json',
    functions=['Value::to_simple, from_simple; SimpleValue::into_json, from_json, into_netsblox_json, from_netsblox_json (verus/lists.rs; lemmas there_and_back, there_and_back_media, twins_stand, never_void: what is written is read back as it was)'],
    trusted=LISTS_TRUST[:2] + ['verus/lists.rs: serde_json numbers are finite doubles read back as written, objects are their members in order; Number::new accepts exactly the finite doubles (contract num_new); the texts of costumes and sounds (into_netsblox_json, from_netsblox_json: the arms for images, sounds and texts) are replaced by opaque writers and a reader and left to the native contracts'])
V('X01', 'init', functions=['GlobalContext::from_init, get_value (verus/init.rs: globals, fields, costumes, sounds, worn costume and properties as described; one new list per described list, filled as described, shared and cyclic ones included; nothing that existed is touched)'],
    trusted=['verus/init.rs: the description is consistent (references exist; costumes are images, sounds are sounds: made so by the compiler); VecMap and SymbolTable have the contracts that verus/vecmap.rs discharges; pen colour (to_hsva), default properties, the start time and the state made by the environment are opaque'])
V('X01', 'desc', functions=['ByteCode::extract_init_info: register_ref_values, get_value (verus/desc.rs: every value of a project, of any depth, is described as it is: references and named lists by the one slot of their name, texts, costumes and sounds by a slot with their content, every unnamed list by a slot no other value has; what is written stays)'],
    trusted=['verus/desc.rs: values are as netsblox-ast 0.5.14 declares them; a name is given to one list (the code asserts it); BTreeMap and Rc::as_ptr behave as documented (at an address lies what the reference holds); Number::new keeps the value it accepts (proved under N01)'])
V('L02', 'csv', functions=['ops::from_csv, ops::to_csv with process_scalar, process_vector, process_table; Value::as_text (verus/csv.rs: every text is read as the format says or refused, every list is written as the format says; lemmas there_and_back, nothing_written: what is written for a table is read as that table)'],
    trusted=['verus/csv.rs: what a list holds is fixed while it is written; a new list is made with its content; str::chars, any and compact strings are modelled from the documentation; the text of a number is uninterpreted (contract text_*); reading is not shown to end'])
for _p in ('P01', 'R01', 'D01'):
    V(_p, 'names', functions=['LosslessJoin::new, push, finish; lossless_split (verus/names.rs: for any names without NUL, as many as there are and empty ones included, what is joined is split into the same names in the same order; splitting a text without names gives none)'],
        trusted=['verus/names.rs: str::split, chars, Iterator::skip and CompactString::push, push_str behave as documented; a byte of a text is zero exactly where a character of it is NUL'])
V('Y01', 'places', functions=['encode_u64, decode_u64 (verus/places.rs: any number, any buffer before and after), LocationTokenizer::new, next, Locations::condense, lookup (whatever table condense accepts, lookup names for every position the first block that ends after it, character by character as the compiler handed it over)'],
    trusted=['verus/places.rs: BTreeMap, str (find, split_at, parse), partition_point, Peekable and Display of integers are modelled from the documentation of the standard library; a location is shorter than 2^30 characters; 64-bit platform; that ordinary locations are not refused is left to the native contract and the oracle'])
for _p in ('V01', 'S03', 'X01'): V(_p, 'vecmap', functions=TABLE_FNS, trusted=TABLE_TRUST)
for _p in PROPS.values():
    for _k in ('kani', 'contracts', 'explore', 'functions', 'trusted', 'assumptions'): _p.setdefault(_k, [])
    _p.setdefault('rule', RULE)
    _p.setdefault('note', 'see DESIGN.md')
