#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and in props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id: (title, statement, over, quantified over, why the tests cannot settle it, [(mechanism, where)], [(state, meaning, where)], [observation points])
P = {
'N01': ('Numbers stay finite, normal and exact to IEEE-754',
 'Every arithmetic block applied to numbers yields the IEEE-754 double nearest to the mathematical operation, or an error when that would not be a finite number; a program can never observe NaN, an infinity or a negative zero. Modulus takes the sign of the divisor, never exceeds it in magnitude, and is zero on multiples.',
 ['inputs', 'programs'], 'all pairs of finite doubles, all arithmetic, rounding and trigonometric blocks, and numeric text operands',
 'The tests evaluate a few dozen literal sums; the property quantifies over every pair of 64-bit floats and every operand type.',
 [('checked number construction', 'src/runtime.rs NumberChecker'), ('numeric operations', 'src/process.rs ops::binary_op, ops::unary_op'), ('floored modulus', 'src/util.rs modulus')], [], ['the value left by an expression, the error of the failing block']),
'N02': ('Numbers and text convert into each other without loss',
 'The text of a number read back as a number is the same number, for every finite number; a text is accepted as a number exactly when it is a decimal, hexadecimal, octal or binary literal or a decimal float, surrounding blanks ignored. A number displayed as text is never in a form the reader rejects.',
 ['inputs'], 'all finite doubles and all texts', 'Nine literals are printed in one unit test and a handful are parsed; the round trip ranges over all doubles and all strings.',
 [('number printing and parsing', 'src/runtime.rs SimpleValue::stringify_number, SimpleValue::parse_number'), ('conversions', 'src/runtime.rs Value::as_number, Value::as_text')], [], ['text and number conversions performed by any block']),
'M01': ('Musical notes denote exactly the valid MIDI pitches',
 'A numeric note value is accepted exactly when it is an integer from 0 to 127 and then denotes that pitch; a note name is accepted exactly when it spells a pitch in that range, and reading back the name of a pitch gives the same pitch. Marking a note as natural never changes its pitch, frequency or name-derived value.',
 ['inputs'], 'all numbers, all note names and all pitches', 'One test plays one melody; accepting every number and every spelling correctly is a statement about all inputs.',
 [('note construction', 'src/runtime.rs Note'), ('note operands', 'src/process.rs ops::prep_note')], [('Note', 'pitch byte with the natural mark in its top bit', 'src/runtime.rs Note')], ['notes handed to the play-notes command']),
'L01': ('List indices select exactly the item they name, or fail',
 'An index operand selects item i exactly when it converts to the integer i with 1 <= i <= n (insertion also allows n+1), and otherwise the block fails without changing the list. Insert, assign and remove change only the addressed positions, by reference, so every holder of the list sees the same result.',
 ['inputs', 'programs'], 'all index values of any type, all list lengths and contents, all sequences of list mutations, aliased lists included', 'Tests index a few short literal lists; the boundary conversion ranges over all doubles, texts and list lengths, and aliasing over all program shapes.',
 [('index conversion', 'src/process.rs ops::prep_index, ops::prep_index_set, ops::prep_rand_index'), ('list mutation instructions', 'src/process.rs ListInsert, ListAssign, ListRemove')], [('list', 'shared mutable sequence of values', 'src/runtime.rs Value::List')], ['lists after each block, errors']),
'L02': ('List structure blocks rearrange every item exactly as specified',
 'Flatten, reshape, columns, combinations, rank, dimensions, reversal, concatenation, split, lines, CSV and JSON conversion produce exactly the items their definition prescribes, in order, into a fresh list, leaving their operands unchanged; cyclic operands give an error rather than a hang. Writing a table as CSV and parsing the result gives the table back.',
 ['inputs', 'programs'], 'all nested list shapes, all cell texts with quotes, commas and line breaks, all dimension lists', 'Tests cover single shapes and strings each; ragged nesting, empty lists, embedded quotes and aliasing are unbounded.',
 [('structure operations', 'src/process.rs ops::flatten, reshape, columns, cartesian_product, dimensions, from_csv, to_csv'), ('text splitting', 'src/util.rs lossless_split')], [], ['result lists and texts']),
'L03': ('Scalar blocks map over lists of any shape elementwise',
 'A unary or binary scalar block applied to lists acts on corresponding items recursively (a scalar against a list acts on every item; two lists act pairwise to the shorter length) and yields fresh lists of that shape. Items shared or cyclic in the operands are shared or cyclic in the same way in the result, and the operands are unchanged.',
 ['inputs', 'programs'], 'all operand shapes, including shared and cyclic lists, for every scalar block', 'Tests lift a few blocks over one or two shapes; sharing and cycles appear in hardly any test.',
 [('lifting', 'src/process.rs ops::unary_op_impl, ops::binary_op_impl')], [], ['result lists and their identity']),
'C01': ('Comparison is total, typed and terminates on cyclic data',
 'Equality is reflexive and symmetric for all values and terminates on cyclic lists; text compares case-insensitively and numerically when both sides denote numbers; lists compare item by item. The six relational blocks agree with one another: less is the mirror of greater, at-most is less or equal, and unequal is the negation of equal.',
 ['inputs', 'programs'], 'all pairs of values of every type, shared and cyclic lists included', 'Tests compare a sample of literal pairs; agreement between relations is a statement over all pairs of values.',
 [('comparison', 'src/process.rs ops::cmp, ops::check_relation, ops::identical, ops::find')], [], ['results of relational blocks, index-of and contains']),
'V01': ('Variables resolve lexically and captures share storage',
 'A variable reference resolves to the innermost definition in order local, sprite field, global, and reading or writing touches that variable only. A closure shares the storage of each variable it captured with its creator and every other closure that captured it, while locals of separate calls are distinct; renamed or custom-block upvars alias the caller\'s variable.',
 ['programs', 'histories'], 'all programs with nested blocks, closures, upvars, clones and script-local declarations', 'Tests exercise a few fixed closures; capture and alias relations multiply with nesting and call depth.',
 [('scoped lookup', 'src/runtime.rs LookupGroup, SymbolTable'), ('shared storage', 'src/runtime.rs Shared'), ('closure creation and calls', 'src/process.rs MakeClosure, CallClosure')], [('Shared', 'unique value or aliased cell', 'src/runtime.rs Shared')], ['values read by any block']),
'P01': ('Calls and returns restore the caller exactly and respect the depth limit',
 'Calling a custom block or closure binds its parameters to the argument values, runs its body in a fresh scope with its own entity, and on return resumes the caller immediately after the call with the returned value (an empty text when there is none) and the caller\'s locals, pending operands, error handlers and warp state intact. A call that would exceed the configured depth fails with an error, and no other call does.',
 ['programs', 'histories', 'configurations'], 'all call graphs, recursion depths, limits, and positions of return statements inside loops, warp blocks and handlers', 'Tests run a few recursive functions; restoring the caller must hold for every interleaving of nested constructs with returns.',
 [('call and return instructions', 'src/process.rs CallFunction, CallClosure, Return'), ('call stack', 'src/process.rs CallFrame')], [('call stack', 'frames with return position, entity, locals and saved stack heights', 'src/process.rs CallFrame')], ['values and locals after each call, depth errors']),
'T01': ('Errors unwind to the innermost active handler and nowhere else',
 'An error raised by any block is delivered to the innermost enclosing handler whose protected code is still running, with the call depth, pending operands and warp state of the point where the handler was installed, and the handler sees the error text or thrown value. Without such a handler the script ends with that error and no other script is affected.',
 ['programs', 'fault_sequences'], 'all programs with nested try blocks, calls, loops, warp sections and returns, and all positions of a failing block', 'Tests throw from a few fixed depths; the unwinding point is a function of the whole dynamic history.',
 [('handler stack', 'src/process.rs PushHandler, PopHandler, Throw, error path of Process::step')], [('handler stack', 'position, stack heights, warp counter', 'src/process.rs Handler')], ['handler variables, error results of scripts']),
'W01': ('Warp sections never yield and nest',
 'While a script is inside a warp section it gives up its turn only for blocks that must wait on the environment; loops and calls inside do not yield, and leaving the last enclosing warp section (also by return, error or closure call) makes it yield again exactly as before. Warping in one script never affects another.',
 ['programs', 'schedules'], 'all nestings of warp sections, loops, calls, returns and errors, and all interleavings with other scripts', 'Tests check one warp counter; correct restoration depends on every way control leaves a section.',
 [('warp counter', 'src/process.rs WarpStart, WarpStop, Yield, Return')], [('warp counter', 'number of enclosing warp sections', 'src/process.rs Process')], ['turns given up by scripts']),
'D01': ('Each environment request is made once and answered once',
 'A block that asks the environment for something issues exactly one request with the evaluated operands, the script waits until the environment answers, and the answer is used exactly once in place of the block; other scripts continue meanwhile. A failing request raises an error or yields an error value according to the configured error scheme.',
 ['programs', 'schedules', 'fault_sequences', 'configurations'], 'all orders and delays of answers, refusals and failures of the environment, for every kind of request and command', 'Tests answer requests at once or after one fixed delay; the answer may arrive in any turn, in any order and fail at any point.',
 [('deferred operations', 'src/process.rs Defer, Process::step'), ('answer cell', 'src/runtime.rs AsyncResult'), ('request routing', 'src/runtime.rs Config::fallback, RequestStatus')], [('defer', 'the answer a script waits for', 'src/process.rs Process')], ['requests and commands received by the environment, values of blocks']),
'U01': ('Sleeps, timers and calendar queries follow the clock exactly',
 'A script that sleeps resumes at the first turn at or after its wake-up time and not before, whatever the duration, and sleeping never blocks other scripts; the timer reports the seconds since start or last reset. Calendar blocks report the current date fields in the documented ranges, and every clock block fails cleanly when the environment has no clock.',
 ['inputs', 'schedules', 'configurations'], 'all durations, clock readings, clock kinds and interleavings of sleeping scripts', 'Tests use one mocked clock; wake-up arithmetic ranges over all durations and clock values.',
 [('sleep and timer', 'src/process.rs Sleep, ResetTimer, Timer, PushTime'), ('clock values', 'src/runtime.rs SysTime')], [('timer start', 'instant the timer was last reset', 'src/runtime.rs GlobalContext')], ['turn in which a script resumes, timer values']),
'B01': ('Broadcast starts every matching receiver and waits for all of them',
 'Broadcasting a message starts one run of every script listening for it (restarting those already running it), in the targeted sprites only when targets are given, and no other script; each receiver sees the message data as sent. Broadcast-and-wait resumes after every receiver it started has ended, however it ended, and not before.',
 ['programs', 'schedules'], 'all sets of receivers, nested and self-directed broadcasts, receivers that end normally, by stop, error or restart', 'Tests use one sender and one receiver; the completion condition ranges over all ways and orders in which receivers end.',
 [('local messages', 'src/project.rs Project::step broadcast arm, src/process.rs SendLocalMessage'), ('completion barrier', 'src/runtime.rs Barrier, BarrierCondition')], [('barrier', 'held by each started run and by nothing else', 'src/runtime.rs Barrier')], ['runs of receivers, turn in which the sender resumes']),
'S01': ('The scheduler is fair and runs each trigger once',
 'Running scripts take turns in creation order, each advancing once per round, and a script that waits never holds up another. Each trigger (start, key, click, message) starts one run of each matching script, restarts or queues it as documented when it is already running, and a pending run starts as soon as its script is free; nothing is lost or run twice.',
 ['schedules', 'programs', 'histories'], 'all sequences of input events, messages, script lengths, waits and terminations', 'Tests run one or two scripts to the end; fairness and exactly-once are statements about all event histories.',
 [('process pool and queue', 'src/project.rs ProcessPool, Script, Project::step, Project::input'), ('script contexts', 'src/project.rs Script::consume_context')], [('process queue', 'running scripts in turn order', 'src/project.rs State')], ['order of effects, end of scripts']),
'S02': ('Stop blocks end exactly the scripts they name',
 'Stop-all ends every run including queued ones, stop-this ends the run executing it, stop-others and stop-my-others end the other runs (of the project or the sprite) and leave the executing one going, and stop-caller returns from the current block. No stopped script performs another block, and scripts can be triggered again afterwards.',
 ['programs', 'schedules', 'histories'], 'all combinations of running, waiting, queued and cloned scripts at the moment of the stop', 'Tests cover stop in a two-script project; the set of affected runs depends on the full scheduler state.',
 [('abort modes', 'src/process.rs Abort, src/project.rs Project::step abort arm, Project::input Stop')], [('process queue', 'running scripts', 'src/project.rs State')], ['effects after a stop']),
'S03': ('Clones copy state, run only their own hats and vanish completely',
 'A clone starts with a copy of its original\'s sprite variables, costume and environment state, runs each clone-start script once, reacts to triggers like its original, and changes to one never show in the other. Deleting a clone ends all its scripts and removes it; deleting an original does nothing.',
 ['programs', 'histories', 'schedules'], 'all cloning trees, deletions at any point and concurrent scripts of originals and clones', 'Tests clone once or twice with a fixed script; isolation and removal range over all cloning histories.',
 [('cloning', 'src/process.rs Clone, src/project.rs CreatedClone handling'), ('entity table', 'src/slotmap.rs SlotMap')], [('entities', 'live sprites by name or anonymous', 'src/runtime.rs GlobalContext')], ['state of sprites, runs of scripts']),
'R01': ('Network messages and replies pair up exactly',
 'Each incoming message is delivered once to every script listening for its type, with the listed fields bound to the message values; a reply sent by the script answers the message that started it, at most once. A message that waits for a reply resumes with the reply to that message, or with an empty text when none comes.',
 ['schedules', 'programs', 'fault_sequences'], 'all orders of incoming messages, replies, timeouts and concurrent handlers', 'The network tests cannot run without a server; pairing must hold for every interleaving of messages and replies.',
 [('message dispatch', 'src/project.rs Project::step message arm'), ('sending and replying', 'src/process.rs SendNetworkMessage, SendNetworkReply'), ('reply keys', 'src/runtime.rs ExternReplyKey, InternReplyKey')], [], ['messages and replies handed to the environment, message variables']),
'F01': ('Control flow executes each body exactly as often as prescribed',
 'Repeat, for, for-each, until and conditional blocks run their bodies the prescribed number of times with the prescribed loop variable values and bounds evaluated once, short-circuit operators evaluate only what they need, and higher-order blocks call their function once per item in order. Every environment command is issued with the evaluated operands in the documented positions.',
 ['programs', 'inputs'], 'all nestings of control blocks with arbitrary bounds, and all operands', 'Tests cover each loop with one literal bound; combinations of nesting, early exits and non-integer bounds are unbounded.',
 [('compilation of control blocks', 'src/bytecode.rs ByteCodeBuilder::append_stmt, append_expr'), ('jumps and duplication', 'src/process.rs Jump, ConditionalJump, DupeValue')], [], ['sequence of effects and commands']),
'J01': ('Values survive conversion to and from JSON and messages',
 'Every acyclic value made of booleans, numbers, texts and lists that leaves the VM as JSON or as a plain value comes back equal when converted in again; images and sounds survive the NetsBlox encoding with their bytes, name and centre; cyclic values and values that cannot leave give an error. Malformed input gives an error and never a panic.',
 ['inputs'], 'all values, nesting shapes, texts and byte contents, and all malformed encodings', 'Two tests convert a few literals; the round trip ranges over all values and the rejection over all JSON texts.',
 [('conversions', 'src/runtime.rs SimpleValue::into_json, from_json, into_netsblox_json, from_netsblox_json, Value::to_simple, Value::from_simple')], [], ['results of conversion functions and JSON blocks']),
'X01': ('A loaded project starts in exactly the state it describes',
 'After loading, every global, sprite field, costume, sound and active costume has the value the project describes, every sprite (and the stage) the place, direction (as an angle from 0 up to 360), size, visibility and colour it describes, and lists that were one shared list in the project are one shared list at run time, including self-containing lists. Loading the same project twice gives independent, identical states.',
 ['inputs', 'programs'], 'all project descriptions with arbitrary values, sharing and cycles in initial values', 'Tests load specific projects with few shared values; the initial heap shape is arbitrary.',
 [('initial values', 'src/bytecode.rs extract_init_info, src/runtime.rs GlobalContext::from_init')], [('InitInfo', 'initial values with references', 'src/bytecode.rs InitInfo')], ['state before the first turn']),
'E01': ('Sprite properties stay in range under every set and change',
 'Reading a property after setting it returns the value set, normalised to the property\'s documented range (headings modulo 360, colour components wrapped or clamped, transparency clamped, size not negative), and every other property is unchanged; changing a property by a delta equals setting it to the old value plus the delta. Moving forward, pointing and going to a position update position and heading accordingly.',
 ['inputs', 'histories'], 'all numbers, all properties and all sequences of sets, changes and moves', 'No unit test exercises the property store; the clamping ranges over all doubles.',
 [('property store', 'src/runtime.rs Properties::perform_set_property, perform_change_property, perform_get_property, perform_forward, perform_point_towards_xy')], [('Properties', 'position, heading, pen, effects of a sprite', 'src/runtime.rs Properties')], ['property values read back']),
'K01': ('Colours convert between RGBA and HSVA consistently',
 'Converting an 8-bit RGBA colour to hue, saturation, value and alpha gives components in their documented ranges, and converting back gives the same colour; any hue is taken modulo 360 and the other components are clamped, so no input produces an out-of-range or wrapped channel.',
 ['inputs'], 'all 2^32 colours and all floating-point component values', 'Two tests convert thirty literals each; the statement ranges over all colours.',
 [('colour conversion', 'src/runtime.rs Color::from_hsva, Color::to_hsva')], [], ['colour channel values']),
'I01': ('Idle time triggers the idle action at the threshold and not before',
 'The idle action runs exactly at the step that completes the configured number of consecutive idle steps (nothing to run, a yield, or a pause), counted since the last action or the last step that did work. It runs at no other step, unless triggered explicitly, which restarts the count.',
 ['histories', 'configurations'], 'all thresholds and all sequences of step results', 'No test covers the counter; it is a property of all step histories.',
 [('idle counter', 'src/project.rs IdleAction')], [('count', 'consecutive idle steps', 'src/project.rs IdleAction')], ['number of idle actions']),
'A01': ('Keyed collections never confuse, lose or resurrect entries',
 'A key returned by inserting into the entity and process tables keeps designating that entry until it is removed and never afterwards designates anything, even when its storage is reused; iteration visits exactly the live entries. Name-keyed maps return the last value stored under a name, and storing one name changes no other.',
 ['histories'], 'all sequences of insertions, removals, clears and lookups', 'The unit tests replay a few fixed histories; stale keys must be rejected after every possible history.',
 [('generational slot map', 'src/slotmap.rs SlotMap'), ('small maps', 'src/vecmap.rs VecMap')], [('slots', 'generation and value per slot, free list', 'src/slotmap.rs SlotMap')], ['lookups, lengths and iteration']),
'Y01': ('Compiled code decodes to what was encoded and reports true locations',
 'Every integer, float, text, colour and instruction operand written into compiled code reads back unchanged from any position, and decoding never reads beyond it. The location reported for a failing operation, and for each call it was made through, is the one given in the source program for that block or, where it has none, for the innermost located block around it.',
 ['inputs', 'programs'], 'all operand values and positions, and all programs with location annotations', 'Tests round-trip tens of integers; operand values, code sizes and location sets are unbounded.',
 [('variable-length encoding', 'src/bytecode.rs encode_u64, decode_u64, BinaryRead, BinaryWrite'), ('locations', 'src/bytecode.rs Locations')], [], ['decoded operands, error locations']),
}
FILES = {'src/' + f + '.rs' for f in ('runtime', 'process', 'bytecode', 'project', 'slotmap', 'vecmap', 'util')}
NA = json.load(open(os.path.join(V, 'run', 'na.json')))
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for i, (t, s, over, q, why, mech, st, obs) in P.items():
            assert len(t) <= 80, t
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=dict(
                files=sorted({w.split(' ')[0] for _, w in mech} | {w.split(' ')[0] for _, _, w in st}), mechanism=[dict(name=n, where=w) for n, w in mech],
                state=[dict(name=n, meaning=m, where=w) for n, m, w in st], observe_at=obs, hook_needed='access to private functions and fields for the contracts' if any(x.startswith('src/process.rs') or x.startswith('src/bytecode.rs') for _, x in mech) else None))) + '\n')
    checks = []
    for i in P:
        if i not in props.PROPS: continue
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 run/check.py {i} --tier quick', thorough_cmd=f'python3 run/check.py {i} --tier thorough',
            technique=p.get('technique', props.TECHNIQUE), level=p['level'], level_note=p['note']))
    m = dict(version=1, setup_cmd='python3 run/check.py --setup',
        hooks=dict(guard='cfg(nbvm_verif)', enable="RUSTFLAGS='--cfg nbvm_verif' with NBVM_VERIF_DIR pointing at a copy of /verif/hooks; set by run/check.py", source_commits=[]),
        checks=checks, not_applicable=[dict(property=i, reason=NA.get(i, 'not claimed yet: its contracts are not built')) for i in P if i not in props.PROPS])
    import subprocess
    m['hooks']['source_commits'] = [subprocess.run(['git', '-C', '/repo', 'rev-parse', c], capture_output=True, text=True).stdout.strip() for c in ('0779948', '4df8700')]
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
