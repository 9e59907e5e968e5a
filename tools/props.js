'use strict';
// Source of properties.jsonl and MANIFEST.json: node tools/props.js
const fs = require('fs'); const path = require('path');
const ROOT = path.join(__dirname, '..');
const P = [];
const add = (id, title, statement, over, text, why, files, mechanism, extra) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...(extra || {}) } });
const X = 'src/execution/';

add('C01', 'Programs compute what the WebAssembly specification says',
  'For every valid program within the supported instruction set, calling an exported function returns exactly the values, or traps exactly when, the WebAssembly specification says. Memory, globals and every other state the program can observe afterwards are the specified ones too. This holds however the instructions combine, not only for each instruction alone.',
  ['programs', 'inputs'], 'all valid modules of the supported features, all exported functions, all arguments, both dispatcher builds',
  'Tests run hand-written modules of a few instructions; the translation to register code folds operands, allocates registers and resolves branches over whole functions, so faults need combinations no test samples.',
  ['src/parser.rs', X + 'handlers.rs', X + 'runtime.rs', X + 'regs.rs', X + 'operand.rs', X + 'func.rs'],
  [['translation to register instructions with operand folding', 'src/parser.rs'], ['instruction handlers', X + 'handlers.rs'], ['frames and calls', X + 'runtime.rs']], { observe_at: ['result values', 'traps', 'memory', 'globals'], hook_needed: null });
add('C02', 'Numeric instructions are exact on every operand',
  'Every integer, floating-point, comparison and conversion instruction returns the result the WebAssembly specification defines for every combination of operand values, and traps exactly on the operands for which it must (division by zero, overflow, conversion out of range). The result does not depend on whether an operand is a constant, a local or computed, nor on whether the result goes to a local.',
  ['inputs', 'programs'], 'every numeric instruction, all operand bit patterns, every form in which operands and results are held',
  'Tests give each instruction a handful of operands, mostly in one operand form; boundary bit patterns and the many specialised operand forms are not reached.',
  [X + 'handlers.rs', X + 'operand.rs', X + 'value.rs', 'src/parser.rs'],
  [['arithmetic handlers and operand sources', X + 'handlers.rs'], ['operand folding', 'src/parser.rs']], { observe_at: ['result values', 'traps'] });
add('C03', 'Linear memory behaves as a byte array of the declared size',
  'Loads and stores of every width and signedness, bulk copy, fill and initialisation, size and growth act on one little-endian byte array exactly as specified: right address, width, extension and overlap behaviour, growth that keeps the contents, zeroes the new pages and respects the limit. No other byte changes. Accesses outside the memory trap and change nothing.',
  ['histories', 'inputs', 'programs'], 'all sequences of memory instructions with all addresses, offsets, widths, values and memory limits',
  'Tests use a few addresses in a one-page memory; they do not interleave growth, bulk operations and accesses near page and memory boundaries, nor compare the untouched bytes.',
  [X + 'mem.rs', X + 'handlers.rs', X + 'data.rs', 'src/parser.rs'],
  [['memory instance', X + 'mem.rs'], ['memory handlers', X + 'handlers.rs'], ['data segments', X + 'module.rs']], { observe_at: ['loaded values', 'whole memory', 'memory size', 'traps'] });
add('C04', 'Control transfers arrive where they should with the right values',
  'Branches, branch tables, conditionals, loops, returns and direct, indirect and recursive calls continue at the specified point, carry the specified operands in order whatever their number and types, and discard exactly what they should. Operands below them on the stack and the locals of every active frame are unaffected.',
  ['programs', 'inputs'], 'all nestings of blocks, loops, conditionals with parameters and results, all branch depths and table indices, all call shapes',
  'Tests exercise each construct nearly in isolation with zero or one value; multi-value transfers over live operands, through deep nests and out of the middle of expressions, are combinations they do not sample.',
  ['src/parser.rs', X + 'handlers.rs', X + 'runtime.rs', X + 'regs.rs'],
  [['branch resolution', 'src/parser.rs'], ['branch and call handlers', X + 'handlers.rs'], ['register windows of frames', X + 'regs.rs']], { observe_at: ['path taken', 'result values', 'globals'] });
add('C05', 'Tables, references and indirect calls follow the specification',
  'Tables are initialised from the element segments of the module, reading, writing and filling entries acts on exactly the named entries of the named table, and references keep their identity through locals, operands, parameters, results and selection. An indirect call invokes the function in the entry if and only if its type matches, and fails otherwise.',
  ['histories', 'programs', 'inputs'], 'all sequences of table and reference instructions over several tables and segments, all indices and types',
  'Tests read or write single entries of small tables; they do not follow references through many moves or mix segments, tables and indirect calls.',
  [X + 'table.rs', X + 'elem.rs', X + 'handlers.rs', X + 'module.rs', 'src/parser.rs'],
  [['table instance', X + 'table.rs'], ['table and reference handlers', X + 'handlers.rs'], ['element segments', X + 'module.rs']], { observe_at: ['which function answers', 'null tests', 'traps'] });
add('C06', 'Checkpoint and restore are invisible to the program',
  'If execution is stopped for a checkpoint at any instruction at which the request can be honoured, and resumed from the file in a fresh instance of the same module, then results, traps, memory, globals, tables and all further host interactions are those of the uninterrupted run. This holds for any number of successive checkpoints, at any call depth, and for later calls made on the restored instance.',
  ['schedules', 'programs', 'histories'], 'all programs, all instants of a checkpoint request, all chains of checkpoints and restores, both dispatcher builds',
  'No test takes a checkpoint at all; the state to save is spread over frames, registers, labels, memory, tables and segments, and any instant can catch any part of it live.',
  [X + 'migration.rs', X + 'runtime.rs', X + 'regs.rs', X + 'state.rs', X + 'mem.rs', X + 'table.rs'],
  [['serialised state', X + 'migration.rs'], ['resumption of frames', X + 'runtime.rs'], ['serialisable registers', X + 'regs.rs']], { state: [{ name: 'checkpoint file', meaning: 'the whole run-time state', where: 'checkpoint.bin' }], observe_at: ['results', 'memory', 'globals', 'host calls'], hook_needed: 'poll at every instruction instead of every 1024' });
add('C07', 'Checkpoint requests are honoured promptly, once, and only when enabled',
  'With checkpointing enabled, a request that is pending is looked for at least once in every 1024 executed instructions, counted across calls, loops and resumptions, whether or not the program uses the host interface; it then stops the run before the next instruction, is consumed, and exactly one checkpoint is written. Without checkpointing enabled no request is looked for, consumed or honoured, and a request is never honoured when none is pending.',
  ['schedules', 'programs', 'configurations'], 'all programs and all instants at which the request appears, enabled or not, first run or resumed run',
  'No test places a request; promptness is a bound over all programs.',
  [X + 'migration.rs', X + 'runtime.rs', X + 'dispatch_loop.rs', X + 'dispatch_tco.rs', X + 'state.rs', 'src/wasi/passthrough.rs'],
  [['poll with a throttling counter', X + 'migration.rs'], ['file probe', 'src/wasi/passthrough.rs']], { observe_at: ['host calls that probe for the request', 'checkpoint file', 'outcome of the run'], hook_needed: null });
add('C08', 'A failed save or a damaged checkpoint never passes for a good one',
  'If saving a checkpoint fails or is cut short at any host operation, the checkpoint file afterwards is the previous one, untouched, or the complete new one, and a failure that the host reports is reported to the caller. Restoring from a missing, truncated or malformed file is refused with an error before any instruction of the program runs.',
  ['crash_points', 'fault_sequences', 'inputs'], 'all host operations of a save as crash or fault points, all truncations and malformed files',
  'No test saves or loads a checkpoint, let alone with failing host operations.',
  [X + 'migration.rs', X + 'runtime.rs', 'src/error.rs'],
  [['write to a temporary file and rename', X + 'migration.rs'], ['deserialisation', X + 'migration.rs']], { observe_at: ['file contents after each crash point', 'reported outcome'], hook_needed: 'poll at every instruction instead of every 1024' });
add('C09', 'A checkpoint resumes identically on every build of the interpreter',
  'A checkpoint written by one build of the interpreter (tail-call or loop dispatcher, with or without instrumentation) can be resumed by any other build of the same version, with the results of the uninterrupted run, including when execution migrates back and forth several times.',
  ['configurations', 'schedules', 'programs'], 'all ordered pairs and chains of builds, all programs, all checkpoint instants',
  'No test takes a checkpoint, and every test is compiled in one configuration.',
  [X + 'migration.rs', X + 'runtime.rs', X + 'dispatch_loop.rs', X + 'dispatch_tco.rs', X + 'handlers.rs'],
  [['positions stored as instruction indices common to both dispatchers', X + 'handlers.rs'], ['handler arrays rebuilt on restore', X + 'migration.rs']], { observe_at: ['results', 'memory', 'globals', 'host calls'], hook_needed: 'poll at every instruction instead of every 1024' });
add('C10', 'The two dispatchers are observationally identical',
  'For every program and input, the tail-call build and the loop build produce bit-identical results, the same kind of failure at the same point, the same memory and globals, and the same sequence of host calls.',
  ['programs', 'inputs', 'configurations'], 'all programs, inputs and host behaviours, on both builds',
  'The tests are compiled for one dispatcher only.',
  [X + 'dispatch_loop.rs', X + 'dispatch_tco.rs', X + 'handlers.rs', X + 'runtime.rs'],
  [['one handler set used by both dispatchers', X + 'handlers.rs']], { observe_at: ['result bits', 'failure kind', 'memory', 'host-call log'] });
add('C11', 'Host calls of the program reach the host unchanged, and answers come back',
  'Every WASI call a program makes is performed on the host with the same arguments, against the same strings and buffers of the memory of the program, and the error code, the output values and the bytes written back are those the host gave. Apart from the calls of the program the interpreter makes no call that the program can observe.',
  ['programs', 'histories', 'inputs'], 'all sequences of WASI calls with all arguments for which pointers lie in memory, on all file-system states',
  'Tests run fixed programs with fixed arguments on one directory; they do not compare each call and each output byte with a direct execution.',
  ['src/wasi/passthrough.rs', 'src/wasi/types.rs', 'src/wasi/error.rs', X + 'runtime.rs', 'src/parser.rs'],
  [['pass-through of each function with translated pointers', 'src/wasi/passthrough.rs']], { observe_at: ['host-call log', 'error codes', 'memory', 'file system', 'streams'] });
add('C12', 'Statistics and tracing never change what a program does',
  'Building with statistics or tracing, and enabling them with any selection of events and resources, changes neither results, failures, memory, globals nor the host interaction of any program, other than the report written to its own destination.',
  ['configurations', 'programs', 'inputs'], 'all programs and inputs, all builds and settings of the instrumentation',
  'No test builds with the instrumentation.',
  [X + 'trace.rs', X + 'stats.rs', X + 'state.rs', X + 'runtime.rs'],
  [['instrumentation calls around handlers', X + 'state.rs']], { observe_at: ['results', 'memory', 'globals', 'host-call log'] });
add('C13', 'Traces and statistics report exactly what was executed',
  'The trace lists exactly the executed instructions of the selected event kinds, in order, with the current values of the selected resources; the statistics count exactly the executed instructions, by kind.',
  ['programs', 'configurations', 'inputs'], 'all programs, inputs and selections of events and resources',
  'No test enables tracing or statistics.',
  [X + 'trace.rs', X + 'stats.rs', X + 'state.rs'],
  [['event classification and filters', X + 'trace.rs'], ['counters', X + 'stats.rs']], { observe_at: ['trace lines', 'statistics report'] });
add('C14', 'A module that is not valid is refused before anything of it runs',
  'Given any byte string as program file, the command-line program refuses it with an error and without any effect of the program if it is not a valid WebAssembly module, and otherwise runs it as specified or refuses it as unsupported.',
  ['inputs'], 'all byte strings, in particular damaged and truncated valid modules',
  'Tests load well-formed modules only.',
  ['src/parser.rs', 'src/main.rs', 'src/structure/module.rs', X + 'module.rs'],
  [['validation before loading', 'src/main.rs'], ['section decoding', 'src/parser.rs']], { observe_at: ['exit status', 'stdout and stderr', 'host calls'] });
add('C15', 'The command line runs the requested function with the given arguments',
  'The program runs the start function and then the exported function named on the command line with the given typed parameters, passes the program file and application arguments to the program as its argument vector, and prints the last result. An unknown function and parameters that are malformed or of a wrong number or type are reported and nothing of the function runs. A checkpointed run reports that it stopped, and a run started from a checkpoint with the restore option continues it and prints the result of the uninterrupted run.',
  ['inputs', 'configurations', 'histories'], 'all combinations of options, parameter values, argument strings and programs',
  'No test runs the binary.',
  ['src/main.rs', X + 'runtime.rs', X + 'migration.rs', 'src/wasi/passthrough.rs'],
  [['option parsing', 'src/main.rs'], ['parameter parsing', 'src/main.rs'], ['argument vector', 'src/wasi/passthrough.rs']], { observe_at: ['stdout', 'stderr', 'exit status', 'what the program sees'] });
add('C16', 'Instantiation establishes exactly the state the module declares',
  'A fresh instance has the declared memory size, contents, globals, tables and exports: data and element segments are applied in order at their offsets, globals have their initial values, everything else is zero or null, and every export names the entity it declares. Modules whose active segments do not fit are refused.',
  ['programs', 'inputs'], 'all combinations of imports, types, functions, memories, globals, tables, segments and exports',
  'Tests instantiate small modules with one or two segments; index spaces with imports, many segments, overlapping segments and all initialiser kinds are not sampled.',
  ['src/parser.rs', X + 'module.rs', X + 'mem.rs', X + 'table.rs', X + 'global.rs', X + 'data.rs', X + 'elem.rs'],
  [['section decoding', 'src/parser.rs'], ['instantiation', X + 'module.rs']], { observe_at: ['memory', 'globals', 'table entries', 'export lookups'] });
add('C17', 'An instance is one consistent state machine across calls and failures',
  'Any sequence of calls on an instance, including calls that trap half way and calls of every export in any order, leaves exactly the state that the effects of the executed instructions add up to, and each call depends only on that state and its arguments. Calling an unknown export, or passing arguments of a wrong number or type, fails without effect.',
  ['histories'], 'all sequences of calls, with failing calls anywhere in them',
  'Tests make single calls on fresh instances and do not continue after a failure.',
  [X + 'runtime.rs', X + 'module.rs', X + 'state.rs', X + 'handlers.rs'],
  [['one machine state per call over shared instance state', X + 'runtime.rs']], { observe_at: ['results of every call', 'memory and globals after every call'] });
add('C18', 'How long a program runs is limited by the program only',
  'Loops, calls and recursion of any length run to completion with the result the specification gives. Neither the host stack nor the memory the interpreter itself needs grows with the number of executed instructions, iterations or completed calls, whichever instructions they consist of.',
  ['programs', 'histories'], 'all loop bodies and call patterns, any number of iterations, both dispatcher builds',
  'Tests run at most some hundred instructions, so a leak of a few bytes or one host frame per executed instruction stays invisible.',
  [X + 'handlers.rs', X + 'dispatch_tco.rs', X + 'dispatch_loop.rs', X + 'runtime.rs', X + 'regs.rs'],
  [['tail calls from handler to handler', X + 'handlers.rs'], ['frames released on return', X + 'runtime.rs'], ['register files truncated on return', X + 'regs.rs']], { observe_at: ['results', 'outcome of long runs', 'memory size of the interpreter instance'] });

const fixed = {
  technique: {
    C01: 'property-based testing: typed random programs, differential against V8',
    C02: 'property-based testing: operand forms x bit patterns, differential against V8',
    C03: 'property-based testing: random memory histories, differential against V8 on whole memory',
    C04: 'property-based testing: random structured control flow, differential against V8 on a path hash',
    C05: 'property-based testing: random table and reference histories, differential against V8',
    C06: 'property-based testing: random programs x checkpoint schedules, metamorphic (interrupted = uninterrupted) and differential against V8',
    C07: 'property-based testing: random programs x request instants, invariant over the host-call history',
    C08: 'fault injection at every host call of a save and generated malformed files, invariant over the file system',
    C09: 'property-based testing: migration chains across builds, metamorphic and differential against V8',
    C10: 'property-based testing: differential between the two builds',
    C11: 'property-based testing: random WASI histories on a model host, differential against direct execution by V8',
    C12: 'property-based testing: metamorphic, instrumented = uninstrumented',
    C13: 'property-based testing: traces against an event log of an instrumented copy of the program run by V8',
    C14: 'fuzzing: structure-aware mutation of module files, differential against V8 validation',
    C15: 'property-based testing: random command lines against a model and V8',
    C16: 'property-based testing: random module layouts, differential against V8',
    C18: 'property-based testing: random loop bodies run long, differential against V8, invariant on the memory of the interpreter',
    C17: 'stateful property-based testing: call histories with failures, differential against V8',
  },
};
const NOTES = {
  hook: 'Uses the guarded hook, which only removes the 1-in-1024 throttle of the request poll.',
};
fs.writeFileSync(path.join(ROOT, 'properties.jsonl'), P.map(p => JSON.stringify(p)).join('\n') + '\n');
const have = P.filter(p => fs.existsSync(path.join(ROOT, 'checks', p.id + '.js')));
const man = {
  version: 1,
  setup_cmd: 'bash ./setup.sh',
  hooks: { guard: 'cfg(chiwawa_verif)', enable: "RUSTFLAGS='--cfg chiwawa_verif' (build.sh does this for the -p1 builds)", source_commits: ['31613ce'] },
  checks: have.map(p => {
    const c = require(path.join(ROOT, 'checks', p.id + '.js'));
    return { property: p.id, quick_cmd: `./check.sh ${p.id} quick`, thorough_cmd: `./check.sh ${p.id} thorough`, technique: fixed.technique[p.id], level: p.id === 'C08' ? 'fault_enumeration' : 'exploration', level_note: (c.note || '') + (c.note ? ' ' : '') + 'Random exploration: it shows the presence of violations, not their absence. Trusted: ' + (c.assumptions || []).join('; ') + '.' };
  }),
  not_applicable: P.filter(p => !have.includes(p)).map(p => ({ property: p.id, reason: 'check not built yet' })),
  notes: 'Every check builds what it needs from /repo\'s working tree for wasm32-wasip1 (build.sh) and runs it in V8 (node) on a deterministic in-memory WASI host. DESIGN.md describes each check.',
};
fs.writeFileSync(path.join(ROOT, 'MANIFEST.json'), JSON.stringify(man, null, 1) + '\n');
for (const p of P) if (p.title.length > 80) console.log('title too long', p.id, p.title.length);
console.log(have.length, 'checks');
