#!/usr/bin/env python3
# Writes properties.jsonl (the one place where the property texts are edited).
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=hook)))
L = 'src/lib/'
NJ = 'The 59 existing tests run one native-module script with fixed values; they never exercise this, and no list of samples covers '
p('C01', 'Operators, conversions and evaluation order follow ECMAScript',
  'Every unary, binary, logical, assignment, update and optional-chaining operator applied to any combination of language values yields exactly the value or the error type ECMAScript prescribes. User-supplied conversion hooks and accessors inside the operands are called exactly the prescribed number of times in the prescribed order.',
  ['inputs', 'programs'], 'all operators over all pairs (and, for order, triples) of operand values of every type, including objects with conversion hooks that log, return wrong types or throw',
  NJ + 'all operand combinations.', [L+'rjs_operation.c', L+'rjs_bc_call.c', L+'rjs_bc_gen.c', L+'rjs_value.c', L+'rjs_number.c', L+'rjs_string.c'],
  [('abstract operations ToPrimitive/ToNumeric/IsLooselyEqual/relational compare', L+'rjs_operation.c'), ('expression code generation', L+'rjs_bc_gen.c:bc_gen_expr')])
p('C02', 'Abrupt completions: finally, labels, loops and switch transfer control right',
  'For every nesting of blocks, loops, labels, switch, try/catch/finally and functions, each break, continue, return and throw runs exactly the finally blocks, loop updates and iterator closes between it and its target, in order, and leaves with the completion ECMAScript prescribes. A throw or return inside finally overrides the pending completion; everything else restores it.',
  ['programs'], 'all statement trees of the grammar up to a size bound, each run with every choice of which abrupt statement fires when',
  NJ + 'the nestings of control structures and exits.', [L+'rjs_bc_gen.c', L+'rjs_bc_call.c', L+'rjs_native_stack.c'],
  [('jump and finally code generation, completion save and restore', L+'rjs_bc_gen.c'), ('state stack unwinding', L+'rjs_native_stack.c:rjs_state_deinit')])
p('C03', 'Scopes: every name resolves to the right binding with the right lifetime',
  'In every combination of var, let, const, class, function, parameter, catch, with, named-function and eval declarations, each reference reads or writes exactly the binding ECMAScript resolves it to, including per-iteration loop bindings captured by closures, hoisting, shadowing, deletion and bindings added at run time. Access before initialization, assignment to constants and conflicting declarations raise the prescribed error at the prescribed time.',
  ['programs'], 'all small programs over nested scope forms, declaration kinds and reference kinds for one or two colliding names, including sloppy and strict code and direct and indirect eval',
  NJ + 'combinations of scope forms; binding caches make the result depend on earlier executions of the same code.',
  [L+'rjs_environment.c', L+'rjs_decl_env.c', L+'rjs_function_env.c', L+'rjs_global_env.c', L+'rjs_object_env.c', L+'rjs_bc_gen.c', L+'rjs_eval_opt.c', L+'rjs_code_gen_inc.c', L+'rjs_function.c', L+'rjs_script.c'],
  [('environment chain lookup', L+'rjs_environment.c'), ('binding cache and its invalidation', L+'rjs_environment.c:rjs_env_disable_cache'), ('declaration instantiation', L+'rjs_function.c, '+L+'rjs_script.c, '+L+'rjs_eval_opt.c')])
p('C04', 'The parser accepts exactly the ECMAScript language',
  'Every source text is accepted as a script or module if and only if ECMAScript accepts it (the optional legacy syntax of its Annex B left aside): automatic semicolon insertion, regular expression versus division, cover grammars, reserved and contextual words and early errors included. Rejected text raises SyntaxError without running any of it.',
  ['inputs'], 'all token sequences up to a length bound over an alphabet of tokens, inside several contexts (script, function, generator, async, class, strict, module), and all character sequences up to a bound for the lexical grammar',
  NJ + 'source texts; a parser has no natural list of representative inputs.', [L+'rjs_parser.c', L+'rjs_lex.c', 'gen/ast/ast.json', 'gen/lextab/lextab.c', L+'rjs_regexp.c'],
  [('recursive descent parser and cover grammar conversion', L+'rjs_parser.c'), ('lexer', L+'rjs_lex.c')])
p('C05', 'Iterator protocol and destructuring: steps, closing and defaults in order',
  'Every construct that consumes an iterator or destructures a value (for-of, spread, array and object patterns in all positions, yield*, collection constructors, from-style and promise combinators) calls next, return and value access exactly as often and in the order ECMAScript prescribes. Whatever step of the iterator, target, default or body completes abruptly or misbehaves, the iterator is closed exactly when prescribed and the right error surfaces.',
  ['programs', 'fault_sequences'], 'all consumers and patterns up to a bound against an instrumented iterator, with a fault (throw, non-object, missing method) injected at every step',
  NJ + 'the step at which an iterator can fail.', [L+'rjs_iterator.c', L+'rjs_native_stack.c', L+'rjs_bc_gen.c', L+'rjs_for_in_iterator.c'],
  [('iterator step and close', L+'rjs_iterator.c'), ('destructuring state', L+'rjs_native_stack.c:rjs_iter_state_step')])
p('C06', 'Generators: every request sequence resumes at the right place',
  'For every generator body, any sequence of next, throw and return requests yields the results, runs the finally blocks and ends in the state ECMAScript prescribes, including requests to a running or finished generator and delegation with yield* to generators and hand-written iterators. Values on the operand stack, loop iterators, arguments and scopes survive each suspension.',
  ['histories', 'programs'], 'all request sequences up to a depth on all bodies of a grammar that places yield in every expression and statement position',
  NJ + 'request histories.', [L+'rjs_generator_opt.c', L+'rjs_context.c', L+'rjs_native_stack.c', L+'rjs_bc_gen.c', L+'rjs_bc_call.c'],
  [('generator state machine', L+'rjs_generator_opt.c'), ('generator context with own native stack', L+'rjs_context.c:rjs_generator_context_push')])
p('C07', 'Promises and async functions: settlement and job order are exact',
  'For every program of promise, thenable and async-function operations, reactions run exactly once, never synchronously, and in the total order ECMAScript prescribes, with the prescribed values and errors. A promise settles at most once whatever its resolvers are called with, and combinators deliver the prescribed results even over misbehaving thenables and constructors.',
  ['programs', 'schedules'], 'all small programs of promise operations, awaits in every position and combinator inputs; the observable job interleaving of each',
  NJ + 'orderings of jobs.', [L+'rjs_promise.c', L+'rjs_promise_object_inc.c', L+'rjs_async_function_opt.c', L+'rjs_job.c', L+'rjs_bc_gen.c'],
  [('promise state and reaction lists', L+'rjs_promise.c'), ('job queue', L+'rjs_job.c'), ('await', L+'rjs_generator_opt.c, '+L+'rjs_async_function_opt.c')])
p('C08', 'Async generators serve queued requests one at a time, in order',
  'For every async generator body, any sequence of next, throw and return requests made at any moment, also while earlier ones are pending, is served strictly in order, and each request promise settles with the result and at the job tick ECMAScript prescribes. This includes await, yield of promises and rejections, yield* over async and sync iterators, for-await closing, and requests after completion.',
  ['histories', 'schedules'], 'all request sequences up to a depth, issued at once or after each settlement, on all bodies of a small grammar',
  NJ + 'request histories and interleavings.', [L+'rjs_generator_opt.c', L+'rjs_iterator.c', L+'rjs_bc_gen.c', L+'rjs_native_stack.c'],
  [('async generator request queue', L+'rjs_generator_opt.c:rjs_async_generator_drain_queue'), ('async-from-sync iterator', L+'rjs_iterator.c')])
p('C09', 'Functions and classes: this, super, private members and arguments are exact',
  'Calls and constructions of every kind of function and class bind this, new.target, super, arguments and home objects as ECMAScript prescribes, and class definitions evaluate keys, heritage, methods, accessors, fields, private members and static blocks in order with the prescribed brand checks. Private members are reachable only through their own class body and fail with TypeError on every other object.',
  ['programs'], 'all combinations of function kinds, call forms and parameter shapes, and all class bodies of up to a bound of elements with all uses',
  NJ + 'combinations of class elements and call forms.', [L+'rjs_function.c', L+'rjs_script_func_object.c', L+'rjs_private_name_opt.c', L+'rjs_native_stack.c', L+'rjs_arguments_object.c', L+'rjs_bound_func_object_opt.c', L+'rjs_function_env.c', L+'rjs_function_object_inc.c'],
  [('class state', L+'rjs_native_stack.c:rjs_class_state_init'), ('private environment', L+'rjs_private_name_opt.c'), ('call and construct', L+'rjs_script_func_object.c'), ('mapped arguments', L+'rjs_arguments_object.c')])
p('C10', 'Property definition, lookup and key order hold on every object kind',
  'For every object kind (ordinary, array, arguments, string, typed array, function, bound) and every history of define, set, delete, freeze, seal, preventExtensions and prototype changes, each operation succeeds, fails or throws as ECMAScript prescribes and afterwards attributes, values, prototype-chain lookups and own-key order are exactly as prescribed. Object and Reflect functions report the same facts.',
  ['histories', 'inputs'], 'all pairs of current and requested property descriptors on every object kind, and all operation histories up to a depth over a small set of keys',
  NJ + 'operation histories; storage switches representation with the number and order of keys.', [L+'rjs_object.c', L+'rjs_array.c', L+'rjs_arguments_object.c', L+'rjs_primitive_object.c', L+'rjs_int_indexed_object_opt.c', L+'rjs_object_object_inc.c', L+'rjs_reflect_object_inc.c', L+'rjs_rbt.c', L+'rjs_hash.c', L+'rjs_for_in_iterator.c'],
  [('ValidateAndApplyPropertyDescriptor', L+'rjs_object.c:validate_and_apply_property'), ('array item vector and red-black tree', L+'rjs_object.c:prop_vec_to_rbt'), ('property hash and insertion list', L+'rjs_object.c:prop_add')])
p('C11', 'Array built-ins are right on dense, sparse and array-like receivers',
  'Every Array function, on every dense, holey, sparse, frozen or array-like receiver and every in-range, negative, fractional or huge argument, returns the value and leaves the receiver in the state ECMAScript prescribes, including holes, length, species, callback order and mutation during the call. Sorting is stable and terminates for every comparator.',
  ['inputs', 'histories'], 'all receivers up to a length bound over holes and values, all argument combinations from boundary sets, and all sequences of mutators up to a depth',
  NJ + 'receivers and argument combinations.', [L+'rjs_array_object_inc.c', L+'rjs_array.c', L+'rjs_object.c', L+'rjs_sort.c'],
  [('Array.prototype functions', L+'rjs_array_object_inc.c'), ('length and index maintenance', L+'rjs_array.c:array_set_length')])
p('C12', 'Proxies enforce every invariant and forward everything else unchanged',
  'For each of the thirteen internal operations, a proxy calls its trap with the prescribed arguments, uses the result exactly as prescribed, and throws TypeError precisely when the result contradicts the invariants of the target. Without a trap the operation behaves as on the target, and after revocation every operation throws TypeError.',
  ['inputs'], 'all operations x all target property and extensibility states x all trap results of a boundary set, nested proxies and revocation',
  NJ + 'the product of target states and trap results.', [L+'rjs_proxy_object_opt.c', L+'rjs_proxy_object_inc.c', L+'rjs_object.c'],
  [('proxy internal methods', L+'rjs_proxy_object_opt.c')])
p('C13', 'Map, Set and weak collections keep order and identity through any history',
  'After every history of insertions, deletions, clears and live iterations, interleaved in any way, a Map or Set contains exactly the entries prescribed in insertion order under SameValueZero, and every live iterator or forEach visits each entry exactly as prescribed. WeakMap and WeakSet report membership by identity and reject invalid keys.',
  ['histories'], 'all operation histories up to a depth over keys chosen to collide and compare specially (NaN, zeros, equal strings, objects), with up to two live iterators advanced at every point',
  NJ + 'operation histories.', [L+'rjs_hash_object_inc.c', L+'rjs_map_object_inc.c', L+'rjs_set_object_inc.c', L+'rjs_weak_map_object_inc.c', L+'rjs_weak_set_object_inc.c', L+'rjs_hash.c'],
  [('hash object with entry list and live iterators', L+'rjs_hash_object_inc.c')])
p('C14', 'Typed arrays, DataView and buffers: conversion, bounds and detachment',
  'Every read, write and method on typed arrays, DataViews and array buffers converts values, orders bytes, clamps, bounds-checks and copies overlapping ranges exactly as ECMAScript prescribes and never touches memory outside the buffer. When a buffer is detached at any point, also inside a user callback of the same operation, the prescribed error or result follows.',
  ['inputs', 'fault_sequences'], 'all element types x boundary values x offsets; all methods over short arrays with boundary arguments and views overlapping one buffer; detachment at every callback',
  NJ + 'type, value, offset and detachment combinations.', [L+'rjs_typed_array_object_inc.c', L+'rjs_int_indexed_object_opt.c', L+'rjs_array_buffer_opt.c', L+'rjs_data_view_object_inc.c', L+'rjs_array_buffer_object_inc.c', L+'rjs_typed_array_opt.c'],
  [('raw value conversion', L+'rjs_array_buffer_opt.c'), ('bounds and detach checks', L+'rjs_typed_array_object_inc.c')])
p('C15', 'Numbers and text convert both ways exactly',
  'Converting any Number to text (default, radix, fixed, exponential, precision) gives the prescribed digits, shortest and round-trippable where prescribed, and converting any text to a Number (literals, Number, parseFloat, parseInt, implicit) gives the correctly rounded value or NaN. Math functions with exactly specified results and the integer conversions return those results for every input.',
  ['inputs'], 'all binary exponents with boundary mantissas, all radices and digit counts, all strings up to a length bound over the numeric alphabet, and halfway and limit decimal literals',
  NJ + 'values; rounding errors sit at isolated inputs.', [L+'rjs_dtoa.c', L+'rjs_number.c', L+'rjs_number_object_inc.c', L+'rjs_strtoi.c', L+'rjs_math_object_inc.c', L+'rjs_lex.c', L+'rjs_global_object.c'],
  [('binary-decimal conversion', L+'rjs_dtoa.c'), ('Number.prototype formatting', L+'rjs_number_object_inc.c')])
p('C16', 'BigInt arithmetic is exact at every size and sign',
  'Every BigInt operation (arithmetic, division and remainder, power, shifts, bitwise, comparison with BigInts, Numbers and strings, asIntN and asUintN, parsing and printing in every radix) returns the mathematically exact result ECMAScript prescribes or the prescribed error. This holds for all signs, for operands of any length and for carries and borrows across every limb boundary.',
  ['inputs'], 'all operators over all pairs from a set holding every boundary pattern of up to several limbs in both signs',
  NJ + 'operand pairs; carry chains occur only for rare bit patterns.', [L+'rjs_big_int_internal_opt.c', L+'rjs_big_int_object_inc.c', L+'rjs_operation.c'],
  [('limb arithmetic', L+'rjs_big_int_internal_opt.c')])
p('C17', 'String built-ins work on UTF-16 code units exactly',
  'Every String function returns the prescribed result for every string, including lone and paired surrogates and special-casing characters, and every in-range or out-of-range argument. Replacement patterns, splitting, searching, padding, normalization, code-point iteration and case mapping follow ECMAScript exactly.',
  ['inputs'], 'all strings up to a length bound over an alphabet of ASCII, surrogate, combining and whitespace units x all functions x boundary arguments, and every code unit or code point for per-character functions',
  NJ + 'strings and arguments.', [L+'rjs_string.c', L+'rjs_string_object_inc.c', L+'rjs_uchar_icu_opt.c', L+'rjs_uchar_buffer.c'],
  [('String.prototype functions', L+'rjs_string_object_inc.c'), ('substring, index and search primitives', L+'rjs_string.c')])
p('C18', 'Regular expressions match exactly what ECMAScript matches',
  'For every pattern, flag set and subject, matching finds the leftmost match ECMAScript prescribes with the same extent, captures, indices and lastIndex effect, or fails, or the pattern is rejected with SyntaxError. The regular-expression based String and RegExp functions (exec, test, match, matchAll, replace, search, split) return the prescribed results from it.',
  ['inputs'], 'all patterns up to a size bound over an alphabet of atoms, quantifiers, groups, assertions, back-references and classes x all subjects up to a length bound x flag sets',
  NJ + 'patterns and subjects; backtracking order matters.', [L+'rjs_regexp.c', L+'rjs_regexp_object_inc.c', L+'rjs_string_object_inc.c'],
  [('pattern compiler and backtracking matcher', L+'rjs_regexp.c'), ('RegExp.prototype functions', L+'rjs_regexp_object_inc.c')])
p('C19', 'JSON parsing and serialization are exact',
  'JSON.parse accepts exactly the JSON grammar and builds the prescribed value, with revivers called in the prescribed order; JSON.stringify produces exactly the prescribed text for every value, replacer, indent and toJSON, raising TypeError on cycles. Parsing a serialized value gives the value back.',
  ['inputs'], 'all texts up to a length bound over the JSON alphabet, all value trees up to a size bound with all replacer and indent forms',
  NJ + 'texts and value trees.', [L+'rjs_json_opt.c', L+'rjs_json_object_inc.c'],
  [('JSON reader and writer', L+'rjs_json_opt.c')])
p('C20', 'Date arithmetic, parsing and formatting agree for every time value',
  'For every time value and every combination of in-range and overflowing fields, Date constructors, getters, setters and Date.UTC compute the prescribed time value and fields in UTC and in the local zone, and the ISO and default text forms parse back to it. Invalid dates propagate as NaN and out-of-range formatting throws RangeError.',
  ['inputs'], 'every day of the boundary years of the calendar and of a full Gregorian cycle, all setters and constructors over boundary field values, all ISO forms with elements in and out of range, and every offset change of several time zones',
  NJ + 'dates and field overflows.', [L+'rjs_date_object_inc.c'],
  [('day and time arithmetic', L+'rjs_date_object_inc.c')])
p('C21', 'URI coding is exact for every code unit sequence',
  'encodeURI, encodeURIComponent, decodeURI and decodeURIComponent give the prescribed text for every input or throw URIError, and decoding an encoded string returns it unchanged. No malformed, truncated or over-long escape sequence is accepted.',
  ['inputs'], 'every code unit, every surrogate pair at a stride, and all percent-escape sequences up to four bytes over boundary bytes, with truncations',
  NJ + 'encodings.', [L+'rjs_uri_functions_inc.c', L+'rjs_global_object.c'],
  [('URI functions', L+'rjs_uri_functions_inc.c')])
p('C22', 'Garbage collection is invisible to programs wherever it happens',
  'Whenever a collection happens, at any allocation of any program, the program observes the same results as without it and the engine never touches freed memory. Memory of unreachable things is given back and, when a runtime is freed, all of its memory is released.',
  ['schedules', 'programs'], 'for each program of a corpus touching every engine feature, a collection forced at every single allocation point (and at all of them), on a memory-checked build',
  NJ + 'the allocation at which a collection may start; natural collections hit a handful of points.', [L+'rjs_gc.c', L+'rjs_native_stack.c', L+'rjs_context.c', L+'rjs_object.c', L+'rjs_mem.c', L+'rjs_runtime.c'],
  [('mark and sweep, triggered in rjs_gc_add', L+'rjs_gc.c'), ('roots: native stack, contexts, jobs, modules', L+'rjs_gc.c:gc_scan_root'), ('per-type scan functions', L+'*_op_gc_scan')], hook=None)
p('C23', 'Weak references, weak collections and finalizers track reachability exactly',
  'After any history of linking, unlinking and collecting, a WeakRef yields its target exactly as long as the target is reachable or was kept by the current job, a weak collection entry keeps its value alive exactly while its key is reachable, and each registered finalization callback is called exactly once with its held value after its target died, unless unregistered. Nothing reachable is ever dropped.',
  ['histories'], 'all histories up to a depth of create, link, unlink, register, unregister and collect over a small object graph',
  NJ + 'histories of reachability changes.', [L+'rjs_weak_ref_opt.c', L+'rjs_finalization_registry_opt.c', L+'rjs_weak_map_object_inc.c', L+'rjs_weak_set_object_inc.c', L+'rjs_weak_ref_object_inc.c', L+'rjs_gc.c'],
  [('weak reference resolution after marking', L+'rjs_weak_ref_opt.c:rjs_solve_weak_refs'), ('finalization', L+'rjs_finalization_registry_opt.c')])
p('C24', 'Modules link, evaluate and fail exactly once, in order, over any graph',
  'For every module graph, including cycles, re-exports, star conflicts, missing bindings, JSON modules, top-level await, evaluation errors and dynamic import, each module is evaluated at most once, in the order ECMAScript prescribes, imports are live views of the exporting binding, and namespaces list and resolve exactly the prescribed names. Parse, resolution, link and evaluation failures reject the import with the prescribed error and leave unaffected modules usable.',
  ['configurations', 'schedules'], 'all dependency graphs of up to three or four modules x export forms x await and throw placement',
  NJ + 'module graphs.', [L+'rjs_module_opt.c', L+'rjs_module_env_opt.c', L+'rjs_module_ns_object_opt.c'],
  [('link and evaluate depth-first search', L+'rjs_module_opt.c'), ('export resolution', L+'rjs_module_opt.c:rjs_module_resolve_export'), ('namespace object', L+'rjs_module_ns_object_opt.c')])
p('C25', 'Shared memory: atomics are atomic, no wake-up is lost, agents stay isolated',
  'When several agents (runtimes on threads of one process) work on one shared buffer, every Atomics read-modify-write, load, store and compare-exchange takes effect as one indivisible step, and every interleaving of wait and notify lets each notified waiter return "ok" exactly once, counts exactly the waiters it woke in first-in order, and times out or reports "not-equal" only when prescribed. Runtimes on different threads never disturb each other.',
  ['schedules'], 'all interleavings, up to a bound on preemptions, of two or three agents running short Atomics programs on one or two colliding cells, timeouts firing at any point',
  NJ + 'thread interleavings; the tests are single-threaded.', [L+'rjs_atomics_object_inc.c', L+'rjs_data_block_opt.c', L+'rjs_array_buffer_opt.c', L+'rjs_shared_array_buffer_object_inc.c', L+'rjs_dtoa.c'],
  [('data block mutex, waiter lists, reference count', L+'rjs_data_block_opt.c'), ('atomic read-modify-write', L+'rjs_atomics_object_inc.c')],
  state=[('waiter list', 'agents waiting on one cell, in order', L+'rjs_data_block_opt.c')])
p('C26', 'Jobs run exactly once and in order, and errors never leak between calls',
  'Every queued job runs exactly once, in first-in first-out order, also when jobs are solved from inside a job or from nested calls, and an error thrown in one job or native call is reported there and never surfaces in another. After any evaluation, failed or not, the embedding value stack and the running-context stack are as before and the runtime stays usable.',
  ['histories', 'schedules'], 'all programs up to a bound of jobs that enqueue, throw, or drain the queue at every point, and all sequences of embedding calls up to a depth with failures',
  NJ + 'nested draining and failing histories.', [L+'rjs_job.c', L+'rjs_promise.c', L+'rjs_error.c', L+'rjs_runtime.c', L+'rjs_context.c', L+'rjs_extension_opt.c', L+'rjs_native_stack.c'],
  [('job list', L+'rjs_job.c:rjs_solve_jobs'), ('pending error', L+'rjs_error.c')])
p('C27', 'Realms are separate worlds with the right intrinsics',
  'Each realm has its own global object, intrinsics and lexical globals, and code, functions and built-ins always use the realm ECMAScript prescribes for default prototypes, thrown errors, species and global lookups when objects cross realms. Registered symbols are shared and nothing else leaks between realms.',
  ['configurations', 'programs'], 'all built-in constructors and functions x calling realm, callee realm and new.target realm, plus cross-realm species, eval and error cases',
  NJ + 'cross-realm combinations; the tests use one realm.', [L+'rjs_realm.c', L+'rjs_context.c', L+'rjs_builtin_func_object.c', L+'rjs_object.c', L+'rjs_symbol.c', L+'rjs_script_func_object.c'],
  [('realm of the running context', L+'rjs_realm.c'), ('prototype from constructor', L+'rjs_object.c')])
p('C28', 'Native containers behave as their abstract data types',
  'The hash table, red-black tree, vector, list, character buffers and value stack that everything is built on behave, after every sequence of operations, as the abstract map, ordered map, sequence and stack they implement. The tree stays a valid balanced search tree, and every handle into the value stack stays valid while it grows.',
  ['histories'], 'all operation sequences up to a depth over colliding keys, and all insertion and deletion orders of up to eight keys',
  NJ + 'operation orders; rebalancing and growth happen only on some of them.', [L+'rjs_hash.c', L+'rjs_rbt.c', 'include/ratjs/rjs_vector.h', 'include/ratjs/rjs_list.h', L+'rjs_char_buffer.c', L+'rjs_uchar_buffer.c', L+'rjs_native_stack.c', L+'rjs_value_list.c'],
  [('rebalancing', L+'rjs_rbt.c'), ('rehash', L+'rjs_hash.c:hash_expand')])
p('C29', 'Extension file, directory and text-encoding functions do what they say',
  'Every history of File, Dir, FileState and file-system function calls leaves the files with the contents and positions, and returns the values, that the documentation and the C library semantics prescribe, and fails by throwing rather than by wrong data or a crash, also after close. Text encoding and decoding and source-file decoding map every byte sequence and every string as prescribed, independent of how the input is cut into buffers.',
  ['histories', 'inputs'], 'all operation sequences up to a depth on small files with boundary offsets, counts and modes in a scratch directory, and all byte sequences of up to four boundary bytes through every encoding',
  NJ + 'call histories and byte sequences.', [L+'rjs_extension_opt.c', L+'rjs_conv.c', L+'rjs_conv_icu_opt.c', L+'rjs_conv_internal_opt.c', L+'rjs_input.c', L+'rjs_string.c'],
  [('File and Dir objects', L+'rjs_extension_opt.c'), ('encoding converter', L+'rjs_conv.c')])
p('C30', 'Native C types marshal values both ways without corruption',
  'Through a generated native module, every C struct, union, array, pointer, enum, function and variable read, write, call or callback converts values exactly as C and the type description prescribe, keeps aliasing views consistent, and never reads or writes outside the native object. Native memory stays valid as long as any script object refers to it.',
  ['histories', 'inputs'], 'all operation sequences up to a depth over struct, nested struct, array and callback views x boundary values of each field type, with collections in between',
  'The existing tests check one fixed value per field; they cannot cover value boundaries, aliasing histories or collection points.', [L+'rjs_ctype_opt.c', 'module/njsgen/njs-generator.js', 'module/njsgen/c-context.js', 'module/njsgen/converter.js', 'include/ratjs/rjs_native_object.h', L+'rjs_native_object.c'],
  [('C type and pointer registry', L+'rjs_ctype_opt.c'), ('wrapper generator', 'module/njsgen/')])
p('C31', 'The bundled JavaScript modules implement their contracts',
  'json-pointer resolves every pointer as RFC 6901 prescribes, json-schema accepts exactly the documents its schema admits, and the option parser reports exactly the options, arguments and errors its description prescribes. Each does so for every input without failing internally.',
  ['inputs'], 'all schemas and documents of a bounded grammar, all pointers up to a length over documents, all command lines up to a length over an option table',
  NJ + 'schemas, documents and command lines.', ['module/json-schema.js', 'module/json-pointer.js', 'module/json-manager.js', 'module/option.js', 'module/log.js', 'module/assert.js'],
  [('validator', 'module/json-schema.js'), ('pointer', 'module/json-pointer.js'), ('option parser', 'module/option.js')])
p('C32', 'Build options and repeated execution never change what a program computes',
  'Configurations that differ only in implementation choices (binding cache, BigInt back end, character converter, size optimization) give the same observable behaviour for every program. Within one runtime, running the same code again, after other code, or after its caches are warm gives the same result as the first time.',
  ['configurations', 'histories'], 'the program spaces of the scope, BigInt, text and control-flow properties on every build configuration, each program run repeatedly in one runtime',
  'Tests run one build configuration, each script once.', [L+'rjs_environment.c', L+'rjs_bc_call.c', L+'rjs_big_int_internal_opt.c', L+'rjs_big_int_gmp_opt.c', L+'rjs_conv_internal_opt.c', L+'rjs_uchar_internal_opt.c', 'Makefile'],
  [('binding cache', L+'rjs_environment.c'), ('alternative back ends', 'Makefile')])
p('C33', 'The ratjs command runs programs and reports their outcome faithfully',
  'For every combination of options, script or module, main function form (absent, plain, async, throwing) and pending jobs, the ratjs command evaluates the program once, passes the arguments, waits for pending work, prints what the program prints, reports uncaught errors, and exits with the documented status. A module or script that cannot be found, parsed or evaluated makes the exit status non-zero.',
  ['configurations', 'inputs'], 'all combinations of option set x program form x main form x outcome',
  NJ + 'combinations of options and program outcomes.', ['src/exe/rjs_main.c', L+'rjs_extension_opt.c', L+'rjs_module_opt.c', L+'rjs_script.c'],
  [('command line driver', 'src/exe/rjs_main.c')])
p('C34', 'Remaining built-ins: Object, Function, Symbol, Error, Reflect and globals',
  'Every built-in object has exactly the prescribed properties, attributes, lengths, names and prototypes, and every Object, Function, Symbol, Error, Boolean and global function returns the prescribed value or error for every argument. Built-ins check their receivers and arguments in the prescribed order.',
  ['inputs', 'configurations'], 'every built-in function found by walking the global object x receivers and arguments of every type',
  NJ + 'functions and argument types.', [L+'rjs_object_object_inc.c', L+'rjs_function_object_inc.c', L+'rjs_symbol_object_inc.c', L+'rjs_error.c', L+'rjs_builtin_func_object.c', L+'rjs_global_object.c', L+'rjs_symbol.c'],
  [('built-in object tables', L+'rjs_builtin_func_object.c'), ('object and error functions', L+'rjs_object_object_inc.c, '+L+'rjs_error.c')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
try:
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x, sch)
    print('valid', len(P))
except ImportError: print(len(P))
