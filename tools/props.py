NOTES = 'Solver-based checking: engine/ is a symbolic executor for LLVM IR (Z3), rt/ and stubs/ model what exists only as binaries, harness/ states the properties, driver.py compiles /repo on every run, runs the jobs of checks.py, and replays every counterexample on the natively compiled code before reporting it. known_findings.txt lists repaired defects and open findings.'
P = []
def add(id, title, st, over, q, why, files, mech, obs, **k): P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, obs=obs, **k))
AC, B64, CAP, INS, GR, RPC, DRPC, CURL, HLP, RTLH = 'arg-capture-io/src/arg_capture_io.cpp', 'arg-capture-io/src/base64.cpp', 'rtl/src/capture.cpp', 'rtl/src/instrumentation.cpp', 'sdfg/src/graph/graph.cpp', 'rpc/src/passes/rpc/rpc_context.cpp', 'rpc/src/passes/rpc/daisytuner_rpc_context.cpp', 'rpc/src/util/utils_curl.cpp', 'sdfg/include/sdfg/helpers/helpers.h', 'rtl/include/daisy_rtl/daisy_rtl.h'
add('C01', 'Base64 encoding is RFC 4648 and is inverted exactly',
    'Encoding any byte string yields exactly the padded RFC 4648 base64 text, and decoding that text returns the original bytes, for every length and every byte value. Decoding arbitrary text yields exactly the whole bytes encoded by its longest prefix of base64 characters and never reads or writes out of bounds.',
    ['inputs'], 'all byte strings; all texts given to the decoder', 'The tests encode a few fixed captures; padding classes, the high sextets and foreign characters are not sampled.', [B64], [('encoder', B64 + ' base64_encode'), ('decoder', B64 + ' base64_decode')], 'returned string / vector')
add('C02', 'In-memory captures hold exactly the argument at capture time',
    'After capturing an argument in memory, looking it up by region, argument index and phase (before/after) returns its index, phase, type, extents and exactly the bytes it had at the time of the call, even if the caller overwrites the buffer later. A later capture under the same region, index and phase replaces the earlier one, and captures under any other region, index or phase stay untouched.',
    ['inputs', 'histories'], 'all argument indices, phases, extents, contents and sequences of captures', 'Tests capture one or two fixed arguments; key collisions, overwrites, empty extents and aliasing of the caller buffer are not exercised.', [AC, 'arg-capture-io/include/daisy_rtl/arg_capture_io.h'], [('capture map', AC + ' capture_inline / create_and_capture_inline')], 'list of captures returned by the capture object')
add('C03', 'A written capture index loads back every captured argument exactly',
    'For every completed invocation, loading its index file gives back the kernel name, region, invocation number and every captured argument exactly once with its index, phase, type, extents and bytes, whether the data was embedded in the index or stored in a raw file. Indexes of another format version, and missing indexes, are rejected with an error.',
    ['inputs', 'histories'], 'all sets of captures, extents, types, invocation numbers and contents', 'The serialization tests load one fixed fixture and write one fixed capture; combinations of embedded and external data, empty extents, negative indices and several regions are not covered.', [AC, CAP, B64], [('index writer', AC + ' write_index / serialize_into'), ('index reader', 'arg-capture-io/include/daisy_rtl/arg_capture_io.h from_index / parse_from')], 'index and raw files on disk, reloaded capture object')
add('C04', 'Capture I/O failures are reported and never look like data',
    'If creating a directory, opening, writing or closing a file fails while a capture or an index is stored, the failure is reported to the caller and the capture is not linked to the file; if no failure is reported, the file holds exactly the captured bytes. Reading raw data either fills the buffer with exactly the requested bytes or reports an error, never writes beyond the requested size, and no file is left open on any path.',
    ['fault_sequences', 'inputs'], 'every subset of failing file-system operations; all data sizes, null data, short and missing files', 'No test injects a file-system fault.', [AC, CAP], [('raw writer', AC + ' write_data_to_raw_file / create_and_capture_to_file'), ('raw reader', AC + ' read_data_from_raw_file'), ('index writer', AC + ' write_index'), ('runtime', CAP + ' DaisyRtlCapture')], 'return values, exceptions, file contents')
add('C05', 'The capture strategy selects exactly the documented invocations',
    'Invocations of each region are numbered 0, 1, 2, ... independently of other regions; strategy "once" (also the default and the fallback for unknown values, which are reported) captures exactly invocation 0 of each region, "all" captures every invocation and "never" none. All files lie below the directory given by the environment variable, else by the compiled-in argument, else the default directory, and exactly one index is written per captured invocation.',
    ['histories', 'configurations'], 'all strategy settings, base directory sources and interleavings of invocations of several regions', 'Tests run four fixed strategy scenarios with a single region.', [CAP, AC], [('strategy', CAP + ' __daisy_capture_init / DaisyRtlCapture::enter'), ('invocation counter', AC + ' invocation')], 'return value of the enter call; files on disk')
add('C06', 'Distinct captures never share a file or overwrite each other',
    'Captures that differ in region, invocation, argument index or phase are stored under different file names. Consequently, after any history of invocations every capture ever stored can still be read back with exactly its own bytes.',
    ['histories', 'inputs'], 'all combinations of region ids, invocation numbers, argument indices and phases', 'Tests never store two captures whose name components could be confused.', [CAP, AC], [('file naming', CAP + ' generate_arg_capture_output_filename / generate index name')], 'file names and contents on disk')
add('C07', 'Captured size is the product of element size and all extents',
    'A capture of an array with any number of extents stores exactly element size times the product of all extents bytes, in order, including arrays with a zero extent and arrays whose size exceeds 32 bits. No byte outside that range of the caller memory is read.',
    ['inputs'], 'all extents and element sizes whose product is representable', 'Tests use small arrays with fixed extents; nothing exceeds 2^31 bytes.', [AC, CAP], [('size computation', AC + ' write_capture_to_file / capture_inline'), ('1d/2d/3d entry points', CAP + ' __daisy_capture_1d/2d/3d')], 'size and content of files and embedded data')
add('I01', 'Region identity is stable and event sets are neither leaked nor reused',
    'Initialising the same source region again always returns the same non-zero id and distinct regions have distinct ids, in every history of initialising, executing and finalising regions. Hardware event sets are only used between creation and destruction, are cleaned before they are destroyed exactly once, only a bounded number of finalised regions keeps one, none is left running, and all are destroyed by the end of the program.',
    ['histories'], 'all interleavings of initialise / enter / exit / finalise over more regions than are cached', 'No test executes the instrumentation runtime at all.', [INS], [('region table and cache', INS + ' register_region / finalize / destructor')], 'returned ids, calls made to the PAPI library, report')
add('I02', 'The trace has one faithful row per region execution',
    'In trace mode the report contains exactly one well-formed row for every execution of a region, sequential or nested, with its start time and duration in microseconds, the difference of every configured hardware counter of its kind between leaving and entering, and the metadata of its region. The report is written to the configured file, or the default file, as valid JSON in every history, including when nothing was executed or no counters are configured.',
    ['histories', 'inputs', 'configurations'], 'all histories, timestamps, counter values and event configurations', 'No test executes the instrumentation runtime at all.', [INS], [('recording', INS + ' enter_region / exit_region'), ('report', INS + ' append_event / destructor')], 'report file')
add('I03', 'Aggregated reports are the exact statistics of all executions',
    'In aggregate mode the report contains exactly one row per region whose count, mean, minimum, maximum and (population) variance of runtime and of every hardware counter equal those statistics over all executions of the region, together with the first start time and total duration. This holds for any number of executions, including none.',
    ['inputs', 'histories'], 'all durations, counter values, execution counts and interleavings of regions', 'No test executes the instrumentation runtime at all; numerical properties hold for all values.', [INS], [('running statistics', INS + ' exit_region'), ('report', INS + ' append_event_aggregated')], 'report file')
add('I04', 'User metrics are aggregated per region and name',
    'Metrics reported by the program, whether as values or increments, appear in the aggregate report of exactly the region they were reported for, under their name, with the count, mean, minimum, maximum and variance of all reported values. The runtime does not depend on the caller keeping the name string, and non-finite values never make the report invalid.',
    ['inputs', 'histories'], 'all sequences of metric reports and values', 'No test executes the instrumentation runtime at all.', [INS], [('static counters', INS + ' provided_metric / append_event_aggregated')], 'report file')
add('I05', 'The report is valid JSON whatever strings and values it contains',
    'Function names, file names, paths and any other metadata text containing quotes, backslashes or control characters appear in the report escaped so that parsing it returns the original text. Non-finite numbers are never printed as invalid JSON.',
    ['inputs'], 'all metadata strings and metric values', 'No test executes the instrumentation runtime at all.', [INS], [('escaping', INS + ' append_event / append_event_aggregated')], 'report file')
add('I06', 'Broken instrumentation set-ups stop the program with an error',
    'If the measurement library or one of its functions is missing, its version is not configured or does not match, or an unknown region id is used, the program terminates with a non-zero status instead of continuing with wrong measurements. A correct configuration never terminates the program.',
    ['configurations', 'fault_sequences'], 'all missing symbols, version settings and unknown region ids', 'No test executes the instrumentation runtime at all.', [INS], [('library loading', INS + ' load_papi_symbols / constructor'), ('id lookup', INS + ' enter_region / exit_region / finalize / provided_metric')], 'exit status')
add('I07', 'Concurrent use of the instrumentation runtime is free of data races',
    'Any two instrumentation calls made concurrently by two threads, on the same or on different regions, access the shared state of the runtime only under mutual exclusion, and no call returns while holding the lock.',
    ['schedules'], 'all pairs of concurrent calls and all interleavings of their accesses', 'No test is multi-threaded.', [INS], [('mutex', INS + ' DaisyInstrumentationState')], 'accesses to shared memory of both threads', tech='symbolic execution of both threads with lock-set race detection, replayed under ThreadSanitizer')
add('M01', 'Integer power in generated code is exact',
    'The integer power used by generated code returns the exact mathematical power whenever it is representable, zero for every negative exponent, and never overflows an intermediate result in those cases.',
    ['inputs'], 'all bases and exponents whose power is representable', 'No test calls it.', [RTLH], [('power', RTLH + ' __daisy_sym_pow')], 'returned value')
add('M02', 'Minimum, maximum and multiply-add macros of generated code are exact',
    'The minimum and maximum used by generated code return the smaller and larger argument for every pair of integers, also when their arguments or their use are part of larger expressions; multiply-add computes product plus addend.',
    ['inputs'], 'all pairs of integers', 'No test calls them.', [RTLH], [('macros', RTLH + ' __daisy_min / __daisy_max / __daisy_fma')], 'value')
WG = 'The unit tests check a handful of fixed graphs; cycles, self loops, parallel edges, unreachable vertices and several exits are sampled sparsely.'
GI = ' The graph itself is not changed by the call.'
add('G01', 'Dominator trees are exact for every control-flow graph', 'For every directed graph and root, each vertex reachable from the root other than the root is mapped to its immediate dominator, and the root and unreachable vertices are mapped to none.' + GI, ['inputs'], 'all directed graphs and roots', WG, [GR], [('dominators', GR + ' dominator_tree')], 'returned map')
add('G02', 'Post-dominator trees are exact for every graph with an exit', 'For every directed graph with at least one exit, each vertex that reaches an exit is mapped to its immediate post-dominator, where several exits are joined by a virtual exit that is reported as none; all other vertices are mapped to none.' + GI, ['inputs'], 'all directed graphs with at least one vertex without successors', WG, [GR], [('post-dominators', GR + ' post_dominator_tree')], 'returned map, graph after the call')
add('G03', 'Topological order and acyclicity are exact', 'A directed graph is reported acyclic exactly when it has no cycle (self loops included), and sorting lists every vertex once with every edge pointing forward, failing exactly for cyclic graphs.' + GI, ['inputs'], 'all directed graphs', WG, [GR], [('order', GR + ' topological_sort / is_acyclic')], 'returned list / flag / exception')
add('G04', 'Strongly connected components are exact', 'Every vertex is assigned one component number below the reported count, every number is used, and two vertices share a component exactly when each reaches the other.' + GI, ['inputs'], 'all directed graphs', WG, [GR], [('components', GR + ' strongly_connected_components')], 'returned pair')
add('G05', 'Weakly connected components are exact', 'Every vertex is assigned one component number below the reported count, every number is used, and two vertices share a component exactly when they are connected ignoring edge directions.' + GI, ['inputs'], 'all directed graphs', WG, [GR], [('components', GR + ' weakly_connected_components')], 'returned pair')
add('G06', 'Depth-first order visits every vertex once, depth first', 'Depth-first search from a start vertex lists every vertex exactly once, beginning with the start vertex and the vertices reachable from it in a depth-first order, followed by the vertices not reachable from it.' + GI, ['inputs'], 'all directed graphs and start vertices', WG, [GR], [('walk', GR + ' depth_first_search')], 'returned list')
add('G07', 'Removing the reported back edges makes the graph acyclic', 'Every reported back edge is an edge of the graph that closes a cycle and is reported once, removing all of them leaves no cycle, and acyclic graphs have none.' + GI, ['inputs'], 'all directed graphs and start vertices', WG, [GR], [('back edges', GR + ' back_edges')], 'returned list')
add('G08', 'All simple paths between two vertices are listed exactly once', 'For every two distinct vertices exactly the paths that visit no vertex twice are listed, each once as a sequence of adjacent edges from source to destination; parallel edges give distinct paths.' + GI, ['inputs'], 'all directed graphs and pairs of distinct vertices', WG, [GR], [('enumeration', GR + ' all_simple_paths')], 'returned list of paths')
add('G09', 'Reversed and undirected views have exactly the edges of the graph', 'The reversed view contains every edge exactly once with its direction reversed; the undirected copy has the same vertices and edges, and its two vertex mappings are inverse to each other.' + GI, ['inputs'], 'all directed graphs', WG, [GR], [('views', GR + ' reverse / undirected')], 'returned graphs')
add('H01', 'Number literals are recognised and converted exactly', 'A text is recognised as a number exactly when it is a non-empty sequence of decimal digits. Converting the decimal literal of any representable signed or unsigned 64-bit value (or a boolean literal) returns that value, and literals out of range or not numeric are rejected with an error.', ['inputs'], 'all texts and all 64-bit values', 'Tests cover some helpers only; conversion is not tested at all.', [HLP], [('parsing', HLP + ' is_number / parse_number_signed / parse_number_unsigned')], 'returned value / exception')
add('H02', 'String and set helpers are exact for all inputs', 'Splitting at a delimiter appends pieces that contain no delimiter and whose concatenation with the delimiter is the input; joining puts the delimiter exactly between elements; the suffix test and the set intersection test are exact. None of them changes its inputs.', ['inputs'], 'all strings, delimiters, element lists and sets', 'Tests cover a few fixed strings.', [HLP], [('helpers', HLP + ' split / join / endswith / sets_intersect')], 'returned values')
add('R01', 'The credential with the highest precedence is used, unmodified', 'Credentials are taken from the job token variable, else the access token variable, else the token file in the home directory, else the session file, ignoring unset and empty variables; if no source exists none is found. Tokens read from files lose exactly their trailing white space and only the job token is marked as such.', ['configurations', 'inputs'], 'all combinations of credential sources and token file contents', 'No test covers credentials.', [DRPC], [('search', DRPC + ' find_docc_auth')], 'returned credential')
add('R02', 'Remote requests carry the configured server and credential', 'A remote client built from the configuration addresses the server variable when it is non-empty and the built-in default server otherwise, and sends exactly one authorization header of the form "Job <token>" for job tokens and "Token <token>" otherwise. Missing credentials are reported as an error or leave earlier configuration untouched, and a client without server cannot be built.', ['configurations'], 'all combinations of credential sources, server settings and earlier configuration', 'The context tests are not part of the reliable suite and use fixed settings.', [DRPC, RPC], [('context', DRPC + ' from_docc_config'), ('builder', RPC + ' from_docc_config / build')], 'address and headers of the built client')
add('R03', 'Client configuration sources merge member by member', 'Configuration files override exactly the string members they contain (server, endpoint, individual headers) and leave everything else as configured before; members of other types are ignored and unreadable files are reported without changing anything. The header variable adds one header split at its first colon, or a hint header if there is none, and overrides file headers of the same name.', ['configurations', 'inputs'], 'all configuration files, header texts and orders of sources', 'Tests use a few fixed files.', [RPC], [('builder', RPC + ' from_file / from_env / from_header_env / initialize_local_default')], 'address and headers of the built client')
add('R04', 'Every HTTP outcome is classified and reported completely', 'The response body is exactly the received bytes in order, however the transport splits them; the status is reported for completed transfers and is zero for failed ones. An error message is set exactly when the transfer failed or the status is outside 200-203.', ['inputs', 'fault_sequences'], 'all statuses, transport errors, response bytes and chunkings', 'No test covers the transport.', [CURL], [('request', CURL + ' post_json')], 'returned result')
SYM, EXT, POL, CNF, SER, UTL, ASM = ['sdfg/src/symbolic/%s.cpp' % f for f in ('symbolic', 'extreme_values', 'polynomials', 'conjunctive_normal_form', 'series', 'utils', 'assumptions')]
ST = 'Tests compare a few expressions with expected texts; whether the values agree for all symbol values is not tested.'
add('S01', 'Symbolic expressions have the value of the operations that built them', 'Evaluating an expression built by the symbolic constructors (add, sub, mul, div, mod, min, max, abs, pow, zext_i64, trunc_i32) gives, for every value of its symbols, exactly the integer the operations give in C: division and remainder truncate towards zero and casts wrap.', ['inputs'], 'all expressions and all symbol values', ST, [SYM, 'sdfg/include/sdfg/symbolic/symbolic.h'], [('constructors', SYM + ' add / mul / div / mod / abs / zext_i64 / trunc_i32')], 'returned expression')
add('S02', 'Simplification and expansion keep the value of an expression', 'simplify and expand return an expression that has, for every value of the symbols for which the original has a value, exactly the value of the original. They do not turn an expression with a value into one without.', ['inputs'], 'all expressions and all symbol values', ST, [SYM], [('simplify', SYM + ' simplify / expand')], 'returned expression')
add('S03', 'Substitution replaces exactly the named term', 'Substituting a symbol by a term gives an expression with the value the original has when the symbol has the value of the term, and substituting a subterm by one of equal value keeps the value, wherever the term occurs.', ['inputs'], 'all expressions, substituted terms and symbol values', ST, [SYM], [('subs', SYM + ' subs')], 'returned expression')
add('S04', 'Reported bounds enclose every value an expression can take', 'Whenever minimum or maximum (in the plain, loose or tight form) returns a bound for an expression under assumptions about its symbols, every value of the expression for symbol values that satisfy the assumptions lies on the right side of the bound, for every value of the parameters. If no bound is known none is returned.', ['inputs', 'configurations'], 'all expressions, assumptions and symbol values', 'Tests compare a few bounds with expected texts.', [EXT], [('bounds', EXT + ' minimum / maximum / minimum_new / maximum_new')], 'returned bound')
add('S05', 'Conditions and their normal forms keep their truth value', 'A condition built from comparisons, and, or and not is true for exactly the symbol values for which its operations are, and its conjunctive normal form (the conjunction of clauses, each a disjunction of atoms) is true for exactly the same values. Negated comparisons become the opposite comparison.', ['inputs'], 'all conditions and symbol values', ST, [CNF, SYM], [('normal form', CNF + ' conjunctive_normal_form / distribute_or'), ('conditions', SYM + ' Eq / Ne / Lt / Le / And / Or / Not')], 'returned condition / clauses')
add('S06', 'Affine and polynomial decompositions reconstruct the expression', 'The affine coefficients reported for an expression multiply with their symbols and add up to the value of the expression for all symbol values, the affine inverse undoes the affine expression, and polynomial division gives quotient and remainder with dividend = quotient * divisor + remainder. Expressions that are not of that form are refused.', ['inputs'], 'all expressions, symbols and symbol values', ST, [POL], [('coefficients', POL + ' polynomial / affine_coefficients / affine_inverse / polynomial_div')], 'returned coefficients / expressions')
add('S07', 'Monotonic and contiguous index sequences are recognised soundly', 'An update expression reported as monotonic never changes direction along the series it generates, and one reported as contiguous advances by exactly one, for every value of the symbol and the parameters within the assumptions. If either does not hold the verdict is negative.', ['inputs', 'configurations'], 'all update expressions, assumptions and symbol values', ST, [SER, 'sdfg/src/symbolic/maps.cpp'], [('series', SER + ' is_monotonic / is_contiguous')], 'returned verdict')
add('S08', 'Delinearized subscripts distinguish exactly the same elements', 'When a linear subscript is split into several dimensions, two points of the iteration space get the same tuple of new subscripts exactly when they have the same linear subscript, for every value of the loop symbols and parameters within the assumptions.', ['inputs', 'configurations'], 'all subscripts, assumptions and symbol values', ST, [UTL], [('delinearize', UTL + ' delinearize')], 'returned subscripts and extents')
add('S11', 'Assumptions derived from a type contain every value of the type', 'The lower and upper bounds assumed for a symbol of a given integer type hold for every value of that type.', ['inputs'], 'all integer types and values', 'Tests cover single types.', [ASM], [('assumptions', ASM + ' Assumption::create')], 'returned bounds')
F2M, LNO, SFU, ALL = 'sdfg/src/passes/structured_control_flow/for2map.cpp', 'sdfg/src/passes/structured_control_flow/loop_normalization.cpp', 'sdfg/src/passes/structured_control_flow', 'sdfg/src/transformations'
TT = 'Tests check the shape of the result for single programs; that it computes the same is not tested.'
add('T01', 'Loops turned into parallel maps give the same result in every order', 'When For2Map replaces a loop by a map, executing the iterations of the map in any order leaves exactly the memory the sequential loop leaves, and nothing that is used afterwards depends on the induction variable. Loops for which this does not hold stay loops.', ['inputs', 'schedules'], 'all loops, memory contents and execution orders of the iterations', TT, [F2M, 'sdfg/src/analysis/data_dependency_analysis.cpp', 'sdfg/src/analysis/loop_analysis.cpp'], [('conversion', F2M + ' can_be_applied / apply'), ('dependences', 'sdfg/src/analysis/data_dependency_analysis.cpp')], 'transformed program')
add('T02', 'Loop normalization keeps what a loop computes', 'A normalised loop (rotated, shifted or with a canonical condition) executes the same iterations on the same elements in the same order and leaves the same memory and final values of variables that are used afterwards, for every loop bound.', ['inputs'], 'all loops, bounds and memory contents', TT, [LNO], [('normalisation', LNO)], 'transformed program')
add('T03', 'Loop interchange, tiling, skewing and local storage keep the result', 'Whenever LoopInterchange, LoopTiling, LoopSkewing or OutLocalStorage accepts a loop nest, the transformed nest leaves exactly the memory the original leaves, for every loop bound and memory content, without access outside the elements the original touches. Nests for which this does not hold are refused.', ['inputs', 'configurations'], 'all loop nests, transformation parameters, bounds and memory contents', TT, [ALL + '/%s.cpp' % f for f in ('loop_interchange', 'loop_tiling', 'loop_skewing', 'out_local_storage')], [('transformations', ALL + ' can_be_applied / apply')], 'transformed program')
add('T04', 'Map fusion keeps what producer and consumer compute', 'Whenever MapFusion accepts a producing map and a consuming loop, the fused loop leaves exactly the memory the two loops leave one after the other, for every bound and memory content. Pairs for which this does not hold are refused.', ['inputs', 'configurations'], 'all pairs of loops, bounds and memory contents', TT, [ALL + '/map_fusion.cpp'], [('fusion', ALL + '/map_fusion.cpp can_be_applied / apply')], 'transformed program')
add('T05', 'Passes on symbols keep what a program computes', 'SymbolPropagation, SymbolPromotion, SymbolEvolution and TypeMinimization leave a program that returns on the same path, leaves the same memory and performs no access the original does not perform, for every argument and memory content.', ['inputs'], 'all programs, arguments and memory contents', TT, ['sdfg/src/passes/symbolic/%s.cpp' % f for f in ('symbol_propagation', 'symbol_promotion', 'symbol_evolution', 'type_minimization')], [('passes', 'sdfg/src/passes/symbolic'), ('users', 'sdfg/src/analysis/users.cpp')], 'transformed program')
add('T06', 'Data-flow clean-up passes keep what a program computes', 'ConstantPropagation, DeadDataElimination, BlockFusion, TaskletFusion and CommonAssignmentElimination leave a program that returns on the same path, leaves the same memory and performs no access the original does not perform, for every argument and memory content.', ['inputs'], 'all programs, arguments and memory contents', TT, ['sdfg/src/passes/dataflow/constant_propagation.cpp', 'sdfg/src/passes/dataflow/dead_data_elimination.cpp', SFU + '/block_fusion.cpp', SFU + '/common_assignment_elimination.cpp', 'sdfg/src/passes/dataflow/tasklet_fusion.cpp'], [('passes', 'sdfg/src/passes/dataflow'), ('block fusion', SFU + '/block_fusion.cpp')], 'transformed program')
add('T08', 'Control-flow clean-up passes keep what a program computes', 'SequenceFusion, DeadCFGElimination, ConditionElimination and WhileToForConversion leave a program that executes the same statements for every argument and memory content: it returns on the same path, leaves the same memory and makes the same calls.', ['inputs'], 'all programs, arguments and memory contents', TT, [SFU + '/%s.cpp' % f for f in ('sequence_fusion', 'dead_cfg_elimination', 'condition_elimination', 'while_to_for_conversion')], [('passes', SFU)], 'transformed program')
CG = 'sdfg/src/codegen/'
add('T10', 'A program read back from its JSON, or cloned, is the same program', 'Serializing a valid structured SDFG to JSON and reading it back, and cloning it, always succeed and give a valid program with the same structure (control flow, data flow, expressions, types with storage, alignment and initializer, structures, arguments, externals with linkage, schedules, library and tasklet nodes), metadata, debug information, element identifiers and element counter, that returns the same value and leaves the same memory; serializing what was read back gives the same JSON, and element identifiers are unique.', ['inputs', 'histories'], 'all programs', TT, ['sdfg/src/serializer/json_serializer.cpp', 'sdfg/src/deepcopy/structured_sdfg_deep_copy.cpp', 'sdfg/include/sdfg/structured_control_flow/map.h'], [('serializer', 'sdfg/src/serializer'), ('deep copy', 'sdfg/src/deepcopy'), ('types', 'sdfg/src/types')], 'serialization')
add('T11', 'Generated C and C++ code computes what the program means', 'The C and C++ functions docc generates for a structured SDFG do, for every argument and memory content on which the program itself has a defined result, what the program says: they return the same value, leave the same memory, make the same calls, and add no invalid or out-of-bounds access, no read of an unset variable and no signed overflow.', ['inputs'], 'all programs, arguments and memory contents', TT, [CG + f for f in ('code_generators/c_code_generator.cpp', 'code_generators/cpp_code_generator.cpp', 'language_extensions/c_language_extension.cpp', 'language_extensions/cpp_language_extension.cpp')] + [CG + 'dispatchers'], [('language extensions', CG + 'language_extensions'), ('dispatchers', CG + 'dispatchers'), ('code generators', CG + 'code_generators')], 'generated code')
add('T12', 'The optimisation pipelines keep what a program computes', 'Running the expression-combine, control-flow-simplification, data-flow-simplification and data-parallelism pipelines on a program leaves one that returns on the same path and leaves the same memory for every argument and memory content, whatever the interplay of their passes.', ['inputs', 'configurations'], 'all programs, arguments and memory contents', TT, ['sdfg/src/passes/pipeline.cpp'], [('pipelines', 'sdfg/src/passes/pipeline.cpp')], 'transformed program')
