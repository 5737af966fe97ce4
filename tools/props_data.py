prop('C01', 'PCRE-dialect patterns match exactly what PCRE says they match',
 'Every pattern the PCRE dialect accepts compiles to an automaton that accepts a byte string exactly when a PCRE engine, given the same pattern and the corresponding flags, finds a match in that string. This covers literals, escapes, classes and POSIX classes, dot, groups, alternation, all greedy repetition counts, anchors in any position, inline flags, and the case-insensitive, dotall, extended and anchored flags (the anchored flag ties both ends; newline is LF; no UTF mode). Patterns outside the supported syntax are refused with an error.',
 ['inputs', 'programs'], 'all supported PCRE patterns x all flag combinations x all byte strings',
 'The tests sample a few hundred fixed patterns (tests/pcre*, tests/retest); the guarantee is over an infinite set of patterns, in particular combinations of anchors, nullable subexpressions, counted repetition and flags.',
 ['src/libre/re.c', 'src/libre/dialect/pcre/lexer.c', 'src/libre/dialect/pcre/parser.c', 'src/libre/ast.c', 'src/libre/ast_analysis.c', 'src/libre/ast_rewrite.c', 'src/libre/ast_compile.c', 'src/libre/class/'],
 [('anchoring and nullability analysis, unsatisfiable-branch pruning', 'src/libre/ast_analysis.c'), ('AST rewriting', 'src/libre/ast_rewrite.c'), ('NFA construction and linking of anchored and unanchored parts', 'src/libre/ast_compile.c')],
 ['re_comp()', 'fsm_exec() / the edges of the returned automaton'])

prop('C02', 'Native, glob, like, SQL and literal patterns mean what the dialect says',
 'For each non-PCRE dialect, a pattern compiles to an automaton accepting exactly the strings its documented syntax describes: literal strings match themselves, glob ? and *, LIKE _ and %, SQL SIMILAR TO operators, classes and implicit anchoring, and the native operators, classes, counted repetition, escapes and ^ $ anchors. The case-insensitive, reverse and anchored flags change the language in exactly the corresponding way.',
 ['inputs', 'programs'], 'all valid patterns of five dialects x flags x all byte strings',
 'tests/{native,glob,like,sql,literal} hold fewer than a hundred fixed patterns compared against fixed automata.',
 ['src/libre/re.c', 'src/libre/dialect/native/', 'src/libre/dialect/glob/', 'src/libre/dialect/like/', 'src/libre/dialect/sql/', 'src/libre/dialect/literal/', 'src/libre/ast_compile.c'],
 [('per-dialect lexers and parsers building one shared AST', 'src/libre/dialect/*/parser.c'), ('NFA construction', 'src/libre/ast_compile.c')],
 ['re_comp()', 're(1) -r'])

prop('C03', 'Determinising never changes what an automaton matches or reports',
 'Removing epsilon transitions and determinising any automaton leave unchanged, for every input string, whether it is accepted, which end ids are reported, and (for eager outputs) which output ids are emitted along the way. The result has no epsilon transitions, respectively is a DFA. With a state limit the operation either succeeds as usual or reports that the limit was reached and leaves an automaton that still matches the same language.',
 ['programs', 'inputs'], 'all NFAs (any number of states, edges over all 256 symbols, epsilon cycles, unreachable and dead states, end ids) x all strings',
 'tests/determinise, tests/eclosure and tests/epsilons compare a few dozen small machines with fixed expected output; group splitting, hashing, interning and buffer growth only act on larger or denser machines.',
 ['src/libfsm/determinise.c', 'src/libfsm/epsilons.c', 'src/libfsm/closure.c', 'src/adt/internedstateset.c', 'src/adt/edgeset.c', 'src/adt/stateset.c'],
 [('pairwise edge-group analysis and interned state sets', 'src/libfsm/determinise.c'), ('epsilon closure', 'src/libfsm/closure.c'), ('carrying end ids and eager outputs', 'src/libfsm/endids.c, src/libfsm/eager_output.c')],
 ['fsm_determinise()', 'fsm_determinise_with_config()', 'fsm_remove_epsilons()'])

prop('C04', 'Minimising yields the smallest DFA with unchanged behaviour',
 'Minimising any DFA that has a start state leaves unchanged, for every input string, acceptance, the reported end ids and the eager outputs emitted on the way to acceptance, and the result has the fewest states any (partial) DFA with that behaviour can have. The result does not depend on how the states were numbered: minimising any renumbering, or any other DFA of the same behaviour, gives an isomorphic machine, and minimising twice changes nothing.',
 ['programs', 'inputs'], 'all DFAs with or without end ids and eager outputs, under all state numberings',
 'tests/minimise checks fixed machines and compares sizes for a handful; partition refinement has special paths for small classes, label subsets and end-distance that only certain shapes reach.',
 ['src/libfsm/minimise.c', 'src/libfsm/trim.c', 'src/libfsm/consolidate.c', 'src/libfsm/shuffle.c', 'src/libfsm/vacuum.c'],
 [('partition refinement seeded by end distance and end metadata', 'src/libfsm/minimise.c'), ('state consolidation', 'src/libfsm/consolidate.c'), ('dead-state trimming', 'src/libfsm/trim.c')],
 ['fsm_minimise()', 'fsm_countstates()'])

prop('C05', 'Union, intersection, subtraction and complement are exact',
 'For any two automata with a start state, the union, intersection and difference accept exactly the union, intersection and difference of the two languages, complement accepts exactly the other strings over all 256 byte values, and restricting to a character set keeps exactly the accepted strings made of those characters. Boolean identities (De Morgan, double complement, A-B = A and not B, commutativity, n-ary union) hold for every operand, including empty and universal ones.',
 ['programs', 'inputs'], 'all pairs (and arrays) of automata, NFA or DFA, x all strings',
 'tests/{union,intersect*,subtract*,complement} use fewer than thirty fixed small operand pairs.',
 ['src/libfsm/union.c', 'src/libfsm/intersect.c', 'src/libfsm/subtract.c', 'src/libfsm/complement.c', 'src/libfsm/charset.c', 'src/libfsm/walk2.c', 'src/libfsm/merge.c', 'src/libfsm/complete.c'],
 [('product walk over two machines with partial edges', 'src/libfsm/walk2.c'), ('state merging with renumbering', 'src/libfsm/merge.c')],
 ['fsm_union()', 'fsm_union_array()', 'fsm_intersect()', 'fsm_intersect_charset()', 'fsm_subtract()', 'fsm_complement()'])

prop('C06', 'Concatenation, reversal and completion have their textbook meaning',
 'Concatenating two automata accepts exactly the strings that split into a part accepted by the first and a part accepted by the second; reversing accepts exactly the reversed strings; completing a DFA leaves its language alone and gives every state an edge for every byte. These hold for any operands that have a start state, also with several end states, start states that are end states, edges back into the start, and machines accepting nothing.',
 ['programs', 'inputs'], 'all automata or pairs of automata x all strings',
 'tests/reverse has 15 fixed machines, there are no concatenation tests beyond CLI ones, and completion is exercised only through complement.',
 ['src/libfsm/concat.c', 'src/libfsm/reverse.c', 'src/libfsm/complete.c', 'src/libfsm/collate.c'],
 [('new start/end linkage by epsilon', 'src/libfsm/concat.c'), ('edge reversal with a chosen new start', 'src/libfsm/reverse.c')],
 ['fsm_concat()', 'fsm_reverse()', 'fsm_complete()'])

prop('C07', 'Equality and emptiness verdicts are exact',
 'The emptiness test says empty exactly when no string at all is accepted, and the equality test says equal exactly when the two automata accept the same set of strings, whatever their structure (NFA or DFA, unreachable or dead states, no start state, different sizes). Neither test alters its arguments.',
 ['programs'], 'all automata and all pairs of automata',
 'tests/equals has four cases; the decision must be right for every pair, including pairs whose shortest distinguishing string is long or uses one rare byte.',
 ['src/libfsm/equal.c', 'src/libfsm/empty.c', 'src/libfsm/subtract.c', 'src/libfsm/walk/reachable.c'],
 [('equality through two differences and an emptiness test', 'src/libfsm/equal.c'), ('reachability walk', 'src/libfsm/empty.c')],
 ['fsm_equal()', 'fsm_empty()'])

prop('C08', 'End ids identify exactly the component patterns that matched',
 'When automata tagged with end ids are combined (union, array union, merge, concatenation, clone) and then transformed (epsilon removal, determinise, minimise, trim, shuffle, vacuum), running any string on the result reports exactly the set of ids of the components that match it: none lost, none invented, sorted and without duplicates. Remapping or offsetting ids applies to every end state and only as asked.',
 ['programs', 'inputs', 'histories'], 'all sets of tagged automata x all sequences of combining and transforming operations x all strings',
 'tests/endids has 16 fixed programs; id storage is a resizable hash keyed by state, and is carried by separate code in every operation.',
 ['src/libfsm/endids.c', 'src/libfsm/determinise.c', 'src/libfsm/minimise.c', 'src/libfsm/merge.c', 'src/libfsm/clone.c', 'src/libfsm/trim.c', 'src/libfsm/consolidate.c'],
 [('hash table of end ids per state, with growth', 'src/libfsm/endids.c'), ('end-metadata split before partition refinement', 'src/libfsm/minimise.c')],
 ['fsm_endid_get()', 'fsm_endid_count()', 'fsm_mapendids()', 'fsm_increndids()', 'fsm_exec() end state'])

prop('C09', 'A combined pattern group reports exactly the patterns that match',
 'Combining any set of patterns into one repeated group and running it over any input reports a pattern (through an eager output or through an end id) exactly when that pattern on its own matches the input, for any mix of anchored, unanchored, nullable and overlapping patterns. Determinising and minimising the combined automaton do not change the reported set.',
 ['programs', 'inputs'], 'all sets of patterns x all inputs',
 'tests/eager_output has 22 fixed pattern sets; linking is driven by per-pattern anchoring shape, so unusual combinations matter.',
 ['src/libfsm/union.c', 'src/libfsm/eager_output.c', 'src/libre/ast_compile.c', 'src/libfsm/exec.c', 'src/libfsm/determinise.c', 'src/libfsm/minimise.c'],
 [('linkage info saved while building each NFA', 'src/libre/ast_compile.c'), ('group linking through global start and end loops', 'src/libfsm/union.c'), ('eager-output storage and emission', 'src/libfsm/eager_output.c, src/libfsm/exec.c')],
 ['fsm_union_repeated_pattern_group()', 'fsm_eager_output_set_cb()', 'fsm_exec()'])

prop('C10', 'The bytecode interpreters agree with direct execution',
 'Compiling any DFA to the virtual machine, in either encoding and with or without optimisation, and running it over any byte buffer or file gives the same accept or reject answer as executing the DFA directly. A machine too large for an encoding is refused, not misread.',
 ['programs', 'inputs', 'configurations'], 'all DFAs x both encodings x optimisation on/off x all byte strings (buffer and file input)',
 'tests/retest runs a few dozen regexes through each engine; jump-distance encodings, range splitting and operation reordering depend on machine size and edge layout.',
 ['src/libfsm/vm.c', 'src/libfsm/vm/ir.c', 'src/libfsm/vm/vm.c', 'src/libfsm/vm/v1.c', 'src/libfsm/vm/v2.c', 'src/libfsm/print/ir.c'],
 [('IR construction: modes, ranges, tables', 'src/libfsm/print/ir.c'), ('IR to opcodes, layout and relaxation of branch sizes', 'src/libfsm/vm/ir.c'), ('byte encodings and interpreters', 'src/libfsm/vm/v1.c, src/libfsm/vm/v2.c')],
 ['fsm_vm_compile()', 'fsm_vm_compile_with_options()', 'fsm_vm_match_buffer()', 'fsm_vm_match_file()'])

prop('C11', 'Generated matchers agree with direct execution, in every language',
 'For any DFA, the source code generated for each executable target (C, VM-style C, VM opcode tables, LLVM, Go, Rust, awk, shell), under each supported input API and ambiguity mode and any formatting option, compiles and accepts exactly the strings the DFA accepts. Where the target reports ids, it reports the ids of the accepting state as the ambiguity mode prescribes (all, or the lowest); when a single id is asked for, conflicts are reported as the mode says. (Input APIs over C or shell strings take strings without NUL.)',
 ['programs', 'inputs', 'configurations'], 'all DFAs x targets x io modes x ambiguity modes x print options x all byte strings',
 'tests/retest covers two input APIs for four targets on a few dozen regexes; other targets and options are not executed at all.',
 ['src/libfsm/print.c', 'src/libfsm/print/c.c', 'src/libfsm/print/vmc.c', 'src/libfsm/print/vmops.c', 'src/libfsm/print/llvm.c', 'src/libfsm/print/go.c', 'src/libfsm/print/rust.c', 'src/libfsm/print/awk.c', 'src/libfsm/print/sh.c', 'src/libfsm/print/ir.c', 'src/print/'],
 [('IR shared by printers', 'src/libfsm/print/ir.c'), ('per-language printers and character escaping', 'src/libfsm/print/, src/print/')],
 ['fsm_print()', 're -p -l / fsm -p -l'])

prop('C12', 'Writing an automaton out and reading it back loses nothing',
 'Printing any automaton in the fsm(5) language and parsing it back gives an automaton with the same language and the same end ids, under any print options that language honours. The JSON, IR-JSON, Graphviz and API-program outputs describe the same states, edges, start and ends (and ids where the form carries them), and printing is deterministic and leaves the automaton unchanged.',
 ['programs', 'configurations'], 'all automata (NFA or DFA, all 256 symbols) x print options',
 'tests/fsm parses ten fixed files; escaping of unusual bytes, ranges, consolidated edges and id lists are sampled at a handful of points.',
 ['src/libfsm/print/fsm.c', 'src/libfsm/parser.c', 'src/libfsm/lexer.c', 'src/libfsm/print/json.c', 'src/libfsm/print/irjson.c', 'src/libfsm/print/api.c', 'src/libfsm/print/dot.c', 'src/print/fsm.c'],
 [('fsm(5) printer with mode (catch-all) edges', 'src/libfsm/print/fsm.c'), ('fsm(5) parser', 'src/libfsm/parser.c')],
 ['fsm_print()', 'fsm_parse()'])

prop('C13', 'Generated example strings are real, complete and least-cost',
 'For any automaton with a start state, every string produced by match generation is accepted by the automaton, no longer than the bound, and ends in the state reported; every accepted string within the bound is represented by a generated string following the same path of states. The example for a goal state leads from the start to that state, and the shortest-path search returns a path of least total cost exactly when the goal is reachable.',
 ['programs', 'inputs'], 'all automata x all length bounds x all goal states x randomised or fixed label choice',
 'tests/gen has three programs; fsm_example and fsm_shortest are only reached through conflict messages.',
 ['src/libfsm/gen.c', 'src/libfsm/example.c', 'src/libfsm/shortest.c', 'src/adt/path.c', 'src/adt/priq.c', 'src/libfsm/cost/legible.c'],
 [('depth-first generation pruned by end distance', 'src/libfsm/gen.c'), ("Dijkstra's algorithm on a priority queue", 'src/libfsm/shortest.c, src/adt/priq.c')],
 ['fsm_generate_matches()', 'fsm_example()', 'fsm_shortest()', 're -m / fsm -G'])

prop('C14', 'Required-character detection is exact',
 'For any DFA that accepts something, the detected set of required characters is exactly the set of bytes that occur in every accepted string, and the reported count is its size. With a step limit the answer is either that same set or an explicit limit-reached result with an empty set.',
 ['programs', 'inputs'], 'all DFAs x all step limits',
 'tests/detect_required has eleven fixed regexes; the algorithm walks paths with pruning, so shape matters (loops, several ends, unreachable ends).',
 ['src/libfsm/detect_required.c'],
 [('depth-first intersection of labels along paths, with pruning', 'src/libfsm/detect_required.c')],
 ['fsm_detect_required_characters()'])

prop('C15', 'String-set automata match exactly the given strings',
 'An automaton built from any list of byte strings accepts exactly the inputs that equal, start with, end with or contain one of the strings, according to the anchoring flags, for any list order, duplicates, prefixes, overlaps and embedded NUL bytes, and reports exactly the end ids given to the strings that match.',
 ['inputs', 'configurations'], 'all lists of byte strings x anchoring flags x all inputs',
 'tests/aho_corasick and tests/re_strings use about fifteen fixed word lists.',
 ['src/libre/ac.c', 'src/libre/re_strings.c'],
 [('trie with failure links converted to a DFA', 'src/libre/ac.c')],
 ['re_strings()', 're_strings_new()', 're_strings_add_raw()', 're_strings_add_str()', 're_strings_build()'])

prop('C16', 'Literal and anchoring analyses of patterns are sound',
 'When a pattern is classified as a literal, its automaton accepts exactly the strings implied by that literal and its reported anchoring (a newline ending a literal anchored at the end may stand for the final newline that $ allows), and a pattern classified as unsatisfiable matches nothing. When a pattern is reported anchored at the start (or end), it matches exactly what it would if a match could only begin at the very start (or finish at the very end, or before a final newline where its end anchor allows one).',
 ['inputs', 'programs'], 'all patterns in all dialects x flags',
 'tests/re_literal has 25 fixed patterns; there is one anchoring test program.',
 ['src/libre/re.c', 'src/libre/ast_analysis.c', 'src/libre/ast.c'],
 [('literal detection over the AST', 'src/libre/re.c'), ('anchoring flags computed on AST nodes', 'src/libre/ast_analysis.c')],
 ['re_is_literal()', 're_is_anchored()'])

prop('C17', 'Printing a pattern back as a regex preserves its meaning',
 'The PCRE-syntax rendering of any accepted pattern, from any dialect, is itself an accepted PCRE pattern with the same language, when read back with the same flags except extended mode (for the dialects which match whole texts only, glob, like, literal and SQL, with RE_ANCHORED). The regex derived from any automaton, anchored at both ends, matches the same language as that automaton.',
 ['inputs', 'programs'], 'all patterns in all dialects; all automata',
 'Nothing executes the AST printers in the test suite except fixed-output checks; escaping, grouping and precedence interact.',
 ['src/libre/print/pcre.c', 'src/libre/ast_new_from_fsm.c', 'src/libre/ast_rewrite.c', 'src/print/pcre.c'],
 [('AST printers with precedence and escaping', 'src/libre/print/'), ('state elimination', 'src/libre/ast_new_from_fsm.c')],
 ['re -l pcre', 'ast_print()', 'ast_new_from_fsm()'])

prop('C18', 'Arbitrary input never crashes a parser; errors point into the input',
 'Feeding any byte sequence as a pattern in any dialect with any flags, as fsm(5) text, as an lx specification or as a group-interpolation format either succeeds or fails with a documented error, without crashing, undefined behaviour, leaking or failing to terminate. A reported error position is ordered and lies within the input, and re-reading the same bytes gives the same outcome.',
 ['inputs'], 'all byte strings x dialects x flags',
 'Tests contain a handful of malformed inputs; robustness is over all of them.',
 ['src/libre/re.c', 'src/libre/dialect/', 'src/libfsm/parser.c', 'src/libfsm/lexer.c', 'src/lx/parser.c', 'src/libre/re_interpolate_groups.c', 'src/libre/strerror.c', 'src/libre/perror.c'],
 [('generated lexers and parsers with error productions', 'src/libre/dialect/*/parser.c')],
 ['re_comp()', 'fsm_parse()', 'lx(1)', 're_interpolate_groups()'])

prop('C19', 'Core containers behave as the sets, maps and queues they model',
 'Under any sequence of operations, state sets, edge sets, interned state sets, bitmaps, tuple sets, priority queues, queues, id maps and path lists give the same answers as an ideal set, relation, map or priority queue: membership, counts, iteration (each element once, in the promised order), union, removal, compaction, renumbering and comparison.',
 ['histories', 'inputs'], 'all operation sequences and sizes, including growth, hash collisions and boundary symbols and ids',
 'The unit tests for containers are short fixed sequences; growth, displacement and bit-word boundaries need long and skewed ones.',
 ['src/adt/stateset.c', 'src/adt/edgeset.c', 'src/adt/internedstateset.c', 'src/adt/bitmap.c', 'src/adt/tupleset.c', 'src/adt/priq.c', 'src/adt/queue.c', 'src/adt/idmap.c', 'src/adt/path.c', 'include/adt/hash.h', 'include/adt/u64bitset.h'],
 [('singleton and small-set representations, sorted arrays, hash tables', 'src/adt/')],
 ['include/adt/*.h'])

prop('C20', 'API histories are memory-safe, leak-free and use the given allocator',
 'Any valid sequence of library calls, including those that consume their operands, performs no invalid memory access or undefined behaviour, releases everything once the remaining objects are freed, and takes all memory belonging to an automaton from the allocator it was created with, returning every block to that same allocator exactly once.',
 ['histories'], 'all valid sequences of API calls over several automata, with default or custom allocators',
 'Tests free what they build on a few straight-line paths and run without sanitizers or allocation accounting.',
 ['src/libfsm/', 'src/adt/alloc.c', 'src/libre/', 'include/fsm/alloc.h'],
 [('allocation wrappers carrying the per-automaton allocator', 'src/adt/alloc.c'), ('ownership transfer in destructive operators', 'src/libfsm/fsm.c, src/libfsm/merge.c')],
 ['every public function; struct fsm_alloc callbacks'])

prop('C21', 'Building and editing automata keeps the graph exactly as asked',
 'After any sequence of state and edge edits (add, bulk add, remove, merge states, duplicate a subgraph, mark ends, set or clear the start, move, clone, compact, trim, shuffle, vacuum, collate) the automaton has exactly the states, edges, ends, start and ids a plain graph model of those edits has, up to the documented renumbering. A clone is independent of its original.',
 ['histories'], 'all sequences of edit operations',
 'Tests build small graphs once; they do not interleave removal, trimming and merging with further edits.',
 ['src/libfsm/state.c', 'src/libfsm/edge.c', 'src/libfsm/end.c', 'src/libfsm/start.c', 'src/libfsm/mergestates.c', 'src/libfsm/subgraph.c', 'src/libfsm/clone.c', 'src/libfsm/trim.c', 'src/libfsm/shuffle.c', 'src/libfsm/vacuum.c', 'src/libfsm/collate.c', 'src/libfsm/fsm.c'],
 [('state array with compaction and edge renumbering', 'src/libfsm/state.c')],
 ['fsm_walk_states()', 'fsm_walk_edges()', 'fsm_isend()', 'fsm_getstart()', 'fsm_endid_get()'])

prop('C22', 'Predicates, counts and walks agree with the graph',
 'On any automaton every per-state predicate (end, any-edge, complete, deterministic, has incoming, outgoing or epsilon edges, epsilons only, nondeterminism through epsilons), every quantified form (all, any, count, reachable-all, reachable-any), the state and edge counts and the most frequent destination equal their definitions on the graph, and walks visit each state and edge exactly once and stop when told to.',
 ['programs'], 'all automata and all states',
 'tests/pred has 30 fixed files for single-state cases.',
 ['src/libfsm/pred/', 'src/libfsm/walk/', 'src/libfsm/mode.c', 'src/libfsm/fsm.c'],
 [('predicate functions over edge sets', 'src/libfsm/pred/'), ('walk functions', 'src/libfsm/walk/')],
 ['include/fsm/pred.h', 'include/fsm/walk.h', 'fsm_findmode()'])

prop('C23', 'The command-line tools report what the library computes',
 're(1), fsm(1) and rx(1) give the results the library gives for the same patterns, files and texts: match or no match, the exit status documented for matches, errors, unsupported syntax and queries, the pattern ids (argument position or line number), conflicts flagged exactly when two different patterns overlap, and declined patterns written out verbatim while the rest still work.',
 ['inputs', 'configurations'], 'all pattern lists, option combinations and texts',
 'The test suite uses the tools only as drivers with a few fixed options; exit statuses, ids, conflicts and declined output are not asserted.',
 ['src/re/main.c', 'src/fsm/main.c', 'src/rx/main.c', 'src/libfsm/print.c'],
 [('option handling, combination and execution loops', 'src/re/main.c, src/fsm/main.c, src/rx/main.c'), ('conflict detection over end ids', 'src/libfsm/print.c')],
 ['exit status, stdout and files of re, fsm, rx'])

prop('C24', 'Generated lexers tokenise by longest match with exact positions',
 'For any lexer specification, lx refuses a specification exactly when two mappings of a zone can match the same text or a mapping matches the empty text; otherwise the generated lexer splits any input into the tokens that scanning in the current zone prescribes: the longest text which is still the beginning of some token is read (with one character of lookahead, no further backtracking), and its mapping gives the token; zones are entered and left as specified. Each token has its exact spelling and start and end position; the end of input, or text that is no token, is reported at the right point, and the end of input from then on. This is so for every input API, buffer scheme and exclusion of parts of the interface.',
 ['programs', 'inputs', 'configurations'], 'all lexer specifications x all inputs x io and buffer options',
 'tests/lxpos checks positions for one specification family; no test varies the specification.',
 ['src/lx/main.c', 'src/lx/parser.c', 'src/lx/ast.c', 'src/lx/print/c.c', 'src/lx/print/h.c', 'src/lx/print/dump.c'],
 [('per-zone DFA construction and code generation', 'src/lx/main.c, src/lx/print/c.c')],
 ['lx -l dump, lx -l c / -l h'])

prop('C25', 'Group interpolation substitutes exactly the referenced groups',
 'Interpolating a format string yields the format with every group reference replaced by that group, every escape resolved, and everything else copied unchanged, never writes beyond the given buffer, and fails exactly for malformed references, references outside the groups without a default, or insufficient space, with positions pointing at the offending text.',
 ['inputs'], 'all format strings, escape characters, group lists and buffer sizes',
 'Three test programs cover fixed formats.',
 ['src/libre/re_interpolate_groups.c', 'include/re/groups.h'],
 [('single-pass state machine over the format', 'src/libre/re_interpolate_groups.c')],
 ['re_interpolate_groups()'])

prop('C26', 'Capture positions survive combination and determinisation',
 'For automata carrying capture paths, executing an accepted string after combining, determinising and minimising reports for each capture the start and end offset of the part of the string matched by the corresponding path in the original automaton, and no position for captures that took no part in the match.',
 ['programs', 'inputs'], 'all unions of captured string automata x all accepted strings',
 'tests/capture has eleven fixed programs.',
 ['src/libfsm/capture.c', 'src/libfsm/exec.c', 'src/libfsm/determinise.c', 'src/libfsm/minimise.c', 'src/libfsm/merge.c'],
 [('capture actions per state and destination', 'src/libfsm/capture.c')],
 ['fsm_capture_set_path()', 'fsm_exec() captures'])

prop('C27', 'Allocation failure is reported, never a crash or corruption',
 'If any single memory allocation made through the allocator given to an automaton fails, the library call in progress reports failure in its documented way, without crashing, undefined behaviour or using freed memory, and whatever automata the caller still owns can be freed.',
 ['fault_sequences', 'histories'], 'every allocation point of every operation',
 'No test makes an allocation fail.',
 ['src/libfsm/', 'src/adt/', 'include/fsm/alloc.h'],
 [('error paths after each f_malloc/f_calloc/f_realloc', 'src/libfsm/, src/adt/')],
 ['return values and errno with a failing struct fsm_alloc'])

prop('C28', 'Independent automata can be used from different threads',
 'Threads that build, transform, execute and print separate automata at the same time, or that only execute, query or print one shared automaton, never race on shared memory, and each gets the same result as it would alone. The lexer generator gives the same output however many threads it uses.',
 ['schedules'], 'all interleavings of threads using disjoint automata or sharing one read-only automaton',
 'No test uses threads (only lx does, internally).',
 ['src/libfsm/', 'src/adt/', 'src/libre/', 'src/lx/main.c'],
 [('no mutable global state in the libraries', 'src/libfsm/, src/libre/, src/adt/'), ('per-zone worker threads', 'src/lx/main.c')],
 ['any public function, under ThreadSanitizer', 'lx(1)'])
