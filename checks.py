"""What each registered check runs: builds, harnesses, case counts."""
ASAN = '-O1 -g -ftrivial-auto-var-init=pattern -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all'
PROFILES = {
    'asan': dict(cc='gcc', flags=ASAN, link=['-fsanitize=address,undefined'], targets=['lib']),
    'asanprog': dict(cc='gcc', flags=ASAN, link=['-fsanitize=address,undefined'], targets=['lib', 'prog']),
    'tsan': dict(cc='gcc', flags='-O1 -g -fno-omit-frame-pointer -fsanitize=thread', link=['-fsanitize=thread'], targets=['lib', 'prog']),
    'plain': dict(cc='gcc', flags='-O2 -g -DNDEBUG', link=[], targets=['lib']),
}
CHECKS = {}
def check(pid, jobs, rule, note, technique, **kw):
    for j in jobs:
        j.setdefault('profile', 'asan'); j.setdefault('name', j['src'].split('.')[0])
    CHECKS[pid] = dict(jobs=jobs, rule=rule, note=note, technique=technique, **kw)

check('C03', [dict(src='c03.cpp', cases=(2400, 60000), cpu=20)],
    rule='random and structured NFAs (epsilons, ids, eager outputs, boundary symbols), determinised with and without epsilon removal, state limits and custom allocators; non-trivial: a distinct machine with at least 2 states and 2 edges, counted by content hash',
    note='', technique='runtime monitor: exact product comparison of the library result with a reference automaton on generated machines, under ASan+UBSan')
check('C04', [dict(src='c04.cpp', cases=(2500, 60000), cpu=20)],
    rule='random, blown-up, ladder-shaped and determinised DFAs with ids and eager outputs, minimised, minimised twice, renumbered, and minimised by way of shuffle/trim/determinise; non-trivial: a distinct DFA of at least 3 states whose minimal DFA has at least 2, by content hash',
    note='', technique='runtime monitor: product comparison and Hopcroft minimality oracle over generated DFAs, under ASan+UBSan')
check('C05', [dict(src='c05.cpp', cases=(1500, 40000), cpu=20)],
    rule='random pairs and arrays of NFAs and DFAs (empty, universal, complete-nondeterministic, near-equal, large), through union, n-ary union, intersection, subtraction, complement, charset restriction and identities; non-trivial: a distinct pair of machines that both have edges, by content hash',
    note='', technique='runtime monitor: exact product comparison of the library result with the boolean combination of the operands, under ASan+UBSan')
check('C06', [dict(src='c06.cpp', cases=(2000, 50000), cpu=20)],
    rule='random pairs of NFAs and DFAs with end states at the start, edges into the start, several or no ends, through concatenation, reversal (twice), and completion under several predicates; non-trivial: a distinct pair of machines that both have edges, by content hash',
    note='', technique='runtime monitor: exact product comparison with a reference construction on generated machines, under ASan+UBSan')
check('C07', [dict(src='c07.cpp', cases=(8000, 80000), cpu=20)],
    rule='pairs of machines: structurally rewritten with the same language, minimally mutated, or independent; with unreachable, dead, missing start states; verdicts of both argument orders compared with the exact answer; non-trivial: a distinct pair of machines that both have edges, by content hash',
    note='', technique='runtime monitor: verdicts compared with exact language equality and emptiness of reference automata, under ASan+UBSan')
check('C08', [dict(src='c08.cpp', cases=(2500, 60000), cpu=20)],
    rule='several machines with per-machine or per-state end ids (shared, extreme, many), combined by union, array union, merge, concatenation, intersection or subtraction, then a random chain of transformations and id remappings, compared after every step; non-trivial: a distinct combined machine of 4 or more states with ids on at least 2, by content hash',
    note='', technique='runtime monitor: after every operation the reported id set for every string compared with a reference model by exact product comparison, under ASan+UBSan')
check('C21', [dict(src='c21.cpp', cases=(40000, 800000), cpu=20)],
    rule='random histories of 5-60 edits (add, bulk add, literal/any/epsilon edges, end/start marks, end ids, eager outputs, state removal and merging, subgraph duplication, clone, move, collate, trim with distances, shuffle, vacuum), the whole graph compared with the model after each; non-trivial: a distinct final graph of 3 or more states, by content hash',
    note='', technique='runtime monitor: the complete observable graph compared with a reference graph after every edit of generated histories, under ASan+UBSan and a counting allocator')
check('C22', [dict(src='c22.cpp', cases=(8000, 120000), cpu=20)],
    rule='random graphs with near-complete states, shared symbols, epsilon cycles, unreachable parts; every predicate on every state, counts, reachability quantifiers from every state, modes and walks (also stopped early), as built and after edits; non-trivial: a distinct graph with 2 or more states and edges, by content hash',
    note='', technique='runtime monitor: every predicate, count and walk compared with the value computed from the reference graph, under ASan+UBSan')
check('C13', [dict(src='c13.cpp', cases=(30000, 600000), cpu=20)],
    rule='random epsilon-free machines (unreachable, dead and renumbered start states, self loops, many labels per edge): shortest paths from any state to every goal under six cost functions, examples for every goal and buffer size, generation under every small bound with pruning and halting; non-trivial: a distinct machine of 2 or more states with edges, by content hash',
    note='', technique='runtime monitor: path costs compared with an independent Dijkstra, generated strings with an exhaustive enumeration of accepting paths, under ASan+UBSan')
check('C14', [dict(src='c14.cpp', cases=(30000, 600000), cpu=20)],
    rule='structured DFAs (backbones with detours, groups, loops back, alternative and dead ends) and random DFAs, with step limits from 1 up; non-trivial: a distinct machine of 2 or more states that accepts something, by content hash',
    note='', technique='runtime monitor: each of the 256 bytes compared with reachability of an end without that byte, under ASan+UBSan')
check('C15', [dict(src="c15.cpp", cases=(5000, 200000), cpu=20)],
    rule='random word lists (0-120 words; prefixes, suffixes, infixes and duplicates of one another, embedded NULs, boundary bytes, the empty word), through all three APIs, every flag combination, none/all/some/shared ids; non-trivial: a distinct list of 2 or more words, by content hash',
    note='', technique='runtime monitor: exact product comparison of the built automaton (acceptance and ids) with the language of the word list, under ASan+UBSan')
check('C10', [dict(src='c10.cpp', cases=(4000, 40000), cpu=40)],
    rule='random DFAs shaped for every code-generation strategy (none, same, complete, dominant, error, partial), random and larger ones up to 60000 states (near, far and indirect branches); compiled in both encodings with and without optimisation; every reachable state left on every boundary byte and followed further, long buffers, files around the read size and empty; non-trivial: a distinct DFA of 2 or more states with edges, by content hash',
    note='', technique='runtime monitor: verdict of the bytecode interpreter compared with direct execution of the reference DFA on state- and boundary-covering inputs, under ASan+UBSan')
check('C12', [dict(src='c12.cpp', cases=(3500, 60000), cpu=30, link=['-rdynamic'])],
    rule='random NFAs and DFAs with ids (boundary symbols, dense and sparse labels, up to 3500 states), printed as fsm(5), JSON, IR JSON, IR and state graphs and fsm(3) API programs under random print options; fsm(5) text read back, hand-written fsm(5) text in every spelling read, API programs compiled and run; non-trivial: a distinct machine of 2 or more states with edges, by content hash',
    note='', technique='runtime monitor: what each printed form says, as read by an independent reader, compared with the reference automaton; read-back compared by exact product comparison, under ASan+UBSan')
check('C19', [dict(src='c19.cpp', cases=(30000, 600000), cpu=20)],
    rule='random histories of 3-3000 operations on each container kind (several live instances copied into one another, non-injective and order-changing renumberings, emptied groups, growth, boundary bits), the whole observable state compared with the ideal container after each operation; non-trivial: a distinct history of more than 8 operations (bitmaps 6), by hash of its operations',
    note='', technique='runtime monitor: every answer and the whole contents compared with an ideal set, map or queue after each operation of generated histories, under ASan+UBSan and a counting allocator')
check('C25', [dict(src='c25.cpp', cases=(120000, 2500000), cpu=20)],
    rule='random format strings of literals, doubled escapes and references (existing, one past the end, leading zeros, numbers around 2^16..2^64, malformed), random escape characters, 0-130 groups, with and without a default, into exact-fit, short, zero and absent buffers of exactly the given size; non-trivial: a distinct format of 2 or more items, by content hash',
    note='', technique='runtime monitor: result, output bytes and error positions compared with a reference interpolation, buffers guarded by ASan')
check('C01', [dict(src='c01.cpp', cases=(160000, 1500000), cpu=20, linklibs=['-lpcre2-8'])],
    rule='random patterns over the whole supported syntax (every spelling of a character, classes with ranges, POSIX and escape classes, groups, inline flags, comments, counts, anchors anywhere, empty alternatives) and token mixtures, under every flag; non-trivial: a distinct pattern and flag set whose automaton has two or more distinct situations, by hash of the text',
    note='', technique='runtime monitor: exact product comparison with a reference automaton of the pattern, and the verdicts of the real PCRE2 engine on inputs covering every state and byte class, under ASan+UBSan')
check('C02', [dict(src='c02.cpp', cases=(60000, 1500000), cpu=20)],
    rule='random valid patterns of the native, SQL, glob, LIKE and literal dialects over their whole syntax (every spelling of a character, classes with ranges, named classes, subtraction, groups, alternatives, counts, anchors) under the case-insensitive, dotall, anchored and reverse flags; non-trivial: a distinct pattern and flag set whose automaton has two or more distinct situations, by hash of the text',
    note='', technique='runtime monitor: exact product comparison with a reference automaton of the pattern, under ASan+UBSan')
check('C11', [dict(src='c11.cpp', cases=(480, 9000), cpu=60, link=['-rdynamic'])],
    rule='batches of DFAs (random, literal runs, complete, determinised and minimised) with ids, printed for each target under random input API, ambiguity mode, formatting options, prefixes and hooks, built with the real compilers and assemblers (awk interpreted) and run on strings covering every state and byte class; non-trivial: a distinct DFA and target, by content hash',
    note='', technique='runtime monitor: verdict and ids of the compiled generated code compared with the reference automaton on state- and class-covering inputs, half of the C builds under ASan+UBSan')
check('C09', [dict(src='c09.cpp', cases=(8000, 200000), cpu=20)],
    rule='random groups of 1-8 patterns (anchored at either end or both or in some alternatives, unanchored, nullable, overlapping, duplicated; plain and over the whole PCRE syntax), combined, determinised and minimised; non-trivial: a distinct group of 2 or more patterns with 3 or more situations, by hash of the patterns',
    note='', technique='runtime monitor: the set reported by the combined automaton (eager outputs on the way and end ids) compared by exact product walk with the automata of the patterns on their own, and by executions, under ASan+UBSan')
check('C16', [dict(src='c16.cpp', cases=(80000, 1500000), cpu=20)],
    rule='random patterns of every dialect, near half of them strings with anchors in every spelling (escapes, quotes, comments, groups, counts), the rest over the whole syntax; non-trivial: a distinct pattern and flags that is classified as a literal or as anchored, by hash of the text',
    note='', technique='runtime monitor: the classification compared by exact product walk with the compiled automaton (literals, unsatisfiable patterns) and with the language of the pattern restricted to anchored matches, under ASan+UBSan')
check('C18', [dict(src='c18.cpp', cases=(30000, 800000), cpu=30, profile='asanprog', link=['-Wl,--wrap=exit'])],
    rule='mutated valid texts, token mixtures, random bytes, nested and long inputs, as patterns of every dialect under every flag (compiled, and through the literal and anchor analyses), as fsm(5) text, as lx specifications for every output language, and as interpolation formats, read twice; non-trivial: a distinct text, by hash',
    note='', technique='runtime monitor: outcome, error code, error position, repeatability and memory left allocated observed for each input, under ASan+UBSan')
check('C20', [dict(src='c20.cpp', cases=(6000, 150000), cpu=30)],
    rule='random histories of 8-120 calls over a pool of up to 8 automata in three marked allocators and the default one, over the whole public API (creation by hand, from patterns, string sets and text, combination, transformation, edits, ids, queries, printing in every language, the virtual machine, paths, generation, pattern groups); non-trivial: a distinct history, by hash',
    note='', technique='runtime monitor: every block tracked through allocators that notice foreign, double and missing releases and memory kept outside them after each call of generated histories, under ASan+UBSan')
check('C27', [dict(src='c27.cpp', cases=(6000, 150000), cpu=30, link=['-Wl,--wrap=exit'])],
    rule='an operation of the public API on random automata, patterns, word lists or text, run once for each allocation it makes (at most 60 of them, sampled) with that allocation failing, alone or with all after it; non-trivial: a distinct operation and operands, by hash',
    note='', technique='runtime monitor: fault injection at every allocation, with outcome, result and ownership observed against the run without faults, under ASan+UBSan')
check('C23', [dict(src='c23.cpp', cases=(700, 20000), cpu=60, profile='asanprog', link=['-Wl,--wrap=exit'])],
    rule='command lines of re, fsm and rx over random patterns of every dialect (including refused, unsupported and unsatisfiable ones), random automata and texts: execution with and without files, ids, the VM, queries, printing, examples, generation, literals, transformations, declined patterns, conflicts, misuse; non-trivial: a distinct command line and input that got to a result',
    note='', technique='runtime monitor: exit status, standard output and files of the programs compared with the library (patterns, literals, predicates) and the reference automata (combination, ids, conflicts, results read back), the programs under ASan+UBSan')
check('C17', [dict(src='c17.cpp', cases=(1500, 60000), cpu=60)],
    rule='random patterns of the six dialects under random flags (generated with their meaning, and token soup for PCRE), and random automata with and without epsilons, 20 per case; non-trivial: a distinct pattern and flags, or automaton, that was rendered and whose text was read back with a verdict on the languages',
    note='', technique='runtime monitor: the PCRE text printed for each accepted pattern and derived for each automaton is compiled again, and the two languages compared as subset automata with a distinguishing word, under ASan+UBSan')
check('C26', [dict(src='c26.cpp', cases=(5000, 120000), cpu=30)],
    rule='1 to 14 automata (strings with shared prefixes and suffixes, and graphs without cycles but for self-edges), each with up to 4 capture paths (empty, reversed, repeated, with gaps in the ids), renumbered and with unreachable states, combined by union, union of many and concatenation, determinised, and then cloned, trimmed, minimised and determinised again in random order; 10 texts each; non-trivial: a distinct automaton and accepted text whose captures were judged',
    note='', technique='runtime monitor: positions reported by fsm_exec for each accepted text compared with the runs of the original automata, under ASan+UBSan')
check('C28', [dict(src='c28.cpp', cases=(1200, 30000), cpu=200, profile='tsan')],
    rule='2 to 8 threads at once, each with a history of its own over the public API (allocators that inject delays), compiling patterns of every dialect, or reading one automaton and its compiled form (execution, queries, comparison, printing in every language, cloning); lexer specifications through lx with 1, 2, 4 and more threads; non-trivial: a distinct interleaving of the operations of the threads (order of their starts), or a distinct specification that lx accepts',
    note='', technique='runtime monitor: ThreadSanitizer over concurrent histories with injected delays, with the result of every thread compared with what it got alone, and the output of lx compared between numbers of threads')
check('C24', [dict(src='c24.cpp', cases=(900, 20000), cpu=60, profile='asanprog')],
    rule='random lexer specifications (literals and patterns in every spelling, every operator of the expression language, bindings, references to tokens, nested, implicit, explicit, one-way and multiply entered zones), each generated under 2 or 3 random configurations of input API, buffer scheme, exclusions, prefixes and threads, compiled and run on 40 inputs led through the zones; non-trivial: a distinct specification whose lexers made more than 60 calls, by hash of the text',
    note='', technique='runtime monitor: every token, spelling, position and end reported by the compiled generated lexer compared with longest-match scanning of the reference meaning, half of the lexers under ASan+UBSan+LSan, lx itself under ASan+UBSan')
