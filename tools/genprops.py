#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

p("L01", "Sequence containers and strings behave as the sequences they model",
  "Whatever sequence of create, add, insert, replace, move, delete, resize, index, copy and concatenate operations is applied to the growable arrays, clustered arrays, linked lists and counted strings, their observable contents equal those of a plain in-order sequence given the same operations, and slots never written read as zero. A copy is deep and independent of its source, and elements already stored in a clustered array never move. No operation touches memory outside the container, and destroying everything returns every byte.",
  ["histories", "inputs"], "All operation histories over any element size, any index and any container size, including growth across every capacity boundary and copies taken at any point.",
  "The unit tests run a few fixed histories with small sizes; growth boundaries, odd element sizes, copy-then-mutate and delete/insert interleavings are never reached.",
  ["rlib/rarray.c", "rlib/rcarray.c", "rlib/rlist.c", "rlib/rlist.h", "rlib/rstring.c", "rlib/robject.c", "rlib/rgc.c", "rlib/rbuffer.c"],
  [("capacity expansion and zeroing", "rlib/rarray.c r_array_expand/r_array_setlength"), ("cluster addressing", "rlib/rcarray.h r_carray_slot"), ("object copy/cleanup chain", "rlib/robject.c")],
  ["container length and element reads", "live allocation count"])
p("L02", "Keyed containers (map, hash, named array) equal an ordered multimap",
  "Under any history of additions, replacements, deletions and lookups with any keys (empty keys, keys that are prefixes of one another, counted keys with embedded NUL bytes, numeric keys, duplicates and colliding keys included), lookups find exactly the entries currently stored under an equal key: the plain lookup the most or least recently added one as documented, the tail lookup the opposite end, and chained lookups every one once. Walking the map forward and backward visits exactly the live entries in insertion order, and values and keys read back are the ones stored. Nothing is lost, resurrected after deletion, leaked or read out of bounds.",
  ["histories", "inputs"], "All operation histories, key sets, hash widths and element sizes.",
  "The unit tests use a handful of keys in large tables, so collisions, duplicate keys, slot recycling after deletion and iteration after mixed deletes are not exercised.",
  ["rlib/rmap.c", "rlib/rhash.c", "rlib/rharray.c"],
  [("bucket chains", "rlib/rhash.c, rlib/rmap.c"), ("recycled nodes", "rlib/rmap.c inactive list"), ("name array kept in step with members", "rlib/rharray.c")],
  ["lookup results, iteration order, stored values"])
p("L03", "UTF-8 and UTF-16 conversion is exact, bounded and always makes progress",
  "Every Unicode scalar value encodes to its standard UTF-8 and UTF-16LE byte sequence and decodes back to itself, and well-formed text decodes to exactly its sequence of code points. On arbitrary bytes a decode step consumes between one byte and the bytes that remain, never reads at or past the end it was given, and reports nothing consumed only at the end; an encode never writes more than the room it was given, and refuses values that are not encodable.",
  ["inputs"], "All 0x110000 code points, all 32-bit values for rejection, all byte sequences with every truncation point and every output room.",
  "There is no unit test of the converters; parsing tests use ASCII almost exclusively.",
  ["rlib/rutf.c", "rpagrep/rpagreputf.c"],
  [("length checks before continuation bytes", "rlib/rutf.c"), ("surrogate handling", "rlib/rutf.c")],
  ["return value and decoded code point"])
p("L04", "Atomics, spin locks, reference counts and allocation totals hold up in threads",
  "Under any interleaving of threads, a spin lock admits one holder at a time and everything written under it is visible to the next holder, atomic read-modify-write operations lose no update, and a try-lock succeeds exactly when the lock was free. A reference-counted object is destroyed exactly once, by the release that takes the count to zero, and the process-wide allocation total equals the bytes allocated and not yet freed, with the peak never below it. No such use is a data race.",
  ["schedules"], "All thread counts and interleavings of acquire, try, release, add, subtract, exchange, increment, decrement, allocate, resize and free.",
  "One test spins two threads once without a race detector; lost updates, early destruction and missing release ordering need particular schedules.",
  ["rlib/rspinlock.c", "rlib/ratomic.c", "rlib/rref.c", "rlib/rmem.c", "arch/unix/rtypes.h"],
  [("compare-and-swap lock", "rlib/rspinlock.c"), ("locked counters", "rlib/rref.c, rlib/rmem.c")],
  ["counter values, destruction events, race detector reports"])
p("X01", "Regular-expression matching accepts exactly the language of the pattern",
  "For every well-formed pattern (literals, escapes, any-character, character classes with ranges, negation and numeric codes, grouping, alternation, optional, star, plus and counted repetition) and every input, matching from a position reports the longest prefix that belongs to the pattern's language, and reports no match when no non-empty prefix does. This holds for code points across the whole Unicode range, in UTF-8 and byte mode, and under whichever set of blank characters was chosen.",
  ["programs", "inputs"], "All patterns of the supported syntax and all inputs, valid or not as UTF-8.",
  "Existing tests check around thirty fixed pattern/input pairs; operator nesting, class algebra, repetition bounds and wide characters form an unbounded space.",
  ["rex/rexcompiler.c", "rex/rexfragment.c", "rex/rextransition.c", "rex/rexstate.c", "rex/rexregex.c", "rex/rexnfasimulator.c"],
  [("Thompson construction", "rex/rexcompiler.c, rex/rexfragment.c"), ("transition normalisation", "rex/rextransition.c"), ("subset simulation", "rex/rexnfasimulator.c")],
  ["match result length"])
p("X02", "The deterministic automaton equals the nondeterministic one it was built from",
  "For any set of patterns compiled into one database, or any automaton built state by state, converting it to a deterministic automaton (and to its compact table form, with or without sub-state information) preserves behaviour: after any input the automaton is accepting exactly when the nondeterministic simulation is, and reports exactly the same set of matched patterns with the same user data, in the order the patterns were added. The dead state is entered only when no continuation can match, and conversion leaves the source database intact.",
  ["programs", "inputs"], "All sets of patterns and all input strings, including code points at range boundaries.",
  "No existing test exercises the deterministic conversion at all.",
  ["rex/rexdfaconv.c", "rex/rexdfa.c", "rex/rexdb.c", "rex/rexstate.c", "rex/rexdfasimulator.c", "rex/rexdfatypes.h", "rex/rextransition.c"],
  [("subset construction", "rex/rexdfaconv.c"), ("state deduplication by sub-state set", "rex/rexdb.c"), ("range splitting", "rex/rextransition.c")],
  ["accepting sub-states and user data per input prefix"])
p("X03", "Searching finds the leftmost longest match and misses none",
  "Scanning a text with a regular expression returns the earliest position at which a non-empty match exists, together with the longest match from that position, and returns no match only when no position has one. Repeating the scan after each match enumerates the same matches as trying every position in turn, and the position lies on a character boundary inside the text; the quick rejection filter never hides a match.",
  ["programs", "inputs"], "All patterns and all texts, including matches at the very start and end, near-misses, and texts with malformed UTF-8.",
  "Scan tests cover a few short ASCII strings; the filter hashes several characters and can only be wrong for particular text/pattern combinations.",
  ["rex/rexregex.c"],
  [("hash prefilter then full match", "rex/rexregex.c rex_regex_scan")],
  ["matched position and size"])
p("X04", "Bad patterns are refused cleanly and leave the pattern database usable",
  "Any byte string offered as a pattern is either compiled or refused with an error, in time and memory proportional to the pattern with its counted repetitions written out, never crashing, reading outside the pattern or leaking; unbalanced or empty groups, empty alternatives, dangling operators, unfinished classes, counts or escapes are refused. After a refusal the database still matches exactly what it matched before and accepts further patterns, and a stand-alone expression that fails to compile yields no object.",
  ["inputs", "histories"], "All byte strings as patterns (unbalanced, truncated, empty alternatives, stray operators, invalid UTF-8, extreme counts) and all orders of good and bad additions.",
  "Only a couple of malformed patterns are tried by hand; hostile inputs are unbounded.",
  ["rex/rexcompiler.c", "rex/rexdb.c", "rex/rexregex.c", "rex/rexfragment.c"],
  [("error returns unwound through the recursive-descent parser", "rex/rexcompiler.c"), ("fragment stack", "rex/rexcompiler.c FPUSH/FPOP")],
  ["return codes, sanitizer reports, matches after refusal"])
p("X05", "Generated lexers behave as the patterns and actions they came from",
  "For every valid lexer specification, the C tables emitted by the lexer generator compile as they are and, driven as documented, split any text into the same longest-match tokens with the same token identifiers, earliest rule first on ties, as the patterns themselves define. Text outside the rule section is copied through unchanged, the table-printing options describe the same automaton, and a specification with an invalid pattern is reported with a failing exit status and the line the rule is on.",
  ["programs", "inputs"], "All specifications (token names, escapes, prolog and epilog text, option combinations) and all texts to tokenise.",
  "No existing test runs the generator.",
  ["rexcc/rexcc.c", "rexcc/rexccmain.c", "rex/rexdfa.c", "rex/rexdfaconv.c"],
  [("table emission", "rexcc/rexcc.c"), ("transition lookup", "rex/rexdfatypes.h")],
  ["token stream of the compiled generated lexer"])
p("X06", "The regex grep tool prints exactly the matching lines and parts",
  "For any patterns and files, the tool prints every line containing a match and no other, in order and unchanged (with the file name when asked for), or exactly the matched parts when asked for them, and its exit status says whether anything matched. The result is the same with the deterministic and the nondeterministic engine, with an automaton saved to a file and loaded back, and for text given on standard input or as a file.",
  ["inputs", "configurations"], "All patterns, texts (with and without a final newline, empty lines, long lines, binary bytes) and option combinations.",
  "No existing test runs the tool.",
  ["rexgrep/rexgrep.c", "rexgrep/rexgrep-main.c", "rexgrep/unix/rexgrepdep.c", "rexgrep/unix/fsenum.c"],
  [("line splitting and block reading", "rexgrep/rexgrep.c"), ("automaton persistence", "rexgrep/rexgrep.c")],
  ["standard output and exit status"])
p("V01", "Every virtual-machine instruction computes its documented result and flags",
  "For every move, arithmetic, comparison, multiply, divide, shift, bit and type instruction, and every operand value in register or immediate form, the destination register and (for flag-setting forms) the zero, sign, carry and overflow flags are those of the two's-complement operation under the project's flag conventions, and no other register changes. Chains of add-with-carry and subtract-with-borrow therefore compute exact multi-word sums and differences, and arithmetic faults are reported by the machine rather than crashing its host.",
  ["inputs", "programs"], "All instructions, operand values (with emphasis on boundaries), operand kinds and incoming flag states; all lengths of carry chains.",
  "The instruction tests use one or two operand pairs each; carry, borrow, overflow and sign corner cases are combinations they do not reach.",
  ["rvm/rvmcpu.c", "rvm/rvmcpu.h", "rvm/rvmreg.c"],
  [("status update macros", "rvm/rvmcpu.h"), ("per-instruction handlers", "rvm/rvmcpu.c")],
  ["register file and status register after execution"])
p("V02", "Assembled programs run as written: labels, branches, calls, memory and stack",
  "For any program assembled through the code generator, with labels defined before or after use, instructions replaced in place or inserted ahead of any label, and relocation repeated as code is added, execution visits the instructions a straightforward reading of the program visits: conditional and linked branches go where their condition and label say, calls return after the call site, function entry sets up and removes its frame, values stored, pushed or block-transferred are the ones later loaded or popped, and a name looked up in the scope table is its innermost visible definition. A reference to an undefined label is reported instead of resolved, and re-running a program from the same state gives the same result.",
  ["programs", "inputs"], "All programs over the branch, call, load/store, stack and function instructions with any label layout.",
  "Tests are fixed ten-line programs; label resolution order, nesting of calls and stack discipline vary without bound.",
  ["rvm/rvmcpu.c", "rvm/rvmcodegen.c", "rvm/rvmcodemap.c", "rvm/rvmrelocmap.c", "rvm/rvmscope.c"],
  [("relocation of recorded references", "rvm/rvmrelocmap.c"), ("label table", "rvm/rvmcodemap.c"), ("branch and stack handlers", "rvm/rvmcpu.c")],
  ["execution trace, registers, memory"])
p("V03", "A running program cannot take the virtual machine outside its own stack",
  "Whatever push, pop, frame, indexed store and load or unbounded recursion a program performs, the machine stops with an error or continues with its stack pointer inside the stack it was given; it never reads or writes outside that stack, and the error code it reports tells why it stopped. An unknown opcode, an unregistered service call or an explicit abort also stops the program with the matching error, and afterwards the machine can run another program normally.",
  ["programs", "fault_sequences"], "All programs and stack sizes, with faults at any point of the execution.",
  "Existing tests never overflow, underflow or fault the machine.",
  ["rvm/rvmcpu.c", "rvm/rvmcpu.h"],
  [("stack limit checks", "rvm/rvmcpu.c push/store handlers"), ("abort macro", "rvm/rvmcpu.h RVM_ABORT")],
  ["sanitizer reports, machine error code, stack contents"])
p("V04", "Typed registers and labels keep, convert and release their values exactly",
  "A register given a value of any type (by setter, by creator or as the immediate of an instruction) holds exactly that type, value and ownership flag, whatever it held before, and the typed getters, other registers, globals and the addresses of stack slots deliver it unchanged. Texts that are integers or decimal fractions convert to that number, copies of string and array registers are independent of their source, and releasing collector-owned objects from register arrays clears exactly the references to such objects reachable through owned arrays, cycles included, so that each object is later destroyed once. A label name has one number in the code map, and resolves to its latest definition through any chain of bases or is reported as unresolved.",
  ["inputs", "histories"], "All register types and 64-bit values, all texts of integers and decimals, all object graphs among register arrays, all histories of label definitions and lookups.",
  "No test uses the typed setters and getters, the conversions, collector-owned arrays or chained labels.",
  ["rvm/rvmreg.c", "rvm/rvmreg.h", "rvm/rvmcpu.c", "rvm/rvmcodemap.c", "rlib/robject.c", "rlib/rgc.c"],
  [("setters and conversions", "rvm/rvmreg.c"), ("release of collector-owned data", "rvm/rvmreg.c rvm_reg_array_unref_gcdata"), ("typed immediates", "rvm/rvmcpu.c rvm_asm*"), ("label resolution", "rvm/rvmcodemap.c rvm_codemap_resolve")],
  ["register type, value and flags", "destruction events", "resolved values"])
p("P01", "A compiled grammar accepts exactly what the grammar says",
  "For every grammar without left recursion (characters, strings, escapes, classes and ranges, any-character, sequence, ordered choice, optional, star, plus, exclusion, subtraction, bracketing, and inlined or recorded rule references, recursion included) and every input, matching a rule succeeds exactly when the rule, read as ordered-choice greedy parsing in which a rule must consume something, matches a prefix, and the reported length is that prefix's. The outcome does not depend on how the grammar text was laid out, split over several loads, or which rule was compiled first.",
  ["programs", "inputs"], "All grammars of the notation and all inputs.",
  "Only a postfix grammar and hand-assembled rule fragments are tested; the text notation and operator combinations are unbounded.",
  ["rpa/rpaparser.c", "rpa/rpadbex.c", "rpa/rpacompiler.c", "rpa/rpavm.c", "rpa/rpastat.c"],
  [("grammar of grammars", "rpa/rpaparser.c"), ("code generation per construct", "rpa/rpadbex.c, rpa/rpacompiler.c"), ("matching opcodes", "rpa/rpavm.c")],
  ["match length or failure"])
p("P02", "Left-recursive rules terminate and group to the left, longest first",
  "A directly or indirectly left-recursive rule parses every input in finite time, taking the longest expansion obtainable by repeatedly growing the recursion from its base alternatives. For operator grammars of the usual shape the accepted prefix is exactly that of the equivalent iterative grammar, and the parse records associate to the left with the declared precedence, at any nesting depth and chain length.",
  ["programs", "inputs"], "All operator grammars with any number of levels, operators and alternatives, direct or indirect recursion, and all expressions over them.",
  "The few loop tests check match lengths of short strings; associativity in the records and mutual recursion are not covered.",
  ["rpa/rpavm.c", "rpa/rpacompiler.c", "rpa/rpastat.c", "rpa/rpadbex.c"],
  [("loop growing with remembered size", "rpa/rpacompiler.c loop rules"), ("record normalisation", "rpa/rpastat.c")],
  ["match length and record tree"])
p("P03", "Parse records form the exact tree of the rules that matched",
  "Parsing produces balanced, properly nested start and end records, each naming its rule and identifiers and spanning exactly the input that rule matched, children in order inside their parent, and nothing from alternatives that were tried and abandoned. Which rules appear follows the recording directives, so that the tree equals the one read directly off the grammar; a parse that matches nothing adds no records, and records from earlier parses in the same array are left alone.",
  ["programs", "inputs", "configurations"], "All grammars, directive combinations and inputs, with and without backtracking.",
  "Record contents are checked for two small rules; backtracking clean-up and directive combinations are not.",
  ["rpa/rpavm.c", "rpa/rpastat.c", "rpa/rparecord.c", "rpa/rpadbex.c", "rpa/rpacache.c"],
  [("record emission and rollback", "rpa/rpavm.c"), ("directive handling", "rpa/rpadbex.c"), ("cached record replay", "rpa/rpavm.c cache opcodes")],
  ["record array"])
p("P04", "Optimisations, bitmaps and caching never change a result",
  "For every grammar and input, matching, scanning and parsing give the same length, position, records and error whether compiler optimisations, first-character bitmaps and the execution cache are on or off, in every combination, and whether the same working object has been used for other inputs before.",
  ["configurations", "programs", "inputs", "histories"], "All combinations of switches, grammars, inputs and orders of use of one working object.",
  "Tests run the default configuration only.",
  ["rpa/rpaoptimization.c", "rpa/rpabitmap.c", "rpa/rpacache.c", "rpa/rpavm.c", "rpa/rpadbex.c", "rpa/rpastat.c"],
  [("record-tree rewriting", "rpa/rpaoptimization.c"), ("first-set bitmaps", "rpa/rpabitmap.c"), ("serial-numbered cache", "rpa/rpacache.c")],
  ["results and records across configurations"])
p("P05", "Encodings and case-insensitive matching agree on the same text",
  "The same grammar applied to the same text gives corresponding results (same characters consumed, same rules recorded over the same characters) whether the text is supplied as UTF-8, as UTF-16LE or, for single-byte text, as bytes. Case-insensitive matching gives the result of matching when each character may be replaced by its other-case counterpart, in every encoding, and malformed or truncated text never causes a read beyond the input.",
  ["inputs", "programs", "configurations"], "All texts over the Unicode range, all grammars, all six encoding modes.",
  "No test uses any encoding other than UTF-8 with ASCII content.",
  ["rpa/rpastat.c", "rpa/rpavm.c", "rlib/rutf.c", "rlib/rcharconv.c", "rpa/rpabitmap.c"],
  [("per-encoding shift", "rpa/rpastat.c rpa_stat_shift"), ("case counterpart", "rlib/rcharconv.c")],
  ["match lengths in characters, record spans"])
p("P06", "One compiled grammar can be used by many threads at once",
  "After a grammar database has been compiled, any number of threads, each with its own working object, can match, scan and parse with it at the same time, and each gets exactly the result it would get alone. Such use contains no data race and leaves the database unchanged.",
  ["schedules", "inputs"], "All thread counts, interleavings, grammars and inputs.",
  "All existing tests are single threaded.",
  ["rpa/rpadbex.c", "rpa/rpastat.c", "rpa/rpavm.c", "rvm/rvmcpu.c", "rlib/rmem.c"],
  [("per-parse state held in the working object", "rpa/rpastat.c"), ("read-only shared code and data", "rpa/rpadbex.c")],
  ["per-thread results, race detector reports"])
p("P07", "Bad grammars and hostile input are reported, never crash, hang or leak",
  "Any byte string loaded as a grammar is either accepted or refused with an error and a position inside the text; an undefined rule reference, an unknown rule or wrong use of the interface is reported with its own error code and name. Any input, however malformed, nested or long, ends in a result or an error such as exhausted stack or an abort rule, without touching memory outside the input, and all memory is returned when the objects are destroyed.",
  ["inputs", "fault_sequences", "histories"], "All grammar texts, inputs, stack limits and orders of interface calls, including failed loads and compiles followed by further use.",
  "Error paths are practically untested, and hostile inputs are unbounded.",
  ["rpa/rpadbex.c", "rpa/rpastat.c", "rpa/rpavm.c", "rpa/rpaparser.c", "rpa/rparecord.c", "rpa/rpaerror.h"],
  [("error info on database and working object", "rpa/rpadbex.c, rpa/rpastat.c"), ("stack limit", "rpa/rpastat.c, rvm/rvmcpu.c")],
  ["error codes and info, sanitizer reports, live allocations"])
p("P08", "Match, scan and parse agree with each other and across reuse",
  "Matching and parsing with the same rule consume the same amount, a scan returns the first position at which a match succeeds and that match's length, and reusing a working object for any sequence of inputs, rules, failures and reloads of the database gives the results a fresh object and a freshly built database would give. Looking up a rule, its name and its identifier is mutually consistent, and a rule defined again replaces the earlier definition wherever it is used.",
  ["histories", "inputs", "programs"], "All sequences of operations on one database and working object.",
  "Tests create one object, run one input and exit.",
  ["rpa/rpastat.c", "rpa/rpadbex.c", "rpa/rpacache.c", "rlib/rharray.c"],
  [("cache invalidation between runs", "rpa/rpacache.c, rpa/rpastat.c"), ("rule lookup by last definition", "rpa/rpadbex.c")],
  ["results over operation histories"])
p("P09", "Record-tree navigation and editing stay consistent with the tree",
  "On any well-formed record array, first child, last child, next, previous, parent, size and counting agree with the tree the records describe, walking visits each node in order, and text and number extraction return the recorded characters. Copying a subtree reproduces it exactly, moving a run of records or changing a node's user type changes exactly that and nothing else, and out-of-range positions are refused.",
  ["inputs", "histories"], "All record arrays (any shape and depth) and any position in them, in range or not.",
  "The navigation functions have no direct test.",
  ["rpa/rparecord.c", "rpa/rparecord.h"],
  [("depth counting over start/end records", "rpa/rparecord.c")],
  ["returned positions and copies"])
p("P10", "The grammar grep tool reports what the library finds",
  "For any grammar, text and mode, the tool's output and exit status are exactly those implied by the matches the grammar defines: all successive matches when scanning, the matching lines in line mode, the single prefix match in match mode, and every recorded rule with its span in parse mode. Grammar given on the command line or in a file, text given as argument, file or standard input, and performance switches on or off make no difference, and errors in the grammar give a message and a failing exit status.",
  ["inputs", "configurations"], "All grammars, texts and option combinations.",
  "No existing test runs the tool.",
  ["rpagrep/rpagrep.c", "rpagrep/unix/rpagrep-main.c", "rpagrep/unix/rpagrepdep.c", "rpagrep/rpagreputf.c"],
  [("scan loop", "rpagrep/rpagrep.c"), ("option handling", "rpagrep/unix/rpagrep-main.c")],
  ["standard output and exit status"])
p("J01", "The JSON reader accepts JSON, refuses what is not, and keeps every value",
  "For every text, reading succeeds exactly when it begins with a valid JSON value within the nesting limit, and yields that value: strings with all escapes decoded to UTF-8, 64-bit integers exactly, reals to the nearest double, members by decoded name with the last duplicate winning, and array order kept. Anything else is refused with an exception that names the line, column and offset of the offending token, without crashing, hanging or leaking.",
  ["inputs"], "All byte strings, nesting depths and number and escape forms.",
  "No test of the JSON library is part of the test suite; its demo prints five texts.",
  ["rexjson/rexjson++.cpp", "rexjson/rexjsondfa.rexcc", "rexjson/rexjson++.h"],
  [("tokenising automaton", "rexjson/rexjsondfa.rexcc"), ("recursive reader with level limit", "rexjson/rexjson++.cpp")],
  ["value tree or exception"])
p("J02", "Written JSON is valid and reads back as the same value",
  "Writing any value, plain or formatted, with any indentation, produces valid JSON that an independent parser reads as the same value (reals to the requested number of decimals, null members omitted only when asked), and reading it back with the library gives an equal value. Copying, assigning, moving, indexing and appending values behave as for plain data: copies are deep and independent, self-assignment is harmless, and asking for the wrong type raises an error and changes nothing.",
  ["inputs", "histories"], "All value trees and strings (control characters, quotes, backslashes, non-ASCII) and all histories of value operations.",
  "No test of the JSON library is part of the test suite.",
  ["rexjson/rexjson++.cpp", "rexjson/rexjson++.h"],
  [("string escaping", "rexjson/rexjson++.cpp"), ("tagged union copy and destroy", "rexjson/rexjson++.cpp")],
  ["output text, values after operations"])
p("J03", "The in-place JSON parser's records describe the text exactly",
  "For any buffer, record capacity and nesting limit, the C parser accepts exactly the texts beginning with a JSON value that fit the limits, and its records give the tree of values in order, each with its kind, its name and the exact span of its text. It never writes beyond the record array or reads beyond the buffer, reports the right error otherwise, and agrees with the C++ reader on every text; child and sibling navigation visits exactly those records.",
  ["inputs", "configurations"], "All byte strings, all record capacities and nesting limits.",
  "No test of the JSON library is part of the test suite.",
  ["rexjson/rexjson.c", "rexjson/rexjson.h", "rexjson/rexjsondfa.rexcc"],
  [("bounded record stack", "rexjson/rexjson.c"), ("record tree navigation", "rexjson/rexjson.c")],
  ["records, return value and error code"])
p("J04", "JSON-RPC calls reach the right method and every request gets one response",
  "For every request text or value, the server returns exactly one response object carrying the request's identifier and either the called method's result or an error with a code and message, never both and never an exception to the caller. Registered functions and member functions receive their arguments converted in order and are called exactly once when, and only when, the request is well formed and the arguments fit; unknown methods, missing or ill-typed members and methods that throw a standard exception or an error object give the documented errors. In the describing modes no method runs: its parameter types or help text come back instead.",
  ["inputs", "histories"], "All request texts and values, registered signatures, registrations over time and execution modes.",
  "The RPC layer is only syntax-checked by the build.",
  ["rexjsonrpc/rpcserver.h", "rexjson/rexjson++.cpp"],
  [("dispatch and error wrapping", "rexjsonrpc/rpcserver.h call"), ("argument conversion", "rexjsonrpc/rpcserver.h wrappers")],
  ["response object, invocation log"])
p("J05", "Bound properties reflect their variables, paths and access rules",
  "Reading a bound property returns the variable's current value and writing one changes exactly that variable, after the check hook has accepted the value and before the modified hook is told; a refused, ill-typed or not permitted access raises an error and changes nothing. Every path produced by enumerating a property tree (names without dots or brackets) navigates back to the same property, paths to no property are refused, and copying or assigning property trees (to themselves included) preserves their bindings.",
  ["histories", "inputs"], "All property trees, access modes, values and paths.",
  "The property layer is only syntax-checked by the build.",
  ["rexjsonrpc/property.h", "rexjsonrpc/property.cpp"],
  [("access mask and hooks", "rexjsonrpc/property.h"), ("path navigation", "rexjsonrpc/property.h")],
  ["bound variables, hook log, navigation results"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
