prop('P01', 'Text method libraries give exactly the methods in the file',
 'Opening a plain-text method library (one-method-per-line, MicroSIRIL or Central Council format) and iterating, searching or loading from it yields exactly the methods the file records - title, name, stage, notation, order and catalogue data - however the reads below it are split, interrupted or interleaved with other users of the library, and entries already obtained stay unchanged whatever happens later. A read error or a file cut short never produces an altered, invented or repeated method: what is returned is a prefix of the true contents and the iteration ends. Once the error has cleared, a fresh iteration or search sees the whole file again.',
 ['inputs', 'histories', 'fault_sequences', 'crash_points'],
 'for all library files of the three formats, all read chunkings, EINTR and EIO positions, truncation points and histories of open/iterate/find/load/copy/close by several clients',
 'No existing test opens a library file at all; chunking, error positions and interleavings are unbounded.',
 ['ringing/litelib.cpp', 'ringing/mslib.cpp', 'ringing/cclib.cpp', 'ringing/library.cpp', 'ringing/library.h', 'ringing/libbase.h', 'ringing/pointers.h'],
 [('readentry line loops', 'ringing/litelib.cpp, ringing/mslib.cpp, ringing/cclib.cpp'), ('begin() clears the stream and rewinds', 'the same files'), ('copy-on-write entries', 'ringing/libbase.h, ringing/pointers.h')],
 note='Seeded search, not exhaustive. Real library code over a simulated disk; ground truth is the generator of the file, not a second parser. MicroSIRIL blank lines with carriage returns are outside the generated files.',
 observe=['library iterators, find, load, entry accessors'])

prop('P02', 'An XML method collection written is the collection read back',
 'Methods written through the XML writer and read with the XML reader come back in the same order with the same title, name, stage, notation, payload and first-peal data, whatever characters the text contains, for files, file descriptors and standard output, and however the bytes are delivered; XML documents in the published collection format likewise yield exactly the methods and peals they record. A write or close failure (full disk, I/O error) while saving is reported to the caller, never silently lost; a damaged, truncated or unreadable document is refused with an error and never yields invented methods. Copied libraries and entries stay independent of each other and of later writes.',
 ['inputs', 'histories', 'fault_sequences', 'crash_points'],
 'for all collections, document layouts, read chunkings, write and close failures, truncation points and histories of writes, flushes and reads',
 'No existing test writes or reads an XML collection; failure positions and document contents are unbounded.',
 ['ringing/xmllib.cpp', 'ringing/xmlout.cpp', 'ringing/dom.cpp', 'ringing/dom.h', 'ringing/dom_gdome.cpp', 'ringing/peal.cpp', 'ringing/libfacet.h'],
 [('document building on append and saving on flush', 'ringing/xmlout.cpp, ringing/dom_gdome.cpp'), ('readentry and facets', 'ringing/xmllib.cpp')],
 note='Seeded search. libgdome and libxml2 are real; disk and descriptors are simulated. RW references and CC collection ids are written but the reader never reads them: not part of the property.',
 observe=['xmlout, xmllib, library entry accessors'])
prop('P03', 'Method outputs and method sets hold every method given, in order',
 'Methods sent to a method output stream, a tree of multiple outputs or an in-memory method set arrive complete, once and in order in every output; text output has the documented form and reads back as the same methods; a failing terminal, pipe or disk shows in the stream state, leaves a prefix of the true output and does not disturb the other outputs. A method set keeps one entry per method (the first), with the facets it was asked to store, over any history of insertion, search, iteration, entry modification and clearing, and iterators and entries stay valid while methods are added.',
 ['inputs', 'histories', 'fault_sequences'],
 'for all method sequences, output trees, sink failure positions and histories of insert/find/load/iterate/modify/clear on several sets',
 'No existing test touches method_stream, multilibout or methodset.',
 ['ringing/method_stream.cpp', 'ringing/methodset.cpp', 'ringing/libout.cpp', 'ringing/libbase.h', 'ringing/library.cpp'],
 [('append', 'ringing/method_stream.cpp, ringing/methodset.cpp, ringing/libout.cpp'), ('facet storage', 'ringing/methodset.cpp')],
 note='Seeded search over histories and sink failures; the sink is a simulated stream buffer behind std::cout.', observe=['std::cout, methodset iterators and find'])
prop('P04', 'A library file is found by name and read by the right format reader',
 'Opening a library by name looks for the file as named and then in each directory of the library path in order (an absolute name only as named), takes the first that a registered format recognises, and yields exactly its methods; the path is the one set by the program or taken from the environment. A name that is absent, unreadable or in no registered format gives a library that says it is bad and is empty. Importing a library, or every library the environment names, adds all their methods and fails if one cannot be read; open failures of one candidate move on to the next and never crash or mix contents.',
 ['inputs', 'histories', 'fault_sequences'],
 'for all directory layouts, search paths, registered formats, open and read failures and histories of opens and file changes',
 'Depends on files, environment and registration order; no test opens a library by name.',
 ['ringing/library.cpp', 'ringing/library.h', 'ringing/litelib.cpp', 'ringing/mslib.cpp', 'ringing/cclib.cpp', 'ringing/xmllib.cpp'],
 [('search path and canread detection', 'ringing/library.cpp'), ('format registry', 'ringing/library.h')],
 note='Seeded search. Trailing colons in the search path and formats without a signature under read errors are outside the property (see DESIGN.md).', observe=['library::good, iterators'])

prop('P05', 'Printed PDF and PostScript documents show exactly what was printed',
 'Whatever pages, rows, lines, rules, dots, place bells, grids and text are printed, in whatever order and however many documents are being built at once, the PDF is structurally sound (offsets, lengths, page tree, fonts) and the PostScript executes cleanly with true page comments, counts and font list, and rendering either gives exactly those marks on the right pages: every bell of every row at its place, every line following its bell, every string as given. Methods laid out in columns, sets and pages show the rows of the method in order. If the output device fails, the caller stream reports it and what was written is a prefix of the document.',
 ['inputs', 'histories', 'fault_sequences'],
 'for all sequences of printing operations, options, layouts, document kinds and output failure positions',
 'The printing classes have no tests; a document is only right as a whole.',
 ['ringing/print_pdf.cpp', 'ringing/print_pdf.h', 'ringing/print_ps.cpp', 'ringing/print_ps.h', 'ringing/printm.cpp', 'ringing/print.cpp', 'ringing/pdf_fonts.h', 'ringing/dimension.cpp'],
 [('counting stream buffer, cross-reference table', 'ringing/print_pdf.h, ringing/print_pdf.cpp'), ('line run-length coding', 'ringing/print_ps.cpp'), ('column layout', 'ringing/printm.cpp')],
 note='Seeded search. The oracle renders the document with its own PDF reader and PostScript interpreter; font metrics of the library are taken as given. Vertical centring of text is checked to a tolerance.', observe=['bytes reaching the ostream', 'ostream state'])

prop('P07', 'Proving is exact at every point of the history of a touch',
 'However rows are added, removed (last in, first out) and branched, and whatever the permitted number of occurrences, a prover says true exactly when no row, counting those of the provers it branches from, occurs too often; its size, duplicate and per-row counts are exact; the failure report names exactly the rows that occur too often with all their line numbers. The same holds of the one-shot proof class, full or quick, and rows of a touch built of nested, repeated and shared blocks are exactly those of the blocks in order. When memory runs out while a row is added, the caller is told and the row is entirely in or entirely out of every count.',
 ['inputs', 'histories', 'fault_sequences'],
 'for all histories of additions, removals, branches, limits and allocation failures over interleaved provers',
 'Tests prove a few fixed touches once; undoing, branching and limits above one interact.',
 ['ringing/proof.cpp', 'ringing/proof.h', 'ringing/touch.cpp', 'ringing/touch.h'],
 [('multimap of rows with counts kept incrementally', 'ringing/proof.cpp prover::add_row/remove_row'), ('chained provers', 'ringing/proof.cpp prover::create_branch'), ('block iterators', 'ringing/touch.cpp')],
 note='Seeded search against a reference that recounts the whole history after every step.', observe=['prover verdict, size, counts', 'failure report', 'rows of touch iteration'])

prop('P17', 'Music analysers count each matching row once, in every history',
 'Whatever patterns (with any number, place wildcards, choices and stars), named kinds of music and scores are added, in whatever order analysers are filled, cleared, copied, reset, given another number of bells and fed rows, each pattern counts exactly the rows it matches, at the stroke they were rung, once per row; scores and totals follow; the wildcard bells of the last row are a way the pattern matches it; unusable patterns are refused and change nothing; analysers do not influence each other.',
 ['inputs', 'histories'],
 'for all histories of pattern additions, rows, resets, copies and changes of stage on interleaved analysers',
 'The tests check the syntax of patterns and possible counts only; nothing feeds rows to an analyser.',
 ['ringing/music.cpp', 'ringing/music.h', 'ringing/row_wildcard.cpp'],
 [('tree of patterns', 'ringing/music.cpp music_node::add/match'), ('analyser state', 'ringing/music.h music')],
 note='Seeded search against a direct matcher. There is no I/O or scheduling here: the nondeterminism is the interleaving of operations on several analysers sharing nothing, and the order of their histories.', observe=['counts, scores, wildcard bells', 'verdict of process_row'])

prop('P18', 'Values edited, walked and tabulated over long histories equal fresh ones',
 'After any history of in-place edits, assignments (self included), swaps, copies and refused operations, every change, row, method, row block and group is in all that can be observed equal to one freshly built with the same contents, and no operation changes another value; iterators over extents, half extents and changes walked forwards and backwards visit exactly the right values in order; multiplication tables give the right product for every column, whatever was computed before, with or without part ends; falseness does not depend on what was computed or cached before.',
 ['inputs', 'histories'],
 'for all histories of edits, copies, swaps, walks and table computations over several values',
 'Tests build a value, ask one question and stop; caches, in-place edits and shared state only matter over histories.',
 ['ringing/change.cpp', 'ringing/row.cpp', 'ringing/row.h', 'ringing/method.cpp', 'ringing/method.h', 'ringing/group.cpp', 'ringing/group.h', 'ringing/extent.cpp', 'ringing/extent.h', 'ringing/multtab.cpp', 'ringing/multtab.h', 'ringing/falseness.cpp'],
 [('in-place edits', 'ringing/change.cpp change::swappair, ringing/row.cpp'), ('lazily computed columns', 'ringing/multtab.cpp multtab::compute_pre_mult/compute_post_mult'), ('orbits kept beside elements', 'ringing/group.cpp group::calc_orbit_space'), ('global symbol cache', 'ringing/falseness.cpp false_courses::optimise')],
 note='Seeded search against a plain model on lists of integers. No I/O or scheduling is involved: the history of operations on several values is what the seed decides.', observe=['every query of the edited values', 'order of iteration', 'table products'])

prop('P08', 'Touch searches find exactly the true touches of the plan',
 'For every method whose own lead is true, every set of calls, length range, part-end group and choice of rotations, basic_search and table_search give their caller every touch of the plan that is true by proving each row of every part, and nothing else: none false, none outside the range, none twice, and with rotations ignored exactly one of each rotation class. A caller may halt the search, throw, run out of memory, keep the touches, search the same plan again from inside its callback or interleave several searches: each sees only its own results, in full or cut short where it asked, and later searches of the plan are unaffected.',
 ['inputs', 'histories', 'schedules'],
 'all methods, calls, part ends, ranges and flags on stages small enough to enumerate; all interleavings of searches; every halting point, exception and failed allocation',
 'The results depend on the pruning of rotations, on part ends, parity and the treble in combination with the calls, and on state left by earlier or nested searches; the tests run no search at all through the library.',
 ['ringing/basic_search.cpp', 'ringing/table_search.cpp', 'ringing/search_base.cpp', 'ringing/touch.cpp', 'ringing/multtab.cpp', 'ringing/falseness.cpp'],
 [('depth first search with pruned rotations', 'ringing/table_search.cpp run_recursive, is_possibly_canonical'), ('falseness by multiplication table', 'ringing/table_search.cpp is_row_false, ringing/multtab.cpp')],
 note='Seeded search on 4 and 5 bells against proof of every row by brute force. non_round_blocks and methods false in the plain lead are outside the property.', observe=['touches given to the outputer', 'touches kept by the caller'])

prop('P12', 'gsiril proves exactly the touches that are true and prints what the script says',
 'For every script in the documented language, given by file, argument or standard input, with imports, modules, definitions on the command line and a method library, gsiril rings the rows the script denotes and nothing else: the start, finish, everyrow, rounds, conflict, abort, true, false, notround, tooshort and toolong symbols run exactly when they should; conditions, alternatives, loops, assignments and substitutions see the state at that row; speculative evaluation leaves no trace; printed text is exact to the byte; and the exit status is 0 only if every proof is true, 1 if one is not, 2 for an erroneous script. In filter mode exactly the methods for which the script proves true are passed on, each judged as if alone except for symbols the script defines. The outcome does not depend on how reads are split or interrupted.',
 ['inputs', 'histories'],
 'all scripts, options, import graphs, methods and read schedules; generated on 3 to 12 bells',
 'The interpreter keeps state across statements, proofs, nested evaluations and filtered methods; its test suite holds a few dozen fixed scripts and checks none of the option combinations.',
 ['apps/gsiril/execution_context.cpp', 'apps/gsiril/proof_context.cpp', 'apps/gsiril/expression.cpp', 'apps/gsiril/statement.cpp', 'apps/gsiril/parser.cpp', 'apps/gsiril/functions.cpp', 'apps/gsiril/import.cpp', 'apps/gsiril/main.cpp', 'ringing/proof.h'],
 [('interpreter', 'apps/gsiril/expression.cpp, proof_context.cpp'), ('verdicts and final symbols', 'apps/gsiril/statement.cpp prove_stmt::execute'), ('filter', 'apps/gsiril/main.cpp filter')],
 note='Seeded sessions against an independent reference interpreter. Verbose and determine-bells modes, colours and the sirilic dialect are outside the property.', observe=['stdout bytes', 'exit status', 'stderr present'])

prop('P13', 'gsiril never vouches for a touch after a failure, and stops when told to',
 'When reading the script, an imported file or the methods to filter fails, gsiril exits with a non-zero status and a message, having printed only a beginning of the correct output. When an allocation fails it either gives the correct verdict and output, or exits with an error (or is ended by the runtime). With a node limit it behaves as without one if the limit exceeds the nodes needed, and otherwise stops with status 2 having printed only a beginning of the correct output. On any text at all under a node limit it terminates without undefined behaviour, with status 0, 1, 2 or 3 and a message for the last two, without asking for more than a fixed amount of memory at once.',
 ['inputs', 'fault_sequences'],
 'all sessions; every byte offset of a read error in every file; every failed allocation; every node limit; arbitrary mutations of scripts',
 'A read error looks like the end of a file and an abandoned proof like a finished one; tests inject no failure and try no malformed or unbounded script.',
 ['apps/gsiril/parser.cpp', 'apps/gsiril/execution_context.cpp', 'apps/gsiril/import.cpp', 'apps/gsiril/main.cpp', 'apps/utils/console_stream.cpp', 'apps/utils/tokeniser.cpp', 'ringing/streamutils.h'],
 [('node limit', 'apps/gsiril/execution_context.cpp increment_node_count'), ('reading', 'apps/utils/console_stream.cpp, apps/gsiril/parser.cpp')],
 note='Output errors are not part of the property: gsiril does not promise to notice them.', observe=['stdout bytes', 'exit status', 'stderr present', 'largest allocation'])

prop('P10', 'methsearch lists exactly the methods that meet its conditions',
 'For every combination of stage, hunt bells and their path, symmetries, limits on blows, places and adjacent places, lead-head type, falseness rule, class, permitted changes, prefix, mask, required rows and methods to avoid, methsearch lists each method that meets all of them once, lists no other, and gives its correct notation, lead head and count; methods whose lead passes through the row it starts from may be listed or not. A search limited to some number and then resumed from the last method listed finds together what one search finds. In random order everything listed meets the conditions, nothing is listed twice unless looping was asked for, and as many are listed as were asked for. As a filter, it passes on exactly the methods read that meet the conditions (or, inverted, that do not), with their names, up to its limit.',
 ['inputs', 'histories', 'schedules'],
 'all combinations of search options, filter inputs, limits, resumption points and random seeds; generated on 3 to 8 bells where trying everything is feasible',
 'Pruning rules for one option interact with those of another: a fault loses or adds methods only for a rare combination; the test suite fixes a few dozen combinations.',
 ['apps/methsearch/search.cpp', 'apps/methsearch/prog_args.cpp', 'apps/methsearch/mask.cpp', 'apps/methsearch/libraries.cpp', 'apps/methsearch/methodutils.cpp', 'apps/methsearch/main.cpp'],
 [('pruning and joining leads', 'apps/methsearch/search.cpp'), ('mask, prefix, resume', 'apps/methsearch/mask.cpp'), ('filter', 'apps/methsearch/search.cpp filter')],
 note='Brute force over all change sequences is the oracle. Not promised: resuming a random search; blow limits as long as the lead; masks with unsymmetrical alternatives under symmetry.', observe=['stdout bytes', 'exit status'])

prop('P11', 'methsearch stops when told to, and reports failed input, output and memory',
 'With a time limit, methsearch stops at the first scheduled look at the clock that shows more than that many seconds since the start, however the clock creeps, leaps or is put back, having listed a beginning of what the unlimited search lists; if no look shows that, it lists everything; its counts agree with its list; and a looping random search still delivers only methods that fit, no more than asked. When reading the methods to filter fails, when the output file cannot be opened, written or closed, or standard output fails, the exit status is non-zero, with a message (for a file or input), and what was written is a beginning of the correct output. When an allocation fails, either the output is exactly right or the program fails having written a beginning of it.',
 ['inputs', 'fault_sequences', 'schedules'],
 'all searches; every behaviour of the clock; every byte offset of an input or output error; every failed allocation',
 'A partial list looks like a complete one; tests neither inject a failure nor move the clock.',
 ['apps/methsearch/search.cpp', 'apps/methsearch/main.cpp', 'apps/methsearch/libraries.cpp', 'apps/methsearch/output.cpp', 'apps/utils/console_stream.cpp', 'ringing/pointers.h'],
 [('clock', 'apps/methsearch/search.cpp'), ('output', 'apps/methsearch/main.cpp, output.cpp'), ('filter input', 'apps/methsearch/libraries.cpp')],
 note='A read error on standard input, a full disk, a failed close, a failed flush and failed allocations are injected under the real program.', observe=['stdout bytes', 'file bytes', 'exit status', 'stderr present', 'clock reads'])

prop('P14', 'methsearch prints of each method what its format, conditions and counts say',
 'For every format, condition and statistics format in the documented language, methsearch prints for each method it finds, in order, exactly the text the format denotes: every variable (place notation in the chosen style, lead head, codes, order, hunt bells, blows, staticity, symmetry, rows, changes, paths, names from libraries, payloads, music of the batches of patterns asked for), padding, escape and expression with the documented precedence, conversions, short circuits and errors; a method whose condition is false or that is suppressed is not printed; numbers run on; abort stops the search; statistics print each distinct text once with its exact count; and so do filters over methods on any mixture of numbers of bells. A format or expression that is not in the language is refused with a message and a non-zero status, never a crash. A failing library or output never changes what is printed before the failure.',
 ['inputs', 'histories', 'fault_sequences'],
 'all formats, expressions and statistics over all searches and filters; every split of reads; read errors in libraries, failed standard output',
 'Formats and expressions are a small language with its own parser, cache and evaluator; tests fix a few formats, and a fault shows only for particular nestings, methods or orders of evaluation.',
 ['apps/methsearch/format.cpp', 'apps/methsearch/expression.cpp', 'apps/methsearch/output.cpp', 'apps/methsearch/methodutils.cpp', 'apps/methsearch/music.cpp', 'apps/methsearch/libraries.cpp', 'apps/utils/tokeniser.cpp'],
 [('format expansion', 'apps/methsearch/format.cpp expand'), ('expressions', 'apps/methsearch/expression.cpp'), ('properties of a method', 'apps/methsearch/output.cpp get_property_impl'), ('statistics', 'apps/methsearch/output.cpp'), ('music', 'apps/methsearch/music.cpp')],
 note='The reference generates a syntax tree, writes it in one of its spellings and evaluates it itself. External commands in formats are not run here. Left open: statistics order, what $b and $s are when every blow is a place or a bell pair never parts, $y with repeated changes, $O.', observe=['stdout bytes', 'exit status', 'stderr present'])

prop('P15', 'Row expressions and row streams give exactly the rows they denote',
 'For every row expression, rowcalc prints exactly the rows it denotes, and with a count exactly how many: whatever rows with or without tenors, powers, products, differences, sets, groups, files, standard input and commands it is made of, and however often a part has to be gone through again. musgrep prints, counts or scores exactly the rows of its input that match, extent prints exactly the rows of the extent asked for, in its documented order, and printmethod prints exactly the rows of the lead or course. What is not a row expression, row, pattern, method or number is refused with a message and a non-zero status, never a crash. A file, input, command or output that fails is reported with a message and a non-zero status; a shorter answer never passes for the whole, and neither interrupted system calls nor the ends of other child processes change an answer.',
 ['inputs', 'histories', 'fault_sequences'],
 'all row expressions over all sources; all streams of rows and splits of reads; failing pipe, fork, exec, read, wait and write calls at every point; unrelated children ending at every wait',
 'A set is a lazy sequence that is gone through again inside products, differences and groups, and its sources are files, pipes and child processes: a fault shows only for particular nestings, splits of reads, interrupted calls or orders of child exits, and no test runs these programs.',
 ['apps/utils/row_calc.cpp', 'apps/utils/exec.cpp', 'apps/rowcalc/main.cpp', 'apps/musgrep/main.cpp', 'apps/extent/extent.cpp', 'apps/printmethod/printmethod.cpp'],
 [('sets of rows', 'apps/utils/row_calc.cpp'), ('commands', 'apps/utils/exec.cpp'), ('matching and scoring', 'apps/musgrep'), ('extents', 'apps/extent, ringing/extent.cpp'), ('leads and courses', 'apps/printmethod')],
 note='The reference generates an expression as a syntax tree and evaluates it over sets itself. Duplicates and order among the rows of a product of sets, the group of no rows, two uses of standard input and highlighting are left open; the exit status of a command is ignored, as documented.', observe=['stdout bytes', 'exit status', 'stderr present', 'descriptors and children left'])

prop('P16', 'touchsearch and methodlib list exactly what was asked for',
 'For every method or plan, set of calls, part end, length range and choice of rotations, touchsearch prints each true touch of the length asked for, with its calls in order, its number of changes and the count, and nothing else; as a filter it passes on exactly the methods that have such a touch. A plan that cannot be rung is refused. methodlib lists exactly the methods of the libraries named (found along the library path, the first of each notation) that have the title, stage or length asked for, with each title, notation and payload in the form asked for, and names each title it cannot find. Bad options, input that cannot be read and output that cannot be written give a message and a non-zero status, never a crash or a shorter answer that passes for the whole.',
 ['inputs', 'histories', 'fault_sequences'],
 'all methods, plans, calls, part ends, length ranges and options; all libraries and queries; all splits of reads; failing reads, writes and allocations at every point',
 'Whether a touch is missed depends on the order in which a search prunes, on rows shared between leads of different methods and between parts; whether an answer is whole depends on where input or output fails. The test suite runs neither program.',
 ['apps/touchsearch/main.cpp', 'apps/touchsearch/join_plan_search.cpp', 'apps/touchsearch/prog_args.cpp', 'apps/methodlib/methodlib.cpp', 'ringing/table_search.cpp', 'ringing/touch.cpp'],
 [('touches of a method', 'ringing/table_search.cpp, apps/touchsearch/main.cpp'), ('touches of a plan', 'apps/touchsearch/join_plan_search.cpp'), ('what is printed', 'apps/touchsearch/main.cpp, ringing/touch.cpp'), ('queries of libraries', 'apps/methodlib/methodlib.cpp')],
 note='With -R only that each touch is true and no round one is missing is decided. The order of touches and of methods, --limit=0, --filter with -a, and -a over many bells (whose plan does not fit in memory) are left open; a failed allocation need only be said to have failed. A read error of a library passes as its end (P01 and P04 describe what its stream says).', observe=['stdout bytes', 'exit status', 'stderr present'])

prop('P19', 'splices finds exactly the pairs of methods whose rows allow a splice',
 'For every stream of methods, or one or two methods given, or the rows of a method read from a file or standard input, splices prints exactly the pairs between which leads can be interchanged, each once, with the number of leads that must be rung together and the pivot or swapping bells, as the rows of the leads decide: of all, only in-course or only out-of-course lead heads, whole or half leads, the same lead end or any. With two methods it prints exactly the falseness table or the group between them. Grouped, each line holds exactly the methods that splice with one another, lead splices bracketed; as a filter it passes on exactly the methods that splice, or that are not lead splices of one before. Bad options, rows and methods, input that cannot be read and output that cannot be written are reported, never a crash, a hang or a shorter answer that passes for the whole.',
 ['inputs', 'histories', 'fault_sequences'],
 'all streams of methods, pairs and row blocks; all combinations of options; all splits of reads; failing reads, writes and allocations at every point',
 'Which methods splice depends on every pair of rows of every pair of methods, and the groups of methods grow and merge in the order they are read. The test suite does not run the program.',
 ['apps/splices/splices.cpp', 'ringing/falseness.cpp', 'ringing/group.cpp', 'ringing/row.cpp', 'ringing/litelib.cpp'],
 [('falseness between methods', 'ringing/falseness.cpp'), ('groups', 'ringing/group.cpp'), ('pairs, groups of methods and filters', 'apps/splices/splices.cpp'), ('rows read from a stream', 'ringing/row.cpp')],
 note='Which of the two methods comes first, the order of lines and of methods in a group, and which bell is named where several would do are left open; so are the group when no row of one method can be false against the other, and names of methods with commas or brackets when grouped.', observe=['stdout bytes', 'exit status', 'stderr present'])

prop('P20', 'ringmethod sounds every bell of every row at its time',
 'For every stream of rows, stage, sample rate, peal speed, handstroke lead, tenor frequency and striking of each bell at handstroke and backstroke, ringmethod writes a wave file whose header gives its true format and rate, in which each bell of each row is heard, once, at the sample its place, row and offset denote, with its own sound and in tune, and no other; the last bell is heard for a time and then the sound ends. A bell offset so far that it is due before it is known strikes at once, and never holds up the rest. With a deviation each bell strikes about its time with the spread asked for, and the same seed gives the same sound. Bad options and rows, input that cannot be read and output that cannot be written are reported with a message and a non-zero status.',
 ['inputs', 'schedules', 'fault_sequences'],
 'all streams of rows; all sizes, rates, speeds, offsets, deviations and seeds; all splits of reads; failing reads, writes and allocations at every point',
 'Time here is counted in samples, and bells of one row may strike among those of another: whether the scheduler of strikes keeps up depends on offsets, random deviations and the lead between rows. The test suite does not run the program.',
 ['apps/ringmethod/ringmethod.cpp', 'ringing/mathutils.cpp', 'ringing/row.cpp'],
 [('times of strikes', 'apps/ringmethod/ringmethod.cpp: row_player'), ('sounds and pitch', 'apps/ringmethod/ringmethod.cpp: harmonic, tower_sounds'), ('random striking', 'ringing/mathutils.cpp')],
 note='The timbre is not decided: each bell is compared with itself as heard in a slow round of the same program. How long the sound goes on after the last bell (between 1 and 20 seconds) is left open.', observe=['wave file bytes', 'exit status', 'stderr present'])

prop('P21', 'psline draws exactly the method asked for',
 'For every method, given by place notation or by its title in a library, and every combination of options for lines, numbers, place bells, rule-offs, place notation, calls, guides, starting row, fonts and colours, title, paper, fit and spacing, psline writes a sound PostScript, encapsulated PostScript or PDF document that shows each row of the leads or rows asked for, each line, mark, rule and label, once, where the layout of columns, sets and pages puts it, centred on paper of the size asked for and no larger than the space it is to fit, and nothing else. A bell, row, number, size, style or method that makes no sense, a method that is not in the library, a drawing that cannot be fitted, and input or output that fails, are refused with a message and a non-zero status, never a crash or a damaged document that passes for whole.',
 ['inputs', 'configurations', 'fault_sequences'],
 'all methods and starting rows; all combinations of options; libraries read under all splits; failing reads, writes, closes and allocations at every point',
 'Where a row or mark falls depends on the method, the fitting, the columns, the pages and each of the options together, and whether a document is whole on where its output fails. The test suite does not run the program.',
 ['apps/psline/psline.cpp', 'ringing/printm.cpp', 'ringing/print.cpp', 'ringing/print_pdf.cpp', 'ringing/print_ps.cpp', 'ringing/dimension.cpp'],
 [('options and layout', 'apps/psline/psline.cpp'), ('fitting and drawing a method', 'ringing/printm.cpp'), ('documents', 'ringing/print_pdf.cpp, ringing/print_ps.cpp'), ('sizes', 'ringing/dimension.cpp')],
 note='The scale found by the fit is taken from the library and judged only by the space it takes; PDF text may be off by the hundredths of a point its steps are rounded to, added up. Which of two lengths of --fit is the width with --landscape, dollars after the first in a title, and the bounding box of EPS below a whole point are left open.', observe=['stdout bytes', 'output file bytes', 'exit status', 'stderr present'])

prop('P22', 'Sets of leads found by fextent and spliceplan are mutually true',
 'For every method (or set of methods), number of bells, group of part ends, and choice of in-course, principle, whole courses, required leads, calls, linkage, Q-sets, weightings, iterations, lengths and seeds, every set of leads (or of whole courses) that fextent or spliceplan reports holds each lead once, only leads of the kind asked for, with every required lead, and with no row twice in all parts together; its stated number of leads, length, signs, numbers and links are those of the set, linked leads follow one another, and a plan that spliceplan writes or counts has the leads and methods it says. fextent run long enough leaves no lead that could be added; spliceplan reports every mutually true plan in which each lead head and end of the kind asked for is used exactly once, and each of them once (with -r, one of all its rotations). The same seed gives the same answer. Methods, rows, part ends, calls, weightings and numbers that make no sense, required leads that are false, and input or output that fails, are refused with a message and a non-zero status, never a crash or a set that passes for whole.',
 ['inputs', 'configurations', 'histories', 'fault_sequences'],
 'all methods and sets of methods, part ends, required leads and calls; all seeds and numbers of steps of the search; all combinations of options; failing reads, writes and allocations at every point',
 'Whether a reported set is true depends on the falseness of the method, the group of part ends and on every step of a random search that adds and removes leads; one wrong step shows only for some methods, parts and seeds. The test suite does not run either program.',
 ['apps/fextent/fextent.cpp', 'apps/spliceplan/spliceplan.cpp', 'ringing/multtab.cpp', 'ringing/falseness.cpp', 'ringing/group.cpp'],
 [('random search and bookkeeping', 'apps/fextent/fextent.cpp'), ('exhaustive search for plans', 'apps/spliceplan/spliceplan.cpp'), ('leads up to part ends', 'ringing/multtab.cpp')],
 note='Linkage together with required leads, and asymmetric methods in spliceplan are left open.', observe=['stdout bytes', 'plan files', 'exit status', 'stderr present'])

NA = 'A pure function of its arguments: no scheduling, time, I/O, randomness, failure or history for a simulator to control, so a seeded schedule/fault search would only be input fuzzing under another name.'
prop('N01', 'Row, bell and change algebra follows the permutation group laws',
 'Multiplication, division, inversion, powers, order, cycles, sign and printing of rows and changes obey the laws of the symmetric group, and parsing the printed form gives the original back.',
 ['inputs'], 'all rows and changes on every number of bells', 'Tests sample a handful of values.', ['ringing/row.cpp', 'ringing/change.cpp', 'ringing/bell.cpp'], [('permutation arithmetic', 'ringing/row.cpp')], na=NA)
prop('N02', 'Place notation means the changes it denotes and formats back to itself',
 'Expanding any place notation gives exactly the changes it denotes, and every formatting of a method expands to the same method.',
 ['inputs'], 'all place notations and formatting options', 'Tests sample a few notations.', ['ringing/place_notation.h', 'ringing/method.cpp'], [('notation expansion', 'ringing/place_notation.h')], na=NA)
prop('N03', 'Methods are classified and lead-head coded by the published rules',
 'The class, symmetry, lead-head code, hunt bells and plain-course length reported for a method follow the published definitions.',
 ['inputs'], 'all methods', 'Tests sample well-known methods.', ['ringing/method.cpp'], [('classification', 'ringing/method.cpp')], na=NA)
prop('N04', 'Falseness groups and group theory tables are mathematically correct',
 'False lead heads, falseness groups, generated groups, cosets and conjugates are the ones group theory gives.',
 ['inputs'], 'all methods and groups', 'Not tested at all.', ['ringing/falseness.cpp', 'ringing/group.cpp'], [('false lead-head table', 'ringing/falseness.cpp')], na=NA)
