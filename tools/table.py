# executed by mkmeta.py
prop("P01", "Report and exit status do not depend on directory or argument order",
     "Scanning the same set of policy and support files gives the same exit status and, unless a source cannot be parsed, the same set of report lines, whatever order the directories list "
     "their entries in and whatever order the paths are given in.",
     ["schedules", "inputs", "configurations"],
     "all directory enumeration orders and argument permutations of all policy trees, names and support files that are there several times included, all options",
     "The unit tests analyse one or two files in a fixed order and the functional tests run in whatever order the test machine's file system happens to give.",
     ["src/main.c", "src/runner.c", "src/maps.c", "src/template.c", "src/startup.c", "src/file_list.c"],
     M(("all files are parsed before any is checked", "src/runner.c run_analysis"), ("templates are expanded, transforms marked by fixpoint", "src/template.c, src/startup.c mark_transform_interfaces")),
     OUT, "exploration", "seeded directory and argument orders, metamorphic oracle over the whole report",
     "Any order dependence that one of 3 random orders per generated tree shows.")
prop("P02", "Report is byte-identical however the kernel delivers the bytes",
     "For the same file contents and directory order, output and exit status are byte-identical whether files, directories and output move in one piece or in "
     "arbitrarily small pieces, with whatever block size, file size or entry type the file system reports.",
     ["schedules", "inputs"],
     "all splittings of reads, directory reads and writes, all reported sizes and block sizes, including files without final newline, with CRLF, NUL bytes or very long lines",
     "Tests read small local files whose content always arrives in one read.",
     ["src/parse.y", "src/lex.l", "src/parse_fc.c", "src/startup.c", "src/selint_config.c", "src/main.c"],
     M(("stream based input everywhere", "src/lex.l, src/parse_fc.c parse_fc_file, src/startup.c load_modules_source")),
     OUT + ["standard error"], "exploration", "seeded short reads, split directory reads, short writes",
     "Any dependence on chunk boundaries that the drawn splittings (often one byte at a time) show.")
prop("P03", "A policy source that cannot be read is never silently left out",
     "When opening, reading or listing any addressed policy file, context file or directory fails in any way at any moment, the run either still prints the complete "
     "report or ends with a failing exit status and a diagnostic; it never exits as if the remaining input had been all.",
     ["fault_sequences", "crash_points", "inputs"],
     "every input operation on every addressed source, every errno, transient or persistent, one or several at once",
     "No test makes a system call fail; tests only cover a missing file.",
     ["src/main.c", "src/runner.c", "src/parse.y", "src/lex.l", "src/parse_fc.c"],
     M(("scan errors are counted and end the run", "src/main.c is_scan_error"), ("a file that does not parse ends the run", "src/runner.c parse_all_files_in_list"),
       ("read errors are told from the end of the file", "src/parse_fc.c parse_fc_file, flex YY_INPUT")),
     OUT + ["standard error"], "fault_enumeration", "errno injection at the n-th open/read/stat/fchdir/getdents on each source, differential against the fault-free run",
     "Faults are placed on operations the fault-free run is seen to perform. One known finding: a readdir error inside fts(3) is invisible to its caller.")
prop("P04", "Missing support knowledge is announced",
     "When the configuration, the class and permission definitions, the module list, the permission macros, the kernel's class directory or the installed "
     "interface headers cannot be loaded completely, the run either fails or says so in its output whenever its findings differ because of it.",
     ["fault_sequences", "configurations", "inputs"],
     "every access, open, read and listing of every support file or directory, every errno, in source and normal mode",
     "No test makes these operations fail, and the simulated kernel class directory does not exist on test machines.",
     ["src/main.c", "src/startup.c", "src/selint_config.c"],
     M(("load errors print a warning", "src/main.c main"), ("an incomplete class directory is not used", "src/startup.c load_access_vectors_kernel")),
     OUT, "fault_enumeration", "errno injection on configuration, support files, /sys and header directories, differential oracle",
     "Differences without a new warning, error or note line are violations.")
prop("P05", "Success is only reported when the whole report was delivered",
     "If any part of the output could not be written, the exit status says so; exit status 0 or 65 means that every byte of the report reached the output. Partial "
     "writes the device recovers from change nothing.",
     ["fault_sequences", "crash_points"],
     "every failing, short or refused write, devices that fill up after any number of bytes, errors on close, standard descriptors closed at start",
     "No test checks the exit status with a failing standard output.",
     ["src/main.c", "src/check_hooks.c", "src/runner.c"],
     M(("output is flushed and checked at exit", "src/main.c close_stdout")),
     OUT, "fault_enumeration", "write and close errors, full devices, closed descriptors, differential oracle on the bytes that arrived",
     "Byte-exact comparison of what reached the simulated output with the fault-free report.")
prop("P06", "An unparsable source stops the run, and only an unparsable source does",
     "A run fails with a parse error exactly when at least one of its policy sources cannot be parsed on its own, wherever that file comes in the scan; such a run "
     "prints an error naming only unparsable files, no check finding and no summary.",
     ["schedules", "inputs"],
     "all combinations of intact and damaged files in all scan orders, with and without context files",
     "Tests parse broken files one at a time; nothing checks what a broken file does to the files parsed before and after it.",
     ["src/runner.c", "src/parse.y", "src/lex.l"],
     M(("parser and lexer state is reset for every file", "src/parse.y yyparse_wrapper, src/parse_functions.c cleanup_parsing"), ("checks run only if all files parsed", "src/runner.c run_analysis")),
     OUT, "exploration", "torn and merged files under seeded order and chunking; each source alone is the reference for the joint run",
     "The joint run is compared with one simulated run per source.")
prop("P07", "Failures never fabricate findings",
     "A check finding printed by a run in which system calls or allocations failed is also printed by the run on the same input without failures: losing access to "
     "something may cost findings or the run, but never accuses correct policy.",
     ["fault_sequences", "inputs"],
     "every fault on every file, directory, access check and allocation, up to four at once",
     "No test injects faults.",
     ["src/main.c", "src/runner.c", "src/startup.c", "src/maps.c", "src/te_checks.c", "src/fc_checks.c"],
     M(("checks that lack their knowledge are not run", "src/runner.c register_checks"), ("incomplete input ends the run before the checks", "src/main.c, src/runner.c")),
     OUT, "fault_enumeration", "errno and allocation faults, findings must be a sub-multiset of the fault-free report",
     "One known finding, the same cause as for P03 (readdir errors inside fts).")
prop("P08", "Every run ends by itself within a bounded number of steps",
     "Whatever the input and whatever fails persistently, a run exits by itself within an amount of work bounded by the size of the input and of the expansion its template calls ask for: no endless loop, no crash, no "
     "unbounded recursion on cyclic definitions, links, damaged files or faults that never heal.",
     ["inputs", "fault_sequences"],
     "damaged, cyclic, deeply nested and very long input, persistent faults of every kind",
     "Tests contain no cyclic definitions beyond one transform cycle, no persistent faults and no measure of work.",
     ["src/template.c", "src/startup.c", "src/perm_macro.c", "src/lex.l", "src/parse_fc.c", "src/string_list.c"],
     M(("template recursion is detected", "src/template.c add_template_declarations"), ("fixpoint iteration ends", "src/startup.c mark_transform_interfaces"), ("macro cycles are cut", "src/perm_macro.c str_to_mask")),
     ["exit status", "instrumented step count"], "exploration", "step clock and system call budget as bounded liveness under sticky faults",
     "Bound: 2 million plus 6000 instrumented steps per input byte.")
prop("P09", "Damaged input and I/O faults never corrupt memory",
     "For any content of sources, support files, configuration and command line, and any read faults, short reads or flipped bits, the program performs no invalid memory access or "
     "undefined arithmetic and ends with one of its documented exit statuses.",
     ["inputs", "fault_sequences"],
     "torn, bit-flipped, merged, garbage and NUL-ridden files of every kind under I/O faults",
     "Tests use well-formed files and a few hand-written syntax errors, without sanitizers or faults.",
     ["src/parse_fc.c", "src/startup.c", "src/template.c", "src/lex.l", "src/parse.y", "src/parse_functions.c", "src/perm_macro.c", "src/string_list.c", "src/ordering.c"],
     M(("bounds and NULL checks", "throughout"), ("ownership of syntax tree and lists", "src/tree.c, src/string_list.c")),
     ["exit status", "AddressSanitizer and UBSan reports"], "exploration", "storage damage and read faults on the real program under AddressSanitizer and UBSan",
     "Memory errors the sanitizers see on the executed paths; leaks are not judged.")
prop("P10", "A failed allocation never yields a wrong success",
     "If any memory allocation fails, the run may die or fail, but when it exits as successful its report is the one it would have printed with enough memory, or says "
     "in the report itself that something internal went wrong.",
     ["fault_sequences", "inputs"],
     "every single allocation and every suffix of allocations of the program, the C library and the configuration library failing",
     "No test makes an allocation fail.",
     ["src/util.h", "src/maps.c", "src/parse_functions.c", "src/check_hooks.c", "src/string_list.c", "src/tree.c", "src/template.c", "src/lex.l"],
     M(("allocations that must not fail end the program", "src/util.h check_alloc, xstrdup"), ("lost messages become internal errors", "src/check_hooks.c make_check_result")),
     OUT, "fault_enumeration", "the n-th allocation, or every one from the n-th on, fails; differential oracle on successful runs",
     "Twelve allocation points per generated policy; dying by a signal is allowed, a wrong report with success status is not.")
prop("P11", "Nothing ambient leaks into the report",
     "The same files give byte-identical output and exit status independent of heap contents and addresses, inode numbers, link counts, clock, process id, locale and "
     "other environment variables, kind of output, working directory and the spelling of the paths naming them.",
     ["configurations", "schedules", "inputs"],
     "all values of these ambient inputs, for all policy trees including damaged ones",
     "Tests run once, in one environment, with one spelling of each path.",
     ["src/main.c", "src/parse_functions.c", "src/maps.c", "src/ordering.c", "src/tree.c"],
     M(("results depend on contents only", "throughout"), ("structures are initialised before use", "src/parse_functions.c, src/tree.c")),
     OUT, "exploration", "seeded heap poison and reuse, addresses, inode and link counts, clock, environment, working directory and path spelling, byte-wise comparison",
     "Uninitialised memory shows as a difference between heap fills.")
prop("P12", "Exactly the addressed policy files are scanned, each exactly once",
     "The files that are checked are exactly those named on the command line plus, in recursive mode, all .te, .if and .fc files below the named directories outside hidden "
     "directories (unless asked for), each once per addressing; nothing else is opened as policy.",
     ["inputs", "schedules", "configurations"],
     "all directory shapes, names, links, file kinds, link count conventions and entry types a file system may report, all enumeration orders",
     "Tests scan one small directory on one file system type.",
     ["src/main.c", "src/file_list.c"],
     M(("walk over the paths", "src/main.c main (fts)"), ("suffix and hidden directory rules", "src/main.c main")),
     OUT, "exploration", "seeded trees on a simulated file system with varying conventions against a reference model of the scan rules",
     "Every scanned file carries a mark that is reported exactly once when it is checked.")
prop("P13", "Unrelated modules do not influence each other's findings",
     "Analysing two sets of modules that share no names together gives exactly the findings of analysing them separately with the same support files, in whatever order their files are "
     "visited: no state leaks from one file into another.",
     ["schedules", "inputs"],
     "all pairs of unrelated policies, all interleavings of their files in the scan",
     "Tests analyse files separately; no test compares a joint run with separate ones.",
     ["src/runner.c", "src/ordering.c", "src/parse_functions.c", "src/te_checks.c", "src/if_checks.c", "src/maps.c"],
     M(("per-file state is reset", "src/runner.c run_checks_on_one_file, src/te_checks.c check_te_order, src/parse_functions.c")),
     OUT, "exploration", "joint and separate runs under seeded interleavings of the files; joint findings must be the disjoint union",
     "Any leak of state between files that the drawn pairs and orders show.")
prop("P14", "Findings, summary and exit status agree",
     "The summary counts exactly the findings printed per check, suppressing or summarising output changes neither, the failing status for findings is given exactly when there is at least one finding, "
     "and every finding names a scanned file, a line inside it and the severity of its check.",
     ["inputs", "configurations", "fault_sequences"],
     "all policies, all combinations of the output and failure options, with and without faults",
     "Tests compare one or two hand-picked runs.",
     ["src/check_hooks.c", "src/main.c", "src/runner.c"],
     M(("every displayed finding is counted", "src/check_hooks.c call_checks_for_node_type, display_check_issue"), ("exit status", "src/main.c main")),
     OUT, "exploration", "the same simulated world run with and without each option; cross-run and internal consistency oracle",
     "Four runs per case compared with each other and with the input.")
prop("P15", "Presentation never changes the content",
     "Verbosity, colour and the kind of output (terminal, pipe, file) change neither findings, counts nor exit status, and no colour codes reach an output that is no terminal unless "
     "they were forced.",
     ["configurations", "inputs"],
     "all policies, all presentation options, all kinds of output",
     "Tests do not run on a terminal and check colours on single strings only.",
     ["src/color.c", "src/main.c", "src/util.c", "src/check_hooks.c"],
     M(("colour decision", "src/main.c main, src/color.c")),
     OUT, "exploration", "simulated terminal, pipe and file outputs, differential oracle after removing colour codes", "Three presentations per case.")
prop("P16", "Descriptor use does not grow with the policy",
     "The number of simultaneously open files is bounded by a small constant plus the depth of the directory tree, whatever the number of files and whether or not some of them fail to "
     "parse, so a run under a low descriptor limit gives the same result.",
     ["inputs", "configurations", "fault_sequences"],
     "policies of any size, shape and depth, intact or damaged",
     "Tests process a handful of files under the default limit.",
     ["src/runner.c", "src/startup.c", "src/selint_config.c", "src/parse_fc.c", "src/main.c"],
     M(("every file is closed after parsing", "src/runner.c parse_one_file, src/parse_fc.c, src/startup.c")),
     OUT + ["highest descriptor in use"], "exploration", "descriptor accounting and descriptor limit in the simulated kernel", "Up to several hundred files per case.")
prop("P17", "A run leaves nothing behind",
     "Whatever the input, options and failures, a run creates, changes, renames and deletes nothing in the file system, starts no process and opens no socket; it only reads files and writes "
     "to its standard output and error.",
     ["inputs", "fault_sequences", "configurations"],
     "all inputs, options and fault sequences",
     "No test looks at side effects.",
     ["src/main.c", "src/startup.c", "src/runner.c", "src/selint_config.c"],
     M(("files are opened read-only", "all fopen calls")),
     ["system calls"], "exploration", "every system call of the run is judged by the simulated kernel", "Forbidden calls are recorded and answered, never executed.")
prop("P19", "Context files inform, but are never judged",
     "Findings for the scanned files are the same whether other modules are given as context or scanned as well, and no finding is ever reported for a context file, in whatever order "
     "files are visited.",
     ["schedules", "inputs", "configurations"],
     "all splits of a policy into scanned and context modules, all orders",
     "One functional test uses a context directory, with one file.",
     ["src/main.c", "src/runner.c", "src/startup.c", "src/template.c"],
     M(("context files are parsed and expanded like scanned ones, but not checked", "src/runner.c run_analysis")),
     OUT, "exploration", "context run against full run under seeded orders", "Exact equality of the findings on the scanned files.")

prop("P18", "Every reference is judged by what the whole input defines",
     "In whatever files, directories and order a policy is spread, scanned or given as context, every reference to a type, attribute, role, alias, interface, template, class or permission is judged "
     "by what the whole input defines, requires and assumes: the findings of the checks that resolve names (missing or foreign declarations, requires, interface and template calls, file contexts, "
     "classes and permissions, module status) are exactly those a line-by-line reference model of the policy expects, each once and at the line of the reference.",
     ["inputs", "schedules", "configurations"],
     "all policies built from the model's statements, all their distributions over modules, files, directories and the scanned and context parts, all visiting orders",
     "Tests feed the checks one or two files with hand-made symbol tables; ownership and visibility over a whole tree are never compared with an expectation for every line.",
     ["src/runner.c", "src/maps.c", "src/te_checks.c", "src/if_checks.c", "src/fc_checks.c", "src/template.c", "src/parse_functions.c"],
     M(("symbols of all files are collected before any file is checked", "src/runner.c run_analysis, src/parse_functions.c insert_declaration"), ("who declares and who calls what", "src/maps.c")),
     OUT, "exploration", "seeded trees, orders and weather against an executable reference model of symbol resolution",
     "Exact set of findings for 29 checks on policies of the model's statement forms; calls into modules marked off are left open (W-005).")
prop("P20", "Edits during a run: every file counts in one version",
     "When other programs atomically replace, create or remove policy or support files while a run is under way, the result is that of the input with each edited file in one of its versions, "
     "or, if a file that had been listed was removed, a failure or a warning that says so; never a mixture of versions, a crash or a silent omission.",
     ["schedules", "fault_sequences", "inputs"],
     "all moments of one to three edits, all kinds of edits",
     "No test changes files during a run.",
     ["src/main.c", "src/runner.c", "src/parse.y", "src/parse_fc.c", "src/startup.c"],
     M(("every file is opened and read once", "src/runner.c parse_one_file, src/parse_fc.c parse_fc_file")),
     OUT + ["standard error"], "exploration", "edits injected at drawn system calls; the results of all combinations of old and new versions are the reference",
     "Up to three edits per run, each at a drawn system call.")
prop("P21", "Check selection only selects",
     "Severity level, disable, enable_source and enable_normal in the configuration and -l, -d, -e and -E on the command line, each overriding the one before as documented, decide which checks run and nothing "
     "else: the report is the report of a run with all checks on, reduced to the selected checks at or above the severity level, with summary and exit status to match.",
     ["configurations", "inputs", "schedules"],
     "all combinations of severities, configuration lists and command line options in any order and spelling, for all policies, in source and normal mode",
     "Tests sample a few combinations on one-file policies.",
     ["src/runner.c", "src/selint_config.c", "src/main.c", "src/check_hooks.c"],
     M(("precedence", "src/runner.c is_check_enabled, register_checks"), ("lists of the configuration", "src/selint_config.c parse_config")),
     OUT, "exploration", "each run under a random selection is compared with the modelled reduction of the full simulated run, under seeded weather",
     "Three selections per tree. -e of a check below the severity level is taken not to raise it (the documentation of -l).")
prop("P22", "Exceptions hide the named checks on their line, nothing else",
     "A selint-disable comment on a line of a te or if file removes exactly the findings of the named checks on that line, whatever statement the line holds and however the file is read; every other finding, "
     "on this and every other line and in every other file, stays.",
     ["inputs", "schedules"],
     "all te and if lines that hold a complete statement or open a block, all sets of named checks in the documented spellings",
     "Tests sample a few placements on single-node statements.",
     ["src/lex.l", "src/parse.y", "src/parse_functions.c", "src/check_hooks.c"],
     M(("exceptions are attached to the nodes of a line", "src/parse_functions.c save_command, save_line_command"), ("and looked up per check", "src/check_hooks.c call_checks_for_node_type")),
     OUT, "exploration", "metamorphic: exceptions added at drawn lines under seeded weather, against the calm run without them",
     "C-001 is left out where it is named: a line excepted from the order does not count for its neighbours either.")
prop("P23", "Findings point at the line of the construct",
     "Findings and syntax errors carry the number of a line of the statement they are about: inserting empty lines anywhere moves each by exactly the number of lines inserted above it and changes nothing else, however the "
     "file is cut into reads.",
     ["inputs", "schedules"],
     "all places and numbers of inserted lines, all splittings of the reads",
     "Tests check line numbers of a handful of findings in fixed files.",
     ["src/lex.l", "src/parse.y", "src/parse_fc.c", "src/parse_functions.c", "src/check_hooks.c"],
     M(("line numbers are counted by the lexer", "src/lex.l YY_USER_ACTION"), ("and per line of fc files", "src/parse_fc.c parse_fc_file")),
     OUT, "exploration", "metamorphic: seeded line insertions under seeded weather, against the calm run",
     "C-001 is left out in files with lines inserted below the top, as it orders sections by average line numbers.")
prop("P24", "Memory stays proportional to the policy and is given back",
     "At no moment does a run hold more memory than a constant plus a fixed multiple of the size of its input, and when it ends with a report or because a source can not be parsed, everything it allocated has been "
     "freed (but for a constant few blocks) and every file it opened closed, whatever is repeated, duplicated, damaged or unreadable in the input.",
     ["inputs", "fault_sequences", "configurations"],
     "policies of any size with any number of repeated definitions and damaged files",
     "Tests look at results; the memory a run leaves behind or piles up per statement shows in no assertion.",
     ["src/tree.c", "src/maps.c", "src/string_list.c", "src/file_list.c", "src/check_hooks.c", "src/ordering.c", "src/runner.c", "src/main.c", "src/parse.y", "src/lex.l", "src/parse_fc.c", "src/startup.c", "src/template.c"],
     M(("everything is owned by lists, trees and maps freed at the end", "src/main.c, src/maps.c free_all_maps, src/tree.c free_policy_node"), ("semantic values dropped by the parser are freed", "src/parse.y %destructor")),
     OUT + ["blocks and bytes held by the simulated allocator", "open descriptors at exit"], "exploration", "accounting in the simulated allocator and kernel, seeded inputs, weather and read faults",
     "Runs that end otherwise (usage, configuration, scan errors, fatal lexer errors) are only held to the peak.")

prop("P25", "A wrong command line or configuration is refused, a right one understood",
     "A run whose command line or configuration file is not understood (unknown, misspelled or malformed option or setting, wrong or missing value, a flavour missing or named twice, no path, a configuration that does not exist) "
     "ends with the usage or configuration status and a message, without any finding or summary. Every command line and configuration made of documented options, settings and values is accepted, and however it is spelled "
     "(long, short, joined or clustered options in any place, quoting, order, comments, repeated settings of which the last counts) means the same, however the file is delivered; a setting left out, or no configuration at all, means the documented defaults.",
     ["inputs", "configurations", "schedules"],
     "all command lines and configuration files made of the documented options and settings, each with at most one defect, under all splittings of the reads",
     "Tests try one configuration per setting, each in one spelling and read in one piece.",
     ["src/main.c", "src/selint_config.c", "src/color.c", "src/runner.c"],
     M(("options are read by getopt_long, errors end in usage()", "src/main.c main"), ("every setting is checked against its documented values", "src/selint_config.c parse_config")),
     OUT + ["standard error"], "exploration", "seeded delivery of the configuration, metamorphic oracle over spellings, grammar of defects",
     "Check IDs that do not exist are only warned about (P21); abbreviated long options are left out. What the configuration language itself means is libconfuse's, which runs as it is.")

prop("P26", "Whether a te file is in order is decided by the whole input",
     "C-001 judges the order of a te file by what all scanned and context files define. What it leaves unreported is in the order of the selected ordering_rules (declarations first: booleans, attributes, then the rest; "
     "then a section per source type with self rules, own module rules, interface calls by where the interface is defined, conditional blocks by kind); a file in that order is not reported, where the convention ranks every "
     "statement the fewest possible lines are reported, and each report names the kind of its line, a line it really conflicts with, and why. Lines excepted from C-001 do not count.",
     ["inputs", "configurations", "schedules"],
     "all policies of several modules in layers, interfaces that transform or wrap transforming ones across files, all ordering_rules, scanned and context parts in any order",
     "Tests compare a few fixed files; the place of a call depends on the module, the layer and the body of interfaces anywhere else in the input, and the minimum on all other lines.",
     ["src/ordering.c", "src/te_checks.c", "src/startup.c", "src/maps.c", "src/main.c", "src/parse_functions.c"],
     M(("longest increasing subsequence over the statements of a file", "src/ordering.c calculate_longest_increasing_subsequence"), ("place of a statement", "src/ordering.c get_section, get_local_subsection"),
       ("transforming interfaces are marked over all files, to a fixed point", "src/startup.c mark_transform_interfaces"), ("layers are remembered while scanning", "src/main.c insert_layer_of_if_file")),
     OUT, "exploration", "seeded scan orders and weather, refinement against an executable model of the convention",
     "The minimum is decided where the model ranks all statements of the file (a weak order); elsewhere in-orderness of what is left and the named conflicts are. Statements the convention has no place for go anywhere.")

prop("P27", "Permissions and requires are judged by the defined macros and orders",
     "For every obj_perm_sets.spt, S-010 suggests a macro of the rule's class exactly where one covers at least two permissions in at least two words of an allow rule with nothing but reasonable extensions added, "
     "always one that covers most and adds least, and says exactly what it replaces and adds; macros are taken for what they stand for, also through other macros defined anywhere, in circles, or obsolete. S-009 reports the first macro "
     "whose name is for another class, C-005 the first permissions out of order or repeated in rules and class requires, and C-006 the first declarations out of the order the configuration (or the default) gives.",
     ["inputs", "configurations", "schedules"],
     "all permission macro files, orders of requires, classes and permission lists of the modelled shapes, under all orders and splittings of the reads",
     "Tests know one macro file; what a macro covers and which fits best depends on all others, wherever they are defined.",
     ["src/perm_macro.c", "src/te_checks.c", "src/if_checks.c", "src/maps.c", "src/selint_config.c", "src/parse.y"],
     M(("masks of raw and extended permissions", "src/perm_macro.c compute_perm_mask"), ("best coverage, then fewest additions", "src/perm_macro.c permmacro_check"),
       ("suffix and class", "src/te_checks.c check_perm_macro_class_mismatch"), ("pairwise comparison by configuration", "src/if_checks.c check_unordered_declaration_in_require")),
     OUT, "exploration", "seeded scan orders and weather, refinement against an executable model of macros and orders",
     "Which permissions extend which is the tool's own table, transcribed into the model. Between macros that fit equally well any may be named; suggestions inside a complement (~) are not specified.")

NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": mech, "observe_at": OUT, "hook_needed": None}, reason=reason))


PURE = ("A pure function of the input text: there is no schedule, clock, I/O outcome or other party for it to depend on, so simulation adds nothing to generating inputs; "
        "deciding it needs a reference implementation of the rule and input generation, which is another technique. ")
na("N04", "Everything refpolicy accepts parses",
   "Every policy module that the SELinux toolchain and refpolicy's macros accept is parsed without a syntax error.",
   ["programs"], "all valid policy sources", "Tests parse a few files.",
   ["src/parse.y", "src/lex.l"], M(("grammar", "src/parse.y")), PURE)
na("N05", "Argument substitution in templates follows m4",
   "A declaration made through a template call has the name m4 would produce for the call's arguments.",
   ["programs"], "all template bodies and arguments", "Tests sample a few substitutions.",
   ["src/template.c"], M(("replace_m4", "src/template.c")), PURE + "Its memory safety is part of P09, its order independence part of P01; the substitutions the reference model of P18 makes ($1 to $3 in declared names, through nested calls) are decided there.")
