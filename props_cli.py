prop('S14', 'Each option does what it documents and nothing else, in any order',
     "Every documented option, short or long, changes exactly the setting it names and nothing else, whatever other options are given and in whatever order; without options the documented defaults hold, and JSON output always switches progress output off. "
     "A comma separated ignore list ignores each of its names, sizes accept the suffixes K, M, G and T as powers of 1024, and the case option applies to every regular expression. "
     "Unknown options, missing arguments, sizes, thread counts and levels out of range, invalid regular expressions and a missing path end with a failure status before anything is scanned.",
     'inputs', 'every sequence of options with arbitrary arguments',
     'option combinations and malformed arguments grow without bound; tests use a few fixed command lines',
     'src/ft_config.c src/human_size.c', [('command line', 'ft_config_parse_args, ft_config_create'), ('sizes', 'parse_human_size')], T_SC,
     'Every single option from every combination of the flags that interact, pairs of options in both orders, arbitrary arguments; longer sequences follow because the settings after one option are arbitrary for the next. The syntax of option parsing itself (APR) is trusted; the number text accepted by strtod/strtol is not part of it.',
     ENGINE + "The option table is read from the compiled constants and compared with the documented interface; the parser is interpreted with the option library replaced by an arbitrary sequence of options, and the settings at every return are compared with the effect table; the size parser, the default settings and the ignore list reader are interpreted on arbitrary text.")

prop('S15', 'Every path given is scanned, one report is made, the status is truthful',
     "All path arguments are scanned, in order and each once, before files are compared, and then exactly the report that was asked for is made; JSON output names absolute paths. "
     "The process ends with status 0 only if every path was scanned, every stage succeeded and a report was made, and with a failure status otherwise.",
     'inputs fault_sequences', 'every list of path arguments and every failing stage',
     'the tests call stages directly or give one or two existing paths; a swallowed failure of a later path looks like success',
     'src/ftwin.c src/ft_traverse.c', [('main program', 'ftwin_main, main'), ('status of a scan', 'ft_traverse_path')], T_SC,
     'All abstract paths of the main program with arbitrary arguments; each stage is a model that can fail (the stages have their own properties). One unreadable entry makes the scan of its path fail: that is accepted as a failure.',
     ENGINE + "The main program is interpreted once per report mode; stages are events, the monitor holds the next path to be scanned, whether anything failed, which report was made, and checks the status at every exit. The scan of a path is interpreted too: it reports success only if it was made and nothing below it failed.")

prop('S16', 'Ignore files exclude what their patterns say, the nearest and last one deciding',
     "For every path the last matching pattern of the nearest ignore file that has one decides whether it is excluded or re-included; patterns for directories only never apply to files, and patterns see the path relative to the directory of their ignore file. "
     "Every line of an ignore file except comments and empty lines takes effect with its documented meaning: leading slash, trailing slash, negation, wildcards, character classes and escapes, and every other character standing for itself. "
     "Patterns of any length are handled without memory errors.",
     'inputs', 'every nesting of ignore files, every list of patterns, every path',
     'the interplay of several patterns and levels and the unusual characters in patterns are sampled by a few tests',
     'src/ft_ignore.c', [('decision', 'ft_ignore_match'), ('patterns', 'ft_ignore_add_pattern_str'), ('files', 'ft_ignore_load_file, ft_ignore_context_create')], T_SC,
     'Decision: arbitrary pattern lists, one and three nested ignore files. Translation: all patterns of up to three characters (thorough: four), one special character standing for all others of its kind in the longer ones; the buffer bound is extended to any length from the growth per character. The regular expression engine is trusted. Not claimed: blanks at the end of a pattern, an escape with nothing behind it.',
     ENGINE + "The decision function is interpreted over arbitrary patterns with the matcher as an oracle; the monitor computes the deciding pattern and compares the verdict. The pattern reader is interpreted over arbitrary characters; on every path the text handed to the regular expression compiler is compared with the reference translation for each kind of character the path allows.")

prop('S20', 'Larger files and preferred files come first, twins stay together',
     "Sets of twins are reported in order of decreasing file size, and within a set a file below the preferred path comes before files outside it. "
     "A file counts as preferred exactly if a preferred path was given and its path starts with the whole of it, letters being compared without case exactly if case is ignored. "
     "The ordering keeps files of equal content next to each other whatever the sizes, hashes and marks.",
     'inputs', 'every pair of files, sizes, hashes and preferred paths',
     'the comparison functions are tested with a few small values; sizes far apart, paths shorter than the preferred one and case variants are not',
     'src/ft_report.c src/ft_traverse.c src/ft_config.c', [('order of twins', 'ft_chksum_cmp'), ('order of sizes', 'ft_file_cmp'), ('preferred mark', 'process_file')], T_SC,
     'Comparators: all combinations of mark values and hash relations; all relations of two sizes symbolically plus boundary values. Mark: all paths of the admission of a file with arbitrary names. The sorting routine (libc) is trusted; the work list order is the subject of S18.',
     ENGINE + "The comparison functions handed to the sort and to the work list are interpreted for every relation of the compared fields and the sign of the result is compared with the reference; the flag layout is taken from the compiler's debug information. The admission of a file is interpreted with the prefix comparison as an oracle and the mark at insertion compared with the definition.")

prop('S09', 'JSON output is one document that describes exactly the sets found',
     "With JSON output standard output holds one JSON document and nothing else but white space. "
     "Each set carries the size and the full 128 bit hash of its files as 32 hexadecimal digits, and each file entry its own path, its modification time in UTC, its preferred mark and, with archive comparison, its place in the archive. "
     "If the document cannot be built or written completely the run fails.",
     'inputs fault_sequences', 'every group of files and every failing write',
     'tests look at one or two documents; time zones, marks, large sizes, failing output and stray messages are not covered',
     'src/ft_report_json.c src/ftwin.c', [('JSON report', 'ft_report_json'), ('choice of report', 'run_ftwin_processing')], T_SC,
     'Groups of two files (thorough: also three) with arbitrary attributes; every value in the document is traced to its source. Two open findings: a path that is not UTF-8 is written without its path, and image comparison ignores the JSON option. The JSON library is trusted.',
     ENGINE + "The JSON report is interpreted with the JSON library as a tree-building model; at the moment the document is written each member is traced to the field it must come from. All functions on the way from the main program to the JSON report are searched for other writes to standard output.")

prop('S01', 'Searching for twins never changes the files that are searched',
     "A run creates, changes, renames or removes nothing in the trees it scans: scanned files and ignore files are opened and mapped for reading only, their attributes are left alone, no other program is started and the working directory stays. "
     "The only files written are temporary copies of archive members, and only those are ever removed.",
     'inputs', 'every option combination and every tree',
     'a write that happens only for unusual files or options leaves the test trees untouched',
     'src', [('everything reachable from the main program', 'main')], T_SC,
     'Every call that leaves the program in every function reachable from the main program; flags are traced through variables, selections and parameters. Access times are not part of it. Libraries are trusted to do what their interface says.',
     "Effect analysis over the call graph built from the compiled program (including function addresses handed to thread pool and containers): every call outside the program is classified, open and map flags are resolved by constant propagation, and a mutating effect is reported with its call chain.")
