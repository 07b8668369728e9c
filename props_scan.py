T_SC = 'static: path-sensitive dataflow / typestate over LLVM IR'

prop('S02', 'Files reported as duplicates were compared and found equal',
     "Whenever two paths are reported as duplicates, in text or JSON output, their contents were compared with each other byte by byte in this run and the comparison succeeded and found no difference. "
     "Equal sizes or equal hash values alone never make two files duplicates, and a comparison that failed never reports any.",
     'inputs fault_sequences', 'every set of scanned files, every hash value, every outcome of every comparison and extraction',
     'tests use small sets without hash collisions and without failing comparisons',
     'src/ft_report.c', [('text report', 'ft_report_duplicates'), ('JSON report', 'ft_report_json')], T_SC,
     'All abstract paths of both reporting functions for an arbitrary list of size groups. The byte comparison itself is S03.',
     ENGINE + "Both reports are interpreted over arbitrary groups; the monitor records the pair, the sizes and the outcome of each comparison, and every line or JSON entry that shows a file as a duplicate must be on a path where that very file was found equal to the first file shown for the set.")

prop('S03', 'The byte comparison says "equal" only for equal files',
     "Comparing two files reports them equal only after every byte of the given size was taken from both, or both were read to their end in equal pieces, and all bytes were identical; a difference, or one file ending before the other, is never reported as equality. "
     "Any failure to open, map or read either file is reported as an error and never as a result.",
     'inputs fault_sequences', 'every pair of files of every size, every failing or short operation',
     'tests compare a few small files and never make an operation fail half way',
     'src/ft_file.c', [('comparison', 'filecmp')], T_SC,
     'All abstract paths, small (mapped) and large (buffered) files, arbitrary chunk sizes. Files changing while they are compared are outside.',
     ENGINE + "The comparison function is interpreted with every file operation able to fail or return fewer bytes; the monitor tracks how many bytes of each file have been compared and obligations are raised at every exit.")

prop('S04', 'Every file hash covers the whole file, and nothing but the file',
     "The hash computed for a file depends on exactly the bytes of that file from its first to its last, whichever way it is read, so that two files with equal content always get equal hashes and are never missed for that reason. "
     "If the file cannot be opened, mapped or read completely, hashing reports an error.",
     'inputs fault_sequences', 'every file of every size, every failing or short read',
     'tests hash a few files well below the size at which the reading strategy changes and never make a read fail',
     'src/ft_file.c', [('hashing', 'checksum_file')], T_SC,
     'All abstract paths of the hashing function; the quality of the hash function is not decided.',
     ENGINE + "The hashing function is interpreted with every operation able to fail; the data and length handed to the hash primitive must be the whole mapping, or chunk by chunk exactly what was read until the end of the file.")

prop('S05', 'No pair of equal files escapes the comparison',
     "Every scanned file whose size it shares with another one gets exactly one place in its size group, is hashed whenever any file of the group is, and its group is handed to the report. "
     "The report then considers every pair of files of a group that has equal hashes and is not already reported, before the scan reports success; results are read only after all hashing has finished.",
     'inputs schedules', 'every number of files per size, with and without empty files, in text and JSON mode, every order in which the hashing threads finish',
     'tests sample a few group sizes; off-by-one errors at two, three or the last file of a group go unnoticed',
     'src/ft_process.c src/ft_report.c', [('grouping and hashing', 'ft_process_files'), ('pair enumeration', 'ft_report_duplicates, ft_report_json')], T_SC,
     'Groups of two and of more than two files, empty and non-empty, text and JSON mode; loops are checked inductively (first index, step, bound). That sorting brings equal hashes together is S20.',
     ENGINE + "The processing function is interpreted per scenario with protocol monitors for the array of hash slots and the hashing tasks; in both reports the nested loops over a group are checked by an index-walk protocol (starts at the next file, advances by one, ends at the end or where hashes differ).")

prop('S06', 'Exactly the files the options select are examined',
     "Every entry of every scanned directory is examined unless an option excludes it: its name is excluded, it is hidden and hidden entries were not asked for, it is a subdirectory without recursion, its path matches the exclusion pattern, it is not a directory and its path misses the whitelist, ignore rules apply, the user may not read it, or its size is outside the limits. "
     "Nothing excluded is examined, only regular files are recorded, under the path they were found at, once, and counted once in the group of their size; a directory's own ignore file adds to the inherited rules for everything below it.",
     'inputs', 'every directory tree, every combination of the filtering options, every owner, mode and size',
     'a combination of filters on an unusual entry is needed to see a wrong one; tests sample few combinations',
     'src/ft_traverse.c src/ft_config.c', [('directory walk', 'ft_traverse_path and the recursive walk below it'), ('groups of the user', 'ft_config_parse_args')], T_SC,
     'One level of the recursion for an arbitrary entry, which by induction covers the tree. The meaning of a single pattern (PCRE) and of ignore files (S16) is not part of it.',
     ENGINE + "The recursive walk is interpreted for each combination of the recursion, hidden and link options, with arbitrary file attributes, ids and limits; each record, descent and skip is compared with the truth table of the options on that path. The groups entering the permission test are compared with those the system names, by interpreting the start-up with given lists of groups.")

prop('S07', 'Links are followed only on request, and following them always ends',
     "Without the link option a symbolic link is never followed; with it, a link is replaced by what it points to, and a link that points nowhere is skipped without ending the scan. "
     "A directory is never entered while it is already being scanned further up, so a scan over links that form a loop ends, and no other directory is left out for that reason.",
     'inputs', 'every directory tree with links, of every depth',
     'tests contain no link loops, no dangling links and only a few links',
     'src/ft_traverse.c', [('directory walk', 'ft_traverse_path and the recursive walk below it')], T_SC,
     'Chains of up to two (thorough: four) enclosing directories, arbitrary inode and device numbers; deeper chains by the uniformity of the loop.',
     ENGINE + "The recursive walk is interpreted with arbitrary file identities and enclosing directories; the flags of the first examination of each path, the ancestor comparison before a directory is read, and the record passed to the next level are obligations.")

prop('S08', 'Each duplicate is shown once, in one set, with all its partners',
     "A reported set shows its first file once and then every file found equal to it; a file that has been shown as a duplicate is not shown again, neither as a first file nor in another set, and every file found equal is shown. "
     "In JSON output each set that was started is added to the result exactly once.",
     'inputs', 'every list of size groups and every pattern of equal and different files',
     'tests use one or two sets of two or three files',
     'src/ft_report.c', [('text report', 'ft_report_duplicates'), ('JSON report', 'ft_report_json')], T_SC,
     'All abstract paths of both reports over an arbitrary group.',
     ENGINE + "Both reports are interpreted; after every comparison that found two files equal the second must be shown and then retired (its slot cleared) before the next comparison, the first must have been shown once for the set, and a started JSON set must be appended once.")

prop('S10', 'Extracted archive members are removed, and nothing else ever is',
     "Every temporary file created to look inside an archive is removed exactly once when it is no longer needed, on every path including failed comparisons and extractions. "
     "No file that was scanned is ever removed.",
     'inputs fault_sequences', 'every mix of plain files and archive members, every failing comparison or extraction',
     'tests do not let an extraction or comparison fail half way and never look for left-over files',
     'src/ft_report.c src/ft_process.c src/ft_archive.c', [('reports', 'ft_report_duplicates, ft_report_json'), ('hash worker', 'the callback given to napr_threadpool_init in ft_process.c'), ('extraction', 'ft_archive_untar_file')], T_SC,
     'All abstract paths of both reports, of the hash worker and of the extraction itself, extraction able to fail. Removal after a crash of the process is outside.',
     ENGINE + "Extraction yields an owned temporary path; the monitor follows each through the reports and the hash worker and requires one removal before it is lost, and that every removed path is one of them; the extraction itself must not leave the file it created when it fails.")

prop('S11', 'Handles and mappings are released once on every path',
     "Comparing or hashing a file releases every file handle, mapping and memory pool it acquired exactly once before it returns, whether it succeeds or fails, and never uses one after releasing it. "
     "A scan of any number of unreadable or changing files therefore does not run out of descriptors.",
     'fault_sequences', 'every failing operation while comparing or hashing files',
     'the leak of one descriptor on an error path is invisible to a test',
     'src/ft_file.c', [('hashing and comparison', 'checksum_file, filecmp')], T_SC,
     'All abstract paths with every operation able to fail.',
     ENGINE + "Ownership typestate for files, mappings, buffers and pools over the hashing and comparison functions.")
