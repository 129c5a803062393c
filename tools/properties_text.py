prop('C01', 'A file write that reports success stored exactly the given bytes',
 'When a whole-file write (buffer or string form) reports success, the named file then holds exactly the given bytes, whatever it held before, and no other file has changed. If opening, writing or closing fails or the disk fills up, the call reports failure, and on a healthy disk it succeeds. A process killed inside the call leaves the old contents or a prefix of the new ones.',
 ['inputs', 'fault_sequences', 'crash_points'], 'for all data, sizes and previous contents, every sequence of open/write/close errors, short or interrupted writes and full disks, and a kill at any system call',
 'No existing test calls write_file, and none can make open, write or close fail at a chosen point or kill the process between two writes.',
 [('write_file (both overloads): open, write, close, report', 'fileio::write_file')], ['return value', 'contents of the simulated disk'])
prop('C02', 'A file load that reports success delivered exactly the bytes of the file',
 'When a whole-file load (buffer or string form) or a read at an offset reports success, the destination holds exactly the bytes of the file (of the requested range) and nothing outside the destination was written. A missing or unreadable file, an I/O error, or a file that ends before every requested byte was read is reported as failure, never as success. The existence and size queries agree with the disk, and answer "absent" and 0 for a file that cannot be opened.',
 ['inputs', 'fault_sequences'], 'for all file sizes, contents, offsets and requested lengths, every sequence of open/read/seek errors and short or interrupted reads, and other processes truncating, extending or changing the file between any two system calls',
 'No existing test exercises load_file or read_at_offset; real disks do not fail or change a file on demand.',
 [('load_file, file_size, file_exists, read_at_offset', 'namespace fileio')], ['return value', 'destination bytes'])
prop('C03', 'Copying and concatenating files either completes exactly or reports failure',
 'When copying a file, or concatenating two files into a third, reports success, the destination holds exactly the source bytes in order, and it never changes a source. Every open, read, write, seek or close failure, and a source that shrinks meanwhile, is reported as failure; on a healthy disk with existing distinct files the call succeeds. If a source cannot be opened, an existing destination keeps its contents.',
 ['inputs', 'fault_sequences', 'crash_points'], 'for all sizes (around the 16 KB block), contents and previous destinations, every sequence of disk faults and kills at any system call',
 'No existing test calls copy_file or concatenate, let alone with a fault in the second block.',
 [('block loops of copy_file and concatenate', 'fileio::copy_file, fileio::concatenate')], ['return value', 'contents of the simulated disk'])
prop('C04', 'Two files are called identical only if every byte of both was read and agrees',
 'The file comparison answers "identical" exactly when both files can be read completely and hold the same bytes; a missing or unreadable file, a read or seek error, different sizes or one different byte at any position give "not identical". It never changes either file.',
 ['inputs', 'fault_sequences'], 'for all pairs of files (equal, differing in one byte at any position, prefix of each other) and every sequence of read-side faults, including a file changed by another process during the comparison',
 'No existing test calls files_identical; a read error in a late block cannot be provoked by a test on a real disk.',
 [('block-wise comparison', 'fileio::files_identical')], ['return value'])
prop('C05', 'Line iteration delivers each line once, in order, and counts truthfully',
 'Iterating over the lines of a stream or file calls the function once per line, in order, with exactly the text of the line (an unterminated last line included), and returns the number of lines accepted; the bounded forms stop after n lines (n >= 1), the conditional forms at the first call that returns false, which is not counted. Iteration over the same stream resumes at the line after the last one delivered, also when the function threw. When reading fails the delivered lines are a prefix of the complete lines of the file, never a torn or repeated line.',
 ['inputs', 'fault_sequences', 'histories'], 'for all texts (empty lines, NUL and CR bytes, lines longer than any buffer, no final newline), buffer-size hints, bounds, stop points and exceptions of the function, and every sequence of open/read faults',
 'Tests read well-formed small files once; they do not fail a read inside a line, nor stop and resume at every line.',
 [('for_each_line, for_each_line_n, for_each_line_conditional, for_each_line_n_conditional (stream and file)', 'top of namespace strtk')], ['calls of the function', 'returned count'])
prop('C06', 'Text-file save and load of containers is lossless and truthfully counted',
 'Saving a container to a text file returns the number of elements only if the file then holds the text of every element, each followed by the delimiter; if the disk fails, the returned count is smaller. Loading a text file appends one element per line, in order, to any supported container, keeps what the container already held and returns the number of lines (when reading fails, those of a prefix of the file); a newline-delimited save followed by a load gives back equal elements. A line that does not convert is reported by an exception after exactly the elements before it were added.',
 ['inputs', 'fault_sequences', 'configurations'], 'for vectors, deques, lists, sets, multisets, queues, stacks and priority queues of integers and strings, all delimiters, and every sequence of disk faults on either side',
 'Tests load one small file into one container kind; they cannot fill the disk or fail a flush.',
 [('load_from_text_file, write_to_text_file', 'top of namespace strtk')], ['returned count', 'file contents', 'container contents'])
prop('C07', 'Record parsing consumes one line per call and never mixes or invents fields',
 'Each call of the line-record parser on a stream consumes exactly one line; it reports success exactly when the line holds convertible fields for every requested value, and then every value equals its field of that line. A malformed line, or a call with an empty delimiter set, is reported as failure and the next call continues with the next line. At the end of the stream or after a read error the call fails and no field of another line is delivered.',
 ['inputs', 'fault_sequences', 'histories'], 'for all record shapes up to twelve fields and container targets, delimiters, malformed and over-long lines, and every sequence of short, interrupted and failing reads',
 'Parser tests run over literal strings; none drives a stream that fails or is cut between records.',
 [('parse_line, parse_line_n, read_line_as_value', 'namespace strtk after parse_n'), ('field conversion', 'string_to_type_converter')], ['return value', 'assigned values', 'stream position'])
prop('C08', 'Plain values streamed to a file read back equal, or the failure is reported',
 'Values written with the plain-value stream functions (scalars, structs, arrays, sequences, sets, one to ten values per call) are read back equal and in order by the matching reads; every call that returns true transferred all of its values. When the disk fails or the file ends early the affected read returns false, and only whole values that are really in the file are added to a container. The in-memory counterparts advance the cursor by exactly the bytes of the values and restore equal values.',
 ['inputs', 'fault_sequences', 'crash_points'], 'for all value sequences, shapes and groupings, every sequence of disk faults on the write and read side, and files cut at any byte',
 'No existing test calls these functions (several overloads did not even compile).',
 [('read_pod, write_pod', 'fileio::read_pod, fileio::write_pod, strtk::read_pod, strtk::write_pod')], ['return values', 'values read back'])
prop('C09', 'Objects serialised, stored and reloaded come back equal, or the loss is reported',
 'Whatever the binary writer accepted (scalars, strings, containers, nested objects, fixed-size arrays, in native, big or little endian form), stored to a stream and loaded into a reader over the same number of bytes, is read back equal and in order, consuming exactly the written bytes. Storing reports the written amount only if all bytes reached the stream, and loading reports success only if all requested bytes arrived.',
 ['inputs', 'histories', 'fault_sequences', 'crash_points'], 'for all histories of typed writes into a buffer of sufficient or exactly fitting size, in any byte order, and every sequence of disk faults while storing and loading',
 'Serialiser tests use a few fixed sequences with generous buffers and a disk that never fails.',
 [('binary::writer, binary::reader and their stream operators', 'namespace binary'), ('byte order conversion', 'binary::details / convert')], ['read-back values', 'amount_written/amount_read'])
prop('C10', 'Reading a damaged binary image fails cleanly and never leaves the buffer',
 'On an arbitrarily truncated or corrupted image every typed read either returns false or a value built only from bytes inside the image; the reader never touches memory outside the image or outside the destination, never loops or allocates without bound, and its position never passes the end. A failed read leaves the reader usable: after a reset or seek, intact data reads back as before.',
 ['inputs', 'histories', 'fault_sequences'], 'for all images derived from real ones by truncation, bit flips, length-field changes and torn blocks, and all sequences of typed reads',
 'Tests only read images they have just written.',
 [('bounds checks of every reader overload', 'binary::reader')], ['return values', 'AddressSanitizer', 'position'])
prop('C11', 'The binary writer never writes past its buffer and stays sound when full',
 'With a buffer of any capacity a typed write either stores its complete encoding inside the buffer and returns true, or returns false; no byte outside the buffer is ever changed. What earlier successful writes stored stays intact, and the reported amount written never exceeds the capacity. Clearing, resetting to marks and fixed-size padded writes behave the same after a refused write.',
 ['inputs', 'histories', 'configurations'], 'for all capacities (the writer\'s full disk) and all histories of typed, padded and range writes, resets and clears',
 'Tests use a buffer that is large enough; the exact-fit and refused-write paths are never taken.',
 [('buffer_capacity_ok checks', 'binary::writer')], ['return value', 'bytes around the buffer'])
prop('C12', 'A bloom filter never forgets a key, whatever fails in its history',
 'A key whose insertion returned is reported as contained after every later history of insertions, copies, assignments, unions and compressions, and after intersection if both sides held it, until the filter is cleared. A freshly created or cleared filter contains nothing, and filters built alike from the same keys compare equal. A failing allocation during any of these operations leaves every filter involved usable and still holding its keys.',
 ['inputs', 'histories', 'fault_sequences'], 'for all parameter sets (including minimum/maximum sizes and hash counts), key types and operation histories, with an allocation failure at any point',
 'The one test inserts generated keys into one large filter; set operations, compression, odd sizes and allocation failures are never combined.',
 [('bit addressing and set operations', 'bloom::filter, bloom::compressible_filter')], ['contains', 'operator==', 'AddressSanitizer'])
prop('C13', 'A persisted bloom filter reloads equal, or the load reports failure',
 'If storing a filter reports success and loading that file reports success, the loaded filter equals the stored one and contains all its keys. A store that could not write everything, and a load of a missing, truncated, unreadable or inconsistent file, reports failure. After a failed load the filter is still safe to use, and no file contents whatsoever make it touch memory outside its table.',
 ['inputs', 'fault_sequences', 'crash_points'], 'for all filters, all disk-fault sequences and kills during the store, and all truncations and corruptions of the stored file',
 'The one test stores and reloads a single large filter on a healthy disk; it has no failing disk and no damaged file.',
 [('write_to_file, read_from_file', 'bloom::filter')], ['return value', 'operator==', 'AddressSanitizer'])
prop('C14', 'A loaded token grid holds exactly the cells of its source, or reports failure',
 'When loading a grid (from a file, a buffer or a string) reports success, its rows, columns and cells are exactly those of the source text under the chosen row and column delimiters, quoting and trimming options, and a grid loaded from a file equals one loaded from the same bytes in memory. When the file cannot be read completely, also because another process shortens it meanwhile, loading reports failure. A failed load or reload leaves a grid that can be queried, reloaded and destroyed safely, and never touches a buffer that belongs to the caller.',
 ['inputs', 'configurations', 'histories', 'fault_sequences'], 'for all texts, delimiter and option sets, load/reload histories over files and caller buffers, and every sequence of read-side disk faults and failing allocations',
 'Grid tests load literal well-formed strings once; no load fails, and no grid is reloaded after a failure.',
 [('load, load_buffer_from_file, create_token_list', 'class token_grid')], ['cell contents', 'return value', 'AddressSanitizer'])
prop('C15', 'Token grid edits and queries match a plain table, also when a callback throws',
 'After any history of row removals (by index, by predicate, in ranges), row and column queries, joins, extractions, aggregations and per-row visits, the grid has exactly the rows of a plain table given the same history, and every query answers what the table answers. If a caller-supplied predicate or visitor throws in the middle of an operation, or stops it, every remaining row is still intact and exactly the documented prefix was visited.',
 ['inputs', 'histories', 'fault_sequences'], 'for all grids, edit and query histories, and a throw or stop of any caller callback at any call',
 'Grid tests apply single operations to fixed grids and their callbacks never throw.',
 [('row index and row_range operations', 'class token_grid')], ['row and cell contents', 'returned counts'])
prop('C16', 'The prefix trie answers like a map, also when memory runs out',
 'After any history of insertions a lookup succeeds exactly for the inserted keys and returns the value most recently inserted for exactly that key, for all keys including shared prefixes and prefixes of one another. A failing allocation during an insertion is reported by an exception and loses, corrupts or leaks nothing inserted before.',
 ['inputs', 'histories', 'fault_sequences'], 'for all insertion histories over keys sharing prefixes, with an allocation failure at any point',
 'The trie test inserts a handful of words once and never runs out of memory.',
 [('insert, find and node management', 'trie::prefix')], ['find', 'AddressSanitizer', 'live allocations'])
prop('C17', 'Key-value parsing updates exactly the registered targets named in the input',
 'Parsing key-value text assigns to each registered target the converted value of its key, leaves every other target unchanged, and reports the number or success of conversions; unknown keys, missing separators and unconvertible values change nothing but the reported result (a container target receives the convertible elements of its list). Values and targets stay correct when an allocation or a target callback fails in between, and parsing again continues normally.',
 ['inputs', 'histories', 'fault_sequences'], 'for all key/value texts, registration sets (string, unsigned integer keyed) and histories, with allocation failures and throwing targets at any point',
 'The key-value tests parse fixed well-formed strings.',
 [('key maps and parser', 'namespace keyvalue')], ['target values', 'return value'])
prop('C18', 'Seeded random functions are repeatable, in range and stay inside their buffers',
 'For every seed the random generators and the functions built on them (permutations, combinations, data generation, sampling, picking elements) give the same results each time, write only inside their outputs, and respect their stated range: permutations contain every element exactly once, combinations k distinct positions, samples only values of the requested range, a selection always selects, and every element can be chosen at every position; asking a generator to skip values skips exactly that many. This holds for every value sequence the generator may produce, including its extreme values.',
 ['inputs', 'schedules'], 'for all seeds, lengths and all value sequences of the underlying generator, including its extreme values, injected by the simulator',
 'Tests look at no random output; extreme generator values occur once in 2^32 draws or never.',
 [('uniform_real_rng, random_permutation, random_combination, generate_random_data, generate_random_values, select_1_randomly, select_k_randomly', 'random functions')], ['outputs', 'AddressSanitizer'])
prop('C19', 'The timer reports the true elapsed time on any clock',
 'The timer reports exactly the difference between the clock readings at its stop and its start, consistently in microseconds and seconds, for any length of interval and any number of restarts. When the clock was set back between start and stop it reports the maximum sentinel, never a small or wrapped value.',
 ['histories', 'schedules'], 'for all start/stop histories over a simulated clock that advances, jumps forward and backward across second boundaries',
 'Tests print real durations; they cannot set a clock back or jump across a second boundary.',
 [('start, stop, usec_time, time', 'util::timer, util::scoped_timer')], ['reported times'])
prop('C20', 'Concurrent calls on separate data never influence each other',
 'When several threads call the library at the same time, each changing only data of its own, every call gives the result and side effects it gives when running alone, for every interleaving; the same holds for calls that only read an object all threads share (a grid, filter, trie, translation table or delimiter predicate), nor does one call write memory that a call of another thread uses without synchronisation. A fault that hits one thread (memory running out, a failing disk) changes nothing for the others, and no thread waits for ever. This covers tokenising, parsing, conversion, encoding, grids, filters, serialisation, file and line functions and seeded generators.',
 ['schedules', 'inputs', 'programs'], 'for all mixes of library calls on private data or const shared objects, all thread interleavings at memory-access granularity and faults in single threads',
 'All tests are single-threaded.',
 [('absence of hidden shared mutable state', 'function-local statics and tables throughout')], ['result of every call compared with its isolated result'])
prop('C21', 'Text functions give the right result or fail cleanly when memory runs out',
 'When an allocation fails inside a tokenising, parsing, conversion, encoding, replacement or text-transforming function, the function throws bad_alloc (or reports failure as documented) or still returns the right result; it never returns a wrong result as success. The inputs are unchanged, nothing is leaked or corrupted, and calling it again with memory available gives the right result.',
 ['inputs', 'fault_sequences'], 'for all inputs of the covered functions and an allocation failure at any point',
 'Tests never run out of memory.',
 [('split, tokenizer, parse, replace, convert, join and encoding functions', 'throughout')], ['results', 'live allocations', 'AddressSanitizer'])
prop('C22', 'A caller callback that throws or stops sees exactly the items due so far',
 'Functions that hand items to a caller-supplied function, filter, sink or predicate (tokens, splits, offsets, combinations, permutations, filtered values, conditional copies and joins) deliver the items of the complete result in order, one call each, and when the callback throws or stops at any call exactly the items before it have been delivered and nothing after it. The exception reaches the caller unchanged, the inputs are unchanged (a range rearranged in place still holds the same elements), nothing leaks, and the same call, also with the same predicate and offset objects, then runs to completion normally.',
 ['inputs', 'histories', 'fault_sequences'], 'for all inputs, options and delimiter sets and a throw at any callback invocation (also of a delimiter predicate)',
 'Callbacks in tests never throw or stop early.',
 [('for_each_token, split, split_n, tokenizer, offset_splitter, split_on_consecutive, find_all, for_each_combination, for_each_permutation and filter iterators', 'throughout')], ['calls of the callback', 'propagated exception'])
prop('C23', 'Numbers survive conversion to text and back',
 'Every integer converts to text and back to the same integer, and text that is not a number of the target type or does not fit it is rejected.',
 ['inputs'], 'for all values and texts', 'Tests sample value ranges.',
 [('type_to_string, string_to_type_converter, fast converters', 'conversion functions')])
prop('C24', 'Hexadecimal and base64 encoding are inverse to decoding',
 'Encoding any byte string as hexadecimal or base64 and decoding it gives the same bytes, and the encodings agree with the standard alphabets and padding.',
 ['inputs'], 'for all byte strings', 'Tests sample strings.',
 [('convert_bin_to_hex, convert_hex_to_bin, convert_bin_to_base64, convert_base64_to_bin', 'conversion functions')])
prop('C25', 'Wildcard matching and edit distance agree with their definitions',
 'Wildcard matching, Levenshtein/Dice style similarity and case-insensitive comparison return what their mathematical definition says for every pair of strings.',
 ['inputs'], 'for all pairs of strings', 'Tests sample pairs.',
 [('match, imatch, edit distances', 'matching functions')])
prop('C26', 'Combination, permutation and choose functions agree with the mathematics',
 'next_combination enumerates every combination once in order, nth_combination returns the n-th of them, and n_choose_k is the binomial coefficient wherever it is representable.',
 ['inputs'], 'for all n, k and index values', 'Tests check a table.',
 [('next_combination, nth_combination, n_choose_k', 'combinatorics')])
prop('C27', 'Text-transforming functions agree with their definitions',
 'Removing, replacing, trimming, case-changing, bracketing checks and bit, hash and permutation utilities return what their definition says for every input.',
 ['inputs'], 'for all inputs', 'Tests sample inputs.',
 [('remove_*, replace, trim_*, as_lcase, bracketize, bit utilities', 'throughout')])
