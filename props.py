STR = 'src/vita/container/str.c'
prop('C01', 'String construction and editing produce exactly the specified text',
 'Creating, duplicating, taking ownership of, overwriting, appending to, inserting into, removing from and clearing a string produces exactly the text the operation describes, for every text, length, capacity and position allowed by its preconditions. The string stays NUL-terminated at its reported length, its length never exceeds its capacity, its capacity never exceeds the memory it owns, and no byte outside that memory is read or written. Operations that fit in the existing capacity do not reallocate, and destroying the string releases everything it owns.',
 'inputs', 'every text, argument, position and count, for every length/capacity pair within the bounds', 'tests edit a few fixed strings; off-by-one errors at the capacity boundary or at either end of the string need lengths and positions the tests never combine',
 STR, [('create/dup/take/destroy', 'vt_str_create*, vt_str_dup, vt_str_take_ownership, vt_str_destroy'), ('edits', 'vt_str_set*, vt_str_append*, vt_str_insert*, vt_str_remove, vt_str_clear')],
 'lengths and capacities up to 8 in quick, 13 in thorough; allocation success')
prop('C02', 'String capacity management preserves text and honours the promised space',
 'Reserving space, shrinking, resizing and re-measuring a string never alter the text they keep: reserve adds at least the requested room, shrink makes the capacity equal to the length, resize makes the capacity the requested size and keeps the longest prefix that fits, and re-measuring cuts the text at the first NUL. As many characters as the string reports free space for can be added without its buffer moving. This holds after any sequence of edits and capacity operations, and the buffer always has room for the terminator.',
 'inputs histories', 'every text and every length/capacity pair within the bounds; every sequence of two (three in thorough) of seven operations', 'tests call each capacity function once on strings whose length and capacity are far apart, and never chain them',
 STR, [('capacity', 'vt_str_reserve, vt_str_shrink, vt_str_resize, vt_str_has_space, vt_str_capacity, vt_str_validate_len')],
 'lengths and capacities up to 7 in quick, 13 in thorough; histories of 2 (3) operations')
prop('C03', 'String search and comparison return the mathematically right answer',
 'Finding a substring or character returns its first position and reports absence otherwise, counting returns the number of non-overlapping occurrences scanned left to right, equality is true exactly when lengths and all characters agree (or the first n characters for the n-limited form), and prefix and suffix tests are true exactly when the text starts or ends with the argument. None of them modifies the string or reads beyond its terminator.',
 'inputs', 'every haystack and needle within the length bounds, any byte values', 'tests check a handful of words; self-overlapping needles, needles as long as the text and bytes above 127 are not covered',
 STR, [('search', 'vt_str_find, vt_str_can_find, vt_str_index_of, vt_str_index_find'), ('compare', 'vt_str_equals, vt_str_equals_z, vt_str_equals_n, vt_str_starts_with, vt_str_ends_with')],
 'haystack up to 8, needle up to 5 (12 and 6 in thorough)')
prop('C04', 'Substring removal, replacement and anchored insertion edit only the match',
 'Removing the first, last or every occurrence of a substring, removing or mapping a set of characters, replacing the first, last or all occurrences (scanned left to right, never re-matching inserted text), and inserting before or after the first occurrence change exactly the matched places and keep every other character in order. When the substring does not occur the string is unchanged and removal reports that it was not found. The result is a well-formed string without memory error or leak, also when the replacement forces the buffer to grow.',
 'inputs', 'every text, substring and replacement within the length bounds', 'tests replace one word in one sentence; absent, overlapping, string-final and growing matches need inputs they do not have',
 STR, [('remove', 'vt_str_remove_first, vt_str_remove_last, vt_str_remove_all, vt_str_remove_c'), ('replace', 'vt_str_replace, vt_str_replace_first, vt_str_replace_last, vt_str_replace_c'), ('insert', 'vt_str_insert_before, vt_str_insert_after')],
 'text up to 5, needle up to 3, replacement up to 2 (8, 5, 4 in thorough); growing multi-replacements up to text length 3')
prop('C05', 'Stripping, case conversion and number tests follow the C character classes',
 'Stripping removes exactly the leading and trailing characters of the chosen class (white space, white space and punctuation, or a given set) and nothing in between, also when nothing or everything is removed. Case conversion changes exactly the ASCII letters; the numeric test is true exactly when every examined character is a digit or a dot.',
 'inputs', 'every text and character set within the length bounds, any byte values', 'tests strip two fixed strings; all-stripped, empty and non-ASCII texts are not covered',
 STR, [('strip', 'vt_str_strip, vt_str_strip_punct, vt_str_strip_c'), ('case and numbers', 'vt_str_to_uppercase, vt_str_to_lowercase, vt_str_is_numeric, vt_str_is_numeric_z')],
 'text up to 8 (12 in thorough), character set up to 2 (3)')
VEC = 'src/vita/container/vec.c'; PL = 'src/vita/container/plist.c'; COM = 'src/vita/container/common.c'
prop('C06', 'Splitting, joining and popping pieces partition the text exactly',
 'Splitting yields exactly the non-empty stretches between left-to-right separators, in order, and a result only when the separator occurs; extracting between two markers yields the text between the first left marker and the first right marker after it. Joining concatenates the pieces with the separator between them, appended to the destination if one is given. Popping the first or last piece removes that piece and its separator from the text and returns the piece, or changes nothing when there is no separator or nothing to pop; results given by the caller are reused, otherwise exactly the result is allocated.',
 'inputs', 'every text, separator and marker within the length bounds, with and without a caller-supplied result', 'tests split one sentence; leading, trailing, adjacent and self-overlapping separators, empty results and reuse of a result are not covered',
 STR + ' ' + PL, [('split', 'vt_str_split, vt_str_split_between'), ('join', 'vt_str_join, vt_str_join_n'), ('pop', 'vt_str_pop_get_first, vt_str_pop_get_last')],
 'text up to 4, separator and markers up to 2, at most 3 joined pieces (6, 3 and 3 in thorough)')
prop('C09', 'A vector behaves like the mathematical sequence of its elements',
 'Pushing, inserting, popping, removing (order-keeping or swap-with-last), setting, getting, clearing, duplicating and searching a vector of elements of any size have exactly the effect of the same operation on a sequence of values, whatever its length and capacity. Reserve, shrink and resize keep the elements they must keep and deliver the promised capacity, growth keeps every element, and popping from an empty vector returns nothing. No byte outside the owned memory is touched and destroying the vector frees everything.',
 'inputs histories', 'every element value, length, capacity, position and removal strategy within the bounds; every history of three operations from the eight covered', 'tests push ten integers; element sizes that are not powers of two, full vectors, positions at either end and histories around shrink or resize are not covered',
 VEC, [('elements', 'vt_vec_push_back/front, vt_vec_pop, vt_vec_insert, vt_vec_remove, vt_vec_set, vt_vec_get, vt_vec_can_find'), ('capacity', 'vt_vec_reserve, vt_vec_shrink, vt_vec_resize, vt_vec_clear'), ('lifetime', 'vt_vec_create, vt_vec_dup, vt_vec_destroy')],
 'up to 4 elements, element sizes 1 and 3 (6 elements, sizes 1,2,3,4,8 in thorough); histories of 3 operations')
prop('C10', 'Typed vector access stores, returns and finds every value exactly',
 'For each of the eleven element types (8, 16, 32 and 64 bit signed and unsigned integers, float, double and long double) pushing to either end, inserting, setting, getting and popping typed values stores and returns them bit for bit at the specified position, and searching finds a value exactly when an equal one is present. Every value of the type is covered, including extreme ones.',
 'inputs', 'every value of every element type, at every position of vectors of up to four elements', 'tests push small positive integers and one float; a wrong cast in one of the eleven generated variants, or padding bytes in long doubles, needs specific values and types',
 VEC, [('typed variants', 'VT_VEC_INSTANTIATE family: vt_vec_push_backT, push_frontT, insertT, setT, getT, popT, can_findT for i8..u64, f, d, r')],
 'vectors of up to 4 elements; long double payloads are compared by value')
prop('C11', 'A pointer list behaves like the mathematical sequence of its pointers',
 'Pushing, inserting, popping, removing by position or by value, setting, getting, clearing, duplicating and searching a pointer list have exactly the effect of the same operation on a sequence of pointers, whatever its length and capacity, and NULL-free pointers come back unchanged. Reserve, shrink and resize keep the pointers they must keep and deliver the promised capacity, and popping from an empty list returns nothing. No byte outside the owned memory is touched and the list never frees what its pointers refer to.',
 'inputs histories', 'every list of distinct or repeated pointers, every position and strategy within the bounds; every history of three operations from the nine covered', 'tests push a few strings; full lists, absent values, repeated pointers and histories around shrink or resize are not covered',
 PL, [('elements', 'vt_plist_push_back/front, vt_plist_pop, vt_plist_insert, vt_plist_remove, vt_plist_set, vt_plist_get, vt_plist_can_find'), ('capacity', 'vt_plist_reserve, vt_plist_shrink, vt_plist_resize, vt_plist_clear'), ('lifetime', 'vt_plist_create, vt_plist_dup, vt_plist_destroy')],
 'up to 4 pointers (7 in thorough); histories of 3 operations')
prop('C12', 'Iterating a container visits every element once and in order',
 'Sliding forwards or backwards over a string, vector or pointer list returns every element once in that order, then NULL, after which another pass in either direction starts afresh; resetting the position at any point has the same effect. Applying a callback calls it once per element, in order, with the right element and index. Iteration does not modify the container and works on empty ones.',
 'inputs histories', 'all three containers, both directions, every length and every interruption point within the bounds', 'tests slide once forwards over one container; backward passes, repeated passes and interrupted passes are not covered',
 COM + ' ' + STR + ' ' + VEC + ' ' + PL, [('slide', 'vt_array_slide_front/back/reset and the vt_str_, vt_vec_, vt_plist_ wrappers'), ('apply', 'vt_str_apply, vt_vec_apply, vt_plist_apply')],
 'up to 4 elements (7 in thorough)')
prop('C13', 'Spans and generic array access alias exactly the given range',
 'A span over a range of an array has exactly the length of that range and its element i is element from+i of the array: reads return its address, writes change that element and nothing else, for any element size. Generic queries on any container (head, length, capacity, free space, element size, element address, element write) agree with the container. Making or using a span allocates nothing.',
 'inputs', 'every range, element size, index and element value within the bounds', 'tests use one span of integers; ranges that start at or after 0, odd element sizes and writes through the span are not combined',
 'src/vita/container/span.c ' + COM, [('spans', 'vt_span_from, vt_span_from_to, vt_span_get, vt_span_set, vt_span_len'), ('generic access', 'vt_array_head, vt_array_len, vt_array_capacity, vt_array_has_space, vt_array_elsize, vt_array_get, vt_array_set')],
 'arrays of 7 elements of size up to 4 (8 in thorough)')
prop('C14', 'The tracking allocator accounts for every block and releases what is left',
 'After any sequence of allocations, reallocations and frees the statistics equal the true numbers of allocations, reallocations, frees, bytes currently allocated and bytes freed. New memory is zeroed, reallocation keeps the common prefix, no operation disturbs another live block, and freeing a block that is not its own only releases it. Destroying the allocator releases every block still live, exactly once, however many there are.',
 'inputs histories', 'every sequence of up to four operations on any live block; up to 33 simultaneously live blocks', 'tests allocate three blocks; the object table grows at 16 entries, and removing entries from its middle or end interacts with later operations',
 'src/vita/allocator/mallocator.c', [('tracking', 'vt_mallocator_alloc, vt_mallocator_realloc, vt_mallocator_free'), ('lifetime', 'vt_mallocator_create, vt_mallocator_destroy, vt_mallocator_print_stats')],
 'sequences of 4 operations (5 in thorough), blocks up to 8 bytes, up to 33 live blocks; single-threaded')
prop('C15', 'A container takes and returns all its memory through its allocator',
 'A string, vector or pointer list created with an allocator obtains all of its memory from it, whatever operations grow, shrink, edit or duplicate it, and returns all of it there when destroyed, so that the allocator\'s statistics balance and nothing leaks. A copy uses the allocator it was given (a copied string its source\'s), and pieces of a split use the allocator of the list that receives them. Containers without an allocator never involve one.',
 'inputs histories', 'every covered operation on every small container, with and without an allocator', 'tests look at the final statistics of one program; one operation bypassing the allocator on one path goes unnoticed',
 STR + ' ' + VEC + ' ' + PL + ' src/vita/allocator/mallocator.c', [('containers', 'VT_ALLOCATOR_* / VT_CALLOC/REALLOC/FREE choice in str.c, vec.c, plist.c')],
 'containers of up to 3 elements (6 in thorough), one operation group each')
prop('C17', 'Row-major index mapping is a bijection',
 'Two- and three-dimensional indices map to the row-major position (layer by layer for three dimensions), and mapping back returns the original indices. Conversely every linear index maps to in-range indices whose position is that linear index. This holds for every row, column, layer and size within the bounds.',
 'inputs', 'every row below 2^20 (2^16 layers in three dimensions) for each fixed width up to 17, all widths and rows up to 63 at once, and selected large shapes', 'tests check two positions of one matrix; a swapped row and column count is invisible for square shapes',
 COM, [('mapping', 'vt_index_2d_to_1d, vt_index_1d_to_2d, vt_index_3d_to_1d, vt_index_1d_to_3d')],
 'widths up to 17, rows below 2^20; 3-d shapes up to 7x7 with layers below 2^16 (width 100, 2^32 and 12x12, 2^28 in thorough)')
prop('C18', 'Integer math, comparison and raw memory helpers compute exact results',
 'The greatest common divisor and least common multiple of non-negative numbers are exact (gcd(a,0)=a, lcm with 0 is 0), the palindrome test is true exactly for numbers that read the same backwards, and two floats are close exactly when they differ by less than the tolerance. Minimum, maximum and clamp of all eleven number types return the right operand for every pair of values. Memory move, copy, set and compare, the generic swap and the pointer swap change or compare exactly the named bytes, also for overlapping moves and zero lengths, and every status code has a name.',
 'inputs', 'all values of the number types for comparisons; all pairs within the stated bounds for gcd and lcm; all byte contents, lengths and overlaps within the bounds', 'tests call each helper with one or two literal values; zero arguments, extreme values, one wrong type among eleven instantiations and overlapping moves are not covered',
 'src/vita/math/math.c src/vita/algorithm/comparison.c src/vita/core/core.c', [('integer math', 'vt_math_gcd, vt_math_lcm, vt_math_is_palindrome, vt_math_is_close'), ('comparison', 'vt_cmp_minT, vt_cmp_maxT, vt_cmp_clampT'), ('memory', 'vt_memmove, vt_memcopy, vt_memset, vt_memcmp, vt_gswap, vt_pswap, vt_status_to_str')],
 'gcd up to 24 (127 in thorough) and multiples of 2^20 and 2^40, lcm up to 15 (63), palindromes up to 5 (8) digits, memory up to 6 (10) bytes')
prop('C19', 'Numbers and decimal text convert into each other without loss',
 'Printing an integer of any of the eight integer types yields its exact decimal representation, terminated, in a buffer of exactly the needed size or larger; a buffer that is too small is refused by terminating, without being written to. Reading decimal text, with a leading minus for signed types, yields exactly the number it denotes whenever the type can hold it, so every number survives printing and reading back. Text that is not a number reads as 0, and the fraction of a number read as an integer is dropped.',
 'inputs', 'every value of every integer type (by number of digits and sign); every text within the length bound', 'tests convert three positive numbers; a wrong format for one of the types, extreme values, negative numbers and exact-fit buffers are not covered',
 'src/vita/core/conv.c', [('to text', 'vt_conv_T_to_str for i8..u64'), ('from text', 'vt_conv_str_to_T for i8..u64, f, d, r')],
 'arbitrary texts up to 4 characters (7 in thorough); quick decides the 1, 3, 5, 10, 19 and 20 digit numbers, thorough all digit counts; the value strtod gives a text is not modelled')
DT = 'src/vita/time/datetime.c'
prop('C20', 'Dates follow the Gregorian calendar',
 'Leap years, the days of a month and of a year, the week day (Monday 1 to Sunday 7) and the day of the year follow the Gregorian calendar for every date of the years 1 to 32767, before and after 1970, whatever the unrelated fields hold; an invalid (negative) year stands for 1900 and a month outside 1 to 12 for the nearest one. Creating a date keeps every valid field, clamps the others (negative year 1900, month 1-12, day 1 to the month\'s last when above 31, hour 0-23, minute 0-59, second 0-60) and computes a week day or year day not given. The current date and time is that of the system clock.',
 'inputs', 'every date of the years 1 to 32767, every time of day, every value of every 16-bit field; every clock value of the years 1900 to 9999', 'tests use about ten dates, all after 1970 and none in a century year',
 DT, [('calendar', 'vt_datetime_is_leap_year, vt_datetime_find_days_in_month, vt_datetime_find_days_in_year, vt_datetime_find_week_day, vt_datetime_find_year_day'), ('creation', 'vt_datetime_create, vt_datetime_get_now')],
 'years 1 to 32767; the C library\'s calendar is modelled in UTC, time zones with daylight saving are outside')
prop('C21', 'Timestamps and their text forms convert into each other',
 'A date and time is written as "YYYY-MM-DD HH:MM:SS", "YYYYMMDDTHHMMSS", "YYYY-MM-DDTHH:MM:SS" or in the pretty form "Sun Jan  1 11:24:56 2023", exactly and terminated, within any buffer of at least 26 bytes; so is the current time. A text is accepted as a timestamp exactly when it starts with digits and separators at the positions the format demands, without reading past its end. Reading an accepted text whose values form a date yields exactly those values, with the right week day and day of the year, also when text follows it.',
 'inputs', 'every date and time of the years 1000 to 9999 (reading: 1 to 9999); every text of up to 21 characters', 'tests format and parse a few constants; truncated texts, wrong separators, single-digit days and the extremes of each field are not covered',
 DT, [('writing', 'vt_datetime_to_text, _iso, _iso_ext, _pretty, vt_datetime_get_now_as_text, _pretty'), ('validation', 'vt_datetime_is_valid_text, _iso, _iso_ext'), ('reading', 'vt_datetime_from_text, _iso, _iso_ext')],
 'buffers of 26 to 29 bytes, texts up to 21 characters; strftime, asctime and sscanf are modelled')
prop('C22', 'Datetime arithmetic is exact',
 'Dates convert to seconds since the epoch and back without loss, before and after 1970. Adding a delta (any mix of positive and negative fields) gives the calendar date that the normalised sum of the fields denotes, with its week day and day of the year. The difference of two dates in seconds is exact, in minutes, hours and days it is that difference truncated toward zero, and its breakdown into days, hours, minutes and seconds adds up to it.',
 'inputs', 'every date of the years 1 to 32767 and every delta of 16-bit fields whose result lies in them', 'tests add one delta and compare two dates; carries across months and leap days, negative deltas and dates before 1970 are not covered',
 DT, [('seconds', 'vt_datetime_to_secs, vt_datetime_from_secs'), ('arithmetic', 'vt_datetime_op, vt_datetime_diff_secs, vt_datetime_diff_minutes, vt_datetime_diff_hours, vt_datetime_diff_days, vt_datetime_diff')],
 'truncation and breakdown for differences up to 31 (12) days on selected days and hours with every minute and second; the breakdown is known to lose up to a second to single precision (known finding), so it is checked to a second')
PA = 'src/vita/system/path.c'
prop('C23', 'Paths are built, cut and expanded exactly',
 'Building a path joins its parts with single separators; popping cuts at the last separator (a trailing separator only), leaving paths without one alone, also empty ones; validation turns every backslash into a separator and changes nothing else. The base name is everything after the last separator that is not the path\'s last character (the whole path if there is none such; a path without any separator leaves the given string alone), whether stored in a new string, an existing one or the one holding the path. A leading tilda, also alone, is replaced by the home directory when there is one; the current directory and the path of the executable are returned exactly and terminated, or nothing when the system has none.',
 'inputs', 'every path, home directory and current directory within the length bounds; every position and number of separators', 'tests (not run in the stable suite) use one path each; leading, trailing and repeated separators, a lone tilda and failing system calls are not covered',
 PA, [('text', 'vt_path_build, vt_path_build_n, vt_path_basename, vt_path_pop, vt_path_validate'), ('environment', 'vt_path_expand_tilda, vt_path_get_cwd, vt_path_get_this_exe_location')],
 'paths up to 5 characters (9 in thorough), base names of paths up to 4 (7); executable paths of 1 and 2 (4095 and 4096) characters')
prop('C26', 'Files are read and written exactly, and failures are reported',
 'Reading a text or binary file returns exactly its contents, also when it is empty, in memory of the given allocator, and nothing when it does not exist, is a directory or cannot be read completely; reading into an existing buffer fills as much of it as fits and leaves the rest of the buffer alone. Writing replaces and appending extends the file by exactly the given text or bytes (plus a newline in the line variants), and returns true exactly when all of it was written: not when the file cannot be opened or the disk is full. Existence, kind and size of paths are reported as they are, and no file stays open.',
 'inputs fault_sequences', 'every content within the size bounds; files that are missing, empty, directories, truncated or cannot be opened; a disk that fills up after any number of bytes', 'tests write and read back one file; empty files, full disks, files that cannot be opened and short reads are not covered',
 'src/vita/system/fileio.c src/vita/system/path.c', [('reading', 'vt_file_read, vt_file_readb, vt_file_read_to_buffer'), ('writing', 'vt_file_write, vt_file_writeln, vt_file_writeb, vt_file_writef, vt_file_writefc, vt_file_append and its variants'), ('queries', 'vt_path_exists, vt_path_is_file, vt_path_is_dir, vt_path_get_file_size')],
 'files of up to 5 bytes; the system is an in-memory file system, in the symbolic run and in replays')
prop('C28', 'Log and debug messages go where they were directed, complete',
 'A log message is written as time, level, condition (for assertions), file, line, text and newline, to stderr, to the file its level was redirected to, or to the file given explicitly, and nowhere else; redirecting one level does not affect another, and redirecting to nothing restores stderr. Messages of level fatal and failed assertions end the program with a failure status, all others and assertions that hold do not. Debug checks likewise write to stderr or the redirected file, nothing while disabled, and end the program exactly when they are meant to; when a file cannot be opened, the message goes to stderr, and stderr is never closed.',
 'inputs histories', 'every level and macro, every redirection of levels, messages of up to two characters; files that cannot be opened', 'tests log one message per level and look at nothing; what happens when a file cannot be opened and which level goes where is not covered',
 'src/vita/util/log.c src/vita/util/debug.c inc/vita/util/log.h inc/vita/util/debug.h', [('log', 'vt_log, vt_log_redirect_level_output, vt_log_redirect_all_output, vt_log_get_level_str'), ('debug', 'vt_debug_printf, vt_debug_redirect_output, vt_debug_disable_output, VT_CHECK, VT_ENFORCE, VT_DEBUG_ASSERT, VT_NOTE, VT_REQUIRED, VT_TODO, VT_UNIMPLEMENTED')],
 'messages of up to 2 characters, one message per run, file names shorter than 16 characters')
