#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["maa/"+f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=state or [], hook_needed=None)))

p("C01", "A hash table is a finite map, whatever was done to it before",
  "After any sequence of insertions, deletions and lookups with a consistent hash/compare pair, a lookup returns the datum given with the one successful insertion of an equal key that was not deleted since, and NULL otherwise. "
  "Inserting a key that is already present returns 1 and changes nothing (the first datum stays), deleting returns 0 exactly when the key was present, and the entry count and statistics agree with the map. "
  "Automatic growth and the self-organising reordering done by lookups never lose, duplicate or alter an entry, and other tables are not affected.",
  ["histories", "inputs"], "every finite history of insert/delete/retrieve on any number of tables, any keys, any consistent hash and compare functions (including ones where all keys collide)",
  "The hash test inserts a fixed arithmetic progression of integers; collisions chains, deletions in the middle of a chain, delete-after-reorganise and growth with long chains are reached by luck or not at all, and no finite run covers every history.",
  ["hash.c"], [("bucket chains + growth at half load", "maa/hash.c:hsh_insert"), ("unlink", "maa/hash.c:hsh_delete"), ("move-to-front", "maa/hash.c:hsh_retrieve"), ("statistics recount", "maa/hash.c:hsh_get_stats")],
  ["return values of hsh_insert/hsh_delete/hsh_retrieve", "hsh_get_stats"], [dict(name="buckets/entries/prime", meaning="chains indexed by hash modulo prime; number of entries", where="maa/hash.c: struct table")])

p("C02", "Iterating a hash table or set visits every entry exactly once",
  "Each iteration style of hash tables, sets and string pools (callback, callback with argument, position markers, walking macros) presents every entry that is in the container exactly once, with its own key and datum, and nothing else. "
  "A callback that returns non-zero stops the iteration at once and makes the iterate call return non-zero; a full pass returns zero. "
  "Callback iteration of a hash table tolerates the callback releasing or deleting the entry it was given, and set iteration restores the write protection that was in force before it. A container is write protected during a walk by positions or macros, and no longer after it ended or was given up with the corresponding END macro or readonly call.",
  ["histories", "inputs"], "every reachable container state and every stopping point",
  "The tests iterate one or two tables of fixed content and never check that no entry is repeated or missed when chains are long, the last bucket is used or the callback stops early.",
  ["hash.c", "set.c", "string.c"], [("callback iteration", "maa/hash.c:hsh_iterate, hsh_iterate_arg; maa/set.c:set_iterate, set_iterate_arg"), ("positions", "maa/hash.c:hsh_init_position, hsh_next_position; maa/set.c:set_init_position, set_next_position")],
  ["callback arguments", "hsh_get_position/set_get_position"])

p("C03", "A read-only table or set is never modified",
  "While a hash table or set is marked read-only (explicitly, or because a position-marker walk has started and not reached its end), inserting, deleting or destroying is refused with an internal error before anything changes, and lookups do not reorder entries, so outstanding position markers stay valid. "
  "Setting the flag returns its previous value; a position walk that runs to its end, or an explicit end-of-iteration, makes the container writable again.",
  ["histories", "inputs"], "every container state, every operation attempted while protected",
  "No test attempts a modification during a walk or checks that lookups during a walk leave the order alone.",
  ["hash.c", "set.c"], [("readonly flag checks", "maa/hash.c:hsh_insert, hsh_delete, hsh_destroy, hsh_retrieve; same in maa/set.c"), ("flag set/reset", "maa/hash.c:hsh_readonly, hsh_init_position, hsh_next_position")],
  ["err_internal", "order of a position walk"])

p("C04", "A set is a finite mathematical set, whatever was done to it before",
  "After any sequence of insertions, deletions and membership tests with a consistent hash/compare pair, membership is true exactly for elements inserted and not deleted since, insert returns 1 and changes nothing for an element already present, delete returns 0 exactly when the element was present, and the count is the number of distinct elements. "
  "Growth and the reordering done by membership tests never lose, duplicate or alter an element, and other sets are not affected.",
  ["histories", "inputs"], "every finite history of insert/delete/member on any number of sets, any elements, any consistent hash and compare functions",
  "The set test inserts one fixed progression and checks membership of the same values; colliding elements, interleaved deletions and growth with chains are not covered.",
  ["set.c"], [("bucket chains + growth at half load", "maa/set.c:set_insert"), ("unlink", "maa/set.c:set_delete"), ("move-to-front", "maa/set.c:set_member"), ("count", "maa/set.c:set_count, set_get_stats")],
  ["return values of set_insert/set_delete/set_member/set_count"])

p("C05", "Set algebra computes exactly the mathematical result",
  "Union, intersection and difference return a new set holding exactly the elements the mathematical operation yields and leave both operands (content, write protection) as they were; adding and deleting in place change only the first operand, to exactly the union respectively the difference; equality is true exactly when both sets hold the same elements. "
  "This holds for empty, overlapping, equal and identical operands; operands with different hash or compare functions are refused with a fatal error before anything changes.",
  ["inputs", "histories"], "every pair of sets (same hash and compare functions), including the same set twice",
  "The set test combines two fixed progressions once; equal-sized but different sets, identical operands, and operands that grow while being combined are not sampled.",
  ["set.c"], [("set_union, set_inter, set_diff", "maa/set.c"), ("set_add, set_del, set_equal", "maa/set.c")], ["members of the result and of the operands"])

p("C06", "A list is exactly the sequence its operations describe",
  "After any sequence of append, push, pop, replace-nth and truncate operations, the list holds exactly the resulting sequence of pointers: length, first element, n-th element, membership, positions and iteration all agree with it, in order, and iteration stops at the first non-zero callback result. "
  "Appending after any combination of pops and truncations adds at the end; popping an empty list returns NULL; operations on one list never change another list.",
  ["histories", "inputs"], "every finite history of operations on any number of lists, any lengths and truncation points",
  "The list test runs one fixed scenario; truncation to every possible length, append after pop-to-empty or truncation, and several lists sharing the node allocator are not covered.",
  ["list.c"], [("head/tail/count maintenance", "maa/list.c:lst_append, lst_push, lst_pop, lst_truncate, lst_truncate_position"), ("walks", "maa/list.c:lst_nth_get, lst_nth_set, lst_member, lst_iterate")],
  ["lst_length, lst_nth_get, lst_iterate"])

p("C07", "A stack returns what was pushed, last in first out",
  "After any sequence of pushes and pops, pop returns and removes the most recently pushed pointer that was not popped yet, top returns it without removing it, both return NULL on an empty stack, and the emptiness test is 1 exactly for an empty stack. "
  "Operations on one stack never change another, and destroying a stack releases all of its memory but not what the pushed pointers refer to.",
  ["histories", "inputs"], "every finite history of pushes and pops on any number of stacks",
  "The stack test pushes one fixed progression and pops it; interleavings and several stacks are not covered.",
  ["stack.c"], [("linked nodes", "maa/stack.c:stk_push, stk_pop, stk_top, stk_isempty, stk_destroy")], ["return values"])

p("C08", "A skip list is a sorted set under any insertions and deletions",
  "After any sequence of insertions of new keys and deletions of present keys, and whatever levels the random generator chooses, a find returns the datum with that key or NULL when there is none, and iteration presents all data in increasing key order exactly once, stopping at and returning the first non-zero callback result. "
  "Inserting an equal key or deleting an absent one is reported as an internal error before the list changes; destroying a list releases all of its entries.",
  ["histories", "inputs", "schedules"], "every finite history, any strict ordering, every outcome of the random level choice",
  "The test inserts a fixed progression with one random seed; level growth and shrinkage and deletion of multi-level entries depend on random outcomes tests never enumerate.",
  ["sl.c"], [("search path", "maa/sl.c:_sl_locate"), ("splicing on every level", "maa/sl.c:sl_insert, sl_delete"), ("iteration over a snapshot", "maa/sl.c:sl_iterate, sl_iterate_arg")], ["sl_find, sl_iterate"])

p("C09", "String memory hands out faithful, stable, terminated copies",
  "A string copied, copied by length, or grown piece by piece and finished is returned as a NUL-terminated copy of exactly the given bytes, which never changes or moves until the memory object is destroyed, whatever is stored later; the source is read only within its given length. "
  "The statistics count the finished strings and the bytes stored, and destroying the object releases everything exactly once.",
  ["histories", "inputs"], "every sequence of copies and growths, every length including 0, sources that are not NUL-terminated",
  "The tests copy a few decimal strings; sources without a terminator, lengths shorter than the source, and stability across many later allocations are not checked.",
  ["memory.c", "xmalloc.c"], [("copies", "maa/memory.c:mem_strcpy, mem_strncpy"), ("growing", "maa/memory.c:mem_grow, mem_finish"), ("release", "maa/memory.c:mem_destroy_strings")], ["returned strings", "mem_get_string_stats"])

p("C10", "The object allocator never hands out an object that is in use",
  "Every object obtained from an object store is a writable block of the requested size, distinct from every other object of the store that has not been freed back since; a freed object may be handed out again, and an object obtained as empty is all zero even when it is reused. "
  "The statistics report objects allocated, in use and reused exactly, and destroying the store releases all of its blocks once.",
  ["histories", "inputs"], "every sequence of get/get-empty/free and every object size",
  "The tests allocate and free in one fixed pattern; arbitrary interleavings and recycled dirty objects are not covered.",
  ["memory.c", "stack.c"], [("free list", "maa/memory.c:mem_get_object, mem_free_object, mem_get_empty_object"), ("release", "maa/memory.c:mem_destroy_objects")], ["returned pointers", "mem_get_object_stats"])

p("C11", "Interned strings are equal pointers exactly when equal contents",
  "Within a string pool, looking up or finishing strings returns the same pointer for equal contents and different pointers for different contents, for ever, and the returned string has exactly the given content; existence tests are true exactly for contents interned so far. "
  "Growing a string piece by piece and finishing it is equivalent to looking up the whole string; uniquely generated strings start with the prefix and were not in the pool before; the global pool behaves the same and comes into being on first use.",
  ["histories", "inputs"], "every sequence of pool operations and all string contents",
  "The string test interns decimal numbers only once each and never mixes growing with lookups.",
  ["string.c", "hash.c", "memory.c"], [("find or copy and insert", "maa/string.c:str_pool_find"), ("grow/finish", "maa/string.c:str_pool_grow, str_pool_finish"), ("unique names", "maa/string.c:str_unique")], ["returned pointers"])

p("C12", "An argument list is the NULL-terminated vector of what was added",
  "After any sequence of additions (whole string, by length, grown and finished), the list holds faithful NUL-terminated copies of the added strings in order: the count, each item and the exported vector agree, and the vector's entry after the last item is NULL, at every size. "
  "Asking for an item outside the list is refused with an internal error.",
  ["histories", "inputs"], "every sequence of additions, every list length, every item index",
  "The arg test builds short lists; the vector's growth points and terminator at every length are not checked.",
  ["arg.c", "memory.c"], [("vector growth", "maa/arg.c:arg_add, arg_addn, arg_finish"), ("access", "maa/arg.c:arg_get, arg_count, arg_get_vector")], ["arg_get_vector"])

p("C13", "Splitting a command string follows the quoting grammar",
  "For every string and quoting mode, splitting yields exactly the tokens of the grammar: white space (space, tab, carriage return, vertical tab, newline) separates tokens; single or double quotes group characters literally and are stripped; outside quotes a backslash makes the next character literal; adjacent quoted and unquoted parts form one token and empty quotes form an empty token. "
  "With quoting or escapes disabled those characters are ordinary; an unterminated quote or a trailing backslash ends the token at the end of the string; nothing outside the string is read.",
  ["inputs"], "all strings over all bytes, all four quoting modes",
  "The arg test feeds a fixed file of sample lines; combinations of quotes, escapes and separators are unbounded.",
  ["arg.c", "arggram.txt", "arggram2c"], [("state machine", "maa/arg.c:arg_argify"), ("character classes", "maa/arg.c:char2char_type"), ("transition table", "maa/arggram.txt")], ["arg_argify result"])

p("C14", "Base-64 and base-26 encodings decode to the value encoded",
  "For every value below 2^32, decoding the base-64 encoding returns the value, and for every value below 26^7 the same holds for base 26, in any order of calls; encodings are the shortest ones (no redundant leading zero digit), at least one digit, made only of the alphabet's characters (base 26: the lower-case letters). "
  "Decoding any string of at most six base-64 or seven base-26 digits yields its positional value (within 32 bits for base 64), and a character outside the alphabet is refused with an internal error.",
  ["inputs", "histories"], "all 2^32 respectively 26^7 values and all orders of calls; all digit strings",
  "The base test walks values below 65535 only; larger values and the cached result of the previous call for other orders are not reached.",
  ["base64.c", "base26.c"], [("encoders", "maa/base64.c:b64_encode; maa/base26.c:b26_encode"), ("decoders", "maa/base64.c:b64_decode_buf; maa/base26.c:b26_decode")], ["returned strings and values"])

p("C15", "Bit operations change and report exactly the named bit",
  "For every word and every bit position of an unsigned long, setting or clearing a bit changes that bit and no other, testing is non-zero exactly when the bit is set, and counting returns the number of bits set.",
  ["inputs"], "all 2^64 words and all 64 positions",
  "The bit test works through low positions of a few words; 2^64 words cannot be sampled.",
  ["bit.c"], [("bit_set, bit_clr, bit_tst, bit_cnt", "maa/bit.c")], ["return values and the word"])

p("C16", "Prime search: primality and the next prime are exact",
  "For every 32-bit value the primality test is 1 exactly for primes, and the next-prime search returns the smallest odd prime not below its argument (for arguments up to the largest 32-bit prime).",
  ["inputs"], "all 32-bit values",
  "The tests try three values.",
  ["prime.c"], [("trial division", "maa/prime.c:prm_is_prime"), ("search", "maa/prime.c:prm_next_prime")], ["return values"])

p("C17", "Hashing and comparing keys depend only on what the key means",
  "The string hash and comparison depend only on the characters up to the terminator: equal strings at different addresses hash alike and compare equal, different strings compare unequal; the pointer hash and comparison depend only on the pointer value, compare equal exactly for the same pointer and order pointers by address. "
  "The hash and comparison never read beyond the terminator, never modify the key, and a NULL string key is refused with an internal error.",
  ["inputs"], "all strings and pointers",
  "Tables in the tests use only a few keys of one shape; consistency of the pair for all keys is what every table relies on.",
  ["hash.c"], [("hsh_string_hash, hsh_pointer_hash, hsh_string_compare, hsh_pointer_compare", "maa/hash.c")], ["return values"])

p("C18", "The Soundex code is the documented one for every string",
  "For every byte string the result is a four-character code: the upper-cased first ASCII letter of the string (Z when there is none) followed by the digits of the following letters' Soundex groups, where letters of no group and letters with the same group as the letter before them add no digit, padded with zeros to four characters and NUL-terminated; other characters are ignored. "
  "At most five bytes of the result buffer are written and nothing beyond the terminator of the input is read.",
  ["inputs"], "all byte strings",
  "The basics test checks a handful of names.",
  ["text.c"], [("txt_soundex2, txt_soundex", "maa/text.c")], ["returned code"])

p("C19", "Debug and program flags: each name sets, clears and tests only its bit",
  "A registered single-bit flag in any of the four flag groups tests non-zero exactly when it was set last (by name, by +name, by value, or by all) and not cleared since (by -name, by value, or by none), independently of every other flag and group. "
  "Registering a value without exactly one low-order bit is refused with a fatal error, as is a debug flag reserved for the library or an unknown name, and a refused call changes no flag.",
  ["histories", "inputs"], "all flag values of all four groups, every sequence of operations",
  "The debug test uses a few flags of one group.",
  ["debug.c", "flags.c"], [("group selection and masking", "maa/debug.c, maa/flags.c: TEST, dbg_set, flg_set"), ("registration checks", "maa/debug.c:_dbg_register, dbg_register; maa/flags.c:flg_register")], ["dbg_test/flg_test"])

p("C20", "Using a NULL, destroyed or wrong kind of handle is refused",
  "Every public operation of hash tables, sets, lists, skip lists, string and object memory and argument lists that is given NULL or an object whose tag is not that of a live object of the right kind reports an internal error (never returns normally, never crashes first) and modifies nothing, except where the interface documents NULL as a harmless no-op. "
  "Destroying an object retags it before its memory is released.",
  ["inputs", "histories"], "every public operation of these modules, every wrong handle",
  "No test passes a bad handle to any function.",
  ["hash.c", "set.c", "list.c", "sl.c", "memory.c", "arg.c"], [("_hsh_check, _set_check, _lst_check, _sl_check_list, _mem_magic_strings, _mem_magic_objects, _arg_check", "maa/*.c")], ["err_internal"])

p("C21", "Running out of memory is always reported, never dereferenced",
  "Whenever an allocation fails, in any operation of the library, at any point of its work, the operation ends in the library's fatal out-of-memory report (exit status 1) and no invalid pointer is dereferenced or returned to the caller. "
  "The checking allocators return non-NULL blocks of the requested size (zeroed, resized with content kept, or holding a string copy, respectively), and releasing NULL is refused with a fatal error.",
  ["fault_sequences", "inputs"], "the failure of any single allocation (or of all from some point on) during any operation",
  "The tests never make an allocation fail.",
  ["xmalloc.c", "stack.c", "hash.c", "set.c", "list.c", "sl.c", "memory.c", "arg.c", "string.c", "source.c", "timer.c"], [("xmalloc, xcalloc, xrealloc, xstrdup, xfree", "maa/xmalloc.c")], ["err_fatal"])

p("C22", "Source tracking gives back the line and token positions recorded",
  "Every token recorded reports for ever the file, line number, offset and length in force when it was recorded, and the text of the line it was recorded on, with tabs shown as blanks; recording a token advances the offset by its length, storing a line increments the line number and resets the offset. "
  "This holds for any number of lines and after the manager was destroyed and used again; NULL tokens give empty defaults, and asking about tokens before the manager exists (nothing stored yet, or destroyed) is a fatal error.",
  ["histories", "inputs"], "every sequence of lines, tokens, file and line directives, including more lines than one allocation step",
  "No test exercises the source manager at all.",
  ["source.c"], [("line table", "maa/source.c:src_line"), ("tokens", "maa/source.c:src_get, src_filename, src_linenumber, src_offset, src_length, src_source_line")], ["src_* accessors"])

p("C23", "Errors are reported on stderr and end the program as documented",
  "A fatal error prints exactly the program name (if set, its last path component) and the routine, then the formatted message, on standard error and exits with status 1; an internal error prints the report and aborts; a warning prints and returns. "
  "All of them pass the message to the log as well, and standard output is flushed before.",
  ["inputs"], "all program names, routine names (including none) and messages",
  "The err test checks a few fixed combinations of its arguments.",
  ["error.c"], [("err_fatal, err_fatal_errno, err_internal, err_warning, err_set_program_name", "maa/error.c")], ["stderr, exit status"])

p("C24", "Filtering through a child process delivers every byte or an error",
  "Feeding a buffer to a child process and collecting its output writes every input byte once and in order, however the system splits reads and writes or interrupts them, and returns exactly the bytes the child produced; output that does not fit the given buffer is a fatal error, never silent truncation or overflow. "
  "Waiting for a child returns its exit status, 128 plus the signal number for a signal other than SIGPIPE, and 0 for a child already waited for; interrupted waits are retried.",
  ["schedules", "fault_sequences", "inputs"], "every split of reads and writes the kernel may choose, every buffer size, every wait status",
  "The pr test runs a few commands with generous buffers; partial writes, EINTR, EAGAIN and a full buffer cannot be provoked on demand.",
  ["pr.c"], [("transfer loop", "maa/pr.c:pr_readwrite"), ("status mapping", "maa/pr.c:pr_wait, pr_spawn")], ["return values, output buffer"])

p("C25", "Timers report elapsed time with microsecond resolution",
  "For any start and stop readings of the system clocks, a stopped timer reports the differences of wall, user and system time in seconds including their microseconds, each timer by its name independently of the others; resetting gives zero, and stopping, resetting or reading an unknown timer is an internal error.",
  ["inputs", "histories"], "all clock readings and all sequences of timer operations",
  "Clock readings cannot be controlled in the tests, and no test looks at the values.",
  ["timer.c"], [("DIFFTIME", "maa/timer.c:tim_stop"), ("lookup by name", "maa/timer.c:tim_start, tim_get_real, tim_get_user, tim_get_system")], ["tim_get_*"])

p("C26", "Log messages reach every open log completely and once",
  "A message (up to 4095 bytes, its whole line up to 8191) logged while a log file, a stream or the system log is open is written to each of them exactly once and completely, even when write() accepts only a part or is interrupted: the file and other streams get the preamble (time, host, program, process) and the message, the standard streams and the system log the message; nothing is written when nothing is open. Closing returns to not logging, and a log file whose dated name changes is reopened under the new name before the next entry.",
  ["histories", "inputs"], "all sequences of opening, closing and logging, all messages",
  "The log test checks one stream and one file.",
  ["log.c"], [("_log_base_va", "maa/log.c"), ("_log_write", "maa/log.c"), ("_log_check_filename", "maa/log.c"), ("log_file, log_stream, log_syslog, log_close", "maa/log.c")], ["log file content"])

p("C27", "Children are started with exactly the requested plumbing",
  "A child started with created, inherited or redirected standard descriptors (the null device when none is given, standard error joined to standard output when asked for) gets exactly those, the parent keeps only its own ends and gives up the descriptors it gave away, and no descriptor of an earlier child leaks into a later one; contradicting flags are an internal error. (Parents with descriptors 0 to 2 open; descriptors given away are different from each other and above 2.)",
  ["configurations", "schedules"], "all flag combinations, all states of the descriptor table",
  "The pr test uses two combinations.",
  ["pr.c"], [("pr_open2", "maa/pr.c")], ["descriptors in parent and child"])

p("C28", "Shutting the library down releases what it holds and leaves it as new",
  "maa_shutdown releases everything the library keeps itself - the global strings, the nodes of lists and skip lists, the timers, the names and settings of flags and debugging flags, the registered symbol expansions - so that afterwards, and after another maa_init, nothing of before is known and nothing released is used. "
  "Every child started by pr_open that still runs and has a descriptor that was not closed yet is killed and waited for, and no process is ever signalled that is not such a child: one that was already waited for is left alone. "
  "maa_init starts the timer total, sets the program name and registers the library's debugging flags; with the debugging flags for memory or time set, the version and the statistics asked for are printed to standard error before they are released, and nothing is printed otherwise. "
  "Until the shutdown a registered symbol has the expansion registered first, copies being kept of both, and any other has none.",
  ["histories", "schedules"], "every use of the library between maa_init and maa_shutdown, every state of the children, any number of such sessions in one process",
  "No test uses the library after a shutdown, none shuts down with children running or already waited for, and leaks or use of released strings show in no result.",
  ["maa.c", "pr.c", "parse-concrete.c", "sl.c", "list.c", "string.c", "timer.c", "debug.c", "flags.c"], [("maa_init, maa_shutdown", "maa/maa.c"), ("_pr_shutdown", "maa/pr.c"), ("prs_register_concrete, prs_concrete, _prs_shutdown", "maa/parse-concrete.c"),
   ("str_destroy, _lst_shutdown, _sl_shutdown, _tim_shutdown, flg_destroy, dbg_destroy", "maa/string.c, list.c, sl.c, timer.c, flags.c, debug.c")], ["str_exists, prs_concrete, tim_get_real, dbg_test after a shutdown", "signals sent, children left"])

p("C29", "Source messages quote the place, the message and the marked line exactly",
  "Printing a line, a message, an error or a parser's error for a token writes to the given stream (standard output for NULL), and nowhere else, exactly: the place as file:line:, the message as formatted, the stored line, and below it the place again with blanks up to the token's offset and one ^ for each of its characters; for a NULL token the place is ?:?: and the line a note that none is available. "
  "A parser's message is printed as it is except that ``c'' becomes `c' and a symbol `T_name' is replaced by its registered expansion (by itself when there is none); any message, however malformed or long, is handled without reading or writing outside its memory, symbols counting with at most 1023 characters.",
  ["inputs"], "all tokens, lines, offsets and lengths, all messages, every set of registered expansions",
  "The source test prints one or two messages with well formed symbols; unterminated symbols, backquotes at the end, long symbols, empty tokens and NULL streams are not among them.",
  ["source.c"], [("src_print_line, src_print_message", "maa/source.c"), ("src_print_error, src_parse_error", "maa/source.c: _src_print_error, _src_print_yyerror")], ["text on the stream"])

p("C30", "Listings and statistics tell exactly what is stored",
  "flg_list and dbg_list write one line for every registered flag or debugging flag (the library's own marked as builtin) and no other, tim_print_timers one line for every timer with its real, user and system time, in any order; with nothing registered they write nothing. "
  "flg_name gives the name registered for a flag and the text unknown flag for any other; none of these leaves a table write protected. "
  "The statistics of hash tables, sets, string and object memory, string pools (the global one included, all zero when there is none) and of the source manager are the numbers of what is stored, and printing them writes exactly the documented text with these numbers to the stream given (standard output for NULL), changes nothing and leaves nothing allocated.",
  ["inputs", "histories"], "all tables, names, flags, pools, stores and sources; every stream",
  "Tests print statistics without looking at them; listings with no name, many names, two kinds of flags, and tables used after a listing are not tested.",
  ["flags.c", "debug.c", "timer.c", "string.c", "source.c", "hash.c", "set.c", "memory.c"], [("flg_list, flg_name", "maa/flags.c"), ("dbg_list", "maa/debug.c"), ("tim_print_timers", "maa/timer.c"), ("str_pool_get_stats, str_pool_print_stats", "maa/string.c"),
   ("src_get_stats, src_print_stats", "maa/source.c"), ("hsh_print_stats, set_print_stats, mem_print_string_stats, mem_print_object_stats", "maa/hash.c, set.c, memory.c")], ["text on the stream", "the record returned"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
