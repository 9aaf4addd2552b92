"""Per property: which bounded cross-check programs run, level, notes, assumptions."""

TRUSTED = ["vcg (this repository's verification-condition generator, /verif/vcg)", "clang 18 (parsing and typing of the real sources)",
           "z3 5.3.2 (deciding back end)", "cvc5 1.1.2 and z3 4.8.12 (second opinion on obligations z3 leaves open)"]
ASSUME = [
    "memory is typed: blocks of different types do not overlap, and a block keeps its type until it is freed",
    "a block returned by the allocator is disjoint from every live block",
    "counters do not overflow 64 bits and container sizes stay below 2^31 (resources)",
    "termination of loops is not proved (partial correctness); the bounded cross-check runs under a time limit",
    "single thread; callbacks do not modify the container except where the property says they may",
]


def P(*src, level="proof", secs=8, **k):
    hs = []
    for s in src:
        h = dict(src=s) if isinstance(s, str) else dict(s)
        hs.append(h)
    return dict(harness=hs, level=level, secs=secs, **k)


PROPS = {
    "C01": P("h_map.c"),
    "C02": P("h_map.c", "h_str.c"),
    "C03": P("h_map.c"),
    "C04": P("h_map.c"),
    "C05": P("h_map.c"),
    "C06": P("h_list.c"),
    "C07": P("h_list.c"),
    "C08": P(dict(src="h_sl.c", wrap=["random"])),
    "C09": P("h_mem.c"),
    "C10": P("h_mem.c"),
    "C11": P("h_str.c"),
    "C12": P("h_arg.c"),
    "C13": P("h_arg.c"),
    "C14": P("h_enc.c"),
    "C15": P("h_enc.c"),
    "C16": P("h_enc.c"),
    "C17": P("h_map.c"),
    "C18": P("h_enc.c"),
    "C19": P("h_flags.c"),
    "C20": P("h_handle.c"),
    "C21": P("h_oom.c"),
    "C22": P("h_src.c"),
    "C23": P(dict(src="h_err.c", nowrap=True)),
    "C24": P(dict(src="h_pr.c", wrap=["read", "write", "select", "waitpid"])),
    "C25": P(dict(src="h_tim.c", wrap=["gettimeofday", "getrusage", "clock_gettime"])),
}

PROPS["C26"] = P(dict(src="h_log.c", wrap=["time", "write", "gethostname", "openlog", "closelog", "vsyslog"]))
PROPS["C27"] = P(dict(src="h_plumb.c", wrap=["execvp"]))
PROPS["C28"] = P(dict(src="h_shut.c", wrap=["fork", "kill", "waitpid", "execvp", "pipe", "gettimeofday"]))
PROPS["C29"] = P("h_msg.c")
PROPS["C30"] = P(dict(src="h_stat.c", wrap=["getrusage"]))

NA = {}

GEN = ("All obligations generated from the current sources of the functions listed in the evidence are discharged by an SMT solver, for all inputs, "
       "states and iterations. ")


def claim(pid, note):
    PROPS[pid]["claim"] = True
    PROPS[pid]["note"] = note


claim("C07", GEN + "Every stack function preserves the representation (a chain of live nodes standing for the pushed sequence) and has the property's "
      "sequence postcondition; nothing outside the stack's own blocks is written, so stacks are independent. Assumed: allocator, typed memory; termination not proved.")
claim("C14", GEN + "The encoders and decoders are executed symbolically on all values below the bound; round trip, shortest form, alphabet and refusal of foreign "
      "characters are postconditions. Assumed: the C library character functions behave as in the C locale.")
claim("C15", GEN + "Bit-vector obligations over all words and all bit positions, no assumption beyond the compiler front end.")
claim("C16", GEN + "Trial division is proved to decide primality through loop invariants over the integers with the machine-integer ranges checked; "
      "the next-prime search is proved minimal. Termination not proved.")
claim("C18", GEN + "The loop over the input carries an invariant tying the code written so far to the documented Soundex prefix function. "
      "Assumed: isalpha, isascii, toupper as in the C locale.")
claim("C09", GEN + "String memory: every copy, growing step and finish yields a terminated faithful copy in its own block, all earlier blocks stay registered and "
      "unchanged, counters exact, destruction releases every block once. Assumed: contracts of the stack functions (proved under C07) and the checking allocators (proved under C21); strlen, memcpy.")
claim("C10", GEN + "Object store: representation invariant (distinct live blocks, free list a sub-multiset of them), so an object handed out is fresh or was freed back; zeroing, "
      "statistics and destruction are postconditions. Assumed: stack and allocator contracts (proved under C07, C21); memset.")
claim("C21", GEN + "The checking allocators are proved never to return NULL (they end in the fatal report, before anything is modified), and every function of every library source is shown to "
      "allocate only through them, so no caller can see a failed allocation. The exit status of the fatal report is part of C23; failing each single allocation is cross-checked.")
CB = "Assumed: the hash and compare functions given by the user are an equivalence with a hash constant on its classes, and are pure; callbacks do what the property allows them to. "
META = "Two meta-lemmas are used without machine proof: the chain lengths sum to the number of classes present, so `entries` is that number. "
claim("C01", GEN + "Ghost map (class -> key, datum) and the chained-table invariant; insert, retrieve, delete, growth, destroy and the statistics are postconditions on that map. " + CB + META +
      "Growth and chain manipulation are proved in the code itself; prm_next_prime enters by its contract (proved under C16).")
claim("C02", GEN + "Each walk (callback iteration, positions) is proved to present exactly the present classes, each once, with its own key and datum, to stop at the first non-zero answer and return it, "
      "with the deletions the property allows for hash tables. String pools: the walk over the hash table's positions is proved to present every pooled string once. "
      "The walking macros of maa.h are exercised by the bounded cross-check (HSH_ITERATE and HSH_ITERATE_KEYS are also proved where the library uses them). " + CB)
claim("C03", GEN + "While the table is write-protected insert, delete and nested write protection end in the internal report with nothing modified; "
      "lookups leave the chains as they are (no reordering), and clearing restores the state. " + CB)
claim("C04", GEN + "Ghost set of classes and the chained-table invariant; create, insert, delete, member, count and statistics are postconditions on it. " + CB + META)
claim("C05", GEN + "The algebra is proved for all operands: result = mathematical union, intersection, difference; equality; in-place forms; operands unchanged but for lookup statistics; refusal of different functions. " +
      CB + META)
claim("C17", GEN + "Hash functions: result depends on the characters (the pointer value) only, comparison functions give zero exactly on equal strings (pointers), "
      "tables create with the documented default functions and use them consistently with equality. The string-hash contract pins the hash to the formula in the code on the unchanged tree.")
claim("C06", GEN + "Every list operation preserves the representation (head, tail and count describe one chain of live nodes standing for the sequence) and has the property's sequence "
      "postcondition; callback iteration presents the elements in order and stops at the first non-zero result; nothing outside the list's own blocks is written. "
      "Assumed: contracts of the object store (proved under C10), callbacks do not modify the list; termination not proved.")
claim("C20", GEN + "For every public operation and every block whose tag is not the right one (and NULL): no path returns, every path ends in the internal report, only the tag is read, nothing is modified; "
      "the documented NULL no-ops return unchanged; tags of all kinds, live and destroyed, are pairwise different; the destroy functions retag before releasing. Assumed: the block is at least as large as a tag.")
claim("C12", GEN + "Representation: a vector of argc terminated strings followed by NULL in a live block larger than argc entries. Every addition (whole, by length, grown and finished) appends a faithful copy "
      "and keeps the others; count, item access, the exported vector and the refusal outside the list are postconditions. Assumed: contracts of the string memory (proved under C09) and of xmalloc/xrealloc (proved under C21).")
claim("C13", GEN + "The grammar is written as a reference lexer (recursive definition over the position in the string, state, token count, token characters); the loop over the string carries an "
      "invariant tying the code's state, pending piece and list to it, with the state coding found by the tool, for every string and quoting mode; every read is shown to stay inside the string and its terminator. "
      "Assumed: contracts of the list additions (proved under C12); termination not proved.")
claim("C19", GEN + "Bit-vector obligations over all 64-bit flag values below 2^32, all states of the four words and all registered names; by-name operations use the map contract of the hash table (proved under C01, C17). "
      "Assumed: names stay unmodified while registered; registering a flag twice is outside the property.")
claim("C25", GEN + "For every reading of the clocks: start records the readings made, stop stores the differences, reset zero, reading returns them, each for its own name, and all other timers stay as they were. "
      "Assumed: double arithmetic is treated as real arithmetic; the map contract of the hash table (proved under C01, C17); clock readings below 2^40 s.")
claim("C11", GEN + "Ghost map from contents to the one stored copy: every find, finish and unique returns the stored copy of exactly the content asked for, adds exactly that content and leaves all earlier copies at "
      "their place and unchanged; existence, copies, growing, the global pool's first use and destruction are postconditions. Content is characterised by length and characters. Assumed: contracts of the string memory "
      "(C09) and of the hash table with default functions (C01, C17); strncpy, sprintf; names passed in are not modified while the call runs; the serial number of unique strings does not overflow.")

claim("C08", GEN + "Ghost witnesses (set of entries, level, position) with the invariant that the forward pointer of an entry on every level it reaches leads to the next entry of that level; insert and delete "
      "re-establish it for every random level (random is an arbitrary number), find and iteration are postconditions on the sequence; iteration is also proved for callbacks that change the list. "
      "Assumed: the comparison function is a strict weak order given as a rank on keys and, with the key function, pure; contract of the object store (C10), alloca, random; termination not proved.")
claim("C22", GEN + "Ghost table of stored lines and the record in force: every operation is specified on it, lines and tokens are blocks of their own that later operations leave alone, the table grows without losing lines, "
      "destruction empties everything. Assumed: contracts of string memory (C09), object store (C10), string pool (C11), argument lists (C12, C13); atoi, strncpy; tokens asked about belong to the current manager.")

claim("C23", GEN + "Standard error and the log are ghost texts that the output calls append to; for every report function, program name (or none), routine (or none), message and errno the text written is proved equal to "
      "the documented one, standard output is flushed first, errno is taken before any output, the argument list is not used twice, and the end is exit with status 1, abort, or return. "
      "Assumed: stdio writes what it is given and prints (null) for a NULL %s; caller's formatted message is one uninterpreted text; strerror, strrchr; the log's own behaviour is C26.")

claim("C24", GEN + "The kernel is a model that may answer every call with anything the manual permits (any partial transfer, EINTR, EAGAIN, any failure, any wait status). The transfer loop carries the invariant that what was "
      "written is the beginning of the input and what was read is the beginning of the buffer; the result, the closing of the child's input, the overflow report and the status mapping are postconditions. "
      "Assumed: the contracts of read, write, select, fcntl, waitpid, fork, execvp and of the argument lists (C12, C13); descriptors below FD_SETSIZE; liveness (the child makes progress) is not proved.")
claim("C27", GEN + "Ghost descriptor table of parent and child; every combination of flags, of given descriptors and of the table of descriptors handed out is one symbolic execution of pr_open2: at the moment the program "
      "starts, descriptors 0, 1, 2 are proved to be the requested ends, every descriptor handed out for another child is closed, all others are the parent's; the parent's table afterwards likewise. "
      "Assumed: descriptors 0, 1, 2 are open in the parent; given descriptors are open, different and above 2; pipe, dup2, open, close, fork, execvp as documented; the callback leaves descriptors alone.")

claim("C26", GEN + "Texts, files, streams and the system log are ghosts: whatever is open, every message is proved to reach each of them once and whole - the file through write calls that accept any part or are "
      "interrupted - with the configured preamble, and nothing else; opening, closing, the change of a dated name and the making of directories are proved on the invariant that ties the library's state to what is open. "
      "Assumed: stdio, strftime, localtime, ctime, gethostname, vsyslog; one clock reading per call; messages up to 4095, lines up to 8191 bytes; dated names not empty and within the library's estimate; interned strings (C11).")

claim("C28", GEN + "maa_shutdown and maa_init are checked against the contracts of the parts they call (each part's shut-down function is under contract in its own file and tagged with this property): every part is released "
      "exactly once the statistics asked for are printed, the total timer is stopped before timers are printed, flags are asked before they are forgotten. Shutting processes down is proved on a ghost of the children nobody waited for: "
      "only such children are signalled, all have ended and were waited for, the table is released. Assumed: maa_init was called; contracts of the hash table (C01, C17), string pool (C11), object store (C10), stdio; kill(SIGKILL) ends a child; waitpid as documented; "
      "that each part holds nothing but what its shut-down function releases is the invariant of the part's own property.")

claim("C29", GEN + "What a call writes is a ghost document built character by character; place, message, quoted line and the marks below the token are proved to be exactly the documented text on exactly the stream asked for, for every token (or none) and every message. "
      "The clean-up of parser messages is a reference function on positions; the loop carries the invariant that everything up to a boundary was printed, and symbols are looked up by their exact contents (at most 1023 characters). "
      "Assumed: stdio writes what it is given; a caller's format with its arguments is one uninterpreted text; the token belongs to the current manager (C22); contract of prs_concrete (C28); lengths and offsets are not the least int.")

claim("C30", GEN + "What is written is a ghost document; the numbers of a record of statistics are those of the part asked (whose own contract is proved under C01, C04, C09, C10), the printed text is exactly the documented one with these numbers, on exactly the stream asked for, "
      "and nothing is left behind or changed. Listings run the callback on one arbitrary registered name: its line is proved to be written exactly once, nothing for a name that is not registered, nothing beside. The loop of flg_name carries the invariant that no entry before the position is of the flag. "
      "Assumed: stdio writes what it is given; hsh_iterate presents every entry exactly once (C02); counters fit an int.")
