# id: (how it is decided: workload and oracle; why that reaches what tests cannot)
HOW = {
"D01": ("Random histories of New/Open/Write/Commit/Cancel/Close/Delete/restart run against the real application in a scratch folder and against a model that keeps the bytes of each write. After every step, and in new sessions with other read chunk sizes, every content is read by hash, by pointer and in batches and compared with the model; the caller's buffer is scribbled over after Write. Some histories have contents around and above 65536 bytes, others hundreds of contents and commits, with references read in tens of thousands of chunks, one more than 30000 contents in a commit.",
        "Loss on copying forward depends on the relation of chunk size, content size and the number of earlier commits, which the histories vary together."),
"D02": ("Same histories. The model counts which write belongs to which commit; after each step the keys (hash, kind, commit, order) and commits listed must be exactly those, so a write that lands twice, in another commit, or never is seen; one history has more than 30000 contents in a commit, another more than 1000 commits.",
        "Exactly-once needs several commits per context and re-used hashes."),
"D03": ("Same histories. On every commit: parent is the commit before, dates lie between call and return and never go back, the values root equals a Merkle root computed independently, the hash is rebuilt from the parts, CommitByHash agrees; lists returned earlier are appended to and must not change the history; one history has more than 1000 commits.",
        "Chains longer than two commits, and callers that hold earlier lists."),
"D04": ("Same histories with the weights on cancel and close. After each non-committing call the fingerprints of all files are unchanged, and pending hashes are unreadable unless an earlier commit has them. One history cancels more than 65536 pending contents.",
        "Absence must hold after every step, not at one sampled moment."),
"D05": ("Same histories over 3 to 5 databases open at once; identifiers must be free ones, unknown or closed ones must be refused by every call and change nothing; one history holds thousands of contexts open.",
        "Identifier re-use depends on the order of opens and closes."),
"D06": ("A separate process commits under strace and receives SIGKILL on entering each file system call it makes, one run per call; the database is then opened by a new process and must be, completely, the state before or after, and accept a new commit.",
        "Every crash point of the commit is tried, for random database shapes."),
"D07": ("Each file system call of opening and committing is made to fail in turn (EIO, ENOSPC, EACCES, EDQUOT, EMFILE; once or from then on), and RLIMIT_FSIZE cuts writes at random offsets. The outcome reported, the state on disk and a retry are compared with the model.",
        "Error paths that no test provokes."),
"D08": ("Sequential interleavings of several application instances against a model of who has an outdated view; and real parallel processes and goroutines, some with delays injected in their system calls and some on a database replaced by another of the same size, whose logs are checked offline: the final database holds exactly the successful commits, in a chain consistent with real time.",
        "Needs two writers at particular points of each other's commits."),
"D09": ("Same histories with the weights on create/exists/delete/open, names that differ in case, spaces, dots, extensions and Unicode form, folders next to databases, missing folders of any depth, databases deleted while open, files whose permissions change; the folder is fingerprinted around each call.",
        "Interference between names."),
"D10": ("Same histories with few kinds; all kinds ever used and unused ones are listed after each step, order and completeness compared, pointers must tile the content without gap or overlap; one history has more than 30000 contents in a commit.",
        "Completeness over several commits and interleaved kinds."),
"D11": ("Generated databases are damaged (header values, mutated references with a fitting header, truncation, extension, bit flips, hostile lengths) and used: every call is watched for panics and for allocations beyond a bound proportional to the file, bytes returned by reads must be bytes of the file, and a commit that is refused leaves the file alone; a sparse file of 6 GB is read beyond 2^32.",
        "Hostile files are unbounded in variety."),
"D12": ("The descriptors of the process under the databases' folder are listed (/proc/self/fd) after every operation of histories that include failing ones (damaged file, lock held, folder or full device in the way of a commit, another session's commit) and compared with the contexts open; every hundredth case runs a commit under strace with each of its calls failing in turn and reports its descriptors at the end, after a retry and after closing.",
        "A leak shows only in what remains after a failure."),
"D13": ("Four goroutines read everything from the contexts of one application, freshly opened or just committed, under the race detector, each comparing all it reads with the model, while other sessions commit to the same database; each context must still show what it was opened on.",
        "Schedules."),
"D14": ("Databases of 64 and 96 MB are opened, committed to and read with chunk sizes of 512 bytes to 1 MB; the heap in use is sampled every 0.3 ms and its peak compared with a bound (24 MB and 16 chunks), retried twice.",
        "Tests use databases of some bytes."),
"D15": ("Application instances in goroutines and processes (some with delays injected in their system calls) call New, Delete, Exists and Open on one or two names at full speed; the log of each name is searched for a linearization (memoised Wing-Gong search) that explains every result and the final folder. Other cases race creations only, and the winner commits at once, watched by a reader: one winner, nothing of it lost. Case 0 deletes a database while another session's commit is held before its rename: a known finding.",
        "The windows between looking and creating last microseconds."),
"D16": ("After every operation of random histories (commits failing on held locks, folders in the way, full disks, other sessions), the databases' folder is listed and every database is locked and unlocked by another handle. Nothing but databases may lie there, except working files of databases whose last commit failed. Two cases in a hundred kill or fault a commit at each of its system calls, commit once more and list the folder.",
        "What an operation leaves behind depends on where it stopped."),
"S01": ("Random values, another one, and one that differs in a single component are encoded, decoded, compared through all public accessors, re-encoded (same bytes) and must not share bytes with different values; the decoder's input is overwritten afterwards. Some values have hundreds to more than 65536 elements and proofs longer than 65535 bytes.",
        "Extreme numbers, dates, proofs, repetitions."),
"S02": ("As S01, for content records and their lists, contents up to 300 kB.", "As S01."),
"S03": ("Valid encodings of 13 kinds are mutated (length fields above all), truncated at every byte, spliced, replaced by encodings of other kinds; decoders must return an error or a value that encodes and decodes stably, without panic, without unbounded allocation, without changing their input.",
        "Hostile bytes."),
"S04": ("A random commit against equal ones (other time zone, mining value, tree instance) and single component changes; result and score recomputed by an independent implementation, also for mining values that repeat at the head of the result, and for a mined proof whose result begins with four equal bytes.",
        "Binding is a claim on all pairs."),
"M01": ("Random blocks (1 to 1100 and more than 65535; empty, duplicate, hash-sized, around powers of two) against an independent Merkle tree: root, every inner node, leaves, height; six alterations must change the root exactly when the sequence differs beyond padding; the caller's array must stay untouched.",
        "Sizes and positions."),
"M02": ("Trees, leaves, lists, parents and compact forms are round-tripped and compared with independently computed leaves; the compact form rebuilds the tree, uneven trees built by hand included. Some trees have 131072 leaves.", "As M01."),
"M03": ("Permutations of the blocks of a tree are put back in order; altered, missing, surplus or foreign blocks are refused, duplicates, empty blocks and blocks that are hashes differing in one byte included.", "Permutations and duplicates."),
"S05": ("Four goroutines share adapters, builders and values before their first use, encode, decode, build, look up, under the race detector; results are compared with those other instances gave alone.", "Schedules, lazily initialised state."),
"F01": ("260 encodings of 13 kinds and 10 databases recorded from the first version are decoded, compared with their recorded description, encoded again to the same bytes, opened and committed to.", "A change on both sides of a codec passes every round trip."),
"H01": ("Random byte strings against crypto/sha512, whole and in parts; text forms, comparison with equal, different, shorter, longer and empty hashes, and malformed texts.", "All inputs."),
"A01": ("Random grammars (names used twice, repetition bounds, recursion, several lines) and inputs derived from them, mutated, random or empty, run in the parser and in a reference matcher written from the property; trees compared node by node. Some inputs nest thousands of bytes apart, or hold more than 65536 occurrences of an element.", "The space of grammars and inputs."),
"A02": ("Every node of every accepted tree is spelled out (channels, values, suffixes, remaining) and must be the input, byte for byte; the bytes are then overwritten by the caller and asked again.", "Holds at every node of every tree."),
"A03": ("Grammars with left, mutual, undefined recursion, empty matches, unsatisfiable bounds; each parse has a watchdog, runs in a process of its own share, and must give a tree or an error. Deep nesting (hundreds of thousands of levels) is included.", "Termination and crash freedom on all grammars."),
"A04": ("1 to 3 channels with conditions, channel data in all places of the inputs, comments, runs of a hundred to a thousand pieces of it; compared with the reference matcher, which skips channels from the property's text.", "Interaction of channels with each other and with lines."),
"A05": ("Everythings with exceptions of several lines, nested, with and without escapes; an independent unescaping oracle for quoted strings.", "Interaction of escape and exception at all positions."),
"A06": ("External grammars, nested and repeated; the reference matches them on their own with their own channels; name, block and suites of their trees are compared with the root of their grammar.", "Offsets and remains between two grammars."),
"A07": ("Tokens of composes with up to 300 occurrences (some of more than 65536) are composed, parsed back, cut and corrupted.", "Round trips."),
"A08": ("Every suite execution of random grammars with right and wrong suites is compared with the reference's verdict; some externals are named like other externals or like tokens, and some suites like others or the same as others.", "All combinations of verdict and expectation."),
"A09": ("Coverage recomputed from reference trees of all suites; covered and uncovered must partition the elements, at the right indexes.", "Partition over whole grammars."),
"A10": ("6 goroutines parse 18 inputs with one grammar and application under the race detector, with results compared to those obtained alone; trees are read by several goroutines as well.", "Schedules."),
"A11": ("Every name of every accepted tree, at indexes 0 to 3, against a reference search.", "Order and index over all trees."),
"A12": ("Grammars built by the builders are read back through the accessors and compared with the model; every subset of parts of every builder.", "All combinations of parts."),
"A13": ("Trees built by hand, four levels deep, with amounts around each bound (occurrences and cardinalities of hundreds among them); success compared with a model of cardinalities.", "Bounds at every level at once."),
"A14": ("The reference matcher keeps, with each node, the token, line and container it matched; every node of every accepted tree is compared with it, by identity and, where the instance is another one, by all that it says.", "All nodes, also inside channels and externals."),
"I01": ("Random scripts are compiled and executed, outputs compared with a reference interpreter; some scripts have hundreds of names, inputs and attachments at places up to 2^64-1.", "Space of programs."),
"I02": ("Modules record each call with its parameters; the trace must be the reference's.", "Order and exactly-once."),
"I03": ("Valid scripts, ones with one thing changed, and arbitrary uses of names; acceptance compared with the reference's rules.", "Near-valid programs."),
"I04": ("Modules fail at random calls, inputs are missing; the program must stop with an error at that very call.", "Failure at each position."),
"I05": ("Six programs are compiled and executed by six goroutines under the race detector.", "Schedules."),
"I06": ("The compiled program is written out and compared with a reference compilation.", "Space of programs."),
"Q01": ("Random queries of up to six levels on trees of random grammars (some with lines of dozens of containers and elements of up to two thousand contents), compared with a reference evaluation.", "Space of queries and trees."),
"Q02": ("Functions record each call; the trace must be the reference's.", "Order and exactly-once."),
"Q03": ("Failing functions, wrong names, indexes, recursive names; error or value as the reference says, no panic.", "Failure at each position."),
"Q04": ("Six goroutines execute shared queries under the race detector; trees are compared before and after.", "Schedules."),
"Q05": ("Queries read back through the accessors; every subset of parts of every builder.", "All combinations of parts."),
"G01": ("Phrases of every part of the notation are derived, and mutated, and judged by a recogniser of the notation written on its own; the tree must carry the phrase's parts. Some phrases repeat a part (lines, elements, cases, compositions) hundreds of times.", "Space of phrases."),
"G02": ("Each phrase in four layouts, from none to heavy, with comments, must give the same meaning.", "Layout is orthogonal to everything else."),
"G03": ("All 256 bytes alone and in context, and random words of up to 5000 letters, against independent predicates.", "Exhaustive on bytes."),
"G04": ("Parts built from random texts and bytes are read back, parsed and composed against the model, texts and suites of more than 255 included.", "Texts that are not ASCII, long lists."),
"G05": ("All built-in examples, built anew each time (so with other map orders).", "Order of construction."),
"G06": ("Six goroutines build and use the built-in grammars under the race detector.", "Schedules."),
"B01": ("Every builder of the languages, called through reflection with every subset of its parts and in random orders on several handles; what Now gives must carry exactly the parts given last, or be refused; values built before must not change.", "Histories of builder calls."),
"B02": ("As B01 for the builders of databases.", "As B01."),
"R01": ("Lookups of random collections of up to 6000 keys and 1000 commits or modules compared with linear searches of the lists; absent hashes and names include ones that differ from a present one in a single place; leaves are merged with some of their own, and with themselves.", "Duplicates and order."),
}
