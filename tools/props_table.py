DBF = "libs/databases/infrastructure/files/application.go"
REF = "libs/databases/domain/references/"
CON = "libs/databases/domain/contents/"
HT = "libs/cryptography/domain/hashtrees/"
AST = "libs/asts/applications/application.go"
ITP = "libs/interpreters/applications/application.go"
QRY = "libs/queries/applications/application.go"

# ------------------------------------------------------------------ databases
p("D01", "Committed content is read back byte for byte, forever",
  "Once a commit on a database succeeds, every content written in it can be read by its hash and by its pointer, alone or in a batch, and is exactly the bytes handed to Write at the time of that call, whatever is written, committed, cancelled, closed or reopened afterwards and in every later session. This holds for every content size, kind, number of contents per commit and number of commits, and does not depend on the configured read chunk size; when a hash was committed several times, reading by hash gives the bytes of its latest commit.",
  ["histories", "inputs", "configurations"],
  "All sequences of database operations over several databases and sessions, all content sizes relative to the chunk size, all chunk sizes of at least one byte.",
  "The only write test does one history with three short contents, two commits and a single chunk size larger than the file, so the copy loop never runs more than one iteration.",
  [DBF, REF + "contentkeys.go", REF + "pointer.go"],
  [("copies the existing data behind the new reference, chunk by chunk", DBF + ":writeDataAndReferenceOnDestinationFile"),
   ("offset bookkeeping for new pointers", DBF + ":updateReference"), ("pointer-relative read", DBF + ":Read")],
  [("dataOffset", "where content starts in the file", DBF), ("contentList", "pending writes of a context", DBF)],
  ["Application.Read", "Application.ReadByHash", "Application.ReadAll", "Application.ReadAllByHashes"])

p("D02", "Every commit appends exactly the writes made since the previous one",
  "A successful commit adds exactly one commit and one content key per write made in that context since its last commit or cancel, in write order, each carrying its hash, kind, length and the new commit's hash, and leaves every earlier commit and key unchanged and in order. A commit with nothing written is refused with an error and changes nothing.",
  ["histories", "inputs"],
  "All sequences of writes, commits and cancels in one or several sessions.",
  "The test commits at most once per context, so duplicated or lost bookkeeping between two commits of one context is never seen.",
  [DBF, REF + "contentkeys.go", REF + "commits.go"],
  [("reference update", DBF + ":updateReference"), ("commit and clear", DBF + ":Commit")],
  [("contentList", "pending writes of a context", DBF), ("reference", "committed keys and commits", DBF)],
  ["Application.ContentKeysByKind", "Application.Commits", "the stored reference after reopening"])

p("D03", "Commit history is a verifiable chain over the committed hashes",
  "Each commit of a database names the hash of the commit just before it as its parent (the first has none), is dated no earlier than it and no later than the moment of committing, and its values tree is the Merkle tree over the hashes written in that commit, in order; its own hash is recomputable from its values, date, parent and proof. The same commits, with the same hashes, come back after closing and reopening, and each can be found by its hash while unknown hashes are errors. The commits returned earlier stay as they were, and what a caller does with their list does not change the history.",
  ["histories"],
  "All commit histories, across sessions.",
  "Tests never check parents, dates, value trees or hash recomputation on commits produced by the database.",
  [DBF, REF + "commit_builder.go", REF + "commits.go", REF + "commit_adapter.go"],
  [("parent linking", DBF + ":updateReference"), ("commit hash", REF + "commit_builder.go:Now"), ("latest/fetch", REF + "commits.go")],
  [("commits", "ordered list of commits", REF + "commits.go")],
  ["Application.Commits", "Application.CommitByHash"])

p("D04", "Pending writes stay invisible until committed, and cancelled ones never land",
  "Content that was written but not committed cannot be read, listed or found in any session and does not alter the database file; closing the context or cancelling discards it for good, while writes made after a cancel commit normally. Failed operations leave pending and committed content as they were.",
  ["histories"],
  "All interleavings of write, cancel, commit, close, reopen and invalid calls.",
  "No test cancels, closes with pending data, or fails an operation halfway.",
  [DBF], [("pending list per context", DBF + ":Write"), ("cancel", DBF + ":Cancel")],
  [("contentList", "pending writes of a context", DBF)],
  ["Application.ReadByHash", "Application.ContentKeysByKind", "database file bytes"])

p("D05", "Open contexts are distinct and never affect each other",
  "Every open context has an identifier no other open context has, whatever was opened and closed before; reads, writes, cancels and commits through it act on its own database only. Opening a database that is already open in the application is refused, and any operation on a closed or unknown context is an error that changes nothing.",
  ["histories"],
  "All sequences of opens and closes over several databases.",
  "Tests open one database at a time, in one order.",
  [DBF], [("identifier allocation and context map", DBF + ":Open"), ("release", DBF + ":Close")],
  [("contexts", "open contexts by identifier", DBF)],
  ["identifiers returned by Application.Open", "results of operations on each context"])

p("D06", "A crash during a commit leaves the old state or the new one, complete",
  "If the process dies at any point of a commit, the database is afterwards there under its name and opens, and it holds either exactly the state before the commit or exactly the state after it; it stays usable for further commits. Once Commit has returned success, the state after it is the one found.",
  ["crash_points", "histories"],
  "A kill before or after every system call the commit performs, for databases of various sizes.",
  "Tests never kill the process.",
  [DBF], [("destination file, backup and rename", DBF + ":updateDatabaseOnFile")],
  [("the database file and its destination/backup siblings", "on-disk state", DBF)],
  ["a fresh process opening the database after the kill"])

p("D07", "A failing disk makes Commit fail, never corrupts or silently loses data",
  "When any file operation during the opening of a database or a commit fails (no space, I/O error, file too large, permission), then either the call reports an error and the database holds exactly what it held before, readable after reopening, or the call works in full: Open shows all committed content, and after a successful Commit everything written is readable too. A failed commit never leaves a partially applied state under the database's name, and committing again once the fault is gone works.",
  ["fault_sequences", "histories"],
  "An error injected at each file system call made by opening and committing, and write size limits at every offset.",
  "Tests inject no faults.",
  [DBF], [("error propagation in the write loop", DBF + ":writeDataAndReferenceOnDestinationFile"), ("swap of files", DBF + ":updateDatabaseOnFile")],
  [], ["result of Application.Commit", "database contents after reopening"])

p("D08", "Concurrent sessions never overwrite each other's commits",
  "When several processes or application instances hold the same database open and commit, every commit that reported success is present, complete and readable afterwards, none is lost, duplicated or torn, and the commits form one chain; a session whose view is outdated or that cannot get the lock gets an error instead.",
  ["schedules", "histories"],
  "All interleavings of opens, writes and commits from several processes and application instances.",
  "Tests use one application instance in one process.",
  [DBF, "libs/databases/infrastructure/files/sdk.go"],
  [("file lock around the commit", DBF + ":updateDatabaseOnFile")], [("pLock", "lock on the database file", DBF)],
  ["database contents after all sessions ended", "results of every Application.Commit"])

p("D09", "Databases are created, found and deleted by name, and only once",
  "A database exists exactly from its successful creation (which makes the folder of the databases, and those it is in, when they are missing) to its successful deletion, and names are independent of each other: creating an existing one, deleting, or opening a missing one is an error and changes nothing, and a deleted name can be created again, empty. A name that ends with the extension of the files a commit works with is refused, since a commit on another database would remove it, and a commit on a database deleted since it was opened fails and does not bring it back. Names that differ in any character are different databases, and a folder is not one. Existing content is never altered by create, exists, open or read calls.",
  ["histories"],
  "All sequences of New, Exists, Delete, Open over several names, with content in them.",
  "One test creates and deletes one empty database.",
  [DBF], [("stat based existence checks", DBF + ":Exists/New/Delete")], [], ["Application.Exists", "directory listing"])

p("D10", "Content keys are found by kind, complete and in order",
  "Listing a database's keys by kind gives exactly the keys committed with that kind, over all commits, in commit order, and an error when there is none; the pointers listed never overlap and together cover all stored content. Each key's commit can be fetched and contains the key's hash among its values.",
  ["histories", "inputs"],
  "All commit histories with any assignment of kinds.",
  "The test lists one kind from one commit.",
  [REF + "contentkeys.go", REF + "contentkeys_builder.go", DBF],
  [("kind filter", REF + "contentkeys.go:ListByKind"), ("next offset", REF + "contentkeys.go:Next")], [],
  ["Application.ContentKeysByKind"])

p("D11", "A damaged database file is refused or opened, never crashes the process",
  "Opening a file of any bytes whatsoever as a database, and then reading through it, either works or returns an error: it does not panic, hang or allocate memory out of proportion to the file, and a file with anything in it is never taken for an empty database. What is read through a pointer is exactly the file's bytes at that place, and pointers outside the file are errors. Opening and reading leave the file unchanged.",
  ["inputs"],
  "All byte strings as database file: truncations, bit flips, extreme lengths, random bytes, with any chunk size.",
  "Tests only open files the code wrote itself.",
  [DBF, REF + "adapter.go", REF + "commit_adapter.go", REF + "contentkey_adapter.go"],
  [("reference length and chunked read", DBF + ":retrieveReference"), ("decoders", REF)], [],
  ["Application.Open on hostile files"])

p("D12", "At most one file is open for each open context, and none is leaked",
  "The application holds at most one open file for each open context: after any operation, whether it succeeded, was refused or failed half way because of the disk, another session or the file itself, no further file of the databases' directory stays open, and closing a context releases its file. ",
  ["histories", "crash_points"],
  "All operation histories, with failing operations at any point.",
  "Tests never look at descriptors, and end before a leak matters.",
  [DBF], [("release of files on each way out", DBF + ":updateDatabaseOnFile"), ("close", DBF + ":Close")], [],
  ["/proc/self/fd of a process using the application"])

p("D13", "Open contexts can be read by many goroutines, and keep what they opened",
  "Any number of goroutines can read the open contexts of one application at the same time, through every read operation, without data race, and each gets what it would get alone. A context keeps showing the state it was opened on (or last committed itself), complete, while other sessions commit to the same database.",
  ["schedules"],
  "All interleavings of reads by goroutines of one application with commits by other sessions.",
  "Tests read from one goroutine, and never while another session commits.",
  [DBF, REF + "contentkeys.go", REF + "commits.go"], [("reads at an offset of the context's own file", DBF + ":Read")], [],
  ["Read, ReadByHash, ContentKeysByKind, Commits, CommitByHash"])

p("D14", "Memory follows the chunk size, not the size of the database",
  "With a read chunk size set, opening a database, committing to it and reading one of its contents take memory in proportion to the chunk size, the reference, and the content written or read, whatever the amount of content already stored.",
  ["inputs"],
  "All database sizes and chunk sizes.",
  "Test databases hold a few bytes.",
  [DBF], [("copy in chunks", DBF + ":writeDataAndReferenceOnDestinationFile"), ("chunk size", DBF + ":makeChunkSize")], [],
  ["heap in use during Open, Commit and Read"])

p("D15", "Creation and deletion are atomic between sessions",
  "When several processes or application instances create, delete, find and open databases at the same time, each call has the result it would have if they were made one at a time, in some order that respects their times: of several creating a name only one succeeds, of several deleting it only one does, and what the folder holds in the end is the outcome of that order. A creation never touches what another session created or committed under the name, and every session can go on with what it created at once.",
  ["interleavings", "histories"],
  "All interleavings of the calls of any number of sessions on the same names.",
  "Tests create and delete from one session.",
  [DBF], [("creation", DBF + ":New"), ("deletion", DBF + ":Delete"), ("existence", DBF + ":Exists")], [],
  ["results and times of the calls of each session", "files of the folder afterwards"])

p("D16", "Commits leave no working file behind, and nothing locked",
  "Once a commit has succeeded, the folder of the databases holds nothing of it but the database: no backup, destination or other working file remains, not even those left by earlier commits on that database that failed or whose process died. A commit that fails leaves at most its own working files, named after its database with the two reserved extensions, and no other operation leaves any file. Whatever an operation did, and whether it succeeded or failed, no database stays locked: another session can lock and commit right after it.",
  ["histories", "crash_points", "fault_sequences"],
  "All histories of operations, with commits that fail or die at any file system call. (Except a working file the disk refuses to remove, until the next commit.)",
  "Tests remove their whole folder at the end and never look at what is in it.",
  [DBF], [("backup and destination files", DBF + ":updateDatabaseOnFile"), ("lock of a commit", DBF + ":updateDatabaseOnFile"), ("destination file", DBF + ":writeDataAndReferenceOnDestinationFile")], [],
  ["names in the databases' folder", "locking the database files"])

# ------------------------------------------------------------------ serialisation
p("S01", "References, commits, keys and pointers survive encoding and decoding",
  "Encoding any pointer, content key, commit, key list, commit list or reference and decoding the bytes gives back an equal value: same hashes, kinds, ranges, dates to the nanosecond, parents, proofs, scores and order; encoding the decoded value gives the same bytes again. Different values have different encodings.",
  ["inputs"],
  "All values the builders accept, including extreme kinds, offsets, dates, proofs, empty and large lists.",
  "Tests round-trip one example of each shape.",
  [REF + "adapter.go", REF + "commit_adapter.go", REF + "commits_adapter.go", REF + "contentkey_adapter.go", REF + "contentkeys_adapter.go", REF + "pointer_adapter.go"],
  [("codecs", REF)], [], ["ToContent then ToReference/ToCommit/..."])

p("S02", "Content records survive encoding and decoding",
  "Encoding any content record or list of records and decoding the bytes gives back the same hashes, kinds, data and order, and encoding again gives the same bytes.",
  ["inputs"], "All records: any data length from one byte up, any kind, any list length.",
  "Tests round-trip one record and one list.",
  [CON + "adapter.go", CON + "content_adapter.go"], [("codecs", CON)], [], ["ToContent then ToInstance"])

p("S03", "Decoders reject malformed bytes with an error, never a crash",
  "Every decoder of stored values (pointers, keys, commits, references, content records, hash trees, leaves, compact trees, hashes) given arbitrary bytes returns a value or an error: it does not panic, hang or allocate out of proportion to its input. What it accepts is stable: encoding the value it returned and decoding that gives the same value again.",
  ["inputs"], "All byte strings, in particular truncations, extensions and bit flips of valid encodings and hostile length fields.",
  "Tests only decode what was just encoded.",
  [REF, CON, HT, "libs/cryptography/domain/hash/adapter.go"], [("length checks of the decoders", REF + "*_adapter.go")], [],
  ["all To... decoders"])

p("S04", "A commit's hash binds its content and its score counts the mined prefix",
  "A commit's hash is a function of its values root, creation instant, parent and proof alone, and changing any one of them (a positive proof, or having one at all, included) changes the hash. Its mining result is determined by hash and proof, and its score is exactly the number of leading bytes of that result equal to the configured mining value.",
  ["inputs"], "All combinations of values, dates that fit in nanoseconds since 1970, parents, non-negative proofs and mining values.",
  "Tests never vary one component at a time, nor recompute the score.",
  [REF + "commit_builder.go", REF + "mine.go"], [("commit hash and score computation", REF + "commit_builder.go:Now")], [],
  ["Commit.Hash", "Commit.Mine"])

# ------------------------------------------------------------------ cryptography
p("M01", "A hash tree is the Merkle tree of its blocks, and binds them",
  "The root of a hash tree is determined by the sequence of blocks alone and equals the Merkle root: pairwise hashing of the leaf hashes up to one root, leaves padded to a power of two with the hash of the empty block. Changing, adding, removing or reordering blocks, other than appending empty ones within the padding, changes the root (a block of the length of a hash stands for that hash). A tree without blocks is refused, and building one never alters the given blocks.",
  ["inputs"], "All block sequences of any number and length.",
  "Tests build one tree of a few blocks and check only that some head exists.",
  [HT + "builder.go", HT + "leaves.go", HT + "sdk.go"], [("padding and pairwise merge", HT + "sdk.go")], [], ["HashTree.Head"])

p("M02", "Hash trees survive encoding and their compact form carries every leaf",
  "A tree encoded and decoded has the same root, length and leaves, and the compact form holds the root and all leaf hashes in block order, also after its own encoding and decoding. Leaf and leaf list encodings round-trip likewise.",
  ["inputs"], "All trees from one to thousands of blocks.",
  "Tests check one tree.",
  [HT + "adapter.go", HT + "leaf_adapter.go", HT + "leaves_adapter.go", HT + "compact_adapter.go"], [("codecs", HT)], [],
  ["HashTree adapter", "Compact adapter"])

p("M03", "Shuffled blocks are put back in the order the tree recorded",
  "Given a tree and its own blocks in any order, ordering returns the blocks in the original order, whatever duplicates or empty blocks they contain; if a block was altered, replaced or added, ordering returns an error instead of a wrong sequence.",
  ["inputs"], "All block sequences and all permutations and alterations of them.",
  "Tests shuffle one small list of distinct blocks.",
  [HT + "adapter.go", HT + "hashtree.go"], [("block lookup by leaf hash", HT)], [], ["Order operation of hash trees"])

p("S05", "Codecs, builders and their values can be shared by goroutines",
  "One adapter, builder or value (pointer, key, commit, reference, content record, hash tree, compact tree, hash) can be used by any number of goroutines at the same time, from its first use on, without data race, and each gets what it would get alone. Bytes returned by an encoder belong to the caller.",
  ["schedules"], "All interleavings of encoding, decoding, building, ordering and reading.",
  "Tests use everything from one goroutine.",
  [REF, CON, HT, "libs/cryptography/domain/hash/adapter.go"], [("leaf adapter shared by all trees", HT + "sdk.go")], [],
  ["To..., Create...Now and accessors"])

p("F01", "What earlier versions stored is still read, and stored the same way",
  "The encodings of pointers, keys, commits, references, content records, hash trees, leaves and compact trees are stable: bytes made by an earlier version of the code decode to the same value, with the same commit and tree hashes, and that value still has the same bytes. A database file made by an earlier version opens with all its commits and content, and can be committed to.",
  ["histories"], "All values and databases written by the version the work started from.",
  "Tests only decode what the same code encoded, so that both sides can change together.",
  [REF, CON, HT, DBF], [("little endian lengths and fields", REF + "adapter.go")], [],
  ["To..., Open"])

p("H01", "Hashes are stable, comparable and survive their text form",
  "Hashing is the SHA-512 of the bytes (or of the concatenation for several), equal input giving equal hashes; a hash's text and byte forms convert back to an equal hash and two hashes compare equal exactly when their bytes are equal. A byte string that already is a hash in length is taken as that hash, and text that is not hexadecimal is refused with an error. A hash never changes with the buffer it was made from.",
  ["inputs"], "All byte strings, list splits and strings.",
  "There is no test of hashes at all.",
  ["libs/cryptography/domain/hash/adapter.go", "libs/cryptography/domain/hash/hash.go"],
  [("SHA-512 adapter", "libs/cryptography/domain/hash/adapter.go")], [], ["hash.Adapter", "hash.Hash"])

# ------------------------------------------------------------------ parsing
TR = "libs/asts/domain/trees/"
GR = "libs/asts/domain/grammars/"
p("A01", "Parsing follows the grammar: ordered lines, greedy bounded elements, recursion",
  "The tree of a grammar on an input is the one the grammar defines: the lines of a token are tried in order and the first that matches is the successful one; an element takes as many occurrences as it can, up to its maximum, and its line fails if it took less than its minimum; elements of a line match one after the other, each with its own cardinality even when several have the same name; a recursive element stands for the token of that name being parsed, at any depth and as many times as it is used. What matches, how much of the data it takes and the names, lines and values of every node are the same as those, and an input the grammar does not match has no successful tree.",
  ["inputs", "configurations"], "All grammars (tokens of lines of values, tokens, recursive elements and cardinalities) and all inputs, long and deep ones included.",
  "Tests parse a handful of inputs with a few fixed grammars; recursion used more than once, repeated names and backtracking between lines are not among them.",
  [AST, GR + "token.go", GR + "cardinality.go", TR + "line.go"],
  [("ordered lines", AST + ":block"), ("greedy occurrences and cardinality", AST + ":line"), ("recursion through the stack of tokens", AST + ":token")],
  [("stackMap", "the tokens being parsed and the data at which each of their lines started", AST)], ["Application.Execute", "Tree accessors"])

p("A02", "A tree accounts for every byte it consumed",
  "For every accepted input, the bytes of the tree (its channels included) followed by its remaining data are the input; the same holds at every node: the bytes of a block, line, element, content or value with its channel prefixes are the exact, contiguous piece of the input it matched, in order, and without channels they are that piece less the channel data. The bytes a tree gives belong to the caller, who may change them.",
  ["inputs", "configurations"], "All grammars without escapes (an escape is dropped from what it escapes) and all inputs they accept.",
  "Tests look at the remaining data of a few inputs and never at the bytes of inner nodes.",
  [AST, TR + "tree.go", TR + "content.go", TR + "value.go"],
  [("bytes of nodes", TR), ("remaining data", AST + ":token")], [], ["Tree.Bytes", "Content.Bytes", "Tree.Remaining"])

p("A03", "Parsing any input with any grammar ends, without crashing",
  "Executing any grammar on any input, or running its suites, returns a tree or an error: no panic, stack overflow or endless loop, for left, mutual, nested and undefined recursion, cardinalities nothing can satisfy, empty input and data that ends in the middle of anything; data nested deeper than the parser follows ends with an error. A line is not tried again while it is already being tried at the same place of the data, which is what makes left recursion end, and the result is the one that rule gives.",
  ["inputs", "configurations"], "All grammars the builders accept, all inputs. (Backtracking may take time exponential in the nesting; inputs beyond a budget of reference steps are not judged.)",
  "No test has left or mutual recursion, or an undefined recursive name.",
  [AST], [("guard against entering a line twice at the same data", AST + ":block"), ("stack of tokens", AST + ":token")],
  [("stack.lines", "data at which each line being tried started", AST)], ["Application.Execute", "Application.Coverages"])

p("A04", "Channels are skipped wherever their conditions hold, and nothing else is",
  "With channels, the data that matches one of them is skipped before every value and after the root, repeatedly and in any order of channels, provided the tokens of its condition (the next one on what follows, the previous one on what precedes) match; exactly the matched data is skipped and kept in the tree as prefix or suffix, and what is not channel data never disappears. Values a channel could take are still skipped first, and channels do not apply inside channels.",
  ["inputs", "configurations"], "All grammars with one or several channels, with and without conditions; all placements of channel data.",
  "Tests use a space and a newline as channels on one script, without conditions.",
  [AST, GR + "channel.go"], [("skipping channels", AST + ":channels"), ("conditions", AST + ":channel")], [], ["Application.Execute", "Tree.Suffix", "Value.Prefix"])

p("A05", "An everything takes all up to its exception; escapes let the exception through",
  "An everything element matches each byte in order up to, and not including, the first place its exception matches; an escape directly followed by the exception is dropped and the exception's bytes are taken as data, and an escape followed by something else is data. At the end of the data it takes what is left. This holds for exceptions and escapes of any number of bytes, lines and tokens.",
  ["inputs", "configurations"], "All exception and escape tokens; all inputs, ending anywhere.",
  "One test has an everything, whose exception and escape are single bytes in one place of the input.",
  [AST, GR + "everything.go"], [("reverse matching", AST + ":reverseBlock"), ("escape", AST + ":escaped")], [], ["Application.Execute", "Tree.Bytes"])

p("A06", "An external grammar matches as it would alone, with its own channels",
  "An external element matches what the external grammar matches at that place when executed on its own, with its own root, recursion and channels and none of the including grammar's; its tree bears the external's name, has the same block, suffix and remaining data, and the including grammar carries on right after it.",
  ["inputs", "configurations"], "All grammars including other grammars, nested, repeated, and inputs with channel data of both.",
  "One test includes an external grammar, without channels and at the end of the data.",
  [AST, GR + "external.go"], [("external execution", AST + ":external")], [], ["Application.Execute"])

p("A07", "Composing a token and parsing it back agree",
  "Composing a token whose lines are composes gives its values in order, each repeated by its occurrences; parsing data with it accepts exactly the data that starts with those bytes and yields them back. In a line, a compose matches its values in sequence, each exactly as many times as its occurrences. Tokens that have several lines or elements cannot be composed and are refused with an error.",
  ["inputs", "configurations"], "All tokens of composes, up to hundreds of occurrences; composes mixed with other elements.",
  "One test composes one token; none parses data with a compose.",
  [AST, GR + "compose.go"], [("composition", AST + ":Compose"), ("matching composes", AST + ":line")], [], ["Application.Compose", "Application.Execute"])

p("A08", "Every suite of a grammar is executed, exactly, and its verdict is right",
  "The coverages of a grammar have one coverage per token that has suites (root, tokens of its elements, of its channels, exceptions and escapes, and those of its externals), each with one execution per suite in order; the result is the tree that parsing the suite's content with that token as root gives, and an error when it does not match.",
  ["inputs", "configurations"], "All grammars with suites on any tokens; right and wrong suites alike.",
  "Tests run the suites of fixed grammars whose suites all hold, so a suite that is skipped or always successful is not seen.",
  [AST, GR + "coverages/"], [("suite execution", AST + ":Coverages")], [], ["Application.Coverages"])

p("A09", "Covered and uncovered elements partition the grammar",
  "The covered elements are exactly those that matched something in the successful trees of the suites, under the token, line and element index they have in the grammar; the uncovered elements are exactly the other elements of the grammar's tokens, and no element is in both or in neither. A grammar without suites has all of them uncovered.",
  ["inputs", "configurations"], "All grammars with suites on none to all tokens.",
  "Tests check the amount of uncovered elements on grammars that are fully covered.",
  [AST], [("covered elements", AST + ":Covered"), ("uncovered elements", AST + ":Uncovered")], [], ["Application.Covered", "Application.Uncovered"])

p("A10", "Parsing is deterministic and free of shared state",
  "Executing grammars and running suites from several goroutines at once, sharing the application and the grammars, has no data race and gives each the result it has alone; executing again, in any order, gives the same tree.",
  ["schedules", "inputs"], "All interleavings of executions sharing grammars.",
  "Tests parse in one goroutine, once.",
  [AST, TR], [("application without state", AST)], [], ["Application.Execute", "Application.Coverages"])

p("A11", "Fetching by name finds the elements of a tree in order",
  "Fetching a name with an index from a tree, block, line, element or content returns the tree itself if it bears the name (whatever the index), else the part that comes from the part of its list at that index among those that contain the name, in the order of the input, each looked into from its first occurrence; a name that is not there, or an index beyond, is an error.",
  ["inputs", "configurations"], "All accepted trees, all names in them, all indexes.",
  "Tests fetch a few names at index zero.",
  [TR + "tree.go", TR + "block.go", TR + "elements.go", TR + "element.go", TR + "contents.go"], [("fetch", TR)], [], ["Tree.Fetch"])

p("A12", "A grammar reads back exactly as it was built",
  "Every part of a grammar built through the builders (root, channels with their conditions, tokens, lines in order, elements with cardinality bounds, values, composes with occurrences, everythings with exception and escape, recursive names, externals, suites with content and validity) is given back unchanged by its accessors, and a builder succeeds exactly when its required parts were given (an empty list is none), refusing with an error otherwise.",
  ["inputs", "configurations"], "All grammars the builders accept.",
  "Tests build a few fixed grammars and rarely read them back.",
  [GR], [("builders", GR)], [], ["grammars.Grammar accessors", "grammars builders"])

# ------------------------------------------------------------------ interpreters
INS = "libs/interpreters/domain/instructions/"
PRG = "libs/interpreters/domain/programs/"
p("I01", "Executing a program gives the values of its output parameters",
  "Executing a compiled program runs its assignments and executions in order and returns one value per assignment made to an output parameter declared before it, in the order of those assignments: an input variable is the input at the index of its declaration among the input parameters, a constant its bytes, an execution the result of its module, and instructions the list of outputs of that sub-program, compiled in a scope of its own and given the same inputs. Variables may be assigned again, names are told apart by their string form only, and nothing else is returned.",
  ["inputs", "histories"], "All scripts of instructions that compile, all inputs and modules.",
  "There is no test of the interpreter.",
  [ITP, ITP.replace("application.go", "parameter.go")], [("compilation of values and outputs", ITP + ":compileInstruction"), ("execution", ITP + ":Execute")],
  [("inParameters", "declared parameters and their input index", ITP)], ["Application.Execute"])

p("I02", "Modules are called once per execution, with what was attached until then",
  "Each execution, by itself or as the value of an assignment, calls the module of its application exactly once, in the order of the script, with one parameter per local index: the value its variable had when it was attached (the latest attachment of a local wins, and attachments stay for later executions of that application, but never reach earlier executions or other applications). A variable's value is computed once, when it is assigned, however often it is attached. Compiling calls nothing.",
  ["inputs", "histories"], "All scripts that compile, including chains of executions attached to each other.",
  "There is no test of the interpreter; a module called twice or with a later value is only seen by observing the calls.",
  [ITP], [("attachments", ITP + ":compileAttachment"), ("call", ITP + ":execute")],
  [("inApplications", "applications and what is attached to them so far", ITP), ("values", "values of the executed assignments", ITP)],
  ["calls of the modules' functions"])

p("I03", "Only scripts whose names are all declared, once and before use, compile",
  "Compiling gives a program exactly when every instruction is valid where it stands: modules exist and are declared once, applications are declared once and from declared modules, parameters once, executed and attached applications are declared, an assigned variable is a declared input parameter, an attached variable is an assigned variable or an input parameter, sub-programs are valid by themselves (they see no name of the program around them), and there is something to execute. Anything else is refused with an error, without a program, a panic or any module being called.",
  ["inputs"], "All scripts of instructions.",
  "There is no test of the interpreter.",
  [ITP], [("declarations", ITP + ":compileInstruction")], [], ["Application.Compile"])

p("I04", "A failing module or a missing input stops the program with an error",
  "When a module fails, or an input a program needs is missing, executing stops right there, also inside of sub-programs, and returns an error and no output; the modules called until then are those of the instructions before it, and no later one is called. Inputs that are not needed may be missing.",
  ["inputs", "histories"], "All scripts, all subsets of failing modules, all lengths of the input.",
  "There is no test of the interpreter.",
  [ITP], [("error propagation", ITP + ":Execute"), ("input bounds", ITP + ":executeValue")], [], ["Application.Execute", "calls of the modules' functions"])

p("I05", "Programs can be compiled and executed concurrently and repeatedly",
  "A program gives the same outputs each time it is executed with the same input and modules, alone or along with others, in any number of goroutines sharing the application, the modules, the instructions and the programs, without data races; compiling instructions again gives the same program, and executing or compiling changes no program, input or instruction.",
  ["schedules", "histories"], "All interleavings of compilations and executions.",
  "There is no test of the interpreter, nor of anything concurrent.",
  [ITP], [("scope per compilation and execution", ITP + ":Compile")], [], ["Application.Compile", "Application.Execute"])

p("I06", "A compiled program mirrors its script",
  "A program has one instruction per assignment and execution of its script, in order, each of exactly one kind, with input and constant values, applications numbered by declaration, their modules and attachments in order, sub-programs, and the indexes of the output assignments; instructions and modules read back exactly as they were built, and a module is found by its index alone.",
  ["inputs"], "All scripts that compile.",
  "There is no test of the interpreter.",
  [ITP, INS, PRG], [("compilation", ITP + ":Compile"), ("instances", PRG)], [], ["Program accessors", "Instructions accessors", "Modules.Fetch"])

# ------------------------------------------------------------------ queries
QD = "libs/queries/domain/queries/"
p("Q01", "A query gives what its functions make of the elements it selects",
  "Executing a query on a tree of its token selects, in the successful line, the element with its name at its index among the elements bearing that name (elements that match bytes without a grammar bear the reverse name), and all of its contents or the one asked for; the inside function makes instances of them, or each fetcher, in order, queries the tree of each content that has one, and keeps the valid instances; the query's function then makes the result of them, and the remaining data is that of the tree. An element that is not there has no content, and without any instance the query gives nothing, not an error. A recursive name stands for the query of that token around it (or the latest one, when another query of that token was executed since).",
  ["inputs", "configurations"], "All trees, all queries on them.",
  "Tests execute one query on one tree.",
  [QRY], [("selection", QRY + ":queryContents"), ("instances", QRY + ":insideInstances")],
  [("previous", "queries around the current one, by token", QRY)], ["Application.Execute"])

p("Q02", "Functions of a query are called once per selection, inside first",
  "Executing a query calls the content function once for each selection of contents (a single function with the first content, a multiple one with all, in order), and the function of a query once for each selection that gave instances (a single function with the first instance, a multiple one with all, in order), inner queries before those around them, and no other function is called.",
  ["inputs", "histories"], "All trees, all queries on them.",
  "Tests look at the final result only.",
  [QRY], [("function calls", QRY + ":queryInstance")], [], ["calls of the functions of the query"])

p("Q03", "A query that does not fit its tree, or fails, ends with an error",
  "A query on a tree of another token, of a content index the element does not have, with a single content function and no content, or with a recursive name of no query executed before it, and any failure of a function, also in an inner query, ends the execution right there with an error and without a result, a panic or another call. Nothing else is an error.",
  ["inputs", "configurations"], "All trees, all queries, all failing functions.",
  "Tests execute no query that fails.",
  [QRY], [("refusals", QRY + ":queryContents"), ("error propagation", QRY + ":insideInstances")], [], ["Application.Execute"])

p("Q04", "Queries can be executed concurrently and again, and change no tree",
  "Executing queries from several goroutines at once, sharing the application, the queries and the trees, has no data race and gives each the result it has alone; executing again gives the same result, and no execution changes a tree or a query.",
  ["schedules", "inputs"], "All interleavings of executions sharing queries and trees.",
  "Tests execute one query once.",
  [QRY], [("state of an execution", QRY + ":Execute")], [], ["Application.Execute"])

p("Q05", "A query reads back exactly as it was built",
  "Every part of a query built through the builders (token with its reverse name, element with its index, content index, inside with its function or its fetchers in order, functions and their kind) is given back unchanged by its accessors, and a builder succeeds exactly when its required parts were given (an empty list is none), refusing with an error otherwise.",
  ["inputs", "configurations"], "All queries the builders accept.",
  "Tests build one query and do not read it back.",
  [QD], [("builders", QD)], [], ["queries accessors", "queries builders"])

# ------------------------------------------------------------------ built-in grammars
IG = "instances/grammars/grammars/grammar.go"
IT = "instances/grammars/tokens/token.go"
IC = "instances/grammars/components/"
p("G01", "The grammar of grammars accepts its notation, and parses it right",
  "Every part of the built-in grammar (root, channels with previous and next, compose, everything, block, line, element, cardinality, suite and external assignments, values, whole grammars) matches exactly the phrases of the notation, longest first line that fits, taking and leaving the right bytes, with the names, numbers, cardinalities and alternatives where they stand in the phrase; anything else is refused without a panic. (A value assignment takes all bytes that follow its sign.)",
  ["inputs"], "All scripts, valid or not, and all parts of them.",
  "The test parses one script, whose first assignment takes all the rest as a value, so most parts are only seen by their own few examples.",
  [IG], [("notation", IG + ":GrammarToken")], [], ["Application.Execute on NewGrammar().Grammar() and its tokens"])

p("G02", "Layout and comments do not change what a grammar script means",
  "Spaces, tabs, line ends and comments (two slashes and a text up to the end of the line) may stand before, between and after any two bytes of a script, or not at all: it is parsed as the same names and parts, the bytes without channels are those of the script without them, those with channels are the whole input, and each piece of layout is a channel of the byte it precedes, or a suffix.",
  ["inputs", "configurations"], "All scripts in all layouts.",
  "The test parses one script in one layout.",
  [IC + "channels/channels.go", IG], [("channels", IC + "channels/channels.go:Channels")], [], ["Application.Execute", "Tree.Bytes"])

p("G03", "Each token of the library accepts exactly the characters of its class",
  "Letters, lowercase and uppercase letters, digits, hexadecimal digits, the letters a to f and A to F, bytes, variable names (a lowercase letter, then any letters, as many as there are) and sha512 texts (128 hexadecimal digits) match exactly the bytes of their class, take as many as they must, leave the rest, and refuse everything else, for each of the 256 bytes.",
  ["inputs"], "All bytes in all places of a word, all words.",
  "The library has no test; its suites only try some of the valid characters.",
  [IT], [("library", IT)], [], ["Application.Execute on the tokens"])

p("G04", "Components build exactly the parts they are asked for",
  "Tokens of all or any characters of a text (in any alphabet), of any element or from a block, elements from values, tokens and everythings, cardinalities, composes and suites made by the components have the names, bytes, order, bounds, exception, escape, examples and validity they were given, nothing else, and match and compose accordingly; no examples give no suites.",
  ["inputs", "configurations"], "All texts and bytes, all bounds, all sets of examples.",
  "The components have no test.",
  [IC], [("tokens", IC + "tokens/token.go"), ("elements", IC + "elements/element.go"), ("suites", IC + "suites/suite.go"), ("composes", IC + "composes/compose.go")], [], ["components", "Application.Execute", "Application.Compose"])

p("G05", "Every example of the built-in grammars holds",
  "Running the suites of the grammar of grammars, its channels and each token of the library executes each of their examples once, every valid one matching and every invalid one refused, in agreement with the notation, and no part of the notation or of the library is without an example.",
  ["configurations"], "All built-in tokens and grammars, in all orders of their examples.",
  "The test skips the comparison when no execution has an error, and does not run the library alone.",
  [IG, IT, IC + "suites/suite.go"], [("suites", IG)], [], ["Application.Coverages"])

p("G06", "Built-in grammars can be built and used concurrently",
  "Building the grammar of grammars and parsing with it, shared or newly built, from several goroutines at once has no data race, and each gets the result it has alone.",
  ["schedules"], "All interleavings of building and parsing.",
  "Tests build and parse in one goroutine.",
  [IG, IC], [("grammar instance", IG + ":NewGrammar")], [], ["NewGrammar", "Application.Execute"])

# ---------------------------------------------------------------- all parts
GD = "libs/asts/domain/grammars/"
TD = "libs/asts/domain/trees/"
p("A13", "A tree built from parts succeeds exactly when they meet its grammar",
  "However a tree was built, a line of it is successful exactly when it has elements, each holding as many contents as its container asks for (within its cardinality, or exactly the occurences of its compose), and, unless it is reversed, every container that must be there is there; a block's successful line is its first one; and the bytes of contents, elements and trees, with or without channels, are those of their parts in order, without the lines that failed.",
  ["inputs", "configurations"], "All trees of all shapes, amounts and cardinalities.",
  "Trees have no test of their own: they are only seen as results of the parser, which never builds the failing ones.",
  [TD + "line.go", TD + "element.go", TD + "tree.go", TD + "block_builder.go"], [("line verdict", TD + "line.go:IsSuccessful"), ("element verdict", TD + "element.go:IsSuccessful"), ("first successful line", TD + "block_builder.go:Now"), ("bytes", TD + "element.go:Bytes")], [], ["Line.IsSuccessful", "Block.Successful", "Tree.Bytes", "Element.Bytes", "Content.Bytes"])

p("A14", "Every node of a tree names its place in the grammar",
  "Each tree that parsing gives refers to the token it was matched with (name, block and suites; for an external, the external's own name with the block and suites of the root of its grammar; for a recursive element, the token it stands for), its successful line to that line of the token, under its index, and each of its elements to the container of that line it was matched with, in order; only the bytes of an everything have none. This holds inside channels, externals and recursion alike.",
  ["inputs", "configurations"], "All grammars and all inputs they accept.",
  "Tests look at the bytes of trees and hardly ever at the grammar parts their nodes refer to.",
  [AST, TR + "tree.go", TR + "line.go", TR + "element.go"],
  [("token of a tree", AST + ":token"), ("line and container of nodes", AST + ":line"), ("token of an external", AST + ":external")], [], ["Tree.Grammar", "Line.Grammar", "Line.Index", "Element.Grammar"])

p("B01", "Parts of languages are built from what is given, complete, or refused",
  "Every builder of grammars, trees, coverages, scripts, programs and queries refuses with an error, and never a crash, to build a part that lacks something it needs or has none of its alternatives, and otherwise builds a part that shows exactly what was given since Create, the last value given each time, tells which optional parts and which alternative it has, and never changes afterwards, whatever is done with the builder or others made from it.",
  ["histories", "configurations"], "All sequences of calls on several handles of each builder, all subsets of parts, all values including zero and the empty ones.",
  "Tests call most builders once, complete and in one order.",
  [GD, TD, "libs/interpreters/domain/instructions/", "libs/interpreters/domain/programs/", "libs/queries/domain/queries/"], [("builders of grammars", GD + "token_builder.go"), ("builders of trees", TD + "tree_builder.go"), ("builders of programs", "libs/interpreters/domain/programs/value_builder.go"), ("builders of queries", "libs/queries/domain/queries/token_builder.go")], [("fields of a builder", "parts given since Create", GD + "token_builder.go")], ["Builder.Now", "getters of the built parts"])

p("B02", "Parts of databases are built from what is given, complete, or refused",
  "Every builder of hash trees, leaves, contents, pointers, keys, commits and references refuses with an error, and never a crash, to build a part that lacks something it needs, and otherwise builds a part that shows exactly what was given since Create, the last value given each time, tells which optional parts it has (the parent and the proof of a commit, the parent of a leaf), accepts zero for kinds and positions, refuses empty pointers and lists, and never changes afterwards.",
  ["histories", "configurations"], "All sequences of calls on several handles of each builder, all subsets of parts, all values including zero.",
  "Tests call the builders once, complete and in one order.",
  [HT, CON, REF], [("commit builder", REF + "commit_builder.go"), ("content key builder", REF + "contentkey_builder.go"), ("leaf builder", HT + "leaf_builder.go")], [("fields of a builder", "parts given since Create", REF + "commit_builder.go")], ["Builder.Now", "getters of the built parts"])

p("R01", "Collections find exactly what they hold",
  "Content keys list every key, list those of a kind in order, find a key by its hash and tell where the content ends, whatever the order and sizes of their pointers; commits list every commit, find one by its hash and give the last one as the latest; modules are found by their index; merged leaves are those of the first followed by those of the second; and what is not there is refused with an error. The same holds once encoded and decoded.",
  ["inputs", "configurations"], "All lists of keys, commits, modules and leaves.",
  "Tests look up one or two elements of a list of three.",
  [REF + "contentkeys.go", REF + "commits.go", "libs/interpreters/domain/programs/modules/modules.go", HT + "leaves.go"], [("end of the content", REF + "contentkeys.go:Next"), ("by kind", REF + "contentkeys.go:ListByKind"), ("by hash", REF + "commits.go:Fetch"), ("latest", REF + "commits.go:Latest")], [], ["ContentKeys", "Commits", "Modules", "Leaves"])
