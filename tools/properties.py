P("C01", "A digest depends on every byte, and hash text and comparison are exact",
  "The digest of a byte string of exactly 64 bytes is that string, and of any other byte string is its SHA-512; the digest of several pieces is the digest of their concatenation. The text of a digest is its lowercase hexadecimal form, hexadecimal text (and no other text) is accepted and yields the digest of the bytes it spells, so a digest survives conversion to text and back. Two digests compare equal exactly when all their bytes are equal.",
  ["inputs"], "all byte strings, all lists of byte strings, all texts",
  "the tests hash a handful of fixed strings; they never compare near-equal digests, 64-byte inputs or malformed text",
  [H + "adapter.go", H + "hash.go"],
  [("digest of bytes, of pieces, of text", H + "adapter.go"), ("comparison and text form", H + "hash.go")],
  ["the digest returned by the hash adapter", "comparison result and text of a digest"],
  C("Every function of the hash package is under contract and proved for all inputs. SHA-512, hexadecimal coding and byte comparison of the Go library are trusted models, exercised by the harness on generated inputs."))
P("C02", "A hash tree commits to its padded blocks, pairwise up to one head",
  "Building a hash tree from any list of data blocks (also an empty or one-element list) succeeds. Its lowest level holds the digests of the blocks in order, followed by digests of the empty block up to the smallest power of two that is at least the number of blocks and at least two; every pair of neighbours has as head the digest of its left head followed by its right head, level by level up to a single head. A tree built from a given head and a given pair keeps both unchanged.",
  ["inputs"], "all lists of blocks of any length, blocks of any length and content",
  "the tests check the shape of seven trees but never the value of an inner digest or of the head",
  [T + "builder.go", T + "leaves_adapter.go"],
  [("digest of every block and padding", T + "builder.go"), ("pairing of neighbours and recursion", T + "leaves_adapter.go")],
  ["heads and leaves of the returned tree"],
  C("The builder, the pairing loop and the recursive level construction are proved to compute the recursive definition of the padded tree for all block lists of at most 2^50 blocks.",
    assumptions=["n & (n-1) is zero exactly for powers of two", "2^ceil(log n / log 2) in floating point is the smallest power of two that is at least n (exercised by the harness)", "lists of leaves contain no nil element"]))
P("C03", "Length, height and compact form describe exactly the leaves of a tree",
  "The leaves of a tree are, left to right, its elements without children, at any depth. The length of a hash tree is the number of its leaves; its height is the number of levels on its leftmost path, head included; its compact form has the same head and exactly the leaves of the tree, left to right, and its length is their number. Rebuilding a tree from a power-of-two list of leaves pairs them level by level like building from blocks, so a tree built from blocks is recovered from the leaves of its compact form.",
  ["inputs"], "all finite trees, balanced or not",
  "the tests compare length and height for seven balanced trees",
  [T + "leaf.go", T + "hashtree.go", T + "leaf_adapter.go", T + "adapter.go", T + "compact.go", T + "leaves.go", T + "leaves_adapter.go"],
  [("recursive leaf collection and list merging", T + "leaf_adapter.go, " + T + "leaves.go"), ("height walk", T + "leaf.go"), ("compact form", T + "adapter.go")],
  ["length, height, compact form, rebuilt tree"],
  C("All functions proved for all trees by structural recursion; the level count is the recursive definition over the leftmost path.",
    assumptions=["a chain of leaves in memory has fewer than 2^62 elements", "lists of leaves contain no nil element"]))
P("C04", "Hash tree values survive encoding to bytes and decoding",
  "Encoding a hash tree, a leaf, a pair of leaves, a non-empty list of leaves or a compact hash tree whose digests are 64 bytes long always succeeds, and decoding the resulting bytes succeeds and yields a value equal to the original in every digest and in its whole structure. The bytes are the head digest followed by, for each pair, the byte length of the left encoding as a little-endian 64-bit integer, the left encoding and the right encoding; lists start with their length and prefix every leaf by its byte length.",
  ["inputs"], "all finite trees (balanced or not), all lists of leaves",
  "the tests round-trip seven balanced trees built from short texts",
  [T + "adapter.go", T + "leaf_adapter.go", T + "leaves_adapter.go", T + "compact_adapter.go"],
  [("mutually recursive leaf and pair codec", T + "leaf_adapter.go"), ("length-prefixed list codec", T + "leaves_adapter.go"), ("tree and compact codec", T + "adapter.go, " + T + "compact_adapter.go")],
  ["the bytes and the decoded value"],
  C("Round trip proved by induction for all trees and lists: encoder postconditions and ghost-parameter postconditions of the decoders.",
    assumptions=["lengths of byte strings are below 2^62"]))
P("C05", "Ordering data with a hash tree follows the leaves and uses each block once",
  "Ordering a list of data blocks with a hash tree visits the leaves left to right and outputs for each the next block, in input order, that has the digest of the leaf and was not output before, skipping leaves without such a block. It succeeds exactly when every given block was output, so foreign blocks and surplus copies are rejected and no block is duplicated or lost. The blocks a tree was built from come back in their original order, whatever order they are given in.",
  ["inputs"], "all trees, all lists of blocks, including repeated, empty, foreign and missing blocks",
  "the tests order lists of distinct blocks only; the code before the repair lost and duplicated repeated blocks",
  [T + "adapter.go"],
  [("grouping of the blocks by digest text and walk over the leaves", T + "adapter.go")],
  ["the returned list or error"],
  C("The result and the success condition are proved equal to a recursive definition of the walk, for all trees and block lists.",
    assumptions=["lists of leaves contain no nil element"]))
CO = "libs/databases/domain/contents/"
RF = "libs/databases/domain/references/"
P("C06", "Contents survive encoding to bytes and decoding, for any bytes",
  "Encoding a content (a 64-byte hash, a kind, non-empty data) or a non-empty list of contents always succeeds; decoding the bytes succeeds and yields the same hashes, kinds and data in the same order. The bytes of a content are its hash, its kind as a little-endian 64-bit integer and its data; in a list every content is preceded by its byte length as a little-endian 64-bit integer.",
  ["inputs"], "all contents, all lists of contents of any length, data of any length and any kind",
  "the tests round-trip one short content and one list; lengths and kinds above one byte are never exercised",
  [CO + "content_adapter.go", CO + "adapter.go"],
  [("codec of one content", CO + "content_adapter.go"), ("length-prefixed list codec", CO + "adapter.go")],
  ["the bytes and the decoded value"],
  C("Round trip proved by induction over lists, for all contents.", assumptions=["lengths of byte strings are below 2^62"]))
P("C07", "Pointers, keys, commits and references survive encoding and decoding",
  "Encoding a pointer, a content key, a list of content keys, a commit, a list of commits or a reference whose digests are 64 bytes long and whose proofs are not negative always succeeds; decoding the bytes succeeds and yields an equal value in every field: positions, kinds, hashes, order, creation time to the nanosecond, hash tree, parent, proof, mining result and score (when decoded with the mining byte it was built with). The mined and parent parts of a commit are independent: any combination of the two is preserved.",
  ["inputs"], "all pointers, keys, commits with and without parent and proof, all lists and references",
  "the tests round-trip one value of each kind; combinations, large numbers, long proofs and long lists are not exercised",
  [RF + f for f in ("pointer_adapter.go", "contentkey_adapter.go", "contentkeys_adapter.go", "commit_adapter.go", "commits_adapter.go", "adapter.go")],
  [("fixed-size codecs of pointers and keys", RF + "pointer_adapter.go, " + RF + "contentkey_adapter.go"),
   ("commit codec with optional parts", RF + "commit_adapter.go"), ("list and reference codecs", RF + "commits_adapter.go, " + RF + "adapter.go")],
  ["the bytes and the decoded value"],
  C("Round trip proved for all well-formed values: each decoder carries a ghost parameter (the encoded value) and returns it.",
    assumptions=["a creation time is its number of nanoseconds since 1970 as a signed 64-bit integer; its location is ignored", "big integers are not modified after they were given to a builder", "lengths of byte strings are below 2^62"]))
P("C08", "Malformed bytes never crash a decoder",
  "For every byte string, each decoder of stored data (hash trees, leaves, compact trees, contents, pointers, content keys, commits, references, digest text) returns either an error or a value, and never panics.",
  ["inputs"], "all byte strings: truncated, oversized, random, with any embedded length",
  "the tests feed the decoders well-formed bytes or a too short slice; the code before the repairs panicked on truncated data",
  [CO + "adapter.go", CO + "content_adapter.go", RF + "commit_adapter.go", RF + "commits_adapter.go", RF + "contentkeys_adapter.go", RF + "adapter.go",
   T + "leaf_adapter.go", T + "leaves_adapter.go", T + "adapter.go", T + "compact_adapter.go", H + "adapter.go"],
  [("length checks before every slice expression", RF + "commit_adapter.go, " + CO + "adapter.go, " + T + "leaf_adapter.go")],
  ["absence of a panic, and a value exactly when there is no error"],
  C("Every index, slice and nil access reachable from the decoders is a discharged obligation for all byte strings.",
    assumptions=["lengths of byte strings are below 2^62", "memory is not exhausted, the stack is deep enough for the nesting of the data"]))
P("C09", "The identity and the score of a commit follow from all its parts",
  "A commit can be built exactly when it has values and a creation time. Its hash is the digest of the head of its values, the decimal text of its creation time in nanoseconds, its parent if it has one and the big-endian bytes of its proof if it has one, in that order. With a proof, its mining result is the digest of that hash followed by the proof, and its score is the number of leading bytes of the result that equal the mining byte; without one it has no mining part.",
  ["inputs"], "all values, times, parents, proofs and mining bytes",
  "the tests never recompute a commit hash or a score",
  [RF + "commit_builder.go"],
  [("hash, mining result and score of a commit", RF + "commit_builder.go")],
  ["hash, values, time, parent, mining result, proof and score of the built commit"],
  C("The builder is proved to compute the digest and the score for all inputs; the loop over the result bytes carries an invariant against a recursive definition.",
    assumptions=["a creation time is its number of nanoseconds since 1970 as a signed 64-bit integer", "SHA-512 and decimal formatting of the Go library are models"]))
P("C10", "The content index finds, filters and measures exactly the stored keys",
  "A content index is built exactly from a non-empty list of keys and lists them in order. Looking a hash up yields the last key with that hash, and fails when no key has it; listing by kind yields exactly the keys of that kind, in order; the next free position is the greatest end (start plus length) of the keys when all ends are below 2^63.",
  ["inputs"], "all lists of keys, with repeated hashes and kinds, all looked up hashes",
  "the tests use an index with a few distinct keys",
  [RF + "contentkeys.go", RF + "contentkeys_builder.go"],
  [("map by hash text", RF + "contentkeys_builder.go"), ("lookup, filter and next position", RF + "contentkeys.go")],
  ["the fetched key or error, the filtered list, the next position"],
  C("All functions proved for all lists; the map is proved equal to a recursive definition and the lookup lemma is proved by induction."))
P("C11", "The commit log keeps order, returns the latest commit and finds by hash",
  "A commit log is built exactly from a non-empty list of commits and lists them in order; its latest commit is the last of the list. Looking a hash up yields the last commit with that hash, and fails when no commit has it.",
  ["inputs"], "all lists of commits, all looked up hashes",
  "the tests use a log with one or two commits",
  [RF + "commits.go", RF + "commits_builder.go"],
  [("map by hash text", RF + "commits_builder.go"), ("latest and lookup", RF + "commits.go")],
  ["the latest commit, the fetched commit or error"],
  C("All functions proved for all lists; the lookup lemma is proved by induction."))
G = "libs/asts/domain/grammars/"
TR = "libs/asts/domain/trees/"
P("C16", "Grammar, tree and coverage builders demand their inputs and keep them",
  "Each builder of grammars, their parts, parse trees and coverages starts empty and succeeds exactly when every mandatory input was given (a name that is not empty, a list with at least one element, a positive number of occurrences, one of the alternatives), whatever the order of the setter calls; otherwise it returns an error and no value. The value returns, through its getters and its Has and Is flags, exactly what was supplied, the first given alternative for builders of alternatives, and nothing that was not supplied. A block of parsed lines takes as its successful line the first line, in order, that is successful.",
  ["inputs", "histories"], "all inputs and all sequences of setter calls of the 33 builders",
  "the tests build complete valid values only; missing inputs, other orders and flags of absent parts are never tried",
  [G + "token_builder.go", G + "element_builder.go", G + "everything_builder.go", TR + "tree_builder.go", TR + "line_builder.go", TR + "block_builder.go"],
  [("mandatory checks and construction", G + "*_builder.go, " + TR + "*_builder.go"), ("getters and flags", G + "*.go, " + TR + "*.go")],
  ["error or getters of the built value"],
  C("Every Create, setter, getter, flag and Now function is under contract and proved; a sequence of calls is a composition of these contracts.",
    assumptions=["lists handed to a builder contain no nil element and are not modified afterwards"]))
IN = "libs/interpreters/applications/application.go"
QU = "libs/queries/applications/application.go"
P("C24", "Compiling resolves every name to what was declared before it",
  "Compiling instructions fails exactly when one of them, in order, declares a module, application or parameter name a second time, loads a module that is not given, or uses a name that is not declared before it: the module of an application, the application of an attachment or execution, the input parameter of an assignment, the assigned value or input parameter of an attachment; or when nothing is assigned or executed at all. Otherwise the program has one instruction per assignment and execution, in order, each with the value or application as it is declared and attached to at that point, where input parameters are numbered in the order of their declarations and nested instructions are compiled on their own. Its outputs are the positions of the assignments to output parameters declared before them, in order.",
  ["inputs"], "lists of instructions, nested to any depth, the given modules and the conversion of names",
  "the repository has no test of the compiler",
  [IN],
  [("compiler, one function per kind of instruction", IN)],
  ["the compiled program or error"],
  C("The nine functions of the compiler are under contract and proved: each against the effect of its kind of instruction on the declared modules, applications, parameters and values, and Compile against the recursive composition of these effects, for lists nested to any depth; a harness compares random instructions with a direct resolution.", harness_s=25,
    assumptions=["the conversion of names given by the user is a function of the name", "names, constants and executions in instructions are absent exactly when they are empty", "the given modules and lists contain no nil element", "termination is not proved"]))
P("C25", "Executing a program runs its instructions in order and returns its outputs",
  "Executing a program runs its instructions one after another, calling the module of each application exactly once per execution with the values attached to it (the last one attached to a local wins), where inputs come from the given list, constants are themselves, and nested programs are executed on the same inputs and give the list of their outputs. The outputs are the values of the instructions at the output positions, in that order. The first failing module, an input beyond the given list or an output position without a value stops the execution with an error; it never panics.",
  ["inputs"], "programs, inputs and modules, including failing ones",
  "the repository has no test of the interpreter",
  [IN],
  [("execution of instructions, values and applications", IN)],
  ["the outputs or error, the calls of the modules"],
  C("The three functions of the interpreter are under contract and proved against a recursive definition of the value and state after the first n instructions, with the calls of the modules as a ghost history; a harness evaluates random programs directly.", harness_s=25,
    assumptions=["modules and other functions given by the user return any value or error (also depending on earlier calls) and do not modify the objects of this code", "lists in programs contain no nil element", "termination is not proved"]))
P("C26", "A query selects the asked elements and hands exactly these to its functions",
  "A query on a tree of its token selects, in the successful line, the element at the asked position among those with the asked name (elements without a name have the reverse name), and of its contents all or the asked one; another token, a tree without successful line and a missing content are errors. The content function receives exactly the selected contents (the first one for a single function, an error without any), or every fetcher runs in order on every selected tree, a recursive one standing for the last query started on its token, and the valid results are collected in order. The query function is called once with what was collected (the first one for a single function) and decides the result, and is not called when nothing was collected; the remaining bytes are those of the tree, and no query panics.",
  ["inputs"], "queries, and the trees they are executed on",
  "the repository has no test of the queries; the code before the repairs panicked on elements without a name and on single functions without contents",
  [QU],
  [("selection of elements and contents", QU), ("fetchers and functions", QU)],
  ["the result or error, the calls of the functions"],
  C("The five functions of the query application are under contract and proved against recursive definitions of the selected contents and of what the fetchers collect, with the calls of the user's functions as a ghost history; a harness evaluates random queries directly.", harness_s=25,
    assumptions=["functions given by the user return any value, validity or error (also depending on earlier calls) and do not modify the objects of this code", "lists in queries and trees contain no nil element", "termination is not proved: a recursive query may not end"]))
P("C27", "Storage, interpreter and query builders demand their inputs and keep them",
  "Each builder of leaves and trees of digests, contents, keys, commits, references, programs, instructions, modules and queries starts empty and succeeds exactly when every mandatory input was given (a name or text that is present, a list with at least one element, a positive length, one of the alternatives), whatever the order of the setter calls; otherwise it returns an error and no value. The value returns, through its getters and its Has and Is flags, exactly what was supplied, the first given alternative for builders of alternatives, and nothing that was not supplied.",
  ["inputs", "histories"], "all inputs and all sequences of setter calls of the 39 builders",
  "the tests build complete valid values only; missing inputs, other orders and flags of absent parts are never tried",
  [RF + "contentkey_builder.go", RF + "pointer_builder.go", "libs/interpreters/domain/programs/value_builder.go", "libs/interpreters/domain/instructions/instruction_builder.go", "libs/queries/domain/queries/token_builder.go"],
  [("mandatory checks and construction", "libs/interpreters/domain/**/*_builder.go, libs/queries/domain/queries/*_builder.go, " + RF + "*_builder.go"), ("getters and flags", "the value types of the same packages")],
  ["error or getters of the built value"],
  C("Every Create, setter, getter, flag and Now function is under contract and proved; a sequence of calls is a composition of these contracts.",
    assumptions=["lists handed to a builder contain no nil element and are not modified afterwards"]))
AP = "libs/asts/applications/application.go"
PARSE_ASSUME = ["the services of the parser are wired (non-nil)", "lists in grammars contain no nil element", "termination is not proved: a left recursion over channels or everythings may not end"]
P("C17", "Composing a token yields exactly the bytes its composes describe",
  "Composing a token succeeds exactly when the token has a single line and every container of the line is a compose. The result is then the concatenation, container by container and value by value, of every value repeated as many times as its occurrences; nothing else.",
  ["inputs"], "all tokens: any number of lines, containers, values and occurrences",
  "the tests compose one or two short tokens",
  [AP, G + "compose.go", G + "container.go"],
  [("line and container checks, concatenation", AP)],
  ["the composed bytes or the error"],
  C("Compose and its helper are proved equal to a recursive definition for all tokens, with loop invariants over containers, values and occurrences.", assumptions=["occurrences are read as a signed 64-bit integer, as the code does"]))
P("C18", "Parsing loses no byte and invents none",
  "Whatever the grammar and the data, the remaining data of a tree returned by the parser is the end of the given data. The bytes of a successful tree, channels included, followed by its remaining data are exactly the given data, as long as no everything with an escape took part; a token that has no successful line and no channels keeps all the data. The bytes of a tree are those of its values and trees, in order, with or without the channels in front of values and behind trees.",
  ["inputs"], "all grammars (tokens, externals, recursion, composes, cardinalities, everythings, channels) and all data",
  "the tests parse a few short inputs with hand-written grammars and never add up the bytes; before the repairs externals, composes and channels lost data",
  [AP, TR + "tree.go", TR + "content.go", TR + "element.go", TR + "trees.go"],
  [("remaining data handed from function to function", AP), ("bytes of a tree", TR + "*.go")],
  ["bytes and remaining data of the returned tree"],
  C("All functions of the parser are under contract and proved for all grammars and data; loops carry invariants relating consumed contents, remaining and given data.", assumptions=PARSE_ASSUME))
P("C19", "Every successful tree is a derivation of its grammar",
  "In a tree returned by the parser, a successful line is the line of its token's block at its index, and its elements follow the containers of that line in order; only an element whose minimum is zero is left out. A compose holds exactly the bytes it describes, a value content is the number of its value, a token content is a successful tree of that token, an everything content is a successful reversed tree of its exception, an external content is a successful tree with the name of the external and the block of its root. The same holds for every nested tree and for the trees of channels.",
  ["inputs"], "all grammars and all data",
  "the tests check that some inputs are accepted; they do not check nested trees against the grammar",
  [AP, TR + "tree_builder.go", TR + "line_builder.go", TR + "element_builder.go"],
  [("matching of containers, contents and lines", AP), ("cardinality checks", TR + "element.go, " + TR + "line.go")],
  ["every node of the returned tree"],
  C("The validity of a tree is a recursive predicate over trees and grammars; every parser function is proved to return valid trees, for all grammars and data.", assumptions=PARSE_ASSUME + ["that a recursive content is a tree of the named token, and that an element holds at least its minimum, are checked by the harness only"]))
DB = "libs/databases/infrastructure/files/application.go"
DB_ASSUME = ["the file system is a map from paths to bytes with POSIX semantics of open, read, seek, write, create, rename and remove; any call may fail and a failed write may have written any prefix; files are not changed by others meanwhile; distinct plain names give distinct paths", "contexts are used by one goroutine at a time", "read chunk size above zero and different extensions for temporary and backup files (constructor arguments)", "the committed file is shorter than 2^63 bytes and at most 2^50 contents are written per commit", "data is not changed by the caller after it was written", "SHA-512 digests have 64 bytes"]
P("C12", "A database returns exactly what was committed to it",
  "After a successful commit, and after closing and opening the database again (also by another application), every content written before it is read back byte for byte under its hash (the last content committed under that hash) and under its pointer. The content keys list all committed contents by kind, in the order of the writes, with contiguous pointers. A commit adds exactly one commit to the list, whose parent is the previous one and whose values are the hash tree of the written hashes, and keeps the earlier contents, whatever the size of the read chunks.",
  ["inputs", "histories"], "histories of writes, commits and re-openings of a database, and read chunk sizes above zero",
  "the tests make two commits that fit in one chunk; the code before the repairs lost the end of the earlier contents otherwise",
  [DB],
  [("commit: reference, file layout, copy of the earlier contents", DB), ("open and read", DB)],
  ["contents, content keys and commits read back"],
  C("Commit, Open, Close, Read, ReadByHash, ReadAll, ReadAllByHashes, ContentKeysByKind and CommitByHash and all functions under them (reference update, file writer with its chunk loop, reference loader, codecs, builders) are under contract and proved over a ghost file system: a context invariant ties the file to the reference, Commit re-establishes it with the extended keys and commits, Open re-establishes it from the file, and lemmas give that the pointers of the new and of the old keys read the written bytes. The harness compares random histories on real files with a model.",
    assumptions=DB_ASSUME + ["the round trip through the file needs commits without negative proofs (the application makes none)"], harness_s=25))
P("C13", "Pending writes stay invisible until they are committed",
  "Writes change neither what the context reads nor the file until a commit succeeds. A cancel drops all pending writes. A successful commit stores each pending write exactly once and leaves none pending; a commit on a database without any content, stored or pending, fails.",
  ["inputs", "histories"], "histories of writes, cancels and commits on a context",
  "the tests never cancel and never commit twice on a context; the code before the repairs stored the contents of the first commit again",
  [DB],
  [("write, cancel, commit", DB)],
  ["what the context reads, the bytes of the file"],
  C("Write, Cancel, Commit and the read functions are under contract and proved: Write and Cancel change the pending list only, reads depend on the reference and the file only, and a commit adds exactly one key per pending content and leaves none. The harness compares random histories on real files with a model.",
    assumptions=DB_ASSUME, harness_s=25))
P("C14", "The open contexts of an application are independent",
  "Opening a database gives an identifier that no other open context has, and is refused while the database is already open in the application. Every operation on an identifier that is not open fails. An operation on one database, or on its context, changes neither what the other contexts read and hold pending nor the files of the other databases, as long as no database is named like the temporary files of another.",
  ["inputs", "histories"], "histories over several databases of one application",
  "the tests have one database; the code before the repairs reused the identifiers of open contexts",
  [DB],
  [("context map and identifiers", DB)],
  ["identifiers, what every context reads, the files"],
  C("Every operation of the application is under contract with a frame that names the one context and the files of its database that it may change; Open is proved to return an identifier that is not in use and to refuse a name that is open. The harness compares random histories over several databases with a model.",
    assumptions=DB_ASSUME + ["no database is named like the temporary file of another one"], harness_s=25))
P("C15", "Failed commits and corrupted files are reported and lose nothing",
  "A commit that cannot lock, create, write, copy or replace a file returns an error, and the file of the database, the contents and the pending writes stay as they were. At every moment of a commit the file of the database is the complete former or the complete new one. Opening a truncated or corrupted file, and reading any pointer, returns an error or contents within the file and never panics; only an empty file opens as an empty database.",
  ["inputs", "histories", "fault_sequences"], "failing file operations during commits, file contents and pointers",
  "the tests make no operation fail; the code before the repairs reported success after failed writes and panicked on corrupted files",
  [DB],
  [("error paths of the commit", DB), ("reading the reference", DB)],
  ["errors, the bytes of the file, later reads"],
  C("The ghost file system lets every file operation fail at every point: the error paths of Commit are proved to keep the context, a step condition after every change of the file system holds the database file to be the complete former or the complete new one, and loading any bytes is proved free of panics and to stay inside the file. The harness injects real faults (file size limit, locks, obstructed paths, read-only directories) and corrupts files.",
    assumptions=DB_ASSUME + ["what a power loss does to unsynchronised writes is outside the model", "an error after the replacement of the file leaves the complete new file"], harness_s=25))
P("C20", "The parser takes the first line that matches and repeats greedily",
  "Without everythings and channels, parsing agrees with the reading of the grammar as an ordered choice: the lines of a token are tried in order on the same data and the first one that matches is taken; an element takes as many contents as its maximum and the data allow, without giving any back; a recursive element stands for the enclosing token of that name. A line that is already being tried by the same enclosing token on the same data is skipped. The parser fails exactly when no line of the root token matches.",
  ["inputs"], "grammars with values, tokens, externals, recursion and composes, and their data",
  "the tests parse a few sentences with grammars that leave no choice",
  [AP],
  [("line loop, container loop, recursion stack", AP)],
  ["the returned tree, remaining data or error"],
  C("Bounded: random grammars (depth 3, up to 3 lines of 3 containers) and data up to about 30 bytes against an independent reference parser.", level="exploration", proof=False, harness_s=25,
    bounded=["the whole parser: random grammars and data against the reference parser"], technique="bounded stand-in: reference parser on generated grammars and data"))
P("C21", "An everything takes all bytes up to its exception, escapes included",
  "An everything element takes one byte after another and stops at the first place where a line of its exception matches, or at the end of the data. When its escape matches and a line of the exception matches right behind, the data of the exception is taken literally, the escape is left out, and the search goes on behind it. An everything that would take nothing does not match.",
  ["inputs"], "grammars with everythings, with and without escapes, and their data",
  "the tests have one everything with one escaped exception; the code before the repairs panicked on an escape at the end of the data",
  [AP],
  [("byte loop, escape and exception", AP)],
  ["the returned tree, remaining data or error"],
  C("Bounded: random grammars with everythings and escapes against an independent reference parser.", level="exploration", proof=False, harness_s=25,
    bounded=["the whole parser: random grammars and data against the reference parser"], technique="bounded stand-in: reference parser on generated grammars and data"))
P("C22", "Channels are skipped before values and after tokens under their conditions",
  "In front of every value and behind every token, the channels of the grammar are tried in turn, again and again, until none of them consumes anything; what they consume is kept as prefix or suffix. A channel is skipped only where its previous condition matches the data it comes after and its next condition matches the data behind it. The channels of an external grammar apply inside it, those of the enclosing grammar do not, and none apply inside everythings and channels.",
  ["inputs"], "grammars with channels, conditions and externals, and their data",
  "the tests use one space channel; the code before the repairs skipped the wrong number of bytes",
  [AP],
  [("channel loop and conditions", AP)],
  ["the returned tree, remaining data or error"],
  C("Bounded: random grammars with channels and conditions against an independent reference parser.", level="exploration", proof=False, harness_s=25,
    bounded=["the whole parser: random grammars and data against the reference parser"], technique="bounded stand-in: reference parser on generated grammars and data"))
P("C23", "Coverage runs every suite and reports what they exercise",
  "The coverage of a grammar has one entry for every token with suites reachable from its root, its channels and its externals, with one execution per suite, in order: the tree when the token matches the bytes of the suite, the error otherwise. The uncovered elements of a grammar without externals are exactly the elements of its tokens, by token, line and container, that no tree of a suite contains.",
  ["inputs"], "grammars with suites, and the suites themselves",
  "the tests look at one grammar; the code before the repairs panicked without suites and reported shifted elements",
  [AP, "libs/asts/domain/grammars/coverages/coverage.go"],
  [("walk over tokens, execution of suites, element maps", AP)],
  ["coverages, covered and uncovered elements"],
  C("Bounded: random grammars with suites against an independent reference.", level="exploration", proof=False, harness_s=25,
    bounded=["coverage functions: random grammars and suites against the reference parser"], technique="bounded stand-in: reference parser and reference walk on generated grammars with suites"))
