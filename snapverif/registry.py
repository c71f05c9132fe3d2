"""The properties and the rules that decide them."""
from collections import namedtuple
from .rules import base32, bounds, buffers, determinism, cmdrules, codec, errors, caching, compare, format, fsrules, given, keys, listing, process, readrules, shown, sqlrules, store, trees

Rule = namedtuple("Rule", "fn text assumptions technique note")
RULES = {}

BASE = [
    "the analysed MIR is what rustc compiles from /repo's current source (same manifest, same features, debug assertions off)",
    "library calls outside the crate behave as documented; calls through a value of unknown type may do anything to what they are given",
]


def rule(pid, fn, technique, text, note, assumptions=()):
    RULES[pid] = Rule(fn, text, BASE + list(assumptions), technique, note)


rule("C01", process.C01,
     "path-sensitive typestate over MIR of main + who-may-call rules + SQL statement classification",
     "main is followed through every outcome of every step with the transaction as a typestate (begin, command result, commit or rollback, end): "
     "every command call must lie inside the transaction, commit only after the command returned Ok, no exit after success without commit; no "
     "function below a command may begin, commit or roll back, open a connection, or execute transaction, ATTACH, DETACH or VACUUM SQL.",
     "Covers every path of main and every function below the commands in the call graph; trusts SQLite to make a transaction atomic.",
     ["SQLite's transactions are atomic and durable as documented"])
rule("C02", errors.C02,
     "path-sensitive error-flow analysis (must-propagate) over MIR",
     "At every call that returns a Result with a storage, file-system or encoding error, the error outcome is followed along every path: the function "
     "must return an error, diverge, or hand the error on; the tolerated failures are enumerated as rule instances (NotFound of a ref, Interrupted, "
     "Cache::put, probing for the repository folder, debug printing of undecodable data).",
     "Covers every hand-written function of the library and the binary; each is analysed with its callees inlined or summarised by their Result.")
rule("C03", process.C03,
     "path-sensitive typestate over MIR of main (exit status against command outcome)",
     "Every way main can end (return, process::exit) is compared with what happened on that path: status 0 requires that the command returned Ok, that "
     "nothing failed and that the store transaction was committed; a path on which the command or the commit failed must end with a non-zero status.",
     "Covers every path of main and every exit call below it.")
rule("C04", sqlrules.C04,
     "who-may-write rule over all extracted SQL + schema check",
     "Every SQL text the program can execute is extracted from the MIR, parsed and classified: the table of objects must have a unique key, and only "
     "SELECT and INSERT OR IGNORE (ON CONFLICT DO NOTHING) may touch it; UPDATE, DELETE, REPLACE, upserts, DROP, ALTER and triggers are violations, "
     "and so is a plain INSERT (storing again would fail).",
     "Complete for the SQL of the crate (C26 establishes that all of it is fixed text); trusts SQLite's documented conflict handling.",
     ["the database file is only written through this program"])
rule("C05", store.C05,
     "value provenance over MIR (path-sensitive) + SQL binding and who-may-write rules",
     "put must write exactly the bytes given, under the database form of the plain BLAKE3 hash of exactly those bytes, on every successful path, and return "
     "that key; get must look up the key given and return what is stored unchanged; put_obj/get_obj encode and decode one whole object; raw_put/raw_get bind "
     "the key and value columns to the key and value; nothing else writes objects.",
     "Decides which bytes and key reach which call for every input; trusts BLAKE3, SQLite and serde_cbor.")
rule("C06", buffers.C06,
     "ownership/typestate analysis of the buffers (empty, pending, passed on) over MIR, with key provenance",
     "Every buffer of put_data is followed through every path: bytes that were read must be appended (exactly the part the read filled) before the next "
     "read; a buffer may be cleared, drained or left at the end only if its contents were passed on or stored since, and may not be passed on twice; a "
     "range removed must be the range that was copied; every stored object's key must be recorded exactly once, in order, at the right level; a level may be "
     "cleared only after it was stored, and must be; success only after a read returned the end of the input and with every level folded or known empty.",
     "All paths of put_data and its helpers; sizes are abstracted, so which boundary is chosen is not decided (that is C40).")
rule("C40", determinism.C40,
     "typestate analysis of reads (may be short / full block / end of input) + taint of changing sources over MIR",
     "What a single read happened to return may not reach the boundary search, or an object that is stored, before the block it belongs to is known to be "
     "full or the input to have ended (reads that fill by contract are recognised as such, fill loops by what their end condition compares); nothing that "
     "differs between two runs over the same data (time, environment, thread, state kept between calls, what is already stored, the layout of memory, the "
     "order of a hash table) may decide anything in put_data or go into what it stores.",
     "Decides, for every way of splitting the input into reads, that the chunker sees the same blocks and takes nothing else into account; that a deterministic "
     "function of the same blocks gives the same key is then the language's guarantee. Trusts the contracts of std's Read adapters and gearhash.")
rule("C35", format.C35,
     "comparison of the names, forms and places found in the encoding, the key parsers and the SQL (by dataflow over MIR, generated code included) with those of existing repositories",
     "The names each decoder accepts (followed from the generated string comparisons to the field or variant they end in) must include all that existing objects contain, each for the same "
     "field or variant, and require no other; object data must be a string of bytes and keys a list of numbers; the tree must come first in a commit; type id 1, prefix b and the base32 "
     "alphabet must mean what they meant; every method of the data store must work on the table existing repositories keep it in, use only columns they have, and fill columns by place only in "
     "their order; the folder, the database file and the name of HEAD must be the same.",
     "All decoders, all SQL of the data store, all opens below main. The names are facts about data written before, recorded in the rule; migrations (ALTER, views) are noted, not judged. "
     "That new objects are encoded alike is C19 together with this.")
rule("C42", bounds.C42,
     "path-sensitive provenance of the two bounds over MIR (what was done to the decoded bits) with the facts that guard them",
     "In the parser of user keys, wherever a range is built: its start must be the type id followed by exactly the decoded bits, unaltered; its end must be the same with "
     "exactly a single one bit added, on paths where the bits were seen not to be all ones, and be missing only on paths where they were seen to be all ones.",
     "All paths of the parser. That the text-order successor of a bit prefix is that prefix plus one is arithmetic done once on paper (zero padding keeps byte order); trusts bitvec's "
     "addition; which rows the query selects is C16, base32 is C41.")
rule("C41", base32.C41,
     "bit-level provenance over MIR (which bit of the input becomes which bit of the number and back) + constant tables and the letter ranges that guard case folding",
     "Both directions must use one table of 32 letters that differ in more than case; encoding must make each letter from the first five bits, the first in the highest place, take exactly "
     "these off, and go on until none are left; decoding must go through all letters in order, look each up in lower case (from the ranges compared before, for every byte which letter it is "
     "looked up as), keep exactly the five bits of its number, highest first, uninverted, and cut only at the number of bits asked for.",
     "All paths of both functions; the correspondence of bits is exact for the shapes recognised (others are noted, not judged); trusts bitvec's push, get and remove.")
rule("C07", readrules.C07,
     "path-sensitive completeness analysis of the reader over MIR (pending-element typestate, value provenance, variant facts)",
     "read_data is followed through every path: for each object type that can reach a successful return, the whole data must have been handed to write_all "
     "of the destination given, or every recorded key, each as is and in order, to a recursive read into the same destination; a skipped, repeated, reordered "
     "or cut-off element, a write that may be partial, or success for an object of another type is a violation.",
     "All paths of read_data and its helpers; trusts Write::write_all.")
rule("C08", fsrules.C08,
     "effect analysis of file-system calls over MIR (open options as abstract state) + call-graph scan",
     "Everything fetching can reach is followed: a file may only be opened for writing with create_new(true) on every path; truncating, renaming, copying, "
     "removing, linking and changing files or permissions is a violation wherever the call graph reaches it; fetching a file may only succeed after that "
     "exclusive creation succeeded.",
     "Covers every path of get_fs_item and the fetch command and every call below them; trusts create_new (O_EXCL).")
rule("C09", fsrules.C09,
     "taint analysis over MIR: recorded names are tainted until proved to be one normal component on the path",
     "In get_fs_item and checkout_fs_item every recorded name that becomes part of a path must, on that path, have been found to have exactly one component and that "
     "component to be Normal; every path created, written, removed or handed to a recursive call must be built from the destination given, never a "
     "recorded name itself, a parent or a resolved link.",
     "All paths of both functions and their helpers. What symbolic links already below the destination point to is not decided.")
rule("C10", fsrules.C10,
     "must-have-passed-check dataflow over MIR (guard facts dominate destructive calls), provenance of removed entries",
     "Every call by which checkout truncates, overwrites or removes a path (including recursive removal helpers) must lie behind a passed Path::starts_with test of "
     "that path or a directory it was built from against the built-in folder; a removed entry must come from the set of entries admitted by the filter minus the names "
     "of the tree; remove_dir_all and destructive calls elsewhere below the command are violations.",
     "All paths of checkout_fs_item and the checkout command; every entry on every path.")
rule("C11", fsrules.C11,
     "typestate of directory entries (unfiltered, admitted) over MIR + path conditions of the filter closure + value provenance of filters",
     "In every function that takes a filter a directory entry must have been put to that same filter and admitted before it is opened, archived, listed, removed or "
     "recursed into, and filters must be handed on unchanged; every place that lists a directory must be such a function; the filter admits an entry only "
     "after finding that its canonical path is not below the database folder and that none of all the patterns matches its path; commands build it from the patterns "
     "given and their repository's database folder.",
     "Decides the use of the filter for every entry; the meaning of one glob pattern is the glob library's.")
rule("C12", fsrules.C12,
     "call-graph effect inventory over MIR + path provenance",
     "No function reachable from a command other than init, fetch and checkout may call anything that creates, changes or removes files, opens files for writing, "
     "starts processes or opens a database; init and start-up may only create the database folder given and the cache folder, and databases are opened only there.",
     "Complete over the call graph of every command; SQLite's own files are the database itself.")
rule("C13", sqlrules.C13,
     "SQL classification, must-append and row-completeness dataflow over MIR, argument provenance",
     "Every statement on the table of ref history is an INSERT of the name, remote and key given or a SELECT; reflog_push inserts exactly once on each "
     "successful path; lookup and walk select exactly by name = and remote IS the values given, newest row first, and the walk keeps every row; the "
     "commands hand on the names they were given.",
     "Decides the queries, their bindings and the row loop; trusts SQLite to evaluate them.", ["row ids ascend while nothing is deleted (SQLite)"])
rule("C16", keys.C16,
     "path-sensitive dataflow with a small counting domain over MIR + SQL shape rules",
     "raw_exists is evaluated for the counts 0 and 1; raw_between must select every key >= start and < end exactly when an end was given, without limit, "
     "and keep every row; canonicalize is followed with the number of candidates as an abstract value {0, 1, 2+}: success only with exactly one, NotFound "
     "only with none, Ambigious only with several and with all of them, refs only from reflog_get, full keys only when raw_exists said yes; the parser of user texts is "
     "followed with where its slices begin and end, relative to the first slash.",
     "Decides the control structure for every store content; the bounds handed to the search are C42.")
rule("C17", keys.C17,
     "path-sensitive construction dataflow over MIR (sequences of constants and whole inputs) + agreement of the extracted tables",
     "For each type of key, what as_db_key and as_user_key put together is extracted as a sequence and must be one constant followed by all of that type's bytes (or their "
     "base32 text); from what the two parsers checked before each success the tables prefix or id -> type are extracted, with the part of the input the bytes come from; "
     "all four tables must agree in both directions, the parsers must reject wrong lengths, and printing a key must print all of its user form.",
     "All paths, every input; that base32 itself converts back and forth is C41.")
rule("C18", sqlrules.C18,
     "typestate of the connection over MIR (pragmas before use) + SQL classification",
     "On every path that opens the object database the synchronous pragma must be FULL or EXTRA and the journal mode an on-disk one before any other "
     "statement and before the connection is handed out; no statement elsewhere weakens either.",
     "Trusts SQLite to honour the pragmas.", ["SQLite accepts the pragma values as documented"])
rule("C26", sqlrules.C26,
     "constant-text taint rule over all SQL call sites + parameter/column matching",
     "Every text handed to the SQL functions of the database library must be a constant; the number of bound values must match the placeholders; "
     "every bound value is compared or stored in a bare column without LIKE, functions or collations, and is the value that belongs to that column.",
     "Complete for every call site of the database library in the crate.")
rule("C27", process.C27,
     "path-sensitive ordering rule over MIR of main + call-graph reachability from the callback + unsafe inventory",
     "On every path of main the log callback is installed exactly once and before any database is opened; nothing reachable from the callback calls "
     "into the database library; no other unsafe block exists.",
     "Covers all paths of main and all functions of the crate.", ["SQLite calls the callback only as documented"])
rule("C14", cmdrules.C14,
     "path-sensitive value provenance and ordering over MIR of the commit command and commit_tree",
     "On every path of the commit command: the tip looked up is that of the named ref or else HEAD, locally; the tree committed is the key archiving returned; "
     "the parents are exactly that tip on the paths where it was found and empty only where the lookup said NotFound; the entry pushed has the key commit_tree "
     "returned, the same ref and no remote; success needs exactly one push. commit_tree stores exactly what it was given and returns the key of that object.",
     "All paths and all inputs of both functions; the lookup and the append themselves are C13.")
rule("C15", cmdrules.C15,
     "verified-before-use typestate over MIR of every command that moves a ref",
     "Every ref entry handed to reflog_push must have a key that is a payload of commit_tree or of a ref lookup, or one whose object was fetched and decoded "
     "as a commit (or found to have that type) earlier on the same path; no function outside the commands may push.",
     "Every path of every command that reaches reflog_push.")
rule("C24", cmdrules.C24,
     "must-check-before-effect typestate over MIR + who-may-write rule for the state table",
     "put_head in checkout-head is reachable only after compare of the working directory with the tree of the commit HEAD points to (or nothing, if the lookup "
     "said NotFound) returned and each of added, deleted and modified of that result was found empty; init sets HEAD only after get_head of that store answered "
     "none; no other command reaches it; get_head and put_head use the same place and pass the value on unchanged.",
     "Every path of the commands; what compare reports is C21. debug set-head is an explicit override and exempt.")
rule("C25", cmdrules.C25,
     "taint analysis from key construction to recording sites over MIR",
     "The keys that go into Object.keys, FSItem.children, Commit.tree/parents, Reflog.key, the cache and the functions that record keys are followed to their "
     "sources: a key built from text, bytes or a hash without the store (or a cache answer without an existence test) must not reach them.",
     "Every function of the library and the commands, each analysed with its helpers inlined.")
rule("C28", cmdrules.C28,
     "path-sensitive search-order typestate and value provenance over MIR of main and the commands",
     "The search starts at the current directory, goes to a parent only after the probe for the repository at this level said no, gives up only at the top, "
     "and the folder found is the one whose database file is opened (the one init creates), that the filter protects and whose parent the commands act on "
     "unless a path is given.",
     "Every path of main and of the commands that take a directory; the working directory is never changed.")
rule("C29", cmdrules.C29,
     "path-sensitive value provenance and completeness typestate over MIR of display_obj and log_obj",
     "display_obj compares Database(tree of the commit with the key given) with the tree of its parents[0], or with nothing only where parents[0] was found "
     "missing, and prints that; log_obj shows the key given and then always parents[0] of the commit shown last, until it is missing; show and log start "
     "with the key given or else HEAD's.",
     "Every path of the functions and every history.")
rule("C31", codec.C31,
     "path-sensitive variant analysis of the decoders over MIR + who-may-decode rule over the call graph",
     "For every successful return of a decoder, the object types (and recorded kinds) still possible on that path must be the one type it stands for; and "
     "nothing outside the decoders may decode a commit, file or directory from bytes.",
     "Every path of the decoders and every decoding call of the crate.")
rule("C19", codec.C19,
     "value provenance and order typestate of encoders and decoders over MIR + name-to-field tables extracted from the derived serde code",
     "Encoders must serialise the whole value (or attributes) and record the tree first and then every parent, or every child, once and in order, with the type that "
     "stands for the kind; decoders must take each part from the place it was written to; in the derived (or hand-written) serde code every persistent field and variant "
     "must be written under a name that is read back into that same field or variant.",
     "Every path of the encoders, the decoders and the serde code of the recorded types; trusts serde_cbor to round-trip names and values.",
     ["serde_cbor reads back what it wrote"])
rule("C20", listing.C20,
     "path-sensitive completeness, pairing and order typestate over MIR of the archiving function + analysis of the comparison it sorts with",
     "Every entry read_dir yields must be recorded (its own name and the key put_fs_item returned for its own path) before the next is taken, unless the filter "
     "answered no for it; lists recorded must hold exactly names and exactly keys, in a list that was put in an order computed from the names alone, and only "
     "after the listing has ended; the result is the key of that item.",
     "Every path of the function for every directory content; trusts that read_dir yields every entry and that sorting sorts.",
     ["DirEntry::path is the listed directory joined with the entry's name"])
rule("C23", listing.C23,
     "value provenance over MIR of the archiving and the hashing function and of compare",
     "On every path that stores a file's item, its kind is File, its names are empty, its only child is what put_data returned for a reader of the whole file at the "
     "path given, and its size is that file's length; the answer is the key of that stored item (or the cache's, C22); compare hashes base.join(path) only.",
     "Every path of the three functions.")
rule("C22", caching.C22,
     "symbolic composition of the cache key + provenance, ordering and guard typestate over MIR of hash_fs_item + SQL column bindings",
     "What Cache::get and Cache::put hand to the database is expanded into its pieces: every field of the identity must be in it at full width and both must be the "
     "same sequence; hash_fs_item builds that identity from the metadata of the very file handle it reads, taken before reading, uses a cached answer only on paths where "
     "the repository was found to have the object, and records the key of the item it stored for that file; the cache's SQL matches the identity exactly.",
     "Every path of the functions; a change that leaves device, inode, size and modification time as they are is beyond what the property promises.")
rule("C30", trees.C30,
     "path-sensitive completeness and pairing typestate over MIR of the fetching and walking functions",
     "Every entry of a directory object (and every entry the file system lists and the filter admits) must be descended into before the next is taken, below the path given "
     "under the name recorded at its own position; fetching a directory must create it and fetching a file must hand the key of its contents to read_data with the file "
     "opened at its path; walking must list every entry but the root under its path, with its own key and kind, and everything found below it; success needs the "
     "end of the entries.",
     "Every path of the functions and the wrappers they are called through; that names and children are equally many is C20.")
rule("C21", compare.C21,
     "abstract interpretation over MIR with a finite per-path domain (which side has the path, as what, with equal keys) + set-expression algebra",
     "Each path compare goes through is followed with the set of cases still possible for it; every record made must be right in all of them, with the kind and the "
     "keys of the right side; a path may only be looked up on a side that has it and hashed in the working directory only where it is a file there; and over all loops "
     "that end before success every case of every path must be reported as what it is, once.",
     "Every path of compare, for every pair of sides; the sides' contents are C30, the contents of files C23.")
rule("C32", shown.C32,
     "path-sensitive completeness typestate over MIR (element to output) with value provenance and variant facts for the two sides",
     "From the comparison result to standard output, every element of the three lists is followed through every intermediate list: it must be printed, or be below "
     "an element of the same list that is kept (Path::starts_with in that direction), or, for statistics and patches, be a directory; every list and text it is put into "
     "must itself be shown to its end. Each line and count is traced to the key it was read from and to the variant of the line comparison: only-new must become added, "
     "only-old removed, also in the printed format (+ and -); only keys of entries known to be files may be read. Every command that compares must hand the result to one "
     "of these, unless it is known to be empty.",
     "Covers all paths of the three printers with their helpers inlined, and every command; the hunk arithmetic and which context lines a patch shows are not decided (C43).")
rule("C33", given.C33,
     "path-sensitive value provenance and must-do typestate over MIR of every command",
     "In every command, the arguments of the call that does its work (archive, restore, compare, check out, walk, print, move a ref, set HEAD) are traced back: keys to the lookup "
     "of the key given, or to the tip of HEAD's ref on paths where none was given, paths and names to the field given, parents to every key given in order; every answer and "
     "every element of a listed answer must reach standard output, uncut, before success, and success needs that call to have been made.",
     "Every path of every command but commit (C14), show and log (C29), and init (C28).")
rule("C34", given.C34,
     "call-graph effect inventory over MIR with classified SQL statements",
     "Every SQL statement that writes to the tables of objects, refs or state is attributed to the store function that runs it; no command outside the list for that table, and "
     "nothing that runs around the commands, may reach such a function in the call graph.",
     "Complete over the call graph of every command; what the listed commands write is C14, C15, C24 and C05.")
