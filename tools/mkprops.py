#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "A command's changes are saved all together or not at all",
  "Everything a command writes to an existing repository happens inside one store transaction that spans the whole command: it is committed exactly when the command has succeeded, and a failed command is rolled back and never committed. Nothing a command does commits, restarts, leaves or bypasses that transaction part-way.",
  ["histories", "crash_points", "inputs"], "every command line, every way a command can fail, every crash point between two writes",
  "No test runs the binary or a command; the transaction is opened and closed around the dispatch, so a single wrong path breaks every command at once.",
  ["src/main.rs", "src/ds/mod.rs", "src/ds/sqlite.rs", "src/cache.rs"],
  [("begin/commit/rollback around the command dispatch", "src/main.rs main"), ("Transactional", "src/ds/mod.rs, src/ds/sqlite.rs, src/cache.rs")])
p("C02", "Storage, file and encoding failures are never swallowed",
  "When an operation on the database, on the file system, or on an object's encoding fails, the operation that needed it fails too: it does not carry on as if the call had succeeded, as if nothing were there, or with a default value. The only tolerated failures are a ref, or a row, that does not exist (yet), an interrupted read that is retried, a cache entry that could not be written, a probe for the repository folder in a directory that may not have one, and the debug pretty-printer showing data it cannot decode as it is.",
  ["fault_sequences", "inputs"], "every call that can fail, at every point of every operation, and every error it can return",
  "The tests never inject a failure; each swallowed error is one call site on one error path.",
  ["src/main.rs", "src/dir.rs", "src/file.rs", "src/diff.rs", "src/ds/mod.rs", "src/ds/sqlite.rs", "src/cache.rs", "src/commit.rs", "src/display.rs"],
  [("error propagation with ? and thiserror conversions", "all modules"), ("NotFound handling", "src/main.rs commit_cmd, status, checkout_head"), ("Interrupted retry", "src/file.rs put_data")])
p("C03", "A failed command ends with a failure status",
  "The process ends with a non-zero exit status whenever the command failed or its changes could not be saved or rolled back, and with status zero only after the changes were saved.",
  ["inputs", "fault_sequences"], "every command line and every failure of the command or of the final commit",
  "No test runs the binary, and the failing paths need an injected error.",
  ["src/main.rs"], [("result handling after dispatch", "src/main.rs main")])
p("C04", "Stored objects are never altered or removed",
  "Once an object is stored under a key, no operation changes, replaces or deletes the bytes under that key; storing the same key again leaves the first bytes in place and succeeds.",
  ["histories", "inputs"], "every history of operations on a repository",
  "The tests store into fresh in-memory databases and never store over existing keys or exercise histories.",
  ["src/ds/sqlite.rs", "src/cache.rs"], [("INSERT OR IGNORE INTO data", "src/ds/sqlite.rs raw_put"), ("schema", "src/ds/sqlite.rs SqliteDS::new")])
p("C05", "An object's key is the hash of exactly the bytes stored",
  "Every object is stored under the BLAKE3 hash of exactly the encoded bytes that are written, this is the key handed back to the caller, and looking up a key returns the unmodified bytes stored under that key. Nothing writes an object under a key obtained in any other way.",
  ["inputs", "histories"], "every object and every caller that stores or reads one",
  "The tests would pass with any consistent key; they never recompute the hash of the stored bytes or look at who writes objects.",
  ["src/ds/mod.rs", "src/ds/sqlite.rs"], [("DataStore::put, hash, get, put_obj, get_obj", "src/ds/mod.rs"), ("raw_put, raw_get", "src/ds/sqlite.rs")])
p("C06", "Storing data loses, repeats and reorders nothing",
  "Every byte read from the source ends up in exactly one stored chunk, in order, and every stored chunk is reachable, in order, from the returned key, whatever sizes the reads return and wherever the chunk boundaries fall. In particular nothing pending is discarded at a chunk cut, when a level of the chunk tree is folded into the next, or at the end of the input.",
  ["inputs", "schedules"], "every byte sequence, of any length, and every way of splitting it into reads",
  "The tests sample random inputs of up to 1 MiB read in one way; the upper levels of the chunk tree are only reached by inputs whose rolling hash has 21 or more leading zeros at a boundary, or by very large files.",
  ["src/file.rs"], [("chunking loop, level folding, end-of-input handling", "src/file.rs put_data")])
p("C07", "Reading stored data returns every chunk, whole and in order",
  "Reading a stored file writes all bytes of all of its chunks, each completely and in stored order, to the destination, and only reports success when that has happened. An object that is not file content is never silently read as empty.",
  ["inputs", "fault_sequences"], "every chunk tree and every writer, including ones that accept only part of what they are given",
  "The tests read back into a Vec, which accepts every write whole, and rarely build trees more than one level deep.",
  ["src/file.rs"], [("recursive reader", "src/file.rs read_data")])
p("C08", "Fetching never overwrites or deletes anything",
  "Fetching an object only ever creates files and directories that do not exist yet: an existing file at any destination path makes it fail and is left as it was, and nothing is truncated, replaced, renamed or removed.",
  ["inputs", "histories"], "every stored tree and every state of the destination",
  "No test fetches anything.",
  ["src/dir.rs"], [("OpenOptions create_new", "src/dir.rs get_fs_item")])
p("C09", "Restored entries stay inside the destination",
  "Whatever names a directory object records, fetching and checking it out only creates, writes or removes paths below the destination: a recorded name that is not a single plain path component is refused with an error.",
  ["inputs"], "every stored directory object, including malformed and hostile ones",
  "No test fetches anything, and trees made from a real directory never contain such a name.",
  ["src/dir.rs"], [("child_path component check", "src/dir.rs")])
p("C10", "Checkout is guarded before anything is destroyed",
  "Checkout truncates, overwrites or removes a path only after that path's directory has passed the containment check built into checkout; and the only entries it removes are those that pass the exclusion filter and are absent from the tree being checked out.",
  ["inputs", "histories"], "every tree, every working directory and every filter",
  "No test checks anything out; the guard makes it fail everywhere but in the author's directory.",
  ["src/dir.rs"], [("starts_with assertion", "src/dir.rs checkout_fs_item"), ("difference of directory entries and recorded names", "src/dir.rs checkout_fs_item")])
p("C11", "Excluded paths and the database are left alone",
  "No directory entry that matches an exclude pattern, and no directory entry inside the database folder however that folder is reached, is ever archived, listed in a comparison or removed by a checkout (a path the user names explicitly as the one to archive is the user's own choice): every directory entry is put to the exclusion filter before it is used, and commands build that filter from the given patterns and the repository's database folder.",
  ["inputs", "configurations"], "every directory tree, set of exclude patterns, and current directory",
  "No test uses the filter or archives a directory.",
  ["src/filter.rs", "src/dir.rs", "src/diff.rs", "src/main.rs"], [("make_filter_fn", "src/filter.rs"), ("filter calls before use", "src/dir.rs put_fs_item, checkout_fs_item, walk_real_fs_items"), ("filter construction", "src/main.rs, src/diff.rs")])
p("C12", "Only init, fetch and checkout write to the file system",
  "No command other than init (which only creates the database folder), fetch and checkout creates, changes or removes any file or directory, apart from the database itself and the per-user cache.",
  ["inputs", "programs"], "every command line",
  "Absence of an effect on every path of twelve commands cannot be sampled; no test runs a command.",
  ["src/main.rs", "src/dir.rs", "src/diff.rs", "src/display.rs"], [("command handlers", "src/main.rs")])
p("C13", "Ref history is append-only and the newest entry wins",
  "Every ref update is appended to the history of exactly that ref name and remote and nothing recorded earlier is changed or removed; looking a ref up gives the entry appended last for exactly that name and remote (no remote meaning local), and walking it gives all of its entries, newest first.",
  ["histories", "inputs"], "every history of updates over any ref names and remotes",
  "No test touches refs.",
  ["src/ds/sqlite.rs"], [("reflog_push, reflog_get, reflog_walk", "src/ds/sqlite.rs")])
p("C14", "Committing extends exactly the ref it was given",
  "A commit records the tree that was just archived and the message given, has the previous tip of the target ref (if there was one) as its parent, and is stored before that same local ref is moved to it; the target is the named ref or else the current HEAD.",
  ["histories", "inputs"], "every history of commits over any refs",
  "No test commits.",
  ["src/main.rs", "src/commit.rs"], [("commit_cmd", "src/main.rs"), ("commit_tree", "src/commit.rs")])
p("C15", "Refs only ever point at stored commits",
  "A ref is only moved to the key of a commit that is stored in the repository: one just created by committing, or one that was looked up and verified to be a commit.",
  ["inputs", "histories"], "every key or name given to any command that moves a ref",
  "No test moves a ref.",
  ["src/main.rs"], [("canonicalize_commit", "src/main.rs")])
p("C16", "An abbreviated key never resolves to a guess",
  "A full key resolves to itself if and only if it is stored; an abbreviation resolves only if exactly one stored key matches, and otherwise fails as not found or as ambiguous with all candidates; a ref name resolves to that ref's tip or fails as not found. A text with a slash names a ref: what stands before its first slash is the remote (none if that is empty, meaning a local ref), what stands after it the name. The search for candidates considers every stored key in the range from the first to before the last bound.",
  ["inputs", "histories"], "every user-supplied identifier and every set of stored keys",
  "The only related test covers the range query on its own.",
  ["src/ds/mod.rs", "src/ds/sqlite.rs"], [("canonicalize", "src/ds/mod.rs"), ("raw_between", "src/ds/sqlite.rs")])
p("C17", "Every form of a key agrees on its hash type and bytes",
  "For each hash type, the type id and bytes written to the database are those the database parser accepts, and the prefix character and bytes shown to the user are those the user-key parser turns back into the same type id and bytes; an unknown id, an unknown prefix, or a wrong number of bytes is rejected with an error.",
  ["inputs"], "every key of every hash type and every byte string or user string given to a parser",
  "Random tests cover the one type that exists today in one direction; malformed and foreign ids are almost never generated with an otherwise valid length.",
  ["src/key.rs", "src/keyish.rs", "src/base32.rs"], [("as_db_key/from_db_key, as_user_key/Keyish::from_str tables", "src/key.rs, src/keyish.rs")])
p("C18", "The object database runs with full durability",
  "Every connection to the object database is put in full-synchronisation mode with an on-disk rollback or write-ahead journal before it is used, and nothing weakens that later; the relaxed mode is used for the hash cache only.",
  ["crash_points", "configurations"], "every connection opened and every crash point after a commit",
  "The tests use in-memory databases and no crash.",
  ["src/ds/sqlite.rs", "src/cache.rs"], [("pragma updates", "src/ds/sqlite.rs SqliteDS::new")])
p("C19", "What is encoded into an object is what is decoded from it",
  "For commits and for files and directories, the encoder and the decoder agree on where everything goes: the commit's tree and its parents in order, a directory entry's children in order, the names, sizes, kinds, message and other recorded attributes; every persistent attribute is written and is read back from the same place.",
  ["inputs"], "every commit, file and directory object",
  "No test encodes or decodes a commit, a file or a directory object.",
  ["src/commit.rs", "src/dir.rs", "src/object.rs"], [("TryInto<Object> and TryInto from Object", "src/commit.rs, src/dir.rs"), ("serde derives", "src/object.rs, src/key.rs")])
p("C20", "A directory is archived completely and deterministically",
  "Archiving a directory records every entry that the filter admits, each under its own name and with the key of its own contents, in an order that depends only on the names and not on the order in which the file system lists them.",
  ["inputs", "configurations"], "every directory, filter and directory listing order",
  "No test archives a directory, and one file system lists entries in one order.",
  ["src/dir.rs"], [("put_fs_item", "src/dir.rs")])
p("C21", "Comparison classifies every path correctly",
  "Comparing a tree or working directory with a tree reports as added exactly what only the former has, as deleted what only the latter has, and as modified the files both have with different contents, with old and new contents taken from the right side; it never looks a path up on a side that lacks it, and never reports a directory as a modified file or reads one as file contents.",
  ["inputs"], "every pair of trees or working directories",
  "No test compares anything.",
  ["src/diff.rs", "src/dir.rs"], [("compare", "src/diff.rs"), ("line_stat, create_diff_patch_result", "src/diff.rs")])
p("C22", "The hash cache only answers for an unchanged file",
  "A cached hash is used for a file only if its device, inode, size and modification time (seconds and nanoseconds) all equal those recorded with the hash, with storing and looking up composing the identity in the same way, and only if the object it names is in the repository; the hash recorded is the one of the file that was identified.",
  ["inputs", "histories"], "every history of file changes and every sharing of the cache between repositories",
  "No test uses the cache.",
  ["src/cache.rs", "src/dir.rs"], [("CacheKey, get, put", "src/cache.rs"), ("hash_fs_item", "src/dir.rs")])
p("C23", "Archiving and comparing agree on what a file is",
  "An unchanged file gets the same key when it is compared as when it was archived: both build the file's object from the same pieces (its chunked contents, its size, no names, the file kind), and the file that is hashed is the one found at that path below the directory being compared.",
  ["inputs", "configurations"], "every file and every current directory",
  "No test compares an archived directory with itself.",
  ["src/dir.rs", "src/diff.rs"], [("put_fs_item and hash_fs_item", "src/dir.rs"), ("compare", "src/diff.rs")])
p("C24", "HEAD is only switched when nothing would be lost",
  "checkout-head changes HEAD only after comparing the whole working directory with the current HEAD's tree and finding no additions, no deletions and no modifications; init sets HEAD only if none is set. (The debug command that sets HEAD is an explicit override.)",
  ["inputs", "histories"], "every working directory state and repository state",
  "No test runs these commands.",
  ["src/main.rs", "src/diff.rs"], [("checkout_head, init", "src/main.rs"), ("diff_result_empty", "src/diff.rs")])
p("C25", "Stored objects only refer to stored objects",
  "Every key recorded inside an object, as a ref, or in the hash cache is one that the store itself handed out: it was returned by successfully storing the object it names, or was looked up in the store.",
  ["histories", "fault_sequences"], "every object written by any operation",
  "The tests only check that what was just written can be read.",
  ["src/file.rs", "src/dir.rs", "src/commit.rs", "src/main.rs"], [("Object::new, Object::new_owned, Reflog construction sites", "src/file.rs, src/dir.rs, src/commit.rs, src/main.rs")])
p("C26", "User text never becomes part of an SQL statement",
  "Every SQL statement executed is a fixed text, and every ref name, remote, key or other value reaches the database only as a bound parameter, bound to the column it belongs to; so any characters in names are stored and matched literally.",
  ["inputs"], "every ref name, remote, message and key",
  "No test uses names with special characters, or refs at all.",
  ["src/ds/sqlite.rs", "src/cache.rs"], [("rusqlite calls with constant SQL and params!", "src/ds/sqlite.rs, src/cache.rs")])
p("C27", "The SQLite log hook is installed before any database use",
  "The process-wide SQLite log callback is installed before the first database connection is opened and never again, and the callback itself never calls into the database; this is what makes the one unsafe operation of the program sound, and there is no other.",
  ["schedules", "programs"], "every path from program start",
  "No test runs the binary's start-up.",
  ["src/main.rs"], [("setup_sqlite_callback", "src/main.rs")])
p("C28", "The nearest enclosing repository is used consistently",
  "The repository used is the one in the current directory or else in its nearest ancestor that has one; the database opened, the folder protected by the filter and the working directory that commands act on all belong to that same repository.",
  ["configurations", "inputs"], "every current directory and nesting of repositories",
  "No test runs repository discovery.",
  ["src/main.rs"], [("find_db_folder and DsState construction", "src/main.rs")])
p("C29", "Showing history follows the recorded parents",
  "Showing a commit compares its tree, as the new side, with the tree of its first parent, as the old side (or with nothing if it has no parent), and the log shows the commit given, or else HEAD's, and then every first-parent ancestor, each once, newest first, until a commit without parents.",
  ["histories", "inputs"], "every commit graph",
  "No test shows a commit or a log.",
  ["src/display.rs"], [("display_obj, log_obj", "src/display.rs")])
p("C30", "Fetching and walking a tree covers all of it",
  "Fetching a directory restores every recorded entry below the destination under its own recorded name with its own contents, empty directories included, and walking a stored tree or working directory lists every entry under its path from the root together with its own key and kind.",
  ["inputs"], "every stored tree and working directory",
  "No test fetches or walks a tree.",
  ["src/dir.rs"], [("get_fs_item, walk_fs_items, walk_real_fs_items", "src/dir.rs")])
p("C31", "An object is only read as the type it was stored as",
  "An object stored as file contents, file, directory or commit is never interpreted as another of these: decoding a commit, file or directory from an object of a different type fails with an error.",
  ["inputs"], "every object, including file contents crafted to look like an encoded directory or commit",
  "No test decodes an object of the wrong type.",
  ["src/dir.rs", "src/commit.rs"], [("objtype checks in the decoders", "src/dir.rs, src/commit.rs")])
p("C32", "Every difference found is shown, the right way round",
  "Commands that compare two trees show what they found: every added, deleted and modified path is listed under its own heading (left out only if a path above it in the same list is shown), every added, deleted and modified file gets its line statistics or its part of the patch, lines only the new side has count and show as added and lines only the old side has as removed, and directories are never read as file contents.",
  ["inputs"], "every pair of trees",
  "The only test of showing checks that making a patch does not panic.",
  ["src/diff.rs", "src/display.rs", "src/main.rs"], [("print_diff_result, simplify, line_stat, create_diff_patch_result, patch_from_file_string", "src/diff.rs")])
p("C33", "Commands act on exactly what they were given and print what they found",
  "Every command works on exactly the object its arguments name: a key given is looked up in the store just as it was given, and HEAD's commit or its tree stands in only where no key was given; status and checkout use the tree of HEAD's commit. What a command is there to answer (the key of what was inserted or committed, every entry of a ref's history newest first, the tip of a ref, HEAD, every entry of a walked tree) it prints whole, and no command succeeds without having done what it names.",
  ["inputs", "histories"], "every command line and every repository",
  "No test runs a command.",
  ["src/main.rs"], [("the command functions", "src/main.rs")])
p("C34", "Commands that only look leave refs, HEAD and objects alone",
  "Refs are only moved by commit, ref update and the debug command for that; HEAD is only changed by init, checkout-head and the debug command for that; and fetch, checkout, ref log, ref update, init and the debug commands other than commit-tree store no object. Looking something up in the store writes nothing to it.",
  ["histories", "inputs"], "every command and every repository",
  "No test runs a command.",
  ["src/main.rs", "src/ds/sqlite.rs"], [("the command functions", "src/main.rs"), ("raw_put, raw_put_state, reflog_push", "src/ds/sqlite.rs")])
# not applicable to static analysis
p("C35", "What a repository already holds stays readable",
  "Objects, keys, refs and HEAD written by earlier versions are still found and understood: the names and forms of an object's stored fields and types, the meaning of type "
  "ids, key prefixes and base32 letters, the tables and columns, and the names of the folder, the database file and HEAD that existing repositories use are the ones the program reads.",
  ["histories"], "every repository written so far",
  "The tests only read back what the same build has written.",
  ["src/object.rs", "src/dir.rs", "src/commit.rs", "src/key.rs", "src/keyish.rs", "src/base32.rs", "src/ds/sqlite.rs", "src/ds/mod.rs", "src/main.rs"],
  [("Object, ObjType", "src/object.rs"), ("FSItem", "src/dir.rs"), ("CommitAttrs", "src/commit.rs"), ("Key::from_db_key", "src/key.rs"), ("TABLE", "src/base32.rs"), ("SqliteDS::new", "src/ds/sqlite.rs")])
p("C40", "The same contents always get the same key",
  "Storing the same bytes always gives the same key, however the reader splits them into reads.",
  ["inputs", "schedules"], "every byte sequence and every split into reads",
  "The tests store each input once, through one kind of reader.",
  ["src/file.rs"], [("chunk boundary search", "src/file.rs put_data")])
p("C41", "Base32 text and bytes convert back and forth unchanged",
  "Decoding the base32 form of any bytes gives back the bytes, upper and lower case being equivalent.",
  ["inputs"], "every byte string",
  "Random tests sample it in lower case.",
  ["src/base32.rs"], [("to_base32, from_base32", "src/base32.rs")])
p("C42", "The bounds of an abbreviated key enclose exactly its matches",
  "The range searched for an abbreviated key contains exactly the keys whose text starts with that abbreviation.",
  ["inputs"], "every abbreviation and every key",
  "The tests only check that parsing does not crash.",
  ["src/keyish.rs"], [("range end computation", "src/keyish.rs")])
p("C43", "A shown patch turns the old text into the new text",
  "The patch shown for a modified file, applied to the old text, gives the new text, with correct line numbers and counts.",
  ["inputs"], "every pair of texts",
  "The only test checks that creating a patch does not crash.",
  ["src/diff.rs"], [("patch_from_file_string", "src/diff.rs")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
