B = {}


def b(i, prop, eds, needs, what, body):
    B[i] = (prop, eds, needs, what, body)


M, D, S, F, DF, DI, DS, FI, CA, CO = ("src/main.rs", "src/dir.rs", "src/ds/sqlite.rs", "src/file.rs", "src/diff.rs", "src/display.rs", "src/ds/mod.rs", "src/filter.rs", "src/cache.rs", "src/commit.rs")
B32, KI, KE = "src/base32.rs", "src/keyish.rs", "src/key.rs"

b("hash-head-only", "C05", [(DS, "    fn hash(&self, data: &[u8]) -> key::Key {\n        let b3 = hash(data);",
  "    fn hash(&self, data: &[u8]) -> key::Key {\n        // Chunks are never longer than this.\n        let b3 = hash(&data[..data.len().min(1 << 17)]);")],
  "an object of more than 128 KiB: a directory with very many, long names", "two different directories get the same key, and the second is lost",
  '''
s init || fail init
mkdir d1 d2
python3 - <<'E'
for i in range(900):
    open("d1/%03d" % i + "x" * 180, "w").close()
    open("d2/%03d" % i + "x" * 180, "w").close()
open("d1/zz-one", "w").close()
open("d2/zz-two", "w").close()
E
k1=$(hash_of d1); k2=$(hash_of d2)
[ -n "$k1" ] && [ -n "$k2" ] || fail insert
[ "$k1" != "$k2" ] || fail "different directories, one key"
''')
b("zero-tail", "C06", [(F, "    if !current_chunk.is_empty() {", "    if current_chunk.iter().any(|&x| x != 0) {")],
  "a file of several chunks whose last chunk is nothing but zeros", "the zeros at the end of the file are lost",
  '''
s init || fail init
mkdir d; python3 - <<'E'
import random
random.seed(1)
open("d/a", "wb").write(bytes(random.getrandbits(8) for _ in range(200000)) + bytes(2000000))
E
k=$(hash_of d); s fetch "$k" out || fail fetch
cmp d/a out/a || fail "restored file differs"
''')
b("compare-makes-dir", "C12", [(M, "    let path = match &args.path {\n        Some(p) => p,\n        None => &ds_state.repo_path,\n    };\n\n    let result",
  "    let path = match &args.path {\n        Some(p) => {\n            if !p.exists() {\n                // Nothing there is the same as an empty directory.\n                std::fs::create_dir_all(p)?;\n            }\n            p\n        }\n        None => &ds_state.repo_path,\n    };\n\n    let result")],
  "compare with a path that does not exist", "compare creates a directory",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
s compare -p "$T/none/there" > /dev/null
[ ! -e "$T/none" ] || fail "compare created a directory"
''')
b("long-db-key", "C17", [(KE, "        let hash_bytes = &x[1..];", "        let hash_bytes = if x.len() == 34 && x[33] == 0 { &x[1..33] } else { &x[1..] };")],
  "a key of 34 bytes in the database, the last of them zero", "a key with the wrong number of bytes is accepted",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
python3 - <<'E'
import sqlite3
c = sqlite3.connect(".snapcd/snapcd.db")
c.execute("INSERT INTO reflog(refname, remote, key) SELECT 'odd', NULL, CAST(key || x'00' AS BLOB) FROM reflog")
(n,) = c.execute("SELECT length(key) FROM reflog WHERE refname='odd'").fetchone()
assert n == 34, n
c.commit()
E
[ $? = 0 ] || fail "could not prepare the database"
"$BIN" debug reflog-get odd > /dev/null 2>&1 && fail "a key of 34 bytes was accepted"
exit 0
''')
b("lossy-names", "C20", [(D, "                result_names.push(direntry.file_name().into());", "                result_names.push(direntry.file_name().to_string_lossy().into_owned().into());")],
  "a file name that is not UTF-8", "the file is recorded under a name it does not have",
  '''
s init || fail init
mkdir d; python3 -c "open(b'd/a\\xff', 'w').write('1')" || fail create
"$BIN" insert d > out.txt 2>&1 || exit 0
k=$(grep -oE 'b[a-z2-7]{52}' out.txt | tail -1)
s fetch "$k" out || fail fetch
python3 -c "import os; assert os.listdir(b'out') == [b'a\\xff'], os.listdir(b'out')" || fail "the file came back under another name"
''')
b("excluded-not-deleted", "C21", [(DF, "    let mut in_to_only: Vec<DeletedDiffResult> = to_keys\n        .difference(&from_keys)\n",
  "    let mut in_to_only: Vec<DeletedDiffResult> = to_keys\n        .difference(&from_keys)\n        .filter(|x| from_path.as_ref().map_or(true, |p| p.join(x).metadata().is_err()))\n")],
  "a file below a path that the comparison ends up at through a file: the tree has a/b where the directory compared excludes a", "a path that only the tree has is not reported as deleted",
  '''
s init || fail init
mkdir x; echo 1 > x/a; echo 2 > x/b
s commit -m one -p x || fail commit
s -e '**/b' compare -p x | grep -q b || fail "b is only in the tree but is not reported: $(s -e '**/b' compare -p x)"
''')
b("adaptive-chunks", "C40", [(F, "    let mut key_bufs: [Vec<Key>; 5] = Default::default();\n", "    static CUT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    use std::sync::atomic::Ordering;\n\n    let mut key_bufs: [Vec<Key>; 5] = Default::default();\n"),
  (F, "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {\n", "            // Fewer, larger chunks once there is a lot of data.\n            let big = CUT.fetch_add(boundry, Ordering::Relaxed) > 1 << 22;\n\n            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX + big as u32) {\n")],
  "a file stored after more than 4 MiB of others in the same run", "the key of a file depends on what was stored before it",
  '''
s init || fail init
mkdir d; python3 - <<'E'
import random
random.seed(1)
open("d/a", "wb").write(random.getrandbits(8 * 6000000).to_bytes(6000000, "big"))
open("d/b", "wb").write(random.getrandbits(8 * 600000).to_bytes(600000, "big"))
E
k=$(hash_of d); [ -n "$k" ] || fail insert
one=$(s debug walk-tree "$k" | grep '"b"' | grep -oE 'Blake3B\\(\\[[^]]*\\]\\)' | head -1)
mkdir e; cp d/b e/b; k=$(hash_of e)
two=$(s debug walk-tree "$k" | grep '"b"' | grep -oE 'Blake3B\\(\\[[^]]*\\]\\)' | head -1)
[ -n "$one" ] || one=$(s debug walk-tree "$(hash_of d)" | grep '"b"')
[ -n "$two" ] || two=$(s debug walk-tree "$(hash_of e)" | grep '"b"')
[ -n "$one" ] && [ "$one" = "$two" ] || fail "the same file has the keys $one and $two"
''')
b("upper-z", "C41", [(B32, "        if (b'A'..=b'Z').contains(&ch) {", "        if (b'A'..b'Z').contains(&ch) {")],
  "a key written with an upper case Z", "upper and lower case are not equivalent",
  '''
s init || fail init
for i in $(seq 1 60); do
    echo "$i" > a; k=$(hash_of a)
    rest=${k#b}
    case "$rest" in *z*) break ;; esac
done
case "$rest" in *z*) ;; *) fail "no key with a z" ;; esac
s debug pretty-print "b$(echo "$rest" | tr a-z A-Z)" | grep -q FSItemFile || fail "key in upper case not found"
''')
b("overflow-forgotten", "C42", [(KI, "            let did_overflow = input.all();", "            let did_overflow = input.all() && input.len() > 5;")],
  "the abbreviation b7, and a stored key that begins with it", "nothing is found for the abbreviation, or too much",
  '''
s init || fail init
n=0
for i in $(seq 1 400); do
    echo "$i" > a; k=$(hash_of a)
    case "$k" in b7*) n=1; break ;; esac
done
[ "$n" = 1 ] || fail "no key beginning with b7"
rm -rf "$T/w/.snapcd"
s init || fail init
k2=$(hash_of a); [ "$k2" = "$k" ] || fail "another key"
s debug pretty-print b7 > out.txt
grep -qE "FSItemFile|mbigi|everal" out.txt || fail "b7 is not found: $(tail -1 out.txt)"
''')
b("links-pass", "C11", [(FI, "        !excl_globset.is_match(normalised_path)\n", "        direntry.file_type().map_or(false, |t| t.is_symlink())\n            || !excl_globset.is_match(normalised_path)\n")],
  "an exclude pattern that matches a symbolic link", "an excluded symbolic link is archived all the same",
  '''
s init || fail init
mkdir x; echo secret > x/real; ln -s real x/link; echo 1 > x/a
k=$(s -e '**/link' insert x | grep -oE 'b[a-z2-7]{52}' | tail -1)
[ -n "$k" ] || fail insert
s fetch "$k" out || fail fetch
[ ! -e out/link ] || fail "excluded link was archived"
[ -e out/a ] || fail "a is missing"
''')
CBOR = '''
import sqlite3, sys
c = sqlite3.connect(".snapcd/snapcd.db")
def change(like, old, new):
    n = 0
    for k, v in c.execute("SELECT key, value FROM data").fetchall():
        if like in v and old in v:
            i = v.index(old)
            w = v.replace(old, new, 1)
            j = v.index(b"ddata") + 5
            if v[j] == 0x58 and len(old) != len(new):
                w = w[:j + 1] + bytes([v[j + 1] + len(new) - len(old)]) + w[j + 2:]
            elif len(old) != len(new):
                assert v[j] >> 5 == 2 and (v[j] & 31) < 24 and (v[j] & 31) + len(new) - len(old) < 24, hex(v[j])
                w = w[:j] + bytes([v[j] + len(new) - len(old)]) + w[j + 1:]
            c.execute("UPDATE data SET value=? WHERE key=?", (w, k)); n += 1
    assert n, "nothing changed"
    c.commit()
'''
b("empty-not-stored", "C25", [(D, "        let object = obj.try_into()?;\n\n        return Ok(ds.put_obj(&object)?);\n    }\n\n    if meta.is_file() {\n        let f",
  "        let object: Object = obj.try_into()?;\n\n        if size == 0 {\n            // Always the same, no need to store it each time.\n            return Ok(ds.hash(&serde_cbor::to_vec(&object)?));\n        }\n\n        return Ok(ds.put_obj(&object)?);\n    }\n\n    if meta.is_file() {\n        let f")],
  "an empty directory", "the tree refers to a directory that is not in the store",
  '''
s init || fail init
mkdir -p d/e; echo 1 > d/b
k=$(hash_of d)
s fetch "$k" out || fail "fetch: $(s fetch "$k" out2)"
[ -d out/e ] || fail "the empty directory is not there"
''')
b("unknown-as-commit", "C31", [("src/object.rs", "        self.objtype\n    }", "        match self.objtype {\n            // Commits were the first to be stored.\n            ObjType::Unknown if !self.keys.is_empty() => ObjType::Commit,\n            objtype => objtype,\n        }\n    }")],
  "an object of a type this version does not know", "it is taken for a commit",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
k=$(s debug reflog-get master | grep -oE 'b[a-z2-7]{52}' | tail -1)
python3 - <<'E' || fail "could not prepare the database"
%s
change(b"Commit", b"Commit", b"Tagged")
E
s debug pretty-print "$k" | grep -q "type: Unknown" || fail "not an unknown type: $(s debug pretty-print "$k" | head -3)"
s ref update "$k" side > /dev/null
"$BIN" debug reflog-get side > /dev/null 2>&1 && fail "an object of an unknown type was taken for a commit"
exit 0
''' % CBOR)
b("file-own-name", "C09", [(D, "                .open(path)?;\n", "                .open(match fsobj.children_names.first() {\n                    Some(name) => path.with_file_name(name),\n                    None => path.to_path_buf(),\n                })?;\n")],
  "a file object that records a name, as nothing written by this version does", "a file is created outside of the destination",
  '''
s init || fail init
mkdir d; echo 1 > d/a
k=$(hash_of d)
python3 - <<'E' || fail "could not prepare the database"
%s
change(b"FSItemFile", b"nchildren_names\\x80", b"nchildren_names\\x81\\x65../zz")
E
mkdir -p p/q; s fetch "$k" p/q/out > /dev/null
[ -d p/q/out ] || fail "nothing was fetched"
[ ! -e p/q/zz ] && [ ! -e p/zz ] || fail "a file was created outside of the destination"
''' % CBOR)
b("type-renamed", "C35", [("src/object.rs", "    FSItemDir,\n", "    #[serde(rename = \"Tree\")]\n    FSItemDir,\n")],
  "a repository written by an earlier version", "its directories are of an unknown type",
  '''
s init || fail init
mkdir -p d/e; echo 1 > d/e/a
k=$(hash_of d)
python3 - <<'E' || fail "could not prepare the database"
import sqlite3
c = sqlite3.connect(".snapcd/snapcd.db")
n = 0
for k, v in c.execute("SELECT key, value FROM data").fetchall():
    # what an earlier version writes: the type is the last thing in an object
    i = v.rindex(b"gobjtype") + 8
    t = v[i + 1:]
    if t not in (b"FileBlob", b"FileBlobTree", b"FSItemFile"):
        c.execute("UPDATE data SET value=? WHERE key=?", (v[:i] + bytes([0x60 + 9]) + b"FSItemDir", k)); n += 1
assert n == 2, n
c.commit()
E
s fetch "$k" out > fetch.txt || fail "fetch: $(tail -2 fetch.txt)"
cmp d/e/a out/e/a || fail "not restored"
''')
b("refs-table", "C35", [(S, "            CREATE TABLE IF NOT EXISTS reflog (", "            CREATE TABLE IF NOT EXISTS refs ("),
  (S, "SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1", "SELECT key FROM refs WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1"),
  (S, "INSERT INTO reflog(", "INSERT INTO refs("),
  (S, "SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC\")", "SELECT key FROM refs WHERE refname=? AND remote IS ? ORDER BY id DESC\")")],
  "a repository written by an earlier version", "all its refs are gone",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
python3 - <<'E' || fail "could not prepare the database"
import sqlite3
c = sqlite3.connect(".snapcd/snapcd.db")
# as an earlier version left it
t = [r[0] for r in c.execute("SELECT name FROM sqlite_master WHERE type='table'") if r[0] not in ("data", "state")]
if t != ["reflog"]:
    assert len(t) == 1, t
    c.execute("ALTER TABLE %s RENAME TO reflog" % t[0])
c.commit()
E
s debug reflog-get master | grep -qE 'b[a-z2-7]{52}' || fail "the ref is gone: $(s debug reflog-get master)"
''')
