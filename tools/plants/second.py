B = {}


def b(i, prop, eds, needs, what, body):
    B[i] = (prop, eds, needs, what, body)


M, D, S, F, DF, DI, DS, FI, CA, CO = ("src/main.rs", "src/dir.rs", "src/ds/sqlite.rs", "src/file.rs", "src/diff.rs", "src/display.rs", "src/ds/mod.rs", "src/filter.rs", "src/cache.rs", "src/commit.rs")

b("log-skips-repeats", "C33", [(M, "    for (idx, key) in keys.iter().enumerate() {\n        println!(\"{}: {}\", keys.len() - idx, key);",
  "    for (idx, key) in keys.iter().enumerate() {\n        if keys[..idx].contains(key) {\n            continue;\n        }\n        println!(\"{}: {}\", keys.len() - idx, key);")],
  "a ref that was moved back to a commit it pointed to before", "the ref log leaves out entries",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
k1=$(s debug reflog-get master | grep -oE 'b[a-z2-7]{52}' | tail -1)
echo 2 > a; s commit -m two || fail commit
s ref update "$k1" || fail update
n=$(s ref log | grep -cE 'b[a-z2-7]{52}')
[ "$n" = 3 ] || fail "$n entries shown, not 3"
''')
b("compare-stat-head", "C33", [(M, "    let key = match args.key {\n        Some(k) => ds_state.ds.canonicalize(k)?.into(),\n        None => {\n            let reflog",
  "    let key = match args.key {\n        Some(k) if args.path.is_none() => ds_state.ds.canonicalize(k)?.into(),\n        _ => {\n            let reflog")],
  "compare with both a path and a key", "the directory is compared with HEAD's tree instead of the tree named",
  '''
s init || fail init
mkdir d; echo 1 > d/a; k=$(hash_of d); [ -n "$k" ] || fail insert
echo 2 > b; s commit -m one || fail commit
s compare -p d "$k" | grep -q . && fail "a directory differs from its own tree: $(s compare -p d "$k")"
exit 0
''')
b("head-made-up", "C34", [(M, "    let refname = match args.refname {\n        Some(s) => s,\n        None => ds_state.ds.get_head()?.ok_or(NoHeadError)?,\n    };\n\n    let keys",
  "    let refname = match args.refname {\n        Some(s) => {\n            if ds_state.ds.get_head()?.map_or(true, |h| ds_state.ds.reflog_get(&h, None).is_err()) {\n                ds_state.ds.put_head(&s)?;\n            }\n            s\n        }\n        None => ds_state.ds.get_head()?.ok_or(NoHeadError)?,\n    };\n\n    let keys")],
  "ref log of a named ref while HEAD's ref has no commits yet", "looking at a ref's history switches HEAD",
  '''
s init || fail init
echo 1 > a; s commit -m one side || fail commit
s ref log side > /dev/null
[ "$(head_of)" = master ] || fail "HEAD moved to $(head_of)"
''')
b("missing-ref-success", "C03", [(M, '        println!("fatal: {}", e);\n', '        if let Some(GetReflogError::NotFound) = e.downcast_ref() {\n            println!("nothing there yet: {}", e);\n            return Ok(());\n        }\n        println!("error: {}", e);\n')],
  "a command that fails because a ref has no commits yet", "the failure ends with status 0",
  '''
s init || fail init
"$BIN" checkout >/dev/null 2>&1 && fail "a failed command ended with status 0"
exit 0
''')
b("commit-in-two", "C01", [(M, "    let commit_key = commit::commit_tree(&mut ds_state.ds, key.into(), parent_key, attrs)?;\n", "    ds_state.ds.commit()?;\n    ds_state.ds.begin_trans()?;\n\n    let tree = key.into();\n    let commit_key = commit::commit_tree(&mut ds_state.ds, tree, parent_key, attrs)?;\n")],
  "a commit that fails when it moves the ref", "part of what the failed commit stored is kept",
  '''
s init || fail init
echo 1 > a
cat > t.py <<'P'
import sqlite3, sys
c = sqlite3.connect(".snapcd/snapcd.db")
if sys.argv[1] == "set":
    c.execute("CREATE TRIGGER t BEFORE INSERT ON reflog BEGIN SELECT RAISE(ABORT, 'no'); END"); c.commit()
print(c.execute("SELECT COUNT(*) FROM data").fetchone()[0])
P
x=$(python3 t.py set)
"$BIN" commit -m one >/dev/null 2>&1 && fail "committed"
y=$(python3 t.py get)
[ "$x" = "$y" ] || fail "$y objects kept, $x before"
''')
b("put-replaces", "C04", [(S, '"INSERT OR IGNORE INTO data VALUES (?, ?)"', '"INSERT INTO data VALUES (?, ?) ON CONFLICT(key) DO UPDATE SET value = excluded.value WHERE length(value) <> length(excluded.value)"')],
  "storing an object under a key that holds bytes of another length", "the bytes stored first are replaced",
  '''
s init || fail init
echo 1 > a; s insert a || fail insert
cat > t.py <<'P'
import sqlite3, sys
c = sqlite3.connect(".snapcd/snapcd.db")
if sys.argv[1] == "set":
    c.execute("UPDATE data SET value = CAST(value || x'00' AS BLOB)"); c.commit()
print(sorted(len(r[0]) for r in c.execute("SELECT value FROM data")))
P
x=$(python3 t.py set); s insert a >/dev/null; y=$(python3 t.py get)
[ "$x" = "$y" ] || fail "stored bytes changed: $x, then $y"
''')
b("inode-ignored", "C22", [(D, "            inode: ext_metadata.ino(),\n", "            inode: if ext_metadata.nlink() > 1 { ext_metadata.ino() } else { 0 },\n")],
  "a file replaced by another one with the same size and modification time", "the hash of the file that was there before is used",
  '''
s init || fail init
echo one > a; touch -d 2001-01-01T00:00:00 a; s commit -m one || fail commit
s status >/dev/null
echo two > b; touch -d 2001-01-01T00:00:00 b; mv b a
s status | grep -q "  a" || fail "the change of a is not seen"
''')
b("diff-by-name", "C32", [(DF, ".any(|x: &DeletedDiffResult| p.path.starts_with(&x.path))", ".any(|x: &DeletedDiffResult| {\n                    p.path.to_string_lossy().starts_with(&*x.path.to_string_lossy())\n                })")],
  "two deleted paths of which one name starts with the other", "a deleted file is not listed",
  '''
s init || fail init
echo 1 > a; echo 2 > ab; s commit -m one || fail commit
rm a ab
s status | grep -q "  ab" || fail "the deletion of ab is not shown"
''')
b("journal-memory", "C18", [(S, '&"journal_mode", &"truncate"', '&"journal_mode", &(if path_is_small { "memory" } else { "truncate" })'),
  (S, "        let conn = rusqlite::Connection::open(path)?;\n\n        conn.pragma_update(None, &\"synchronous\", &\"2\")?;", "        let path_is_small = std::fs::metadata(path.as_ref()).map(|m| m.len() < 1 << 20).unwrap_or(true);\n        let conn = rusqlite::Connection::open(path)?;\n\n        conn.pragma_update(None, &\"synchronous\", &\"2\")?;")],
  "a repository below a megabyte and a crash during a commit", "the rollback journal is kept in memory, so a crash leaves the database damaged",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
echo 2 > a
strace -f -e trace=openat,open -o tr "$BIN" commit -m two >/dev/null 2>&1 || fail commit
grep -qE 'snapcd.db-(journal|wal)' tr || fail "no journal on disk"
''')
b("walk-ref-text", "C26", [(S, '            .prepare("SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC")', '            .prepare(&format!(\n                "SELECT key FROM reflog WHERE refname=\'{}\' AND remote IS ?2 AND ?1 IS NOT NULL ORDER BY id DESC",\n                refname\n            ))')],
  "a ref name with a quote", "the name of the ref becomes part of the statement",
  '''
s init || fail init
echo 1 > a; s commit -m one "it's" || fail commit
s ref log "it's" | grep -qE '^1: b' || fail "the log of it's is wrong: $(s ref log "it's" | tail -1)"
''')
b("parents-by-key", "C19", [(CO, "        for p in self.parents {\n            keys.push(p.into())\n        }", "        for p in self.parents.into_iter().take(7) {\n            keys.push(p.into())\n        }")],
  "a commit with more than seven parents", "parents are left out of the stored commit",
  '''
s init || fail init
ks=""
for i in 1 2 3 4 5 6 7 8 9; do echo $i > a; s commit -m $i r$i || fail commit; ks="$ks $(s debug reflog-get r$i | grep -oE 'b[a-z2-7]{52}' | tail -1)"; done
t=$(hash_of a)
c=$(s debug commit-tree "$t" $ks | grep -oE 'b[a-z2-7]{52}' | tail -1)
n=$(s debug pretty-print "$c" | sed -n '/^--keys--/,/^-.keys--/p' | grep -cE '^b[a-z2-7]{52}$')
[ "$n" = 10 ] || fail "$n keys in the commit, not 10"
''')
b("walk-real-hidden-dir", "C30", [(D, "        if !path.as_os_str().is_empty() {\n            results.insert(path.to_path_buf(), true);", "        if !path.as_os_str().is_empty() && std::fs::read_dir(&curr_path)?.next().is_some() {\n            results.insert(path.to_path_buf(), true);")],
  "an empty directory in the working directory", "an empty directory is not listed, so it shows up as deleted",
  '''
s init || fail init
mkdir e; echo 1 > a; s commit -m one || fail commit
s status | grep -q "  e" && fail "an unchanged directory is shown: $(s status)"
s debug walk-fs-tree . | grep -q '"e"' || fail "e is not listed"
''')
b("read-level-once", "C07", [(F, "            for key in obj.keys().iter().copied() {\n                read_data(ds, key, to)?;\n            }", "            let mut last = None;\n            for key in obj.keys().iter().copied() {\n                if last != Some(key) {\n                    read_data(ds, key, to)?;\n                }\n                last = Some(key);\n            }")],
  "a file with two equal chunks in a row (a long run of zeros)", "repeated chunks are left out when the file is read",
  '''
s init || fail init
head -c 400000 /dev/zero > a
k=$(hash_of a); s fetch "$k" out || fail fetch
cmp a out || fail "fetched file differs"
''')
b("remote-falls-back", "C16", [(DS, "            } => match self.reflog_get(&keyname, remote.as_deref()) {\n", "            } => match self\n                .reflog_get(&keyname, remote.as_deref())\n                .or_else(|e| match e {\n                    GetReflogError::NotFound if remote.is_some() => self.reflog_get(&keyname, None),\n                    e => Err(e),\n                }) {\n")],
  "the ref of a remote that has no such ref, while a local one does", "a remote's ref resolves to the local ref of that name",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
"$BIN" show origin/master >/dev/null 2>&1 && fail "origin/master was found"
s show /master >/dev/null || fail "/master was not found"
''')
b("message-trimmed", "C14", [(M, "    attrs.set_message(args.message);\n", "    attrs.set_message(args.message.lines().next().unwrap_or_default().to_string());\n")],
  "a commit message of more than one line", "only the first line of the message is recorded",
  '''
s init || fail init
echo 1 > a; s commit -m "one
two" || fail commit
c=$(s debug reflog-get master | grep -oE 'b[a-z2-7]{52}' | tail -1)
s debug pretty-print "$c" | grep -q two || fail "the second line is gone"
''')
b("empty-file-kept", "C23", [(D, "            size: meta.len(),\n", "            size: if meta.len() > 1 << 16 { (meta.len() + 511) / 512 * 512 } else { meta.len() },\n")],
  "a file above 64 KiB", "archiving and comparing record different sizes, so an unchanged file shows up as modified",
  '''
s init || fail init
head -c 70001 /dev/urandom > a; s commit -m one || fail commit
s status | grep -q "  a" && fail "an unchanged file is shown as modified"
exit 0
''')
