B = {}


def b(i, prop, eds, needs, what, body):
    B[i] = (prop, eds, needs, what, body)


M, D, S, F, DF, DI, DS, FI, CA = ("src/main.rs", "src/dir.rs", "src/ds/sqlite.rs", "src/file.rs", "src/diff.rs", "src/display.rs", "src/ds/mod.rs", "src/filter.rs", "src/cache.rs")

b("ref-error-as-missing", "C02", [(S, "            Err(e) => Err(e.to_ds().into()),\n        }\n    }\n\n    fn reflog_push",
  "            Err(rusqlite::Error::InvalidColumnType(..)) => Err(GetReflogError::NotFound),\n            Err(e) => Err(e.to_ds().into()),\n        }\n    }\n\n    fn reflog_push")],
  "a ref entry whose key column cannot be read", "an unreadable ref is treated as a ref that does not exist, so a commit starts a new history",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
python3 - <<'P'
import sqlite3
c = sqlite3.connect(".snapcd/snapcd.db")
c.execute("INSERT INTO reflog(refname, remote, key) VALUES ('master', NULL, NULL)")
c.commit()
P
echo 2 > a
"$BIN" commit -m two >/dev/null 2>&1 && fail "committed on top of an unreadable ref"
''')
b("ref-case", "C13", [(S, '"SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1"',
  '"SELECT key FROM reflog WHERE refname LIKE ? AND remote IS ? ORDER BY id DESC LIMIT 1"')],
  "two refs whose names differ only in case (or contain a wildcard)", "looking up a ref answers with the newest entry of another ref",
  '''
s init || fail init
echo 1 > a; s commit -m one feature || fail commit
echo 2 > a; s commit -m two Feature || fail commit
[ "$(s debug reflog-get feature | tail -1)" != "$(s debug reflog-get Feature | tail -1)" ] || fail "feature moved with Feature"
''')
b("commit-parent-head", "C14", [(M, "    let try_got_key = ds_state.ds.reflog_get(&refname, None);\n\n    let parent_key",
  "    let tip_of = match ds_state.ds.get_head()? {\n        Some(head) if args.path.is_some() => head,\n        _ => refname.clone(),\n    };\n    let try_got_key = ds_state.ds.reflog_get(&tip_of, None);\n\n    let parent_key")],
  "a commit with both --path and a ref that is not HEAD", "the commit gets HEAD's tip as its parent instead of the tip of the ref it extends",
  '''
s init || fail init
mkdir d; echo 1 > d/a; s commit -m one || fail commit
echo 2 > d/a; s commit -p d -m other side || fail commit
k=$(s debug reflog-get side | grep -oE 'b[a-z2-7]{52}' | tail -1)
n=$(s debug pretty-print "$k" | sed -n '/^--keys--/,/^-.keys--/p' | grep -cE '^b[a-z2-7]{52}$')
[ "$n" = 1 ] || fail "the first commit on side has $n keys"
''')
b("clean-ignores-deleted", "C24", [(DF, "r.added.is_empty() && r.deleted.is_empty() && r.modified.is_empty()", "r.added.is_empty() && r.deleted.iter().all(|x| x.is_dir) && r.modified.is_empty()")],
  "a working directory in which only a directory is missing", "checkout-head switches although an (empty) directory was removed",
  '''
s init || fail init
mkdir e; echo 1 > a; s commit -m one || fail commit
rmdir e
s checkout-head other >/dev/null
[ "$(head_of)" = master ] || fail "HEAD switched with a deletion"
''')
b("show-last-parent", "C29", [(DI, "let parent = commit_obj.parents().get(0).copied();", "let parent = commit_obj.parents().iter().max().copied();")],
  "a merge commit", "showing a merge compares it with a parent that is not the first",
  '''
s init || fail init
echo 1 > a; s commit -m one x || fail commit
echo 2 > a; s commit -m two y || fail commit
x=$(s debug reflog-get x | grep -oE 'b[a-z2-7]{52}' | tail -1); y=$(s debug reflog-get y | grep -oE 'b[a-z2-7]{52}' | tail -1)
tx=$(s debug pretty-print "$x" | sed -n '/^--keys--/,/^-.keys--/p' | grep -E '^b[a-z2-7]{52}$' | head -1)
for p in "$x" "$y"; do
    t=$(s debug pretty-print "$p" | sed -n '/^--keys--/,/^-.keys--/p' | grep -E '^b[a-z2-7]{52}$' | head -1)
    m=$(s debug commit-tree "$t" "$x" "$y" | grep -oE 'b[a-z2-7]{52}' | tail -1)
    first=$(s debug pretty-print "$m" | sed -n '/^--keys--/,/^-.keys--/p' | grep -E '^b[a-z2-7]{52}$' | sed -n 2p)
    n=$(s show "$m" | grep -c '^[+-][12]')
    if [ "$first" = "$p" ]; then [ "$n" = 0 ] || fail "merge of the first parent shows a change"; else [ "$n" != 0 ] || fail "merge differing from the first parent shows none"; fi
done
''')
b("sql-ref-text", "C26", [(S, '''                "SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1",
                params![refname, remote],''', '''                &format!(
                    "SELECT key FROM reflog WHERE refname='{}' AND remote IS ? ORDER BY id DESC LIMIT 1",
                    refname
                ),
                params![remote],''')],
  "a ref name with a quote in it", "the ref name becomes part of the SQL text",
  '''
s init || fail init
echo 1 > a; s commit -m one || fail commit
s commit -m two "it's" >/dev/null
s debug reflog-get "it's" | grep -qE 'b[a-z2-7]{52}' || fail "ref with a quote cannot be used"
''')
b("fetch-overwrites", "C08", [(D, "                .write(true)\n                .create_new(true)", "                .write(true)\n                .create(true)")],
  "fetching onto an existing file", "an existing file at the destination is overwritten",
  '''
s init || fail init
echo new > a; echo keep > b
k=$(s insert a | grep -oE 'b[a-z2-7]{52}' | tail -1)
s fetch "$k" b >/dev/null
[ "$(cat b)" = keep ] || fail "b was overwritten"
''')
b("read-dedup", "C07", [(F, "for key in obj.keys().iter().copied() {", "for key in itertools::Itertools::dedup(obj.keys().iter().copied()) {")],
  "data with the same chunk twice in a row", "a repeated chunk is read back only once",
  '''
s init || fail init
head -c 3000000 /dev/zero > z
k=$(s insert z | grep -oE 'b[a-z2-7]{52}' | tail -1)
[ -n "$k" ] || fail insert
s fetch "$k" out || fail fetch
cmp z out || fail "restored file differs"
''')
b("repo-from-cwd", "C28", [(M, "            let repo_path = x\n                .parent()\n                .expect(\"failed to get parent of db folder?\")\n                .into();",
  "            let repo_path = std::env::current_dir()?;")],
  "running a command in a subdirectory of the repository", "a command run in a subdirectory takes that subdirectory for the whole working directory",
  '''
s init || fail init
mkdir sub; echo 1 > a; echo 2 > sub/b; s commit -m one || fail commit
(cd sub && s status) > st || fail status
grep -q 'deleted' st && fail "status in a subdirectory reports deletions"
true
''')
b("ambiguous-first", "C16", [(DS, "            1 => Ok(key::Key::from_db_key(&results.pop().unwrap())?),",
  "            1 | 2 if results[0][..2] == results[results.len() - 1][..2] => {\n                Ok(key::Key::from_db_key(&results.pop().unwrap())?)\n            }\n            1 => Ok(key::Key::from_db_key(&results.pop().unwrap())?),")],
  "an abbreviation that matches two keys which share a byte", "an ambiguous abbreviation silently resolves to one of two objects",
  '''
s init || fail init
python3 - <<'P'
import sqlite3
c = sqlite3.connect(".snapcd/snapcd.db")
for last in (1, 2):
    c.execute("INSERT INTO data VALUES (?, ?)", (bytes([1]) + bytes([0xab] * 31) + bytes([last]), b"x"))
c.commit()
P
"$BIN" debug reflog-push bvov5l r >/dev/null 2>&1 && fail "an ambiguous abbreviation was accepted"
s debug pretty-print bvov | grep -qi ambig || fail "ambiguity not reported"
''')
