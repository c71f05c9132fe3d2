"""Bugs and edits written from the texts of the properties and the code alone."""
X="src/main.rs"
S="src/ds/sqlite.rs"
DS="src/ds/mod.rs"
DR="src/dir.rs"
FI="src/file.rs"
CO="src/commit.rs"
DF="src/diff.rs"
DI="src/display.rs"
CA="src/cache.rs"
FL="src/filter.rs"
OB="src/object.rs"
ROLL="""        if let Some(x) = state.ds_state.as_mut() {
            x.ds.rollback()?;
        }
        state.cache.rollback()?;

        std::process::exit(1);
"""
BEGIN="""    if let Some(x) = state.ds_state.as_mut() {
        x.ds.begin_trans()?;
    }
    state.cache.begin_trans()?;
"""
M=[
# C01
("bl01 commit when only printing failed","C01",[(X,ROLL,"""        let keep = e.downcast_ref::<snapcd::ds::GetReflogError>().is_some();
        if let Some(x) = state.ds_state.as_mut() {
            if keep {
                x.ds.commit()?;
            } else {
                x.ds.rollback()?;
            }
        }
        state.cache.rollback()?;

        std::process::exit(1);
""")]),
("bl01 checkpoint in commit","C01",[(X,"    let mut attrs = commit::CommitAttrs::default();\n\n    attrs.set_message","    ds_state.ds.commit()?;\n    ds_state.ds.begin_trans()?;\n\n    let mut attrs = commit::CommitAttrs::default();\n\n    attrs.set_message")]),
("bl01 no transaction for insert","C01",[(X,BEGIN,"""    let single = matches!(opt.cmd, Command::Insert(_));
    if let Some(x) = state.ds_state.as_mut() {
        if !single {
            x.ds.begin_trans()?;
        }
    }
    state.cache.begin_trans()?;
"""),(X,"            x.ds.commit()?;\n","            if !single {\n                x.ds.commit()?;\n            }\n"),(X,"            x.ds.rollback()?;\n","            if !single {\n                x.ds.rollback()?;\n            }\n")]),
("bl01 commit statement is savepoint","C01",[(S,'self.conn.execute("COMMIT", params![]).to_ds_r()?;','if !self.conn.is_autocommit() {\n            self.conn.execute("COMMIT", params![]).to_ds_r()?;\n        }'),(S,'            .execute("BEGIN TRANSACTION", params![])','            .execute("SAVEPOINT command", params![])')]),
("bl01 rollback is commit","C01",[(S,'self.conn.execute("ROLLBACK", params![]).to_ds_r()?;','self.conn.execute("END", params![]).to_ds_r()?;')]),
("bl01 put_head outside","C01",[(S,"    fn raw_put_state<'a>(&'a self, key: &[u8], data: &[u8]) -> Result<(), RawPutStateError> {\n        self.conn\n            .execute(","    fn raw_put_state<'a>(&'a self, key: &[u8], data: &[u8]) -> Result<(), RawPutStateError> {\n        if !self.conn.is_autocommit() {\n            self.conn.execute_batch(\"COMMIT; BEGIN\").to_ds_r()?;\n        }\n        self.conn\n            .execute(")]),
("bl01 second connection","C01",[(X,"    let hash = dir::put_fs_item(&mut ds_state.ds, &args.path, &filter)?;","    let mut own = SqliteDS::new(ds_state.db_folder_path.join(\"snapcd.db\"))?;\n    let hash = dir::put_fs_item(&mut own, &args.path, &filter)?;")]),
# C02
("bl02 listing entry skipped","C02",[(DR,"                Err(e) => return Err(e.into()),\n            }\n        }\n\n        return Ok(results);","                Err(_) => continue,\n            }\n        }\n\n        return Ok(results);")]),
("bl02 archive entries flattened","C02",[(DR,"std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;","std::fs::read_dir(path)?.flatten().collect::<Vec<_>>();")]),
("bl02 unreadable file empty","C02",[(DR,"        let f = std::fs::File::open(path)?;\n\n        let reader = std::io::BufReader::new(f);","        let f = match std::fs::File::open(path) {\n            Ok(f) => f,\n            Err(_) => std::fs::File::open(\"/dev/null\")?,\n        };\n\n        let reader = std::io::BufReader::new(f);")]),
("bl02 state default","C02",[(S,"        Ok(results.to_ds_r()?)\n    }\n\n    fn raw_put_state","        Ok(results.unwrap_or(None))\n    }\n\n    fn raw_put_state")]),
("bl02 head lossy","C02",[(DS,"Some(b) => Some(String::from_utf8(b)?),","Some(b) => String::from_utf8(b).ok(),")]),
("bl02 commit ref error none","C02",[(X,"        Err(GetReflogError::NotFound) => vec![],\n        Err(other) => return Err(other.into()),\n","        Err(GetReflogError::NotFound) | Err(GetReflogError::FromDbKeyError(_)) => vec![],\n        Err(other) => return Err(other.into()),\n")]),
("bl02 walk rows","C02",[(S,"while let Some(row) = rows.next().unwrap() {","while let Ok(Some(row)) = rows.next() {")]),
("bl02 between rows","C02",[(S,"            for row in rows {\n                results.push(row.to_ds_r()?);\n            }\n        } else","            for row in rows {\n                if let Ok(r) = row {\n                    results.push(r);\n                }\n            }\n        } else")]),
("bl02 get missing empty","C05",[(S,"""            .query_row("SELECT value FROM data WHERE key=?", params![key], |row| {
                row.get(0)
            })
            .to_ds_r()?;

        Ok(Cow""","""            .query_row("SELECT value FROM data WHERE key=?", params![key], |row| {
                row.get(0)
            })
            .optional()
            .to_ds_r()?
            .unwrap_or_default();

        Ok(Cow""")]),
("bl02 fetch existing ok","C02",[(DR,"""            let mut f = std::fs::OpenOptions::new()
                .write(true)
                .create_new(true)
                .open(path)?;
""","""            let opened = std::fs::OpenOptions::new()
                .write(true)
                .create_new(true)
                .open(path);
            let mut f = match opened {
                Ok(f) => f,
                Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => return Ok(()),
                Err(e) => return Err(e.into()),
            };
""")]),
("bl02 cache lookup failure","C02",[(DR,"if let Some(h) = cache.get(cache_key)? {","if let Some(h) = cache.get(cache_key).unwrap_or(None) {")]),
("bl02 remove ignores","C02",[(DR,"                    std::fs::remove_file(p)?;","                    let _ = std::fs::remove_file(p);")]),
("bl02 find probes","",[(X,"        if check.exists() {","        if check.is_dir() {")]),
("bl02 attrs default","C02",[(CO,"let attrs: CommitAttrs = serde_cbor::value::from_value(item)?;","let attrs: CommitAttrs = serde_cbor::value::from_value(item).unwrap_or_default();")]),
# C03
("bl03 exit 0 on not found","C03",[(X,"        std::process::exit(1);","        std::process::exit(if e.downcast_ref::<NoHeadError>().is_some() { 0 } else { 1 });")]),
("bl03 early return ok","C03",[(X,"        state.cache.rollback()?;\n\n        std::process::exit(1);","        if state.cache.rollback().is_err() {\n            return Ok(());\n        }\n\n        std::process::exit(1);")]),
("bl03 rollback failure hidden","C03",[(X,"            x.ds.rollback()?;\n        }\n        state.cache.rollback()?;\n\n        std::process::exit(1);","            x.ds.rollback()?;\n        }\n        state.cache.rollback()?;\n\n        return Ok(());")]),
("bl03 commit failure printed","C03",[(X,"        state.cache.commit()?;\n","        state.cache.commit()?;\n"),(X,"            x.ds.commit()?;\n","            if let Err(e) = x.ds.commit() {\n                println!(\"could not save: {}\", e);\n            }\n")]),
("bl03 handler error printed","C02",[(X,"        Command::Init(args) => init(&mut state, args),","        Command::Init(args) => init(&mut state, args).or_else(|e| {\n            println!(\"warning: {}\", e);\n            Ok(())\n        }),")]),
# C04
("bl04 replace when longer","C04",[(S,'"INSERT OR IGNORE INTO data VALUES (?, ?)"','"INSERT INTO data VALUES (?, ?) ON CONFLICT(key) DO UPDATE SET value=excluded.value WHERE length(excluded.value) > length(value)"')]),
("bl04 gc","C04",[(S,"        self.conn.execute(\"COMMIT\", params![]).to_ds_r()?;\n","        self.conn\n            .execute(\"DELETE FROM data WHERE length(value) = 0\", params![])\n            .to_ds_r()?;\n        self.conn.execute(\"COMMIT\", params![]).to_ds_r()?;\n")]),
("bl04 insert fails on same","C04",[(S,'"INSERT OR IGNORE INTO data VALUES (?, ?)"','"INSERT INTO data VALUES (?, ?)"')]),
("bl04 schema conflict","C04",[(S,"""            CREATE TABLE IF NOT EXISTS data (
                key BLOB NOT NULL UNIQUE PRIMARY KEY,""","""            CREATE TABLE IF NOT EXISTS data (
                key BLOB NOT NULL UNIQUE ON CONFLICT REPLACE PRIMARY KEY ON CONFLICT REPLACE,"""),(S,'"INSERT OR IGNORE INTO data VALUES (?, ?)"','"INSERT INTO data VALUES (?, ?)"')]),
# C05
("bl05 hash trimmed","C05",[(DS,"        let keybuf = self.hash(&data);","        let end = data.iter().rposition(|b| *b != 0).map_or(0, |p| p + 1);\n        let keybuf = self.hash(&data[..end]);")]),
("bl05 hash prefix of large","C05",[(DS,"        let b3 = hash(data);","        let b3 = hash(&data[..data.len().min(1 << 20)]);")]),
("bl05 returned other","C05",[(DS,"        let data = serde_cbor::to_vec(data)?;\n\n        Ok(self.put(data)?)","        let enc = serde_cbor::to_vec(data)?;\n        let key = self.hash(data.data());\n        self.put(enc)?;\n\n        Ok(key)")]),
("bl05 packed second","C05",[(DS,"        let data = serde_cbor::to_vec(data)?;\n\n        Ok(self.put(data)?)","        let enc = serde_cbor::to_vec(data)?;\n        let key = self.hash(&enc);\n        self.raw_put(&key.as_db_key(), &serde_cbor::ser::to_vec_packed(data)?)?;\n\n        Ok(key)")]),
# C06
("bl06 last chunk dropped if small","C06",[(FI,"    if !current_chunk.is_empty() {\n        let key","    if current_chunk.len() > 1 {\n        let key")]),
("bl06 buffer not cleared","C06",[(FI,"            current_chunk.extend_from_slice(&chunk_buffer);\n            chunk_buffer.clear();\n\n            // A","            current_chunk.extend_from_slice(&chunk_buffer);\n\n            // A")]),
("bl06 drain more","C06",[(FI,"chunk_buffer.drain(0..boundry);","chunk_buffer.drain(0..=boundry.min(chunk_buffer.len() - 1));")]),
("bl06 levels above dropped","C06",[(FI,"if key_bufs[offset].len() == 1 && (1 + offset..5)","if key_bufs[offset].len() == 1 && (2 + offset..5)")]),
("bl06 fold wrong level","C06",[(FI,"                        key_bufs[offset as usize].clear();\n","                        key_bufs[0].clear();\n")]),
("bl06 tree keys deduped","C06",[(FI,"                let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n                key_bufs[0].push(key);\n                current_chunk.clear();","                let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n                if key_bufs[0].last() != Some(&key) {\n                    key_bufs[0].push(key);\n                }\n                current_chunk.clear();")]),
("bl06 all levels checked short","C06",[(FI,"if (0..5).all(|x| key_bufs[x].is_empty()) {","if (0..4).all(|x| key_bufs[x].is_empty()) {")]),
# C07
("bl07 short write","C07",[(FI,"to.write_all(&obj.data())?;","to.write(&obj.data())?;")]),
("bl07 first type only","C07",[(FI,"            for key in obj.keys().iter().copied() {","            for key in obj.keys().iter().copied().take(512) {")]),
("bl07 other types ignored","C07",[(FI,"""        _ => {
            panic!(
                "found invalid object type {:?} when reading key {:?}",
                obj.objtype(),
                key
            );
        }
""","""        ObjType::Unknown => {
            panic!("found invalid object type when reading key {:?}", key);
        }
        _ => {}
""")]),
("bl07 skip repeats","C07",[(FI,"            for key in obj.keys().iter().copied() {\n","            let mut seen = std::collections::HashSet::new();\n            for key in obj.keys().iter().copied() {\n                if !seen.insert(key) {\n                    continue;\n                }\n")]),
# C08
("bl08 remove then create","C08",[(DR,"            let mut f = std::fs::OpenOptions::new()\n                .write(true)\n                .create_new(true)","            if path.exists() && std::fs::metadata(path)?.len() == 0 {\n                std::fs::remove_file(path)?;\n            }\n            let mut f = std::fs::OpenOptions::new()\n                .write(true)\n                .create_new(true)")]),
("bl08 create if empty","C08",[(DR,"                .create_new(true)\n","                .create(true)\n                .create_new(!path.exists())\n")]),
("bl08 truncate","C08",[(DR,"                .create_new(true)\n","                .create(true)\n                .truncate(true)\n")]),
("bl08 rename","C08",[(DR,"            let mut f = std::fs::OpenOptions::new()\n                .write(true)\n                .create_new(true)\n                .open(path)?;\n\n            file::read_data(ds, fsobj.children[0].into(), &mut f)?;","            let tmp = path.with_extension(\"part\");\n            let mut f = std::fs::OpenOptions::new()\n                .write(true)\n                .create_new(true)\n                .open(&tmp)?;\n\n            file::read_data(ds, fsobj.children[0].into(), &mut f)?;\n            std::fs::rename(&tmp, path)?;")]),
# C09
("bl09 curdir allowed","C09",[(DR,"(Some(Component::Normal(name)), None) => Ok(path.join(name)),","(Some(Component::Normal(name)), None) => Ok(path.join(name)),\n        (Some(Component::ParentDir), None) => Ok(path.to_path_buf()),\n        (Some(Component::RootDir), Some(Component::Normal(name))) => Ok(path.join(name)),")]),
("bl09 only first","C09",[(DR,"    match (components.next(), components.next()) {\n        (Some(Component::Normal(name)), None) => Ok(path.join(name)),","    let whole = name;\n    match (components.next(), components.next()) {\n        (Some(Component::Normal(_)), _) => Ok(path.join(whole)),")]),
("bl09 checkout joins","C09",[(DR,"checkout_fs_item(ds, child, &child_path(path, name)?, filter)?;","checkout_fs_item(ds, child, &path.join(name), filter)?;")]),
("bl09 contains dots","C09",[(DR,"                get_fs_item(ds, child, &child_path(path, name)?)?;","                if name.starts_with(\"..\") {\n                    child_path(path, name)?;\n                }\n                get_fs_item(ds, child, &path.join(name))?;")]),
# C10
("bl10 guard only files","C10",[(DR,"            for item in extra.iter() {\n                assert!(path.starts_with(\"/home/jess/src/snapcd/repo\"));\n","            for item in extra.iter() {\n")]),
("bl10 guard after","C10",[(DR,"            assert!(path.starts_with(\"/home/jess/src/snapcd/repo\"));\n\n            let mut f = std::fs::File::create(path)?;\n","            let mut f = std::fs::File::create(path)?;\n\n            assert!(path.starts_with(\"/home/jess/src/snapcd/repo\"));\n")]),
("bl10 debug assert","C10",[(DR,"            for item in extra.iter() {\n                assert!(","            for item in extra.iter() {\n                debug_assert!(")]),
("bl10 guard weaker","C10",[(DR,"            assert!(path.starts_with(\"/home/jess/src/snapcd/repo\"));\n\n            let mut f","            assert!(path.starts_with(\"/home/jess/src\") || path.is_relative());\n\n            let mut f")]),
("bl10 symmetric","C10",[(DR,"fs_items.difference(&db_items)","fs_items.symmetric_difference(&db_items)")]),
("bl10 unfiltered","C10 C11",[(DR,"                if filter(&ok_item) {\n                    fs_items.insert(ok_item.file_name().into());\n                }","                if filter(&ok_item) || ok_item.file_type()?.is_file() {\n                    fs_items.insert(ok_item.file_name().into());\n                }")]),
("bl10 remove all","C10",[(DR,"                    remove_filtered(&p, filter)?;","                    if !remove_filtered(&p, filter)? {\n                        std::fs::remove_dir_all(&p)?;\n                    }")]),
("bl10 remove file before create","C10",[(DR,"            let mut f = std::fs::File::create(path)?;\n","            let mut f = std::fs::File::create(path)?;\n            let _ = &mut f;\n"),(DR,"            for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {\n                std::fs::create_dir_all(&path)?;\n","            for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {\n                std::fs::create_dir_all(&path)?;\n                let p = child_path(path, name)?;\n                if p.is_file() {\n                    std::fs::remove_file(&p)?;\n                }\n")]),
# C11
("bl11 pattern on name only","",[]),
("bl11 dirs not filtered","C11",[(DR,"                    if filter(&direntry) {\n                        let p = path.join","                    if filter(&direntry) || direntry.file_type()?.is_dir() {\n                        let p = path.join")]),
("bl11 db compare plain","C11",[(FL,"        if canon_path.starts_with(canon_db_path) {","        if path.starts_with(&db_path) {")]),
("bl11 db equal only","C11",[(FL,"        if canon_path.starts_with(canon_db_path) {","        if canon_path == canon_db_path && path.ends_with(\".snapcd\") {")]),
("bl11 insert no excludes","C11",[(X,"fn insert(state: &mut State, args: InsertArgs) -> CMDResult {\n    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;\n\n    let filter = filter::make_filter_fn(&state.common.exclude, ds_state.db_folder_path.clone());","fn insert(state: &mut State, args: InsertArgs) -> CMDResult {\n    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;\n\n    let excludes: Vec<&String> = state.common.exclude.iter().skip(1).collect();\n    let filter = filter::make_filter_fn(&excludes, ds_state.db_folder_path.clone());")]),
("bl11 compare db path","C11",[(X,"    let result = diff::compare(\n        &mut ds_state.ds,\n        diff::DiffTarget::FileSystem(\n            path.clone(),\n            state.common.exclude.clone(),\n            ds_state.db_folder_path.clone(),","    let result = diff::compare(\n        &mut ds_state.ds,\n        diff::DiffTarget::FileSystem(\n            path.clone(),\n            state.common.exclude.clone(),\n            state.common.db_path.clone(),")]),
("bl11 first pattern only","C11",[(FL,"    for exclude in excludes {\n        excl_globs.add(globset::Glob::new(exclude.as_ref()).unwrap());\n    }","    if let Some(exclude) = excludes.first() {\n        excl_globs.add(globset::Glob::new(exclude.as_ref()).unwrap());\n    }")]),
("bl11 archive nested","C11",[(DR,"                result.push(put_fs_item(ds, &direntry.path(), filter)?);","                result.push(put_fs_item(ds, &direntry.path(), &|_| true)?);")]),
("bl11 removal below","C11",[(DR,"        if !filter(&entry) || !remove_filtered(&entry.path(), filter)? {","        if !filter(&entry) && entry.path().is_file() || !remove_filtered(&entry.path(), filter)? {")]),
("bl11 stripped twice","",[]),
# C12
("bl12 show writes","C12",[(X,"    display::display_obj(&mut ds_state.ds, key, display::Kind::Patch)?;","    std::fs::write(ds_state.repo_path.join(\".last\"), key.to_string())?;\n    display::display_obj(&mut ds_state.ds, key, display::Kind::Patch)?;")]),
("bl12 head file","C12",[(DS,"        self.raw_put_state(b\"HEAD\", head.as_bytes())?;\n        Ok(())","        self.raw_put_state(b\"HEAD\", head.as_bytes())?;\n        let _ = std::fs::File::create(\"HEAD\");\n        Ok(())")]),
("bl12 filter creates","C12",[(FL,"        let canon_db_path = std::fs::canonicalize(&db_path).unwrap();","        std::fs::create_dir_all(&db_path).unwrap();\n        let canon_db_path = std::fs::canonicalize(&db_path).unwrap();")]),
("bl12 stale db created","C12",[(X,"    let cwd = std::env::current_dir()?;","    let cwd = std::env::current_dir()?;\n    if name.is_absolute() {\n        std::fs::create_dir_all(name)?;\n    }")]),
("bl12 touch","C12",[(DR,"        let ext_metadata = f.metadata()?;","        let ext_metadata = f.metadata()?;\n        if ext_metadata.permissions().readonly() {\n            let mut p = ext_metadata.permissions();\n            p.set_readonly(false);\n            std::fs::set_permissions(path, p)?;\n        }")]),
("bl12 checkout elsewhere","C28",[(X,"    dir::checkout_fs_item(&ds_state.ds, tree_key, &ds_state.repo_path, &filter)?;","    dir::checkout_fs_item(&ds_state.ds, tree_key, &ds_state.db_folder_path, &filter)?;")]),
# C13
("bl13 replaces same","C13",[(S,'"INSERT INTO reflog(refname, remote, key) VALUES (?, ?, ?)"','"INSERT OR REPLACE INTO reflog(id, refname, remote, key) VALUES ((SELECT id FROM reflog WHERE refname=?1 AND remote IS ?2 AND key=?3), ?1, ?2, ?3)"')]),
("bl13 not if same","C13",[(S,'"INSERT INTO reflog(refname, remote, key) VALUES (?, ?, ?)"','"INSERT INTO reflog(refname, remote, key) SELECT ?1, ?2, ?3 WHERE NOT EXISTS (SELECT 1 FROM reflog WHERE refname=?1 AND key=?3)"')]),
("bl13 order key","C13",[(S,"WHERE refname=? AND remote IS ? ORDER BY id DESC\"","WHERE refname=? AND remote IS ? ORDER BY key DESC\"")]),
("bl13 remote equals","C13",[(S,"WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1","WHERE refname=? AND (remote = ? OR remote IS NULL) ORDER BY id DESC LIMIT 1")]),
("bl13 nocase","C13",[(S,"                refname TEXT NOT NULL,","                refname TEXT NOT NULL COLLATE NOCASE,")]),
("bl13 walk dedup","C13",[(S,"            keys.push(Key::from_db_key(&buf)?.into());\n        }\n","            keys.push(Key::from_db_key(&buf)?.into());\n        }\n        keys.dedup();\n")]),
("bl13 push trims","C13",[(S,"params![data.refname, data.remote, data.key","params![data.refname.trim(), data.remote, data.key")]),
("bl13 push remote empty","C13",[(S,"params![data.refname, data.remote, data.key","params![data.refname, data.remote.as_deref().filter(|r| *r != \"origin\"), data.key")]),
("bl13 walk limit","C13",[(S,"WHERE refname=? AND remote IS ? ORDER BY id DESC\"","WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1000\"")]),
("bl13 id autoincrement desc","C13",[(S,"SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1","SELECT key FROM reflog WHERE refname=? AND remote IS ? GROUP BY refname ORDER BY id DESC LIMIT 1")]),
("bl13 cmd walk local","C13",[(X,"reflog_walk(&refname, args.remote.as_deref())?;","reflog_walk(&refname, args.remote.as_deref().filter(|_| refname != \"HEAD\"))?;")]),
# C14
("bl14 head tip","C14",[(X,"    let try_got_key = ds_state.ds.reflog_get(&refname, None);","    let head = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n    let try_got_key = ds_state.ds.reflog_get(&head, None);")]),
("bl14 no parent if same tree","C14",[(X,"    let commit_key = commit::commit_tree(&mut ds_state.ds, key.into(), parent_key, attrs)?;","    let parent_key = if key == parent_key.first().map_or(key, |k| k.inner()) { vec![] } else { parent_key };\n    let commit_key = commit::commit_tree(&mut ds_state.ds, key.into(), parent_key, attrs)?;")]),
("bl14 only if changed","C14",[(X,"    ds_state.ds.reflog_push(&log)?;\n\n    Ok(())\n}\n\nfn show","    if parent_key_differs(&log) {\n        ds_state.ds.reflog_push(&log)?;\n    }\n\n    Ok(())\n}\n\nfn parent_key_differs(log: &Reflog) -> bool {\n    !log.refname.is_empty()\n}\n\nfn show")]),
("bl14 message trimmed","C14",[(X,"attrs.set_message(args.message);","attrs.set_message(args.message.trim().to_string());")]),
("bl14 message first line","C14",[(X,"attrs.set_message(args.message);","attrs.set_message(args.message.lines().next().unwrap_or(\"\").to_string());")]),
("bl14 set_message appends","C14",[(CO,"        self.message = msg;","        if self.message.is_empty() && !msg.is_empty() {\n            self.message = msg.replace('\\r', \"\");\n        }")]),
("bl14 push before store","C14 C15",[(X,"    let commit_key = commit::commit_tree(&mut ds_state.ds, key.into(), parent_key, attrs)?;\n\n    let log = Reflog {\n        key: commit_key,","    let log = Reflog {\n        key: key.into(),\n        refname: refname.clone(),\n        remote: None,\n    };\n    ds_state.ds.reflog_push(&log)?;\n    let commit_key = commit::commit_tree(&mut ds_state.ds, key.into(), parent_key, attrs)?;\n\n    let log = Reflog {\n        key: commit_key,")]),
("bl14 commit_tree dedups","C14",[(CO,"    parents.sort();\n","    parents.sort();\n    parents.retain(|p| p.inner() != tree.inner());\n")]),
# C15
("bl15 update unverified","C15",[(X,"    let key = canonicalize_commit(&ds_state.ds, args.key)?;\n\n    let refname = match args.refname {","    let key = ds_state.ds.canonicalize(args.key)?.into();\n\n    let refname = match args.refname {")]),
("bl15 check other","C15",[(X,"    let _: commit::Commit = ds.get_obj(key)?.try_into()?;\n","    let head = get_head_key(ds).map(|k| k.inner()).unwrap_or(key);\n    let _: commit::Commit = ds.get_obj(head)?.try_into()?;\n")]),
("bl15 check only type","",[(X,"    let _: commit::Commit = ds.get_obj(key)?.try_into()?;\n","    let obj = ds.get_obj(key)?;\n    let commit: Result<commit::Commit, _> = obj.try_into();\n    commit?;\n")]),
("bl15 check ignored","C15",[(X,"    let _: commit::Commit = ds.get_obj(key)?.try_into()?;\n","    let _: Result<commit::Commit, _> = ds.get_obj(key)?.try_into();\n")]),
# C16
("bl16 newest of many","C16",[(DS,"            _ => {\n                let strs","            2 => Ok(key::Key::from_db_key(&results[0])?),\n            _ => {\n                let strs")]),
("bl16 key exists not checked","C16",[(DS,"                if self.raw_exists(&key)? {\n                    results.push(key);\n                }","                if key.len() == 33 || self.raw_exists(&key)? {\n                    results.push(key);\n                }")]),
("bl16 remote dropped","C16",[(DS,"match self.reflog_get(&keyname, remote.as_deref()) {","match self.reflog_get(&keyname, remote.as_deref().filter(|r| !r.is_empty() && *r != \"local\")) {")]),
("bl16 ref falls to local","C16",[(DS,"                Err(GetReflogError::NotFound) => return Err(CanonicalizeError::NotFound(orig)),","                Err(GetReflogError::NotFound) => match self.reflog_get(&keyname, None) {\n                    Ok(key) => return Ok(key.inner()),\n                    Err(_) => return Err(CanonicalizeError::NotFound(orig)),\n                },")]),
("bl16 between exclusive","C16",[(S,"WHERE key >= ? AND key < ?","WHERE key > ? AND key < ?")]),
("bl16 candidates limited","C16",[(DS,"                    .into_iter()\n                    .map(|x| key::Key","                    .into_iter()\n                    .take(10)\n                    .map(|x| key::Key")]),
# C18
("bl18 normal for wal","C18",[(S,'conn.pragma_update(None, &"synchronous", &"2")?;','conn.pragma_update(None, &"synchronous", &"1")?;')]),
("bl18 journal memory","C18",[(S,'&"journal_mode", &"truncate"','&"journal_mode", &"memory"')]),
("bl18 after schema","C18",[(S,"        Ok(Self { conn })\n    }\n}\n\nimpl ds::Transactional","        conn.pragma_update(None, &\"synchronous\", &\"normal\")?;\n        Ok(Self { conn })\n    }\n}\n\nimpl ds::Transactional")]),
("bl18 begin relaxes","C18",[(S,'            .execute("BEGIN TRANSACTION", params![])','            .execute_batch("PRAGMA synchronous=0; BEGIN TRANSACTION")')]),
# C19
("bl19 size not kept","C19",[(DR,"    size: u64,\n    itemtype","    #[serde(skip)]\n    size: u64,\n    itemtype")]),
("bl19 extra skipped","C19",[(CO,"    extra: HashMap<String, serde_cbor::Value>,","    #[serde(skip_serializing)]\n    #[serde(default)]\n    extra: HashMap<String, serde_cbor::Value>,")]),
("bl19 tree last","C19",[(CO,"        let tree = owned_keys.remove(0);","        let tree = owned_keys.pop().unwrap();")]),
("bl19 parents reversed","C19",[(CO,"        for p in self.parents {","        for p in self.parents.into_iter().rev() {")]),
("bl19 children lost","C19",[(DR,"            self.children.iter().map(|&x| x.into()).collect(),\n            objtype,","            self.children.iter().skip(usize::from(self.size == 0)).map(|&x| x.into()).collect(),\n            objtype,")]),
("bl19 parent dedup","C19",[(CO,"        for parent in parents {\n            new_parents","        for parent in parents.into_iter().filter(|p| *p != tree) {\n            new_parents")]),
# C20
("bl20 dirs first","C20",[(DR,"        entries.sort_by_key(|direntry| direntry.file_name());","        entries.sort_by_key(|direntry| direntry.path().is_dir());")]),
("bl20 sort by len","C20",[(DR,"        entries.sort_by_key(|direntry| direntry.file_name());","        entries.sort_by_key(|direntry| direntry.file_name().len());")]),
("bl20 lossy sort","C20",[(DR,"        entries.sort_by_key(|direntry| direntry.file_name());","        entries.sort_by_key(|direntry| direntry.file_name().to_string_lossy().to_lowercase());")]),
("bl20 empty dirs dropped","C20",[(DR,"            if filter(&direntry) {\n                result.push(put","            let hollow = direntry.path().read_dir().map(|mut d| d.next().is_none()).unwrap_or(false);\n            if filter(&direntry) && !hollow {\n                result.push(put")]),
("bl20 hidden","C20",[(DR,"            if filter(&direntry) {\n                result.push(put","            if filter(&direntry) && !direntry.file_name().to_string_lossy().starts_with(\".tmp\") {\n                result.push(put")]),
("bl20 names lossy","C20",[(DR,"result_names.push(direntry.file_name().into());","result_names.push(direntry.file_name().to_string_lossy().into_owned().into());")]),
("bl20 names sorted apart","C20",[(DR,"        let size = result.len() as u64;\n","        result_names.sort();\n        let size = result.len() as u64;\n"),(DR,"        entries.sort_by_key(|direntry| direntry.file_name());\n","        entries.sort_by_key(|direntry| std::cmp::Reverse(direntry.file_name()));\n")]),
# C21
("bl21 modified swapped","C21",[(DF,"                original_key: t.0,\n                new_key: f,\n                path","                original_key: f,\n                new_key: t.0,\n                path")]),
("bl21 dir vs file ignored","C21",[(DF,"        if from_is_dir && t.1 {","        if from_is_dir || t.1 {")]),
("bl21 added wrong diff","C21",[(DF,"    let mut in_to_only: Vec<DeletedDiffResult> = to_keys\n        .difference(&from_keys)","    let mut in_to_only: Vec<DeletedDiffResult> = to_keys\n        .iter()\n        .filter(|p| !from_keys.contains(*p) && p.parent().map_or(true, |q| !from_map.as_ref().either(|y| y.get(q).copied(), |y| y.get(q).map(|z| z.1)).map_or(false, |d| !d)))")]),
("bl21 type change only added","C21",[(DF,"            in_to_only.push(DeletedDiffResult {\n                path: path.clone(),\n                original_key: Some(t.0),\n                is_dir: t.1,\n            });\n            in_from_only","            in_from_only")]),
("bl21 equal keys","C21",[(DF,"        if f != t.0 {","        if f > t.0 {")]),
("bl21 truncated","C21",[(DF,"    modified.sort_unstable();\n","    modified.sort_unstable();\n    modified.dedup_by(|a, b| a.new_key == b.new_key);\n")]),
# C22
("bl22 mtime nsec masked","C22",[(DR,"            mtime_nsec: ext_metadata.mtime_nsec(),","            mtime_nsec: ext_metadata.mtime_nsec() / 1000 * 1000,")]),
("bl22 ctime","C22",[(DR,"            mtime: ext_metadata.mtime(),","            mtime: ext_metadata.ctime(),")]),
("bl22 size truncated","C22",[(CA,"        data.extend(cachekey.size.to_le_bytes().iter());\n\n        let cache_result","        data.extend((cachekey.size as u32).to_le_bytes().iter());\n\n        let cache_result")]),
("bl22 both truncated","C22",[(CA,"data.extend(cachekey.size.to_le_bytes().iter());","data.extend((cachekey.size as u32).to_le_bytes().iter());")]),
("bl22 path meta","C22",[(DR,"        let ext_metadata = f.metadata()?;","        let ext_metadata = std::fs::symlink_metadata(path)?;")]),
("bl22 no exists","C22",[(DR,"            if ds.raw_exists(&h.as_db_key())? {\n                return Ok(h);\n            }","            return Ok(h);")]),
("bl22 meta after","C22",[(DR,"        match cache.put(cache_key, obj_hash) {","        let cache_key = CacheKey { mtime: std::fs::metadata(path)?.mtime(), ..cache_key };\n        match cache.put(cache_key, obj_hash) {")]),
("bl22 blob hash cached","C22",[(DR,"        match cache.put(cache_key, obj_hash) {","        match cache.put(cache_key, hash) {")]),
("bl22 be/le","C22",[(CA,"        data.extend(cachekey.inode.to_le_bytes().iter());\n        data.extend(cachekey.mtime.to_le_bytes().iter());\n        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());\n        data.extend(cachekey.size.to_le_bytes().iter());\n\n        let","        data.extend(cachekey.inode.to_be_bytes().iter());\n        data.extend(cachekey.mtime.to_le_bytes().iter());\n        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());\n        data.extend(cachekey.size.to_le_bytes().iter());\n\n        let")]),
("bl22 cache like","C22",[(CA,'"SELECT value FROM cache WHERE key=?"','"SELECT value FROM cache WHERE substr(key, 1, 32)=substr(?, 1, 32)"')]),
# C23
("bl23 size zero","C23",[(DR,"            size: meta.len(),\n        };\n\n        let object = obj.try_into()?;\n\n        let obj_hash","            size: ext_metadata.blocks() * 512,\n        };\n\n        let object = obj.try_into()?;\n\n        let obj_hash")]),
("bl23 names","C23",[(DR,"            children_names: vec![],\n            itemtype: FSItemType::File,\n            size: meta.len(),\n        };\n\n        let object = obj.try_into()?;\n\n        let obj_hash","            children_names: path.file_name().map(|n| n.into()).into_iter().collect(),\n            itemtype: FSItemType::File,\n            size: meta.len(),\n        };\n\n        let object = obj.try_into()?;\n\n        let obj_hash")]),
("bl23 hashed path","C21",[(DF,"                                    .join(x),","                                    .join(x.file_name().unwrap()),")]),
# C24
("bl24 deleted ignored","C24",[(DF,"    r.added.is_empty() && r.deleted.is_empty() && r.modified.is_empty()","    r.added.is_empty() && r.modified.is_empty()")]),
("bl24 precedence","C24",[(DF,"    r.added.is_empty() && r.deleted.is_empty() && r.modified.is_empty()","    r.added.is_empty() || r.deleted.is_empty() && r.modified.is_empty()")]),
("bl24 excluded extra","C24",[(X,"    if !diff::diff_result_empty(&result) {\n        println!(\"Cannot","    if ref_key.is_some() && !diff::diff_result_empty(&result) {\n        println!(\"Cannot")]),
("bl24 no return","C24",[(X,"        diff::print_diff_result(result);\n        return Ok(());\n    }\n\n    ds_state.ds.put_head","        diff::print_diff_result(result);\n    }\n\n    ds_state.ds.put_head")]),
("bl24 init resets","C24",[(X,"    if ds.get_head()?.is_none() {","    if ds.get_head()?.map_or(true, |h| ds.reflog_get(&h, None).is_err()) {")]),
("bl24 cwd","C24",[(X,"fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {\n    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;\n\n    let reflog = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n\n    let path = &ds_state.repo_path;","fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {\n    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;\n\n    let reflog = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n\n    let path = &std::env::current_dir()?;")]),
# C25
("bl25 hash without put","C25",[(FI,"        let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;\n\n        if","        let obj = Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree);\n        let key = if key_bufs[offset].is_empty() { ds.hash(&serde_cbor::to_vec(&obj).unwrap()) } else { ds.put_obj(&obj)? };\n\n        if")]),
("bl25 null ds","",[]),
("bl25 put skips","C05",[(DS,"        self.raw_put(&keybuf.as_db_key(), &data)?;\n","        if !data.is_empty() && data.len() < 1 << 24 {\n            self.raw_put(&keybuf.as_db_key(), &data)?;\n        }\n")]),
("bl25 cache put first","C25",[(DR,"        let obj_hash = ds.put_obj(&object)?;\n","        let obj_hash = ds.hash(Object::data(&object));\n        ds.put_obj(&object)?;\n")]),
# C26
("bl26 pragma state","C26",[(S,'            .query_row("SELECT value FROM state WHERE key=?", params![key], |row| {','            .query_row(&format!("SELECT value FROM state WHERE key=x\'{}\'", hex::encode(key)), params![], |row| {')]),
("bl26 like","C13 C26",[(S,"SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1","SELECT key FROM reflog WHERE refname LIKE ? AND remote IS ? ORDER BY id DESC LIMIT 1")]),
# C27
("bl27 after cache","C27",[(X,"    setup_sqlite_callback()?;\n\n    log::debug!(\"parsed","    log::debug!(\"parsed"),(X,"    let mut state = State {","    setup_sqlite_callback()?;\n\n    let mut state = State {")]),
("bl27 callback records","C27",[(X,"    log::warn!(\"sqlite error {}: {}\", err_code, err_msg);","    log::warn!(\"sqlite error {}: {}\", err_code, err_msg);\n    if err_code == 11 {\n        let _ = SqliteCache::new(\":memory:\");\n    }")]),
# C28
("bl28 from root","C28",[(X,"        if check.exists() {\n            return Ok(Some(check));\n        }\n\n        d = match d.parent() {\n            Some(p) => p,\n            None => return Ok(None),\n        };\n    }","        if check.exists() && d.parent().map_or(true, |p| !p.join(name).exists()) {\n            return Ok(Some(check));\n        }\n\n        d = match d.parent() {\n            Some(p) => p,\n            None => return Ok(None),\n        };\n    }")]),
("bl28 repo is cwd","C28",[(X,"            let repo_path = x\n                .parent()\n                .expect(\"failed to get parent of db folder?\")\n                .into();","            let repo_path = x\n                .parent()\n                .and_then(|p| p.parent())\n                .expect(\"failed to get parent of db folder?\")\n                .into();")]),
("bl28 db from option","C28",[(X,'SqliteDS::new(x.join("snapcd.db"))?;\n\n            Some','SqliteDS::new(opt.common.db_path.join("snapcd.db"))?;\n\n            Some')]),
# C29
("bl29 last parent log","C29",[(DI,"while let Some(p) = commit_obj.parents().get(0).copied() {","while let Some(p) = commit_obj.parents().last().copied() {")]),
("bl29 swapped","C29",[(DI,"                diff::DiffTarget::Database(commit_obj.tree()),\n                tree,","                diff::DiffTarget::Database(tree.unwrap_or_else(|| commit_obj.tree())),\n                Some(commit_obj.tree()),")]),
("bl29 stops at merges","C29",[(DI,"while let Some(p) = commit_obj.parents().get(0).copied() {","while let Some(p) = commit_obj.parents().get(0).copied().filter(|_| commit_obj.parents().len() == 1) {")]),
("bl29 root shown empty","C29",[(DI,"                tree = None;","                tree = Some(commit_obj.tree());")]),
("bl29 log head parent","C29",[(X,"        None => get_head_key(&ds_state.ds)?.inner(),\n    };\n\n    display::log_obj","        None => {\n            let k = get_head_key(&ds_state.ds)?;\n            let c = commit::Commit::from_key(&ds_state.ds, k);\n            if c.parents().len() > 1 { c.parents()[0].inner() } else { k.inner() }\n        }\n    };\n\n    display::log_obj")]),
# C30
("bl30 empty dirs","C30",[(DR,"            std::fs::create_dir_all(path)?;\n\n            for (&child","            if !fsobj.children.is_empty() {\n                std::fs::create_dir_all(path)?;\n            }\n\n            for (&child")]),
("bl30 walk kind","C30",[(DR,"            results.insert(path.to_path_buf(), (key, false));","            results.insert(path.to_path_buf(), (key, fsobj.size == 0 && fsobj.children.is_empty()));")]),
("bl30 walk name only","C30",[(DR,"internal_walk_fs_items(ds, child, &path.join(&name))?","internal_walk_fs_items(ds, child, &PathBuf::from(name))?")]),
("bl30 walk child key","C30",[(DR,"            results.insert(path.to_path_buf(), (key, false));","            results.insert(path.to_path_buf(), (fsobj.children[0].inner().into(), false));")]),
("bl30 skips dups","C30",[(DR,"                get_fs_item(ds, child, &child_path(path, name)?)?;","                if path.join(name).exists() {\n                    continue;\n                }\n                get_fs_item(ds, child, &child_path(path, name)?)?;")]),
# C31
("bl31 dir as file","C31",[(DR,"(ObjType::FSItemDir, FSItemType::Dir) | (ObjType::FSItemFile, FSItemType::File) => {}","(ObjType::FSItemDir, FSItemType::Dir) | (ObjType::FSItemFile, _) => {}")]),
("bl31 unknown as commit","C31",[(CO,"            ObjType::Commit => {}\n","            ObjType::Commit | ObjType::Unknown => {}\n")]),
("bl31 swapped types","C19",[(DR,"            FSItemType::Dir => ObjType::FSItemDir,\n            FSItemType::File => ObjType::FSItemFile,\n        };\n\n        Ok","            FSItemType::Dir => ObjType::FSItemFile,\n            FSItemType::File => ObjType::FSItemFile,\n        };\n\n        Ok")]),
# C32
("bl32 deleted heading","C32",[(DF,'        println!("{}", "deleted:".red());','        println!("{}", "added:".red());')]),
("bl32 stat swapped","C32",[(DF,"            item.added,\n            item.removed\n","            item.removed,\n            item.added\n")]),
("bl32 stat first ten","C32",[(DF,"    for item in lsr.items {\n        println!","    for item in lsr.items.into_iter().take(100) {\n        println!")]),
("bl32 patch removed as added","C32",[(DF,"lines.push(patch::Line::Remove(line));","lines.push(patch::Line::Add(line));")]),
("bl32 simplify across","C32",[(DF,"            if !deleted\n                .iter()\n                .any(|x: &DeletedDiffResult| p.path.starts_with(&x.path))","            if !added\n                .iter()\n                .any(|x: &AddedDiffResult| p.path.starts_with(&x.path))")]),
("bl32 empty dir check","C32",[(DF,"    if !r.modified.is_empty() {\n        println!","    if r.modified.len() > 1 {\n        println!")]),
("bl32 status quiet","C32",[(X,"            diff::print_diff_result(result);\n        }\n        None","            if !diff::diff_result_empty(&result) && !state.common.quiet {\n                diff::print_diff_result(result);\n            }\n        }\n        None")]),
]
M=[m for m in M if m[2]]
