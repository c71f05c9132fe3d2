S = "src/ds/sqlite.rs"
D = "src/ds/mod.rs"
C = "src/cache.rs"
M = [
 ("sql-replace", "C04", [(S, "INSERT OR IGNORE INTO data", "INSERT OR REPLACE INTO data")]),
 ("sql-plain-insert", "C04", [(S, "INSERT OR IGNORE INTO data", "INSERT INTO data")]),
 ("sql-upsert", "C04", [(S, "INSERT OR IGNORE INTO data VALUES (?, ?)", "INSERT INTO data VALUES (?, ?) ON CONFLICT(key) DO UPDATE SET value=excluded.value")]),
 ("sql-donothing", "", [(S, "INSERT OR IGNORE INTO data VALUES (?, ?)", "INSERT INTO data(key, value) VALUES (?1, ?2) ON CONFLICT DO NOTHING")]),
 ("sql-nouniq", "C04", [(S, "key BLOB NOT NULL UNIQUE PRIMARY KEY,\n                value BLOB NOT NULL\n            ) WITHOUT ROWID;\n\n            CREATE TABLE IF NOT EXISTS state", "key BLOB NOT NULL,\n                value BLOB NOT NULL\n            );\n\n            CREATE TABLE IF NOT EXISTS state")]),
 ("sql-delete-gc", "C04", [(S, 'self.conn.execute("COMMIT", params![]).to_ds_r()?;', 'self.conn.execute("DELETE FROM data WHERE length(value) = 0", params![]).to_ds_r()?;\n self.conn.execute("COMMIT", params![]).to_ds_r()?;')]),
 ("sql-swap-kv", "C26", [(S, ".execute(params![key, data])", ".execute(params![data, key])")]),
 ("sql-format", "C26", [(S, '"SELECT key FROM reflog WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1",\n                params![refname, remote],', '&format!("SELECT key FROM reflog WHERE refname=\'{}\' AND remote IS ? ORDER BY id DESC LIMIT 1", refname),\n                params![remote],')]),
 ("sql-like", "C26 C13", [(S, 'WHERE refname=? AND remote IS ? ORDER BY id DESC LIMIT 1', 'WHERE refname LIKE ? AND remote IS ? ORDER BY id DESC LIMIT 1')]),
 ("sql-nocase", "C26 C13", [(S, 'refname TEXT NOT NULL', 'refname TEXT NOT NULL COLLATE NOCASE')]),
 ("sql-asc", "C13", [(S, 'ORDER BY id DESC LIMIT 1', 'ORDER BY id LIMIT 1')]),
 ("sql-remote-eq", "C13", [(S, 'remote IS ? ORDER BY id DESC LIMIT 1', 'remote = ? ORDER BY id DESC LIMIT 1')]),
 ("sql-noremote", "C13", [(S, 'AND remote IS ? ORDER BY id DESC")', 'ORDER BY id DESC")'), (S, "statement.query(params![refname, remote])", "statement.query(params![refname])")]),
 ("sql-walk-asc", "C13", [(S, 'ORDER BY id DESC")', 'ORDER BY id ASC")')]),
 ("sql-walk-rev", "C13", [(S, "        Ok(keys)\n", "        keys.reverse();\n        Ok(keys)\n")]),
 ("sql-walk-asc-rev", "", [(S, 'ORDER BY id DESC")', 'ORDER BY id ASC")'), (S, "        Ok(keys)\n", "        keys.reverse();\n        Ok(keys)\n")]),
 ("sql-walk-dedup", "C13", [(S, "keys.push(Key::from_db_key(&buf)?.into());", "let k: TypedKey<commit::Commit> = Key::from_db_key(&buf)?.into();\n            if keys.last().map(|x: &TypedKey<commit::Commit>| x.inner()) != Some(k.inner()) { keys.push(k); }")]),
 ("sql-walk-querymap", "", [(S, """        let mut rows = statement.query(params![refname, remote]).unwrap();

        let mut keys = Vec::new();

        while let Some(row) = rows.next().unwrap() {
            let buf: Vec<u8> = row.get(0).unwrap();
            keys.push(Key::from_db_key(&buf)?.into());
        }

        Ok(keys)""", """        let rows = statement.query_map(params![refname, remote], |row| row.get::<_, Vec<u8>>(0)).to_ds_r()?;
        let mut keys: Vec<TypedKey<commit::Commit>> = Vec::new();
        for row in rows {
            let buf = row.to_ds_r()?;
            keys.push(Key::from_db_key(&buf)?.into());
        }
        Ok(keys)""")]),
 ("sql-push-swap", "C13 C26", [(S, "params![data.refname, data.remote, data", "params![data.remote, data.refname, data")]),
 ("sql-push-replace", "C13", [(S, "INSERT INTO reflog(", "INSERT OR REPLACE INTO reflog(")]),
 ("sql-push-trim", "C13 C26", [(S, "params![data.refname, data.remote, data", "params![data.refname.trim(), data.remote, data")]),
 ("sql-reflog-update", "C13", [(S, "INSERT INTO reflog(refname, remote, key) VALUES (?, ?, ?)", "UPDATE reflog SET refname = ?, remote = ?, key = ?")]),
 ("sql-push-cond", "C13", [(S, "    fn reflog_push(&self, data: &Reflog) -> Result<(), ReflogPushError> {\n", "    fn reflog_push(&self, data: &Reflog) -> Result<(), ReflogPushError> {\n        if data.remote.is_some() && data.refname.is_empty() { return Ok(()); }\n")]),
 ("sql-exists-not", "C16", [(S, "Ok(count == 1)", "Ok(count != 1)")]),
 ("sql-exists-ge", "", [(S, "Ok(count == 1)", "Ok(count > 0)")]),
 ("sql-exists-true", "C16", [(S, "Ok(count == 1)", "Ok(count <= 1)")]),
 ("sql-exists-state", "C16", [(S, "SELECT COUNT(*) FROM data WHERE key=?", "SELECT COUNT(*) FROM state WHERE key=?")]),
 ("sql-exists-prefix", "C16", [(S, "SELECT COUNT(*) FROM data WHERE key=?", "SELECT COUNT(*) FROM data WHERE key>=?")]),
 ("sql-between-limit", "C16", [(S, 'WHERE key >= ? AND key < ?"', 'WHERE key >= ? AND key < ? LIMIT 1"')]),
 ("sql-between-le", "C16", [(S, 'WHERE key >= ? AND key < ?"', 'WHERE key >= ? AND key <= ?"')]),
 ("sql-between-gt", "C16", [(S, 'WHERE key >= ?"', 'WHERE key > ?"')]),
 ("sql-between-noend", "C16", [(S, 'prepare("SELECT key FROM data WHERE key >= ?")', 'prepare("SELECT key FROM data WHERE key >= ? LIMIT 1")')]),
 ("sql-between-swap", "C16 C26", [(S, "params![start, e]", "params![e, start]")]),
 ("sql-between-skip", "C16", [(S, "            for row in rows {\n                results.push(row.to_ds_r()?);\n            }\n        } else", "            for row in rows {\n                let r: Vec<u8> = row.to_ds_r()?;\n                if r != start { results.push(r); }\n            }\n        } else")]),
 ("sql-between-collect", "", [(S, "            for row in rows {\n                results.push(row.to_ds_r()?);\n            }\n        } else", "            results = rows.collect::<Result<Vec<Vec<u8>>, _>>().to_ds_r()?;\n        } else")]),
 ("canon-first", "C16", [(D, "1 => Ok(key::Key::from_db_key(&results.pop().unwrap())?)", "1 | 2 => Ok(key::Key::from_db_key(&results.pop().unwrap())?)")]),
 ("canon-match-slice", "", [(D, """        match results.len() {
            0 => Err(CanonicalizeError::NotFound(err_str)),
            // This is okay since we know it will have one item.
            #[allow(clippy::option_unwrap_used)]
            1 => Ok(key::Key::from_db_key(&results.pop().unwrap())?),
            _ => {""", """        match results.as_slice() {
            [] => Err(CanonicalizeError::NotFound(err_str)),
            [one] => Ok(key::Key::from_db_key(one)?),
            _ => {""")]),
 ("canon-if", "", [(D, """        match results.len() {
            0 => Err(CanonicalizeError::NotFound(err_str)),
            // This is okay since we know it will have one item.
            #[allow(clippy::option_unwrap_used)]
            1 => Ok(key::Key::from_db_key(&results.pop().unwrap())?),
            _ => {""", """        if results.is_empty() { return Err(CanonicalizeError::NotFound(err_str)); }
        if results.len() == 1 { return Ok(key::Key::from_db_key(&results[0])?); }
        match results.len() {
            _ => {""")]),
 ("canon-if-bad", "C16", [(D, """        match results.len() {
            0 => Err(CanonicalizeError::NotFound(err_str)),
            // This is okay since we know it will have one item.
            #[allow(clippy::option_unwrap_used)]
            1 => Ok(key::Key::from_db_key(&results.pop().unwrap())?),
            _ => {""", """        if results.is_empty() { return Err(CanonicalizeError::NotFound(err_str)); }
        if results.len() <= 2 { return Ok(key::Key::from_db_key(&results[0])?); }
        match results.len() {
            _ => {""")]),
 ("canon-noexists", "C16", [(D, "                if self.raw_exists(&key)? {\n                    results.push(key);\n                }", "                results.push(key);")]),
 ("canon-negexists", "C16", [(D, "if self.raw_exists(&key)? {", "if !self.raw_exists(&key)? {")]),
 ("canon-nf2", "C16", [(D, "            0 => Err(CanonicalizeError::NotFound(err_str)),", "            0 | 3 => Err(CanonicalizeError::NotFound(err_str)),")]),
 ("canon-amb-skip", "C16", [(D, "                    .into_iter()\n                    .map(|x| key::Key", "                    .into_iter()\n                    .skip(1)\n                    .map(|x| key::Key")]),
 ("canon-dedup", "C16", [(D, "        match results.len() {", "        results.truncate(1);\n        match results.len() {")]),
 ("canon-reflog-swap", "C16", [(D, "Err(GetReflogError::NotFound) => return Err(CanonicalizeError::NotFound(orig)),", "Err(GetReflogError::NotFound) => return Ok(self.hash(orig.as_bytes())),")]),
 ("canon-end-none", "C16", [(D, "self.raw_between(&start, end.as_deref())?", "{ let _ = end; self.raw_between(&start, None)? }")]),
 ("dur-off", "C18", [(S, '&"synchronous", &"2"', '&"synchronous", &"1"')]),
 ("dur-memory", "C18", [(S, '&"journal_mode", &"truncate"', '&"journal_mode", &"memory"')]),
 ("dur-late", "C18", [(S, '        conn.pragma_update(None, &"synchronous", &"2")?;\n', ''), (S, "        Ok(Self { conn })", '        conn.pragma_update(None, &"synchronous", &"2")?;\n        Ok(Self { conn })')]),
 ("dur-batch", "", [(S, '        conn.pragma_update(None, &"synchronous", &"2")?;\n', '        conn.execute_batch("PRAGMA synchronous = FULL;")?;\n')]),
 ("dur-weaken-later", "C18", [(S, '        self.conn\n            .execute("BEGIN TRANSACTION", params![])', '        self.conn.pragma_update(None, &"synchronous", &"OFF").to_ds_r()?;\n        self.conn\n            .execute("BEGIN TRANSACTION", params![])')]),
 ("dur-cond", "C18", [(S, '        conn.pragma_update(None, &"synchronous", &"2")?;\n', '        if std::env::var_os("SNAPCD_FAST").is_none() { conn.pragma_update(None, &"synchronous", &"2")?; }\n')]),
 ("cache-begin-immediate", "", [(C, '"BEGIN TRANSACTION"', '"BEGIN IMMEDIATE"')]),
 ("ref-lower", "C13", [("src/main.rs", "refname: args.refname,\n        remote: args.remote,", "refname: args.refname.to_lowercase(),\n        remote: args.remote,")]),
]
M += [
 ("ref-get-remote", "C13", [("src/main.rs", "        .reflog_get(&args.refname, args.remote.as_deref())?;", "        .reflog_get(&args.refname, None)?;")]),
 ("ref-log-trim", "C13", [("src/main.rs", ".reflog_walk(&refname, args", ".reflog_walk(refname.trim(), args")]),
 ("ref-push-remote-none", "C13", [("src/main.rs", "        remote: args.remote,\n", "        remote: args.remote.filter(|x| !x.is_empty()),\n")]),
]
