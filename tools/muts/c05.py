D = "src/ds/mod.rs"
S = "src/ds/sqlite.rs"
PUT = """        let keybuf = self.hash(&data);

        self.raw_put(&keybuf.as_db_key(), &data)?;

        Ok(keybuf)
"""
INS = """        self.conn
            .prepare_cached("INSERT OR IGNORE INTO data VALUES (?, ?)")
            .to_ds_r()?
            .execute(params![key, data])
            .to_ds_r()?;
"""
M = [
 ("c05 hash of a prefix", "C05", [(D, "self.hash(&data);", "self.hash(&data[..data.len().min(1 << 20)]);")]),
 ("c05 truncated data", "C05", [(D, PUT, PUT.replace("&data)?", "&data[..data.len() & 0xffff_ffff]\n)?"))]),
 ("c05 hash mutated", "C05", [(D, "let b3 = hash(data);\n        key::Key::Blake3B(*b3.as_bytes())", "let b3 = hash(data);\n        let mut x = *b3.as_bytes();\n        x.reverse();\n        key::Key::Blake3B(x)")]),
 ("c05 hash byte cleared", "C05", [(D, "let b3 = hash(data);\n        key::Key::Blake3B(*b3.as_bytes())", "let b3 = hash(data);\n        let mut x = *b3.as_bytes();\n        x[31] = 0;\n        key::Key::Blake3B(x)")]),
 ("c05 keyed hash", "C05", [(D, "let b3 = hash(data);", "let b3 = blake3::keyed_hash(&[0u8; 32], data);")]),
 ("c05 double hash", "C05", [(D, "let b3 = hash(data);", "let b3 = hash(hash(data).as_bytes());")]),
 ("c05 hasher twice", "C05", [(D, "let b3 = hash(data);", "let mut h = blake3::Hasher::new();\n        h.update(data);\n        h.update(&[0]);\n        let b3 = h.finalize();")]),
 ("c05 small objects skipped", "C05", [(D, "        self.raw_put(&keybuf.as_db_key(), &data)?;\n", "        if !data.is_empty() {\n            self.raw_put(&keybuf.as_db_key(), &data)?;\n        }\n")]),
 ("c05 user key", "C05", [(D, "self.raw_put(&keybuf.as_db_key(), &data)?", "self.raw_put(keybuf.as_user_key().as_bytes(), &data)?")]),
 ("c05 put encodes after", "C05", [(D, "let keybuf = self.hash(&data);", "let keybuf = self.hash(&data);\n        let mut data = data;\n        data.push(0);")]),
 ("c05 get_obj other key", "C05", [(D, "        let results = self.raw_get(&key.as_db_key())?;", "        let k = self.hash(&key.as_db_key());\n        let results = self.raw_get(&k.as_db_key())?;")]),
 ("c05 get cut", "C05", [(D, "        let results = self.raw_get(&key.as_db_key())?;\n\n        Ok(results)", "        let mut results = self.raw_get(&key.as_db_key())?.into_owned();\n        results.truncate(1 << 24);\n\n        Ok(Cow::Owned(results))")]),
 ("c05 raw_put swapped", "C05", [(S, INS, INS.replace("[key, data]", "[data, key]"))]),
 ("c05 raw_put skip large", "C05", [(S, INS, "        if data.len() < 1_000_000_000 {\n" + INS + "        }\n")]),
 ("c05 raw_put sliced", "C05", [(S, INS, INS.replace("[key, data]", "[key, &data[..data.len() / 2]]"))]),
 ("c05 raw_get prefix", "C05", [(S, "SELECT value FROM data WHERE key=?", "SELECT value FROM data WHERE key>=?")]),
 ("c05 raw_get key column", "C05", [(S, "SELECT value FROM data WHERE key=?", "SELECT key FROM data WHERE key=?")]),
 ("c05 raw_get wrong column", "C05", [(S, '''"SELECT value FROM data WHERE key=?", params![key], |row| {
                row.get(0)''', '''"SELECT value, key FROM data WHERE key=?", params![key], |row| {
                row.get(1)''')]),
 ("c05 raw_get trims", "C05", [(S, "Ok(Cow::Owned(results))", "let mut results = results;\n        results.truncate(1 << 20);\n        Ok(Cow::Owned(results))")]),
 ("c05 raw_put elsewhere", "C05", [("src/file.rs", "@end", "\npub fn alias(ds: &dyn DataStore, k: crate::key::Key, d: &[u8]) -> Result<(), crate::ds::RawPutError> {\n    ds.raw_put(&k.as_db_key(), d)\n}\n")]),
 ("c05 put_obj wraps", "C05", [(D, "        let data = serde_cbor::to_vec(data)?;\n\n        Ok(self.put(data)?)", "        let b = serde_cbor::to_vec(data)?;\n        let k = self.hash(&b);\n        self.put(b)?;\n        let k2 = self.hash(&k.as_db_key());\n        Ok(k2)")]),
 ("ok c05 hasher", "", [(D, "let b3 = hash(data);", "let mut h = blake3::Hasher::new();\n        h.update(data);\n        let b3 = h.finalize();")]),
 ("ok c05 let names", "", [(D, PUT, "        let k = self.hash(data.as_slice());\n        let db = k.as_db_key();\n        match self.raw_put(db.as_slice(), data.as_slice()) {\n            Ok(()) => Ok(k),\n            Err(e) => Err(e),\n        }\n")]),
 ("ok c05 helper", "", [(D, PUT, "        let k = self.hash(&data);\n        self.write_named(&k, &data)?;\n        Ok(k)\n"), (D, "    fn put(&self, data: Vec<u8>)", "    fn write_named(&self, k: &key::Key, data: &[u8]) -> Result<(), RawPutError> {\n        self.raw_put(&k.as_db_key(), data)\n    }\n\n    fn put(&self, data: Vec<u8>)")]),
 ("ok c05 hash into", "", [(D, "key::Key::Blake3B(*b3.as_bytes())", "key::Key::Blake3B(b3.into())")]),
 ("ok c05 get direct", "", [(D, "        let results = self.raw_get(&key.as_db_key())?;\n\n        Ok(results)", "        self.raw_get(&key.as_db_key())")]),
 ("ok c05 get_obj map", "", [(D, "        let data = self.get(key)?;\n\n        Ok(serde_cbor::from_slice(&data)?)", "        let raw = self.get(key)?;\n        serde_cbor::from_slice(raw.as_ref()).map_err(GetObjError::from)")]),
 ("ok c05 put_obj match", "", [(D, "        let data = serde_cbor::to_vec(data)?;\n\n        Ok(self.put(data)?)", "        let mut buf = Vec::new();\n        serde_cbor::to_writer(&mut buf, data)?;\n        match self.put(buf) {\n            Ok(k) => Ok(k),\n            Err(e) => Err(PutObjError::RawPutError(e)),\n        }")]),
 ("ok c05 raw_put prepare", "", [(S, INS, "        let mut stmt = self\n            .conn\n            .prepare(\"INSERT OR IGNORE INTO data (value, key) VALUES (?2, ?1)\")\n            .to_ds_r()?;\n        stmt.execute(params![key, data]).to_ds_r()?;\n")]),
]
