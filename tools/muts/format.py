O, D, CO, K, Y, B, S, DS, M = ("src/object.rs", "src/dir.rs", "src/commit.rs", "src/key.rs", "src/keyish.rs", "src/base32.rs", "src/ds/sqlite.rs", "src/ds/mod.rs", "src/main.rs")
CRD = "CREATE TABLE IF NOT EXISTS data ("
M_ = [
    ("c35-type-renamed", "C35", [(O, "    FSItemDir,\n    FSItemFile,", "    #[serde(rename = \"Tree\")]\n    FSItemDir,\n    FSItemFile,")]),
    ("c35-types-lower", "C35", [(O, "pub enum ObjType {", "#[serde(rename_all = \"lowercase\")]\npub enum ObjType {")]),
    ("c35-types-swapped", "C35", [(O, "    FSItemDir,\n    FSItemFile,", "    #[serde(rename = \"FSItemFile\")]\n    FSItemDir,\n    #[serde(rename = \"FSItemDir\")]\n    FSItemFile,")]),
    ("c35-data-renamed", "C35", [(O, "    data: serde_bytes", "    #[serde(rename = \"d\")]\n    data: serde_bytes")]),
    ("c35-data-list", "C35", [(O, "    data: serde_bytes::ByteBuf,", "    data: Vec<u8>,"), (O, "serde_bytes::ByteBuf::from(data)", "data.to_vec()"), (O, "serde_bytes::ByteBuf::from(data)", "data")]),
    ("c35-names-renamed", "C35", [(D, "    children_names: Vec<PathBuf>,", "    #[serde(rename = \"names\")]\n    children_names: Vec<PathBuf>,")]),
    ("c35-names-alias", "", [(D, "    children_names: Vec<PathBuf>,", "    #[serde(rename = \"names\", alias = \"children_names\")]\n    children_names: Vec<PathBuf>,")]),
    ("c35-attr-new", "C35", [(CO, "    message: String,\n", "    message: String,\n    author: String,\n")]),
    ("c35-attr-new-default", "", [(CO, "    message: String,\n", "    message: String,\n    #[serde(default)]\n    author: String,\n")]),
    ("c35-attr-ident", "", [(CO, "    extra: HashMap", "    #[serde(rename = \"extra\")]\n    more: HashMap")]),
    ("c35-attr-ident-bad", "C35", [(CO, "    extra: HashMap", "    more: HashMap")]),
    ("c35-attr-camel", "C35", [(D, "pub struct FSItem {", "#[serde(rename_all = \"camelCase\")]\npub struct FSItem {")]),
    ("c35-item-lower", "C35", [(D, "enum FSItemType {", "#[serde(rename_all = \"lowercase\")]\nenum FSItemType {")]),
    ("c35-key-renamed", "C35", [(K, "    Blake3B([u8; 32]),", "    #[serde(rename = \"b\")]\n    Blake3B([u8; 32]),")]),
    ("c35-id-2", "C35", [(K, "            Self::Blake3B(_) => 1,", "            Self::Blake3B(_) => 2,"), (K, "            1 => {\n", "            2 => {\n"), (K, "0 | 2..=255", "0 | 1 | 3..=255"),
                         (Y, "v.insert(0_usize, 1_u8);", "v.insert(0_usize, 2_u8);"), (Y, "ret_start.insert(0_usize, 1);", "ret_start.insert(0_usize, 2);"), (Y, "v.insert(0_usize, 1);", "v.insert(0_usize, 2);")]),
    ("c35-prefix", "C35", [(K, "Self::Blake3B(_) => \"b\"", "Self::Blake3B(_) => \"k\""), (Y, "Some(b'b') => 32 * 8", "Some(b'k') => 32 * 8")]),
    ("c35-prefix-more", "C17", [(Y, "Some(b'b') => 32 * 8", "Some(b'b') | Some(b'B') => 32 * 8")]),
    ("c35-letters", "C35", [(B, "static TABLE: [u8; 32] = *b\"abcdefghijklmnopqrstuvwxyz234567\"", "static TABLE: [u8; 32] = *b\"234567abcdefghijklmnopqrstuvwxyz\"")]),
    ("c35-table", "C35", [(S, CRD, "CREATE TABLE IF NOT EXISTS objects ("), (S, "SELECT value FROM data", "SELECT value FROM objects"), (S, "INTO data", "INTO objects"), (S, "COUNT(*) FROM data", "COUNT(*) FROM objects"),
                          (S, "SELECT key FROM data", "SELECT key FROM objects"), (S, "SELECT key FROM data", "SELECT key FROM objects")]),
    ("c35-table-one", "C35", [(S, "SELECT value FROM state", "SELECT value FROM data")]),
    ("c35-column", "C35", [(S, "                refname TEXT NOT NULL,", "                name TEXT NOT NULL,"), (S, "WHERE refname=? AND", "WHERE name=? AND"), (S, "reflog(refname,", "reflog(name,"), (S, "WHERE refname=? AND", "WHERE name=? AND")]),
    ("c35-column-new", "C35", [(S, "                key BLOB\n", "                key BLOB,\n                time INTEGER DEFAULT 0\n"), (S, "ORDER BY id DESC LIMIT 1", "ORDER BY time DESC, id DESC LIMIT 1")]),
    ("c35-order", "C35", [(S, "                key BLOB NOT NULL UNIQUE PRIMARY KEY,\n                value BLOB NOT NULL\n            ) WITHOUT ROWID;\n\n            CREATE TABLE IF NOT EXISTS reflog", "                value BLOB NOT NULL,\n                key BLOB NOT NULL UNIQUE PRIMARY KEY\n            ) WITHOUT ROWID;\n\n            CREATE TABLE IF NOT EXISTS reflog"),
                          (S, "                \"INSERT OR REPLACE INTO state VALUES (?, ?)\",\n                params![key, data]", "                \"INSERT OR REPLACE INTO state VALUES (?, ?)\",\n                params![data, key]")]),
    ("c35-order-named", "", [(S, "                key BLOB NOT NULL UNIQUE PRIMARY KEY,\n                value BLOB NOT NULL\n            ) WITHOUT ROWID;\n\n            CREATE TABLE IF NOT EXISTS reflog", "                value BLOB NOT NULL,\n                key BLOB NOT NULL UNIQUE PRIMARY KEY\n            ) WITHOUT ROWID;\n\n            CREATE TABLE IF NOT EXISTS reflog"),
                             (S, "INTO state VALUES (?, ?)", "INTO state(key, value) VALUES (?, ?)")]),
    ("c35-table-extra", "", [(S, CRD, "CREATE TABLE IF NOT EXISTS notes (id INTEGER PRIMARY KEY, txt TEXT);\n            " + CRD)]),
    ("c35-head", "C35", [(DS, "raw_get_state(b\"HEAD\")", "raw_get_state(b\"head\")"), (DS, "raw_put_state(b\"HEAD\"", "raw_put_state(b\"head\"")]),
    ("c35-head-const", "", [(DS, "raw_get_state(b\"HEAD\")", "raw_get_state(HEAD)"), (DS, "raw_put_state(b\"HEAD\"", "raw_put_state(HEAD"), (DS, "static_assertions::assert_obj_safe!", "const HEAD: &[u8] = b\"HEAD\";\n\nstatic_assertions::assert_obj_safe!")]),
    ("c35-file", "C35", [(M, "join(\"snapcd.db\")", "join(\"snapcd.sqlite\")"), (M, "join(\"snapcd.db\")", "join(\"snapcd.sqlite\")")]),
    ("c35-file-const", "", [(M, "join(\"snapcd.db\")", "join(DB_FILE)"), (M, "join(\"snapcd.db\")", "join(DB_FILE)"), (M, "fn find_db_folder", "const DB_FILE: &str = \"snapcd.db\";\n\nfn find_db_folder")]),
    ("c35-file-fn", "", [(M, "SqliteDS::new(&state.common.db_path.join(\"snapcd.db\"))", "open_db(&state.common.db_path)"), (M, "SqliteDS::new(x.join(\"snapcd.db\"))", "open_db(&x)"),
                         (M, "fn find_db_folder", "fn open_db(p: &Path) -> Result<SqliteDS, anyhow::Error> {\n    let mut f = p.to_path_buf();\n    f.push(\"snapcd.db\");\n    Ok(SqliteDS::new(f)?)\n}\n\nfn find_db_folder")]),
    ("c35-folder", "C35", [(M, "default_value = \".snapcd\"", "default_value = \".snap\"")]),
    ("c35-tree-last", "C35", [(CO, "        keys.push(self.tree.into());\n\n        for p in self.parents {\n            keys.push(p.into())\n        }\n", "        for p in self.parents {\n            keys.push(p.into())\n        }\n\n        keys.push(self.tree.into());\n"),
                              (CO, "let tree = owned_keys.remove(0);", "let tree = owned_keys.pop().unwrap();")]),
    ("c35-tree-split", "", [(CO, "        let mut owned_keys = self.keys().to_vec();\n\n        let tree = owned_keys.remove(0);\n        let parents = owned_keys;\n", "        let (&tree, parents) = self.keys().split_first().expect(\"a commit has a tree\");\n        let parents = parents.to_vec();\n")]),
    ("c35-tree-index", "", [(CO, "        let mut owned_keys = self.keys().to_vec();\n\n        let tree = owned_keys.remove(0);\n        let parents = owned_keys;\n", "        let tree = self.keys()[0];\n        let parents = self.keys()[1..].to_vec();\n")]),
    ("c35-tree-iter", "", [(CO, "        let mut owned_keys = self.keys().to_vec();\n\n        let tree = owned_keys.remove(0);\n        let parents = owned_keys;\n", "        let mut it = self.keys().iter().copied();\n        let tree = it.next().expect(\"a commit has a tree\");\n        let parents: Vec<Key> = it.collect();\n")]),
    ("c35-remote-empty", "C13", [(S, "params![refname, remote]", "params![refname, remote.unwrap_or(\"\")]"), (S, "query(params![refname, remote])", "query(params![refname, remote.unwrap_or(\"\")])"), (S, "params![data.refname, data.remote, ", "params![data.refname, data.remote.as_deref().unwrap_or(\"\"), ")]),
    ("c35-head-prefix", "C24", [(DS, "Some(b) => Some(String::from_utf8(b)?),", "Some(b) => String::from_utf8(b)?.strip_prefix(\"ref: \").map(|x| x.to_string()),"), (DS, "head.as_bytes())?;", "format!(\"ref: {}\", head).as_bytes())?;")]),
    ("c35-names-os", "C35", [(D, "    children_names: Vec<PathBuf>,", "    children_names: Vec<std::ffi::OsString>,"), (D, "child_path(path, name)?)?;", "child_path(path, Path::new(name))?)?;"), (D, "child_path(path, name)?, filter", "child_path(path, Path::new(name))?, filter"), (D, "fsobj.children_names.iter().cloned().collect()", "fsobj.children_names.iter().map(PathBuf::from).collect()")]),
    ("c35-size-text", "C35", [(D, "    size: u64,", "    size: String,"), (D, "        let size = result.len() as u64;", "        let size = result.len().to_string();"), (D, "size: meta.len(),", "size: meta.len().to_string(),"), (D, "size: meta.len(),", "size: meta.len().to_string(),")]),
    ("c35-size-wide", "", [(D, "    size: u64,", "    size: u128,"), (D, "        let size = result.len() as u64;", "        let size = result.len() as u128;"), (D, "size: meta.len(),", "size: meta.len() as u128,"), (D, "size: meta.len(),", "size: meta.len() as u128,")]),
    ("c35-map-tree", "", [(CO, "use std::collections::HashMap;", "use std::collections::BTreeMap;"), (CO, "extra: HashMap", "extra: BTreeMap")]),
    ("c35-key-struct", "C35", [(K, "    Blake3B([u8; 32]),", "    Blake3B { h: [u8; 32] },"), (K, "            Self::Blake3B(_) => 1,", "            Self::Blake3B { .. } => 1,"), (K, "            Self::Blake3B(x) => x", "            Self::Blake3B { h: x } => x"),
                               (K, "Ok(Self::Blake3B(hash_arr))", "Ok(Self::Blake3B { h: hash_arr })"), (K, "            Self::Blake3B(_) => \"b\"", "            Self::Blake3B { .. } => \"b\""), (DS, "key::Key::Blake3B(*b3.as_bytes())", "key::Key::Blake3B { h: *b3.as_bytes() }")]),
]
M0, M = M, M_
