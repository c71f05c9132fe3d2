X = "src/main.rs"
S = "src/ds/sqlite.rs"
D = "src/ds/mod.rs"
M = [
# C33
("c33 insert repo", "C33 C28", [(X, "dir::put_fs_item(&mut ds_state.ds, &args.path, &filter)?;\n\n    println", "dir::put_fs_item(&mut ds_state.ds, &ds_state.repo_path, &filter)?;\n\n    println")]),
("c33 insert unprinted", "C33", [(X, '    println!("inserted hash {}", hash);\n', '    log::info!("inserted hash {}", hash);\n')]),
("c33 insert short", "C33", [(X, '    println!("inserted hash {}", hash);\n', '    println!("inserted hash {}", &hash.as_user_key()[..16]);\n')]),
("c33 insert short chars", "C33", [(X, '    println!("inserted hash {}", hash);\n', '    println!("inserted hash {}", hash.to_string().chars().take(20).collect::<String>());\n')]),
("c33 fetch head", "C33", [(X, "    let key = ds_state.ds.canonicalize(args.key)?;\n\n    dir::get_fs_item(&ds_state.ds, key.into()", "    let key = match ds_state.ds.canonicalize(args.key) {\n        Ok(k) => k,\n        Err(_) => get_head_key(&ds_state.ds)?.inner(),\n    };\n\n    dir::get_fs_item(&ds_state.ds, key.into()")]),
("c33 fetch subdir", "C33", [(X, "dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;", "dir::get_fs_item(&ds_state.ds, key.into(), &args.dest.join(\"out\"))?;")]),
("c33 compare head always", "C33", [(X, "        Some(k) => ds_state.ds.canonicalize(k)?.into(),\n        None => {\n            let reflog", "        Some(k) if !args.stat => ds_state.ds.canonicalize(k)?.into(),\n        _ => {\n            let reflog")]),
("c33 compare master", "C33", [(X, "            let reflog = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n            let key = ds_state.ds.reflog_get(&reflog, None)?;\n            commit::Commit::from_key(&ds_state.ds, key).tree()", "            let key = ds_state.ds.reflog_get(\"master\", None)?;\n            commit::Commit::from_key(&ds_state.ds, key).tree()")]),
("c33 compare parent", "C33", [(X, "            let key = ds_state.ds.reflog_get(&reflog, None)?;\n            commit::Commit::from_key(&ds_state.ds, key).tree()", "            let key = ds_state.ds.reflog_get(&reflog, None)?;\n            let commit = commit::Commit::from_key(&ds_state.ds, key);\n            match commit.parents().first() {\n                Some(p) => commit::Commit::from_key(&ds_state.ds, *p).tree(),\n                None => commit.tree(),\n            }")]),
("c33 status walk", "C33", [(X, "            let result = diff::compare(\n                &mut ds_state.ds,\n                diff::DiffTarget::FileSystem(\n                    path.to_path_buf(),\n                    state.common.exclude.clone(),\n                    ds_state.db_folder_path.clone(),\n                ),\n                Some(obj.tree()),\n", "            let tree = match obj.parents().first() {\n                Some(p) => commit::Commit::from_key(&ds_state.ds, *p).tree(),\n                None => obj.tree(),\n            };\n            let result = diff::compare(\n                &mut ds_state.ds,\n                diff::DiffTarget::FileSystem(\n                    path.to_path_buf(),\n                    state.common.exclude.clone(),\n                    ds_state.db_folder_path.clone(),\n                ),\n                Some(tree),\n")]),
("c33 status nothing", "C33", [(X, "                Some(obj.tree()),\n", "                if state.common.quiet { None } else { Some(obj.tree()) },\n")]),
("c33 checkout oldest", "C33", [(X, "    let key = ds_state.ds.reflog_get(&reflog, None)?;\n\n    let filter", "    let key = match ds_state.ds.reflog_walk(&reflog, None)?.pop() {\n        Some(k) => k,\n        None => ds_state.ds.reflog_get(&reflog, None)?,\n    };\n\n    let filter")]),
("c33 checkout remote", "C33 C13", [(X, "    let key = ds_state.ds.reflog_get(&reflog, None)?;\n\n    let filter", "    let key = ds_state.ds.reflog_get(&reflog, Some(\"origin\")).or_else(|_| ds_state.ds.reflog_get(&reflog, None))?;\n\n    let filter")]),
("c33 reflog last only", "C33", [(X, "    for (idx, key) in keys.iter().enumerate() {\n        println!", "    for (idx, key) in keys.iter().enumerate().take(50) {\n        println!")]),
("c33 reflog dups", "C33", [(X, "    for (idx, key) in keys.iter().enumerate() {\n", "    for (idx, key) in keys.iter().enumerate() {\n        if idx > 0 && keys[idx - 1] == *key {\n            continue;\n        }\n")]),
("c33 reflog order", "C33", [(X, "    for (idx, key) in keys.iter().enumerate() {\n", "    for (idx, key) in keys.iter().rev().enumerate() {\n")]),
("c33 reflog break", "C33", [(X, "        println!(\"{}: {}\", keys.len() - idx, key);\n", "        println!(\"{}: {}\", keys.len() - idx, key);\n        if idx == 99 {\n            break;\n        }\n")]),
("c33 update head", "C33", [(X, "    let key = canonicalize_commit(&ds_state.ds, args.key)?;\n\n    let refname = match", "    let key = match canonicalize_commit(&ds_state.ds, args.key) {\n        Ok(k) => k,\n        Err(_) => get_head_key(&ds_state.ds)?,\n    };\n\n    let refname = match")]),
("c33 set-head trimmed", "C33", [(X, "    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;\n\n    ds_state.ds.put_head(&args.refname)?;\n\n    Ok(())", "    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;\n\n    ds_state.ds.put_head(args.refname.trim())?;\n\n    Ok(())")]),
("c33 checkout-head old", "C33", [(X, "    ds_state.ds.put_head(&args.refname)?;\n\n    println!", "    ds_state.ds.put_head(&reflog)?;\n\n    println!")]),
("c33 walk tree files", "C33", [(X, "    for item in fs_items {\n        println!(\"{:?}\", item)\n    }", "    for item in fs_items {\n        if !(item.1).1 {\n            println!(\"{:?}\", item)\n        }\n    }")]),
("c33 walk fs hidden", "C33", [(X, "    for item in fs_items {\n        println!(\"{:?}, {}\", item.0, item.1)\n    }", "    for item in fs_items.into_iter().filter(|i| !i.0.starts_with(\".git\")) {\n        println!(\"{:?}, {}\", item.0, item.1)\n    }")]),
("c33 commit-tree parents rev", "C33", [(X, "    for parent in args.parents {\n", "    for parent in args.parents.into_iter().rev() {\n")]),
("c33 commit-tree one parent", "C33", [(X, "        parents.push(key);\n    }\n", "        parents.push(key);\n        if parents.len() == 8 {\n            break;\n        }\n    }\n")]),
("c33 commit-tree dup parent", "C33", [(X, "        parents.push(key);\n    }\n", "        if !parents.iter().any(|x: &key::TypedKey<commit::Commit>| x.inner() == key.inner()) {\n            parents.push(key);\n        }\n    }\n")]),
("c33 commit-tree silent", "C33", [(X, '    println!("{}", commit);\n', '    if !state.common.quiet {\n        println!("{}", commit);\n    }\n')]),
("c33 get-head silent", "C33", [(X, '    println!("head: {:?}", head);\n', '    if head.is_some() {\n        println!("head: {:?}", head);\n    }\n')]),
("c33 pretty other", "C33", [(X, "    let item = ds_state.ds.get_obj(key)?;\n\n    item.debug", "    let item = match ds_state.ds.get_obj(key) {\n        Ok(o) => o,\n        Err(_) => ds_state.ds.get_obj(get_head_key(&ds_state.ds)?.inner())?,\n    };\n\n    item.debug")]),
("c33 fetch no-op", "C33 C30", [(X, "    dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;", "    if !args.dest.exists() {\n        dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;\n    }")]),
# C33, same behaviour
("c33q reflog loop", "", [(X, "    for (idx, key) in keys.iter().enumerate() {\n        println!(\"{}: {}\", keys.len() - idx, key);\n    }", "    let mut left = keys.len();\n    for key in &keys {\n        println!(\"{}: {}\", left, key);\n        left -= 1;\n    }")]),
("c33q reflog index", "", [(X, "    for (idx, key) in keys.iter().enumerate() {\n        println!(\"{}: {}\", keys.len() - idx, key);\n    }", "    let mut idx = 0;\n    while idx < keys.len() {\n        println!(\"{}: {}\", keys.len() - idx, keys[idx]);\n        idx += 1;\n    }")]),
("c33q reflog for_each", "", [(X, "    for (idx, key) in keys.iter().enumerate() {\n        println!(\"{}: {}\", keys.len() - idx, key);\n    }", "    keys.iter()\n        .enumerate()\n        .for_each(|(idx, key)| println!(\"{}: {}\", keys.len() - idx, key));")]),
("c33q reflog collect", "", [(X, "    for (idx, key) in keys.iter().enumerate() {\n        println!(\"{}: {}\", keys.len() - idx, key);\n    }", "    let lines: Vec<String> = keys\n        .iter()\n        .enumerate()\n        .map(|(idx, key)| format!(\"{}: {}\", keys.len() - idx, key))\n        .collect();\n    for line in lines {\n        println!(\"{}\", line);\n    }")]),
("c33q reflog helper", "", [(X, "    for (idx, key) in keys.iter().enumerate() {\n        println!(\"{}: {}\", keys.len() - idx, key);\n    }", "    for (idx, key) in keys.iter().enumerate() {\n        print_entry(keys.len() - idx, key);\n    }"), (X, "fn ref_update(", "fn print_entry(n: usize, key: &key::TypedKey<commit::Commit>) {\n    println!(\"{}: {}\", n, key);\n}\n\nfn ref_update(")]),
("c33q reflog empty", "", [(X, "    for (idx, key) in keys.iter().enumerate() {\n", "    if keys.is_empty() {\n        return Ok(());\n    }\n\n    for (idx, key) in keys.iter().enumerate() {\n")]),
("c33q insert string", "", [(X, '    println!("inserted hash {}", hash);\n', '    let text = format!("inserted hash {}", hash);\n    println!("{}", text);\n')]),
("c33q insert writeln", "", [(X, '    println!("inserted hash {}", hash);\n', '    use std::io::Write;\n    let out = std::io::stdout();\n    writeln!(out.lock(), "inserted hash {}", hash)?;\n')]),
("c33q insert inner", "", [(X, '    println!("inserted hash {}", hash);\n', '    println!("inserted hash {}", hash.as_user_key());\n')]),
("c33q compare map", "", [(X, "    let key = match args.key {\n        Some(k) => ds_state.ds.canonicalize(k)?.into(),\n        None => {\n            let reflog = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n            let key = ds_state.ds.reflog_get(&reflog, None)?;\n            commit::Commit::from_key(&ds_state.ds, key).tree()\n        }\n    };", "    let key = if let Some(k) = args.key {\n        ds_state.ds.canonicalize(k)?.into()\n    } else {\n        let head = get_head_key(&ds_state.ds)?;\n        commit::Commit::from_key(&ds_state.ds, head).tree()\n    };")]),
("c33q compare helper", "", [(X, "            let reflog = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n            let key = ds_state.ds.reflog_get(&reflog, None)?;\n            commit::Commit::from_key(&ds_state.ds, key).tree()\n        }\n    };\n\n    let path", "            head_tree(&ds_state.ds)?\n        }\n    };\n\n    let path"), (X, "fn init(", "fn head_tree(ds: &impl DataStore) -> Result<key::TypedKey<dir::FSItem>, anyhow::Error> {\n    let key = get_head_key(ds)?;\n\n    Ok(commit::Commit::from_key(ds, key).tree())\n}\n\nfn init(")]),
("c33q checkout get_head_key", "", [(X, "    let reflog = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n    let key = ds_state.ds.reflog_get(&reflog, None)?;\n\n    let filter", "    let key = get_head_key(&ds_state.ds)?;\n\n    let filter")]),
("c33q status from_key", "", [(X, "            let obj: commit::Commit = ds_state\n                .ds\n                .get_obj(k.inner())\n                .unwrap()\n                .into_owned()\n                .try_into()\n                .unwrap();\n", "            let obj = commit::Commit::from_key(&ds_state.ds, *k);\n")]),
("c33q walk tree sorted", "", [(X, "    for item in fs_items {\n        println!(\"{:?}\", item)\n    }", "    let mut items: Vec<_> = fs_items.into_iter().collect();\n    items.sort_by(|a, b| a.0.cmp(&b.0));\n    for item in items {\n        println!(\"{:?}\", item)\n    }")]),
("c33q walk tree destruct", "", [(X, "    for item in fs_items {\n        println!(\"{:?}\", item)\n    }", "    for (path, entry) in &fs_items {\n        println!(\"{:?}\", (path, entry))\n    }")]),
("c33q walk fs iter", "", [(X, "    for item in fs_items {\n        println!(\"{:?}, {}\", item.0, item.1)\n    }", "    for (path, is_dir) in fs_items.iter() {\n        println!(\"{:?}, {}\", path, is_dir);\n    }")]),
("c33q commit-tree collect", "", [(X, "    let mut parents = Vec::with_capacity(args.parents.len());\n\n    for parent in args.parents {\n        let key = canonicalize_commit(&ds_state.ds, parent)?;\n        parents.push(key);\n    }\n", "    let ds = &ds_state.ds;\n    let parents = args\n        .parents\n        .into_iter()\n        .map(|parent| canonicalize_commit(ds, parent))\n        .collect::<Result<Vec<_>, _>>()?;\n")]),
("c33q commit-tree cloned", "", [(X, "    for parent in args.parents {\n", "    for parent in args.parents.into_iter().collect::<Vec<_>>() {\n")]),
("c33q pretty chain", "", [(X, "    let item = ds_state.ds.get_obj(key)?;\n\n    item.debug_pretty_print()?;", "    ds_state.ds.get_obj(key)?.debug_pretty_print()?;")]),
("c33q fetch map", "", [(X, "    let key = ds_state.ds.canonicalize(args.key)?;\n\n    dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;\n\n    Ok(())", "    let FetchArgs { key, dest } = args;\n    let found = ds_state.ds.canonicalize(key)?;\n\n    dir::get_fs_item(&ds_state.ds, found.into(), &dest).map_err(Into::into)")]),
("c33q get-head match", "", [(X, '    println!("head: {:?}", head);\n', '    match head {\n        Some(h) => println!("head: {:?}", Some(h)),\n        None => println!("head: {:?}", None::<String>),\n    }\n')]),
("c33q reflog-get inline", "", [(X, "    let key = ds_state\n        .ds\n        .reflog_get(&args.refname, args.remote.as_deref())?;\n\n    println!(\"{}\", key);", "    println!(\n        \"{}\",\n        ds_state\n            .ds\n            .reflog_get(&args.refname, args.remote.as_deref())?\n    );")]),
("c33q update and_then", "", [(X, "    let log = Reflog {\n        key,\n        refname,\n        remote: None,\n    };\n\n    ds_state.ds.reflog_push(&log)?;\n\n    Ok(())\n}\n\nfn ref_cmd", "    push_local(&ds_state.ds, key, refname)\n}\n\nfn push_local(\n    ds: &SqliteDS,\n    key: key::TypedKey<commit::Commit>,\n    refname: String,\n) -> CMDResult {\n    let log = Reflog {\n        key,\n        refname,\n        remote: None,\n    };\n    ds.reflog_push(&log)?;\n\n    Ok(())\n}\n\nfn ref_cmd")]),
# C34
("c34 fetch records ref", "C34", [(X, "    dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;", "    dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;\n    if let Ok(k) = get_head_key(&ds_state.ds) {\n        ds_state.ds.reflog_push(&Reflog {\n            key: k,\n            refname: \"FETCH_HEAD\".into(),\n            remote: None,\n        })?;\n    }")]),
("c34 ref log sets head", "C34 C24", [(X, "    let keys = ds_state.ds.reflog_walk(&refname, args.remote.as_deref())?;\n", "    if ds_state.ds.get_head()?.is_none() {\n        ds_state.ds.put_head(&refname)?;\n    }\n    let keys = ds_state.ds.reflog_walk(&refname, args.remote.as_deref())?;\n")]),
("c34 get_head default", "C34 C24", [(D, "    fn get_head(&self) -> Result<Option<String>, GetHeadError> {\n", "    fn get_head(&self) -> Result<Option<String>, GetHeadError> {\n        if self.raw_get_state(b\"HEAD\")?.is_none() {\n            let _ = self.raw_put_state(b\"HEAD\", b\"master\");\n        }\n")]),
("c34 reflog_get cleans", "C34", [(S, "        // We have to use `remote IS ?`", "        if remote == Some(\"\") {\n            let _ = self.conn.execute(\"INSERT INTO reflog(refname, remote, key) VALUES (?, NULL, NULL)\", params![refname]);\n        }\n        // We have to use `remote IS ?`")]),
("c34 walk stores", "C34", [(X, "    let fs_items = dir::walk_fs_items(&ds_state.ds, key.into())?;\n", "    let fs_items = dir::walk_fs_items(&ds_state.ds, key.into())?;\n    for (_, (k, _)) in &fs_items {\n        let obj = ds_state.ds.get_obj(k.inner())?.into_owned();\n        ds_state.ds.put_obj(&obj)?;\n    }\n")]),
("c34 main sets head", "C34", [(X, "    if let Some(x) = state.ds_state.as_mut() {\n        x.ds.begin_trans()?;\n    }\n", "    if let Some(x) = state.ds_state.as_mut() {\n        x.ds.begin_trans()?;\n        if x.ds.get_head()?.is_none() {\n            x.ds.put_head(\"master\")?;\n        }\n    }\n")]),
("c34q helper", "", [(X, "    ds_state.ds.reflog_push(&log)?;\n\n    Ok(())\n}\n\nfn show", "    record(&ds_state.ds, &log)\n}\n\nfn record(ds: &impl DataStore, log: &Reflog) -> CMDResult {\n    ds.reflog_push(log)?;\n    Ok(())\n}\n\nfn show")]),
]
