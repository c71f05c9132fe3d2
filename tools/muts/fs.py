D="src/dir.rs"; M="src/main.rs"; F="src/filter.rs"
LOOP='''            for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                get_fs_item(ds, child, &child_path(path, name)?)?;
            }
'''
OPENF='''            let mut f = std::fs::OpenOptions::new()
                .write(true)
                .create_new(true)
                .open(path)?;

'''
CP='''    let mut components = name.components();

    match (components.next(), components.next()) {
        (Some(Component::Normal(name)), None) => Ok(path.join(name)),
        _ => Err(std::io::Error::new(
            std::io::ErrorKind::InvalidData,
            format!("invalid name in directory: {:?}", name),
        )),
    }
'''
ERR='''Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "bad name"))'''
RD='''            for item in std::fs::read_dir(&path)? {
                let ok_item = item?;

                if filter(&ok_item) {
                    fs_items.insert(ok_item.file_name().into());
                }
            }

            let extra: Vec<_> = fs_items.difference(&db_items).collect();
'''
EX='''            for item in extra.iter() {
                assert!(path.starts_with("/home/jess/src/snapcd/repo"));
                let p = path.join(item);
                let ft = std::fs::metadata(&p)?.file_type();

                if ft.is_dir() {
                    remove_filtered(&p, filter)?;
                } else if ft.is_file() {
                    std::fs::remove_file(p)?;
                } else if ft.is_symlink() {
                    return Err(CheckoutFsItemError::UnimplementedFileTypeFound);
                }
            }
'''
G='''assert!(path.starts_with("/home/jess/src/snapcd/repo"));'''
PUTLOOP='''        for direntry in entries {
            if filter(&direntry) {
                result.push(put_fs_item(ds, &direntry.path(), filter)?);
                result_names.push(direntry.file_name().into());
            }
        }
'''
WALKLOOP='''        for entry in entries {
            match entry {
                Ok(direntry) => {
                    if filter(&direntry) {
                        let p = path.join(direntry.file_name());

                        results.extend(internal_walk_real_fs_items(base_path, &p, filter)?);
                    }
                }
                Err(e) => return Err(e.into()),
            }
        }
'''
REMF='''    for entry in std::fs::read_dir(path)? {
        let entry = entry?;

        if !filter(&entry) || !remove_filtered(&entry.path(), filter)? {
            all_removed = false;
        }
    }
'''
M_=[
# C08
("fs c08 truncate instead", "C08", [(D, ".create_new(true)", ".create(true).truncate(true)")]),
("fs c08 create_new false", "C08", [(D, ".create_new(true)", ".create(true).create_new(false)")]),
("fs c08 File::create", "C08", [(D, OPENF, "            let mut f = std::fs::File::create(path)?;\n")]),
("fs c08 remove before", "C08", [(D, OPENF, "            let _ = std::fs::remove_file(path);\n"+OPENF)]),
("fs c08 existing ok", "C08 C02", [(D, OPENF, '''            let mut f = match std::fs::OpenOptions::new().write(true).create_new(true).open(path) {
                Ok(f) => f,
                Err(ref e) if e.kind() == std::io::ErrorKind::AlreadyExists => return Ok(()),
                Err(e) => return Err(e.into()),
            };
''')]),
("fs c08 existing append", "C08", [(D, OPENF, '''            let mut f = match std::fs::OpenOptions::new().write(true).create_new(true).open(path) {
                Ok(f) => f,
                Err(ref e) if e.kind() == std::io::ErrorKind::AlreadyExists => std::fs::OpenOptions::new().append(true).open(path)?,
                Err(e) => return Err(e.into()),
            };
''')]),
("fs c08 check exists then create", "C08", [(D, OPENF, '''            if path.exists() { return Err(std::io::Error::from(std::io::ErrorKind::AlreadyExists).into()); }
            let mut f = std::fs::File::create(path)?;
''')]),
("fs c08 tmp and rename", "C08", [(D, OPENF, '''            let tmp = path.with_extension("tmp");
            let mut f = std::fs::OpenOptions::new().write(true).create_new(true).open(&tmp)?;
'''),(D, "file::read_data(ds, fsobj.children[0].into(), &mut f)?;", "file::read_data(ds, fsobj.children[0].into(), &mut f)?; std::fs::rename(&tmp, path)?;")]),
("fs c08 clean up on failure", "C08", [(D, "file::read_data(ds, fsobj.children[0].into(), &mut f)?;", "if let Err(e) = file::read_data(ds, fsobj.children[0].into(), &mut f) { std::fs::remove_file(path)?; return Err(e.into()); }")]),
("fs c08 fetch removes dest", "C08", [(M, "    dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;", "    if args.dest.is_file() { std::fs::remove_file(&args.dest)?; }\n    dir::get_fs_item(&ds_state.ds, key.into(), &args.dest)?;")]),
("fs c08 empty file shortcut write", "C08", [(D, OPENF, "            if fsobj.size == 0 { std::fs::write(path, b\"\")?; return Ok(()); }\n"+OPENF)]),
("fs c08= File::create_new", "", [(D, OPENF, "            let mut f = std::fs::File::create_new(path)?;\n")]),
("fs c08= options var", "", [(D, OPENF, "            let mut o = std::fs::OpenOptions::new();\n            o.create_new(true);\n            o.write(true);\n            let mut f = o.open(path)?;\n")]),
("fs c08= helper", "", [(D, OPENF, "            let mut f = new_file(path)?;\n"), (D, "@end", "\nfn new_file(p: &Path) -> std::io::Result<std::fs::File> {\n    std::fs::OpenOptions::new().write(true).create_new(true).open(p)\n}\n")]),
# C09
("fs c09 plain join", "C09", [(D, "get_fs_item(ds, child, &child_path(path, name)?)?;", "get_fs_item(ds, child, &path.join(name))?;")]),
("fs c09 plain join checkout", "C09", [(D, "checkout_fs_item(ds, child, &child_path(path, name)?, filter)?;", "checkout_fs_item(ds, child, &path.join(name), filter)?;")]),
("fs c09 first component only", "C09", [(D, CP, "    match name.components().next() { Some(Component::Normal(_)) => Ok(path.join(name)), _ => "+ERR+" }\n")]),
("fs c09 parentdir allowed", "C09", [(D, CP, "    let mut c = name.components();\n    match (c.next(), c.next()) { (Some(Component::Normal(_)), None) | (Some(Component::ParentDir), None) => Ok(path.join(name)), _ => "+ERR+" }\n")]),
("fs c09 not absolute", "C09", [(D, CP, "    if name.is_absolute() { return "+ERR+"; }\n    Ok(path.join(name))\n")]),
("fs c09 all normal", "C09", [(D, CP, "    for c in name.components() { match c { Component::Normal(_) => {}, _ => return "+ERR+" } }\n    Ok(path.join(name))\n")]),
("fs c09 last component", "C09", [(D, CP, "    match name.components().last() { Some(Component::Normal(_)) => Ok(path.join(name)), _ => "+ERR+" }\n")]),
("fs c09 name itself", "C09", [(D, "get_fs_item(ds, child, &child_path(path, name)?)?;", "child_path(path, name)?; get_fs_item(ds, child, name)?;")]),
("fs c09 parent join", "C09", [(D, "Ok(path.join(name)),\n        _ => Err(std", "Ok(path.parent().unwrap_or(path).join(name)),\n        _ => Err(std")]),
("fs c09= components collect", "", [(D, CP, "    let mut it = name.components();\n    if let Some(Component::Normal(n)) = it.next() {\n        if it.next().is_none() {\n            return Ok(path.join(n));\n        }\n    }\n    "+ERR+"\n")]),
("fs c09= file_name", "", [(D, CP, "    if name.file_name() == Some(name.as_os_str()) { Ok(path.join(name)) } else { "+ERR+" }\n")]),
("fs c09= count", "", [(D, CP, "    let mut it = name.components();\n    if name.components().count() != 1 { return "+ERR+"; }\n    match it.next() { Some(Component::Normal(_)) => Ok(path.join(name)), _ => "+ERR+" }\n")]),
("fs c09= check apart", "", [(D, CP, "    check_name(name)?;\n    Ok(path.join(name))\n"), (D, "@end", "\nfn check_name(name: &Path) -> Result<(), std::io::Error> {\n    let mut components = name.components();\n    match (components.next(), components.next()) {\n        (Some(Component::Normal(_)), None) => Ok(()),\n        _ => "+ERR+",\n    }\n}\n")]),
# C10
("fs c10 no assert file", "C10", [(D, "        FSItemType::File => {\n            "+G, "        FSItemType::File => {")]),
("fs c10 assert after create", "C10", [(D, "            "+G+"\n\n            let mut f = std::fs::File::create(path)?;", "            let mut f = std::fs::File::create(path)?;\n            "+G)]),
("fs c10 debug_assert", "C10", [(D, "                "+G, "                debug_"+G)]),
("fs c10 no assert dir", "C10", [(D, "                "+G+"\n                let p", "                let p")]),
("fs c10 parent dir const", "C10", [(D, G, G.replace("/snapcd/repo","")), (D, G, G.replace("/snapcd/repo",""))]),
("fs c10 string prefix", "C10", [(D, "                "+G, '                assert!(path.to_string_lossy().starts_with("/home/jess/src/snapcd/repo"));')]),
("fs c10 checks something else", "C10", [(D, "                "+G, '                assert!(std::env::current_dir()?.starts_with("/home/jess/src/snapcd/repo"));')]),
("fs c10 contains instead", "C10", [(D, "                "+G, '                assert!(path.starts_with("/home/jess/src/snapcd/repo") || path.starts_with("/tmp"));')]),
("fs c10 all entries", "C10", [(D, "let extra: Vec<_> = fs_items.difference(&db_items).collect();", "let extra: Vec<&PathBuf> = fs_items.iter().collect();")]),
("fs c10 swapped difference", "C10", [(D, "fs_items.difference(&db_items)", "db_items.difference(&fs_items)")]),
("fs c10 intersection", "C10", [(D, "fs_items.difference(&db_items)", "fs_items.intersection(&db_items)")]),
("fs c10 remove_dir_all", "C10", [(D, "                    remove_filtered(&p, filter)?;", "                    std::fs::remove_dir_all(&p)?;")]),
("fs c10 unfiltered insert", "C10 C11", [(D, "                if filter(&ok_item) {\n                    fs_items.insert(ok_item.file_name().into());\n                }", "                fs_items.insert(ok_item.file_name().into());")]),
("fs c10 nested unfiltered", "C10 C11", [(D, "if !filter(&entry) || !remove_filtered(&entry.path(), filter)? {", "if !remove_filtered(&entry.path(), filter)? {")]),
("fs c10 nested keeps going", "C10 C11", [(D, "if !filter(&entry) || !remove_filtered(&entry.path(), filter)? {", "let keep = !filter(&entry); if !remove_filtered(&entry.path(), filter)? || keep {")]),
("fs c10 clear file in the way", "C10", [(D, "                std::fs::create_dir_all(&path)?;\n", "                if path.is_file() { std::fs::remove_file(&path)?; }\n                std::fs::create_dir_all(&path)?;\n")]),
("fs c10 command removes", "C10", [(M, "    dir::checkout_fs_item(&ds_state.ds, tree_key", "    let _ = std::fs::remove_file(ds_state.repo_path.join(\"checkout.log\"));\n    dir::checkout_fs_item(&ds_state.ds, tree_key")]),
("fs c10= if panic", "", [(D, "                "+G, '                if !path.starts_with("/home/jess/src/snapcd/repo") { panic!("outside"); }')]),
("fs c10= const", "", [(D, "                "+G, '                assert!(path.starts_with(ROOT));'), (D, "@end", '\nconst ROOT: &str = "/home/jess/src/snapcd/repo";\n')]),
("fs c10= helper check", "", [(D, "                "+G, '                assert!(inside(path));'), (D, "@end", '\nfn inside(p: &Path) -> bool {\n    p.starts_with("/home/jess/src/snapcd/repo")\n}\n')]),
("fs c10= early guard", "", [(D, "    let obj = ds.get_obj(key.into())?;\n\n    let fsobj: FSItem = obj.try_into()?;\n\n    match fsobj.itemtype {\n        FSItemType::Dir => {\n            let db_items", "    "+G+"\n    let obj = ds.get_obj(key.into())?;\n\n    let fsobj: FSItem = obj.try_into()?;\n\n    match fsobj.itemtype {\n        FSItemType::Dir => {\n            let db_items"), (D, "                "+G, "")]),
("fs c10= contains loop", "", [(D, "let extra: Vec<_> = fs_items.difference(&db_items).collect();", "let mut extra: Vec<&PathBuf> = Vec::new();\n            for i in fs_items.iter() {\n                if !db_items.contains(i) { extra.push(i); }\n            }")]),
("fs c10= filter contains", "", [(D, "let extra: Vec<_> = fs_items.difference(&db_items).collect();", "let extra: Vec<&PathBuf> = fs_items.iter().filter(|x| !db_items.contains(*x)).collect();")]),
("fs c10= loop over difference", "", [(D, "let extra: Vec<_> = fs_items.difference(&db_items).collect();", ""), (D, "for item in extra.iter() {", "for item in fs_items.difference(&db_items) {")]),
("fs c10= continue in loop", "", [(D, "let extra: Vec<_> = fs_items.difference(&db_items).collect();", ""), (D, "for item in extra.iter() {", "for item in fs_items.iter() {\n                let item: &PathBuf = item;\n                if db_items.contains(item) { continue; }")]),
("fs c10= direct", "", [(D, RD, "            let mut extra: Vec<PathBuf> = Vec::new();\n            for item in std::fs::read_dir(&path)? {\n                let ok_item = item?;\n                if !filter(&ok_item) { continue; }\n                let name = PathBuf::from(ok_item.file_name());\n                if db_items.contains(&name) { continue; }\n                extra.push(name);\n            }\n"), (D, "let mut fs_items = HashSet::new();", "")]),
# C11
("fs c11 put unfiltered", "C11", [(D, "            if filter(&direntry) {\n                result.push", "            if true || filter(&direntry) {\n                result.push")]),
("fs c11 dirs always", "C11", [(D, "            if filter(&direntry) {\n                result.push", "            if direntry.path().is_dir() || filter(&direntry) {\n                result.push")]),
("fs c11 inverted", "C11", [(D, "            if filter(&direntry) {\n                result.push", "            if !filter(&direntry) {\n                result.push")]),
("fs c11 walk unfiltered", "C11", [(D, "                    if filter(&direntry) {", "                    {")]),
("fs c11 walk other filter below", "C11", [(D, "internal_walk_real_fs_items(base_path, &p, filter)?)", "internal_walk_real_fs_items(base_path, &p, &|_| true)?)")]),
("fs c11 put other filter below", "C11", [(D, "result.push(put_fs_item(ds, &direntry.path(), filter)?);", "result.push(put_fs_item(ds, &direntry.path(), &|_| true)?);")]),
("fs c11 filter first entry", "C11", [(D, PUTLOOP, '''        let ok = entries.first().map(|e| filter(e)).unwrap_or(true);
        for direntry in entries {
            if ok {
                result.push(put_fs_item(ds, &direntry.path(), filter)?);
                result_names.push(direntry.file_name().into());
            }
        }
''')]),
("fs c11 no db check", "C11", [(F, "return false;", "")]),
("fs c11 db check not canonical", "C11", [(F, "let canon_path = std::fs::canonicalize(&path).unwrap();", "let canon_path = path.clone();")]),
("fs c11 db not canonical", "", [(F, "let canon_db_path = std::fs::canonicalize(&db_path).unwrap();", "let canon_db_path = &db_path;")]),
("fs c11 db eq only", "C11", [(F, "canon_path.starts_with(canon_db_path)", "canon_path == canon_db_path")]),
("fs c11 match file name only", "C11", [(F, "!excl_globset.is_match(normalised_path)", "!excl_globset.is_match(direntry.file_name())")]),
("fs c11 hidden admitted", "C11", [(F, "!excl_globset.is_match(normalised_path)", "path.is_dir() || !excl_globset.is_match(normalised_path)")]),
("fs c11 skip first pattern", "C11", [(F, "for exclude in excludes {", "for exclude in excludes.iter().skip(1) {")]),
("fs c11 first pattern only", "C11", [(F, "for exclude in excludes {", "for exclude in excludes.iter().take(1) {")]),
("fs c11 swallow empty", "C11", [(F, "for exclude in excludes {", "for exclude in excludes {\n        if exclude.as_ref().len() > 64 { continue; }")]),
("fs c11= filter order", "", [(F, """        if canon_path.starts_with(canon_db_path) {
            return false;
        }
""", "        let in_db = canon_path.starts_with(canon_db_path);"), (F, "!excl_globset.is_match(normalised_path)", "!in_db && !excl_globset.is_match(normalised_path)")]),
("fs c11= if return", "", [(F, "        !excl_globset.is_match(normalised_path)", "        if excl_globset.is_match(normalised_path) {\n            false\n        } else {\n            true\n        }")]),
("fs c11= strip unwrap_or", "", [(F, """        let normalised_path = if path.starts_with("./") {
            path.strip_prefix("./").unwrap()
        } else {
            &path
        };
""", """        let normalised_path = path.strip_prefix("./").unwrap_or(&path);
""")]),
("fs c11= fold", "", [(F, """    for exclude in excludes {
        excl_globs.add(globset::Glob::new(exclude.as_ref()).unwrap());
    }
""", """    excludes.iter().for_each(|exclude| {
        let g = globset::Glob::new(exclude.as_ref()).unwrap();
        excl_globs.add(g);
    });
""")]),
("fs c11 no filter in insert", "C11", [(M, "let hash = dir::put_fs_item(&mut ds_state.ds, &args.path, &filter)?;", "let _ = filter; let hash = dir::put_fs_item(&mut ds_state.ds, &args.path, &|_| true)?;")]),
("fs c11 no excludes in commit", "C11", [(M, '''fn commit_cmd(state: &mut State, args: CommitArgs) -> CMDResult {
    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;

    let filter = filter::make_filter_fn(&state.common.exclude, ''', '''fn commit_cmd(state: &mut State, args: CommitArgs) -> CMDResult {
    let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;

    let filter = filter::make_filter_fn::<&str>(&[], ''')]),
("fs c11 status other folder", "C11", [(M, '''            let result = diff::compare(
                &mut ds_state.ds,
                diff::DiffTarget::FileSystem(
                    path.to_path_buf(),
                    state.common.exclude.clone(),
                    ds_state.db_folder_path.clone(),''', '''            let result = diff::compare(
                &mut ds_state.ds,
                diff::DiffTarget::FileSystem(
                    path.to_path_buf(),
                    state.common.exclude.clone(),
                    state.common.db_path.clone(),''')]),
("fs c11 status no excludes", "C11", [(M, "                    path.to_path_buf(),\n                    state.common.exclude.clone(),", "                    path.to_path_buf(),\n                    Vec::new(),")]),
("fs c11 compare swaps", "C11", [("src/diff.rs", "let exclude = filter::make_filter_fn(&filters, folder_path);", "let exclude = filter::make_filter_fn::<String>(&[], folder_path); let _ = filters;")]),
("fs c11= continue", "", [(D, PUTLOOP, '''        for direntry in entries {
            if !filter(&direntry) {
                continue;
            }
            let key = put_fs_item(ds, &direntry.path(), filter)?;
            result.push(key);
            result_names.push(direntry.file_name().into());
        }
''')]),
("fs c11= retain", "", [(D, PUTLOOP, '''        entries.retain(|e| filter(e));
        for direntry in entries {
            result.push(put_fs_item(ds, &direntry.path(), filter)?);
            result_names.push(direntry.file_name().into());
        }
''')]),
("fs c11= iter filter", "", [(D, PUTLOOP, '''        for direntry in entries.into_iter().filter(|e| filter(e)) {
            result.push(put_fs_item(ds, &direntry.path(), filter)?);
            result_names.push(direntry.file_name().into());
        }
''')]),
("fs c11= helper for entry", "", [(D, WALKLOOP, '''        for entry in entries {
            let direntry = entry?;
            if !filter(&direntry) { continue; }
            let p = path.join(direntry.file_name());
            let below = internal_walk_real_fs_items(base_path, &p, filter)?;
            for (k, v) in below { results.insert(k, v); }
        }
''')]),
("fs c11= filter type", "", [(D, REMF, '''    for entry in std::fs::read_dir(path)? {
        let entry = entry?;
        let admitted = filter(&entry);
        if !admitted {
            all_removed = false;
            continue;
        }
        let gone = remove_filtered(&entry.path(), filter)?;
        all_removed = all_removed && gone;
    }
''')]),
# C12
("fs c12 log file", "C12", [(M, 'println!("inserted hash {}", hash);', 'println!("inserted hash {}", hash); std::fs::write("last-insert", hash.to_string())?;')]),
("fs c12 backup before head", "C12", [(M, "    ds_state.ds.put_head(&args.refname)?;\n\n    Ok(())", "    std::fs::copy(ds_state.db_folder_path.join(\"snapcd.db\"), ds_state.db_folder_path.join(\"snapcd.bak\"))?;\n    ds_state.ds.put_head(&args.refname)?;\n\n    Ok(())")]),
("fs c12 hash touches", "C12", [(D, "        let f = std::fs::File::open(path)?;\n\n        let ext_metadata", "        let f = std::fs::OpenOptions::new().read(true).write(true).open(path)?;\n\n        let ext_metadata")]),
("fs c12 put chmod", "C12", [(D, "    if meta.is_file() {\n        let f = std::fs::File::open(path)?;\n\n        let reader", "    if meta.is_file() {\n        std::fs::set_permissions(path, meta.permissions())?;\n        let f = std::fs::File::open(path)?;\n\n        let reader")]),
("fs c12 status makes cache", "C12", [(M, "fn status(state: &mut State, _args: StatusArgs) -> CMDResult {", "fn status(state: &mut State, _args: StatusArgs) -> CMDResult {\n    std::fs::create_dir_all(&state.common.db_path)?;")]),
("fs c12 main makes db", "C12", [(M, "    setup_sqlite_callback()?;\n\n    log", "    setup_sqlite_callback()?;\n    std::fs::create_dir_all(&opt.common.db_path)?;\n\n    log")]),
("fs c12 pager", "C12", [(M, "    display::log_obj(&mut", "    let _ = std::process::Command::new(\"less\").status();\n    display::log_obj(&mut")]),
("fs c12 init removes", "C12", [(M, "    std::fs::create_dir_all(&state.common.db_path)?;\n    let ds", "    let _ = std::fs::remove_file(state.common.db_path.join(\"snapcd.db\"));\n    std::fs::create_dir_all(&state.common.db_path)?;\n    let ds")]),
("fs c12 cache in cwd", "C12", [(M, 'SqliteCache::new(":memory:")?', 'SqliteCache::new("cache.db")?')]),
("fs c12= dirbuilder cache", "", [(M, 'd.push("snapcd");\n            std::fs::create_dir_all(&d)?;', 'let d0 = d.join("snapcd");\n            d = d0;\n            std::fs::create_dir_all(&d)?;')]),
]
M=M_
