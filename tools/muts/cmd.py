M_ = "src/main.rs"
C_ = "src/commit.rs"
D_ = "src/display.rs"
PK = """    let parent_key = match try_got_key {
        Ok(k) => vec![k],
        Err(GetReflogError::NotFound) => vec![],
        Err(other) => return Err(other.into()),
    };
"""
CT = "    let commit_key = commit::commit_tree(&mut ds_state.ds, key.into(), parent_key, attrs)?;\n"
LOGP = """    let log = Reflog {
        key: commit_key,
        refname,
        remote: None,
    };
"""
TRY = "    let try_got_key = ds_state.ds.reflog_get(&refname, None);\n"
CAN = """    let key = ds.canonicalize(search)?;
    let _: commit::Commit = ds.get_obj(key)?.try_into()?;

    Ok(key.into())
"""
CLEAN = """    if !diff::diff_result_empty(&result) {
        println!("Cannot checkout: working directory is not clean");

        diff::print_diff_result(result);
        return Ok(());
    }

    ds_state.ds.put_head(&args.refname)?;
"""
EMPT = "    r.added.is_empty() && r.deleted.is_empty() && r.modified.is_empty()\n"
FIND = """    let mut d = &*cwd;

    loop {
        let mut check = d.to_path_buf();

        check.push(&name);

        if check.exists() {
            return Ok(Some(check));
        }

        d = match d.parent() {
            Some(p) => p,
            None => return Ok(None),
        };
    }
"""
REPO = """            let repo_path = x
                .parent()
                .expect("failed to get parent of db folder?")
                .into();
"""
INI = """    if ds.get_head()?.is_none() {
        ds.put_head("master")?;
    }
"""
WH = """            while let Some(p) = commit_obj.parents().get(0).copied() {
                display_obj(ds, p.into(), kind)?;

                println!();
                println!();

                obj = ds.get_obj(p.inner()).unwrap().into_owned();

                commit_obj = obj
                    .into_owned()
                    .try_into()
                    .expect("failed to convert commit obj");
            }
"""
PT = """            let tree;
            if let Some(p) = parent {
                let parent_obj = ds.get_obj(p.inner()).unwrap();

                let parent_cmt: commit::Commit = parent_obj
                    .into_owned()
                    .try_into()
                    .expect("failed to convert commit obj");

                tree = Some(parent_cmt.tree());
            } else {
                tree = None;
            }
"""
CMP = """            let dr = diff::compare(
                ds,
                diff::DiffTarget::Database(commit_obj.tree()),
                tree,
                None,
            )
            .unwrap();
"""
FH = """        let key = ds.put_obj(&obj)?;
        cache.put(cache_key, key)?;
"""
CP = """    let commit_path = match &args.path {
        Some(p) => p,
        None => &ds_state.repo_path,
    };
"""
M = [
 # --- C14
 ("c14 parents dropped", "C14", [(M_, CT, CT.replace("parent_key", "vec![]"))]),
 ("c14 all errors mean no parent", "C14 C02", [(M_, PK, "    let parent_key = match try_got_key {\n        Ok(k) => vec![k],\n        Err(_) => vec![],\n    };\n")]),
 ("c14 ref of head looked up", "C14", [(M_, TRY, "    let other = ds_state.ds.get_head()?.ok_or(NoHeadError)?;\n    let try_got_key = ds_state.ds.reflog_get(&other, None);\n")]),
 ("c14 remote tip", "C14", [(M_, TRY, '    let try_got_key = ds_state.ds.reflog_get(&refname, Some("origin"));\n')]),
 ("c14 ref moved to remote", "C14", [(M_, LOGP, LOGP.replace("remote: None", "remote: Some(String::new())"))]),
 ("c14 ref renamed", "C14", [(M_, LOGP, LOGP.replace("refname,", "refname: refname.to_lowercase(),"))]),
 ("c14 no push when same tree", "C14", [(M_, LOGP, "    if key.as_user_key().is_empty() { return Ok(()); }\n" + LOGP)]),
 ("c14 parent used twice", "C14", [(M_, PK, PK.replace("vec![k]", "vec![k, k]"))]),
 ("c14 key of the parent pushed", "C14", [(M_, CT + "\n" + LOGP, CT.replace("parent_key", "parent_key.clone()") + LOGP.replace("key: commit_key", "key: parent_key.get(0).copied().unwrap_or(commit_key)"))]),
 ("c14 message lost", "C14", [(M_, "    attrs.set_message(args.message);\n", "    let _ = args.message;\n    attrs.set_message(String::new());\n")]),
 ("c14 commit_tree drops parents", "C14", [(C_, "    parents.sort();\n", "    parents.sort();\n    parents.truncate(1);\n")]),
 ("c14 commit_tree dedups", "", [(C_, "    parents.sort();\n", "    parents.sort();\n    parents.dedup();\n")]),
 ("c14 commit_tree no sort", "", [(C_, "    parents.sort();\n\n", ""), (C_, "    mut parents: Vec", "    parents: Vec")]),
 ("c14 =if let", "", [(M_, PK, """    let mut parent_key = Vec::new();
    match try_got_key {
        Ok(k) => parent_key.push(k),
        Err(GetReflogError::NotFound) => {}
        Err(other) => return Err(other.into()),
    }
""")]),
 ("c14 =option", "", [(M_, PK, """    let tip = match try_got_key {
        Ok(k) => Some(k),
        Err(GetReflogError::NotFound) => None,
        Err(other) => return Err(other.into()),
    };
    let parent_key: Vec<_> = tip.into_iter().collect();
""")]),
 ("c14 =helper", "", [(M_, PK, "    let parent_key = tip_parents(try_got_key)?;\n"), (M_, "@end", """
fn tip_parents(
    tip: Result<key::TypedKey<commit::Commit>, GetReflogError>,
) -> Result<Vec<key::TypedKey<commit::Commit>>, anyhow::Error> {
    match tip {
        Ok(k) => Ok(vec![k]),
        Err(GetReflogError::NotFound) => Ok(Vec::new()),
        Err(other) => Err(other.into()),
    }
}
""")]),
 ("c14 =option iter map", "", [(M_, PK, """    let tip = match try_got_key {
        Ok(k) => Some(k),
        Err(GetReflogError::NotFound) => None,
        Err(other) => return Err(other.into()),
    };
    let parent_key = match tip { Some(t) => { let mut v = Vec::with_capacity(1); v.push(t); v } None => Vec::with_capacity(0) };
""")]),
 ("c14 =refname unwrap_or_else", "", [(M_, """    let refname = match args.refname {
        Some(name) => name,
        None => ds_state.ds.get_head()?.ok_or(NoHeadError)?,
    };

    let try_got""", """    let refname = if let Some(name) = args.refname {
        name
    } else {
        let head = ds_state.ds.get_head()?;
        match head {
            Some(h) => h,
            None => return Err(NoHeadError.into()),
        }
    };

    let try_got""")]),
 # --- C15
 ("c15 no decode", "C15", [(M_, CAN, "    let key = ds.canonicalize(search)?;\n    Ok(key.into())\n")]),
 ("c15 decode ignored", "C15", [(M_, CAN, CAN.replace("let _: commit::Commit = ds.get_obj(key)?.try_into()?;", "let _: Result<commit::Commit, _> = ds.get_obj(key)?.try_into();"))]),
 ("c15 only warns", "C15", [(M_, CAN, "    let key = ds.canonicalize(search)?;\n    let o = ds.get_obj(key)?;\n    if !std::matches!(o.objtype(), snapcd::object::ObjType::Commit) {\n        println!(\"warning: not a commit\");\n    }\n    Ok(key.into())\n")]),
 ("c15 update without check", "C15", [(M_, "    let key = canonicalize_commit(&ds_state.ds, args.key)?;\n\n    let refname = match", "    let key = ds_state.ds.canonicalize(args.key)?.into();\n\n    let refname = match")]),
 ("c15 =objtype", "", [(M_, CAN, "    let key = ds.canonicalize(search)?;\n    let o = ds.get_obj(key)?;\n    match o.objtype() {\n        snapcd::object::ObjType::Commit => {}\n        _ => anyhow::bail!(\"not a commit\"),\n    }\n    Ok(key.into())\n")]),
 ("c15 =match", "", [(M_, CAN, "    let key = ds.canonicalize(search)?;\n    let r: Result<commit::Commit, _> = ds.get_obj(key)?.into_owned().try_into();\n    match r {\n        Ok(_) => Ok(key.into()),\n        Err(e) => Err(e.into()),\n    }\n")]),
 # --- C24
 ("c24 no modified", "C24", [("src/diff.rs", EMPT, "    r.added.is_empty() && r.deleted.is_empty()\n")]),
 ("c24 or", "C24", [("src/diff.rs", EMPT, "    r.added.is_empty() && (r.deleted.is_empty() || r.modified.is_empty())\n")]),
 ("c24 no return", "C24", [(M_, CLEAN, CLEAN.replace("        return Ok(());\n", ""))]),
 ("c24 before", "C24", [(M_, CLEAN, "    ds_state.ds.put_head(&args.refname)?;\n" + CLEAN.replace("    ds_state.ds.put_head(&args.refname)?;\n", ""))]),
 ("c24 cwd", "C24 C28", [(M_, "    let path = &ds_state.repo_path;\n\n    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {\n        Ok(k) => Some(k),\n        Err(GetReflogError::NotFound) => None,\n        Err(other) => return Err(other.into()),\n    };\n\n    let tree_key", "    let path = Path::new(\".\");\n\n    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {\n        Ok(k) => Some(k),\n        Err(GetReflogError::NotFound) => None,\n        Err(other) => return Err(other.into()),\n    };\n\n    let tree_key")]),
 ("c24 new ref compared", "C24", [(M_, "    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {\n        Ok(k) => Some(k),\n        Err(GetReflogError::NotFound) => None,\n        Err(other) => return Err(other.into()),\n    };\n\n    let tree_key", "    let _ = reflog;\n    let ref_key = match ds_state.ds.reflog_get(&args.refname, None) {\n        Ok(k) => Some(k),\n        Err(GetReflogError::NotFound) => None,\n        Err(other) => return Err(other.into()),\n    };\n\n    let tree_key")]),
 ("c24 none on any error", "C24 C02", [(M_, "        Err(GetReflogError::NotFound) => None,\n        Err(other) => return Err(other.into()),\n    };\n\n    let tree_key", "        Err(_) => None,\n    };\n\n    let tree_key")]),
 ("c24 head to old", "C24", [(M_, CLEAN, CLEAN.replace("put_head(&args.refname)", "put_head(&reflog)"))]),
 ("c24 init always", "C24", [(M_, INI, '    ds.put_head("master")?;\n')]),
 ("c24 init inverted", "C24", [(M_, INI, INI.replace("is_none", "is_some"))]),
 ("c24 commit sets head", "C24", [(M_, LOGP, LOGP + "    ds_state.ds.put_head(&log.refname)?;\n")]),
 ("c24 other key", "C24", [("src/ds/mod.rs", 'self.raw_put_state(b"HEAD"', 'self.raw_put_state(b"head"')]),
 ("c24 head trimmed", "C24", [("src/ds/mod.rs", "Some(b) => Some(String::from_utf8(b)?)", "Some(b) => Some(String::from_utf8(b)?.trim().to_string())")]),
 ("c24 head lowercased", "C24", [("src/ds/mod.rs", 'self.raw_put_state(b"HEAD", head.as_bytes())', 'self.raw_put_state(b"HEAD", head.to_lowercase().as_bytes())')]),
 ("c24 =len", "", [("src/diff.rs", EMPT, "    r.added.len() + r.deleted.len() + r.modified.len() == 0\n")]),
 ("c24 =early returns", "", [("src/diff.rs", EMPT, "    if !r.added.is_empty() {\n        return false;\n    }\n    if r.deleted.len() > 0 {\n        return false;\n    }\n    r.modified.is_empty()\n")]),
 ("c24 =else", "", [(M_, CLEAN + "\n    println!(\"Ok, new head.\");\n\n    Ok(())\n", """    if diff::diff_result_empty(&result) {
        ds_state.ds.put_head(&args.refname)?;
        println!("Ok, new head.");
    } else {
        println!("Cannot checkout: working directory is not clean");
        diff::print_diff_result(result);
    }

    Ok(())
""")]),
 ("c24 =match head", "", [(M_, INI, '    match ds.get_head()? {\n        Some(_) => {}\n        None => ds.put_head("master")?,\n    }\n')]),
 ("c24 =tree_of helper", "", [(M_, "    let tree_key = ref_key.map(|key| commit::Commit::from_key(&ds_state.ds, key).tree());\n", "    let tree_key = match ref_key {\n        Some(key) => Some(head_tree(&ds_state.ds, key)),\n        None => None,\n    };\n"), (M_, "@end", "\nfn head_tree(ds: &SqliteDS, key: key::TypedKey<commit::Commit>) -> key::TypedKey<dir::FSItem> {\n    let c = commit::Commit::from_key(ds, key);\n    c.tree()\n}\n")]),
 # --- C28
 ("c28 grandparent", "C28", [(M_, FIND, FIND.replace("d = match d.parent() {", "d = match d.parent().and_then(|x| x.parent()) {"))]),
 ("c28 outermost", "C28", [(M_, FIND, FIND.replace("    loop {", "    let mut found = None;\n    loop {").replace("return Ok(Some(check));", "found = Some(check);").replace("None => return Ok(None)", "None => return Ok(found)"))]),
 ("c28 only cwd", "C28", [(M_, FIND, '    let check = cwd.join(name);\n    if check.exists() {\n        return Ok(Some(check));\n    }\n    Ok(None)\n')]),
 ("c28 skip cwd", "C28", [(M_, FIND, "    for d in cwd.ancestors().skip(1) {\n        let check = d.join(name);\n        if check.exists() {\n            return Ok(Some(check));\n        }\n    }\n    Ok(None)\n")]),
 ("c28 repo is cwd", "C28", [(M_, REPO, "            let repo_path = std::env::current_dir()?;\n")]),
 ("c28 repo is folder", "C28", [(M_, REPO, "            let repo_path = x.clone();\n")]),
 ("c28 db folder given", "C28", [(M_, "            let db_folder_path = x.clone();\n", "            let db_folder_path = opt.common.db_path.clone();\n")]),
 ("c28 db opened in cwd", "C28", [(M_, 'SqliteDS::new(x.join("snapcd.db"))', 'SqliteDS::new(opt.common.db_path.join("snapcd.db"))')]),
 ("c28 other file", "C28", [(M_, 'SqliteDS::new(x.join("snapcd.db"))', 'SqliteDS::new(x.join("objects.db"))')]),
 ("c28 commit ignores path", "C28", [(M_, CP, "    let commit_path = &ds_state.repo_path;\n")]),
 ("c28 status cwd", "C28", [(M_, "    let path = &ds_state.repo_path;\n\n    let ref_key", "    let path = &std::env::current_dir()?;\n\n    let ref_key")]),
 ("c28 checkout db folder", "C28", [(M_, "tree_key, &ds_state.repo_path, &filter", "tree_key, &ds_state.db_folder_path, &filter")]),
 ("c28 =ancestors", "", [(M_, FIND, "    for d in cwd.ancestors() {\n        let check = d.join(name);\n        if check.exists() {\n            return Ok(Some(check));\n        }\n    }\n    Ok(None)\n")]),
 ("c28 =find", "", [(M_, FIND, "    Ok(cwd.ancestors().map(|d| d.join(name)).find(|c| c.exists()))\n")]),
 ("c28 =option while", "", [(M_, FIND, "    let mut d: Option<&Path> = Some(&cwd);\n    while let Some(x) = d {\n        let check = x.join(name);\n        if check.exists() {\n            return Ok(Some(check));\n        }\n        d = x.parent();\n    }\n    Ok(None)\n")]),
 ("c28 =pop", "", [(M_, FIND, "    let mut d = cwd;\n    loop {\n        let check = d.join(name);\n        if check.exists() {\n            return Ok(Some(check));\n        }\n        if !d.pop() {\n            return Ok(None);\n        }\n    }\n")]),
 ("c28 =open first", "", [(M_, REPO + "\n" + '            let ds = SqliteDS::new(x.join("snapcd.db"))?;\n', '            let mut file = x.clone();\n            file.push("snapcd.db");\n            let ds = SqliteDS::new(file)?;\n' + REPO)]),
 ("c28 =unwrap_or", "", [(M_, CP, "    let commit_path = args.path.as_ref().unwrap_or(&ds_state.repo_path);\n")]),
 # --- C29
 ("c29 last parent shown", "C29", [(D_, "let parent = commit_obj.parents().get(0).copied();", "let parent = commit_obj.parents().last().copied();")]),
 ("c29 second parent", "C29", [(D_, "let parent = commit_obj.parents().get(0).copied();", "let parent = commit_obj.parents().get(1).copied();")]),
 ("c29 sides swapped", "C29", [(D_, PT + "\n" + CMP, PT.replace("tree = Some(parent_cmt.tree());", "tree = parent_cmt.tree();").replace("tree = None;", "tree = commit_obj.tree();") + CMP.replace("Database(commit_obj.tree())", "Database(tree)").replace("                tree,\n", "                Some(commit_obj.tree()),\n"))]),
 ("c29 never parent", "C29", [(D_, CMP, CMP.replace("                tree,\n", "                tree.filter(|_| false),\n"))]),
 ("c29 log other parent", "C29", [(D_, WH, WH.replace("parents().get(0)", "parents().last()"))]),
 ("c29 log stops at merge", "C29", [(D_, WH, WH.replace("                display_obj(ds, p", "                if commit_obj.parents().len() > 1 {\n                    break;\n                }\n                display_obj(ds, p"))]),
 ("c29 log first twice", "C29", [(D_, WH, WH.replace("display_obj(ds, p.into(), kind)", "display_obj(ds, key, kind)"))]),
 ("c29 log skips", "C29", [(D_, "            display_obj(ds, key, kind)?;\n\n            println!();\n", "            println!();\n")]),
 ("c29 head not looked up locally", "C29", [(M_, "    let key = ds.reflog_get(&reflog, None)?;\n\n    Ok(key)\n", '    let key = ds.reflog_get(&reflog, Some("origin"))?;\n\n    Ok(key)\n')]),
 ("c29 show ignores key", "C29", [(M_, """    let key = match args.key {
        Some(k) => ds_state.ds.canonicalize(k)?,
        None => get_head_key(&ds_state.ds)?.inner(),
    };

    display::display_obj""", """    let _ = args.key;
    let key = get_head_key(&ds_state.ds)?.inner();

    display::display_obj""")]),
 ("c29 =map", "", [(D_, PT, """            let tree = match parent {
                Some(p) => Some(commit::Commit::from_key(ds, p).tree()),
                None => None,
            };
""")]),
 ("c29 =option map", "", [(D_, PT, """            let tree = parent.map(|p| commit::Commit::from_key(ds, p).tree());
""")]),
 ("c29 =first", "", [(D_, "let parent = commit_obj.parents().get(0).copied();", "let parent = commit_obj.parents().first().copied();")]),
 ("c29 =loop from_key", "", [(D_, WH, """            loop {
                let next = match commit_obj.parents().first() {
                    Some(p) => *p,
                    None => break,
                };
                display_obj(ds, next.inner(), kind)?;
                println!();
                println!();
                commit_obj = commit::Commit::from_key(ds, next);
            }
""")]),
 ("c29 =cursor", "", [(D_, """            display_obj(ds, key, kind)?;

            println!();
            println!();

            let mut obj = ds.get_obj(key).unwrap().into_owned();

            let mut commit_obj: commit::Commit = obj
                .into_owned()
                .try_into()
                .expect("failed to convert commit obj");

""" + WH, """            let mut current: Option<crate::key::TypedKey<commit::Commit>> = Some(key.into());
            while let Some(k) = current {
                display_obj(ds, k.inner(), kind)?;
                println!();
                println!();
                let c = commit::Commit::from_key(ds, k);
                current = c.parents().get(0).copied();
            }
""")]),
 ("c29 =slice pattern", "", [(D_, WH, """            while let [p, ..] = commit_obj.parents() {
                let p = *p;
                display_obj(ds, p.into(), kind)?;
                println!();
                println!();
                commit_obj = commit::Commit::from_key(ds, p);
            }
""")]),
 ("c29 =is_empty", "", [(D_, WH, """            while !commit_obj.parents().is_empty() {
                let p = commit_obj.parents()[0];
                display_obj(ds, p.into(), kind)?;
                println!();
                println!();
                commit_obj = commit::Commit::from_key(ds, p);
            }
""")]),
 # --- C25
 ("c25 hash only", "C25", [("src/file.rs", "@end", "")]),
]
M = [m for m in M if m[2][0][1:] != ("@end", "")]
