
D="src/dir.rs"
GL="""            for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                get_fs_item(ds, child, &child_path(path, name)?)?;
            }"""
WL="""            for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);
            }"""
WD="""            if !path.as_os_str().is_empty() {
                results.insert(path.to_path_buf(), (key, true));
            }"""
WF="""            results.insert(path.to_path_buf(), (key, false));"""
RL="""        for entry in entries {
            match entry {
                Ok(direntry) => {
                    if filter(&direntry) {
                        let p = path.join(direntry.file_name());

                        results.extend(internal_walk_real_fs_items(base_path, &p, filter)?);
                    }
                }
                Err(e) => return Err(e.into()),
            }
        }"""
RD="""        if !path.as_os_str().is_empty() {
            results.insert(path.to_path_buf(), true);
        }"""
RF="""        results.insert(path.to_path_buf(), false);"""
def g(new): return [(D,GL,new)]
def w(new): return [(D,WL,new)]
def r(new): return [(D,RL,new)]
M=[
# --- fetching, caught
("c30 fetch skip hidden","C30",g(GL.replace("                get_fs","                if name.to_string_lossy().starts_with('.') {\n                    continue;\n                }\n                get_fs"))),
("c30 fetch take","C30",g(GL.replace(".zip(",".take(1000).zip("))),
("c30 fetch zip skip","C30",g(GL.replace("children.iter()","children.iter().skip(1)"))),
("c30 fetch rev names","C30",g(GL.replace("children_names.iter()","children_names.iter().rev()"))),
("c30 fetch stop","C30",g(GL.replace("name)?)?;","name)?)?;\n                if path.parent().is_none() {\n                    break;\n                }"))),
("c30 fetch same path","C30",g(GL.replace("&child_path(path, name)?","path"))),
("c30 fetch file stem","C30",g(GL.replace("child_path(path, name)?","child_path(path, Path::new(name.file_stem().unwrap()))?"))),
("c30 fetch lowercase","C30",g(GL.replace("child_path(path, name)?","child_path(path, &PathBuf::from(name.to_string_lossy().to_lowercase()))?"))),
("c30 fetch own key","C30",g(GL.replace("ds, child,","ds, key,"))),
("c30 fetch mkdir only nonempty","C30",[(D,"            std::fs::create_dir_all(path)?;\n\n            for (&child","            if !fsobj.children.is_empty() {\n                std::fs::create_dir_all(path)?;\n            }\n\n            for (&child")]),
("c30 fetch mkdir parent","C30",[(D,"            std::fs::create_dir_all(path)?;\n\n            for (&child","            if let Some(parent) = path.parent() {\n                std::fs::create_dir_all(parent)?;\n            }\n\n            for (&child")]),
("c30 fetch index off","C30",g("""            for i in 0..fsobj.children.len() {
                let j = if i + 1 < fsobj.children.len() { i + 1 } else { 0 };
                get_fs_item(ds, fsobj.children[i], &child_path(path, &fsobj.children_names[j])?)?;
            }""")),
("c30 fetch empty file","C30",[(D,"            file::read_data(ds, fsobj.children[0].into(), &mut f)?;\n        }\n    }\n\n    Ok(())\n}\n\n#[derive(Debug, Error)]\npub enum CheckoutFsItemError","            if fsobj.size > 1 {\n                file::read_data(ds, fsobj.children[0].into(), &mut f)?;\n            }\n        }\n    }\n\n    Ok(())\n}\n\n#[derive(Debug, Error)]\npub enum CheckoutFsItemError")]),
("c30 fetch own key contents","C30",[(D,"            file::read_data(ds, fsobj.children[0].into(), &mut f)?;\n        }\n    }\n\n    Ok(())\n}\n\n#[derive(Debug, Error)]\npub enum CheckoutFsItemError","            file::read_data(ds, key.into(), &mut f)?;\n        }\n    }\n\n    Ok(())\n}\n\n#[derive(Debug, Error)]\npub enum CheckoutFsItemError")]),
("c30 fetch other file","C30",[(D,"                .create_new(true)\n                .open(path)?","                .create_new(true)\n                .open(path.with_extension(\"\"))?")]),
("c30 fetch exists ok","C30",g(GL.replace("                get_fs_item","                if child_path(path, name)?.exists() {\n                    continue;\n                }\n                get_fs_item"))),
("c30 fetch ignores err","C30",g(GL.replace("get_fs_item(ds, child, &child_path(path, name)?)?;","if let Err(e) = get_fs_item(ds, child, &child_path(path, name)?) {\n                    log::warn!(\"{}\", e);\n                    return Ok(());\n                }"))),
# --- walking, caught
("c30 walk skip hidden","C30",w(WL.replace("                results","                if name.to_string_lossy().starts_with('.') {\n                    continue;\n                }\n                results"))),
("c30 walk not joined","C30",w(WL.replace("&path.join(&name)","&name"))),
("c30 walk same path","C30",w(WL.replace("&path.join(&name)","&path"))),
("c30 walk wrong order join","C30",w(WL.replace("path.join(&name)","name.join(&path)"))),
("c30 walk own key","C30",w(WL.replace("ds, child,","ds, key,"))),
("c30 walk dropped","C30",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","let sub = internal_walk_fs_items(ds, child, &path.join(&name))?;\n                if sub.len() > 1 {\n                    results.extend(sub);\n                }"))),
("c30 walk files only","C30",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","results.extend(\n                    internal_walk_fs_items(ds, child, &path.join(&name))?\n                        .into_iter()\n                        .filter(|(_, (_, is_dir))| !is_dir),\n                );"))),
("c30 walk key of subtree","C30",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","for (p, (_, is_dir)) in internal_walk_fs_items(ds, child, &path.join(&name))? {\n                    results.insert(p, (child, is_dir));\n                }"))),
("c30 walk flag lost","C30",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","for (p, (k, _)) in internal_walk_fs_items(ds, child, &path.join(&name))? {\n                    results.insert(p, (k, false));\n                }"))),
("c30 walk path of subtree","C30",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","for (_, k) in internal_walk_fs_items(ds, child, &path.join(&name))? {\n                    results.insert(path.join(&name), k);\n                }"))),
("c30 walk no dir","C30",[(D,WD,"")]),
("c30 walk root","C30",[(D,WD,"            results.insert(path.to_path_buf(), (key, true));")]),
("c30 walk dir nonempty","C30",[(D,WD,WD.replace("!path.as_os_str().is_empty()","!path.as_os_str().is_empty() && !fsobj.children.is_empty()"))]),
("c30 walk dir flag","C30",[(D,WD,WD.replace("true","false"))]),
("c30 walk file flag","C30",[(D,WF,WF.replace("false","true"))]),
("c30 walk file child","C30",[(D,WF,WF.replace("(key, false)","(fsobj.children[0], false)"))]),
("c30 walk name","C30",[(D,WF,WF.replace("path.to_path_buf()","path.file_name().map(PathBuf::from).unwrap_or_default()"))]),
("c30 walk empty files","C30",[(D,WF,"            if fsobj.size > 0 {\n    "+WF+"\n            }")]),
("c30 walk start","C30",[(D,"internal_walk_fs_items(ds, key, &PathBuf::new())","internal_walk_fs_items(ds, key, &PathBuf::from(\".\"))")]),
("c30 walk inverted root","C30",[(D,WD,WD.replace("!path","path"))]),
("c30 walk retain","C30",[(D,"        FSItemType::File => {\n"+WF+"\n        }\n    }\n","        FSItemType::File => {\n"+WF+"\n        }\n    }\n\n    results.retain(|p, _| p.to_str().is_some());\n")]),
# --- walking the file system, caught
("c30 real continue","C30",r(RL.replace("Err(e) => return Err(e.into())","Err(_) => continue"))),
("c30 real flatten","C30",r("""        for direntry in entries.flatten() {
            if filter(&direntry) {
                let p = path.join(direntry.file_name());

                results.extend(internal_walk_real_fs_items(base_path, &p, filter)?);
            }
        }""")),
("c30 real full path","C30",r(RL.replace("path.join(direntry.file_name())","direntry.path()"))),
("c30 real lossy name","C30",r(RL.replace("direntry.file_name()","direntry.file_name().to_string_lossy().into_owned()"))),
("c30 real symlinks","C30",r(RL.replace("if filter(&direntry) {","if filter(&direntry) && !direntry.file_type()?.is_symlink() {"))),
("c30 real dir flag","C30",[(D,RD,RD.replace("true","false"))]),
("c30 real no dir","C30",[(D,RD,"")]),
("c30 real file flag","C30",[(D,RF,RF.replace("false","true"))]),
("c30 real path","C30",[(D,RF,RF.replace("path.to_path_buf()","curr_path.clone()"))]),
("c30 real base","C30",r(RL.replace("items(base_path, &p","items(path, &p"))),
("c30 real sub dropped","C30",r(RL.replace("results.extend(internal_walk_real_fs_items(base_path, &p, filter)?);","internal_walk_real_fs_items(base_path, &p, filter)?;\n                        results.insert(p, false);"))),
("c30 real unreadable","C30",r(RL.replace("results.extend(internal_walk_real_fs_items(base_path, &p, filter)?);","if let Ok(x) = internal_walk_real_fs_items(base_path, &p, filter) {\n                            results.extend(x);\n                        }"))),
("c30 real lists base","C30",[(D,"        let entries = std::fs::read_dir(&curr_path)?;","        let entries = std::fs::read_dir(&base_path)?;")]),
("c30 cmd path","C30",[("src/main.rs","ds, key.into(), &args.dest","ds, key.into(), std::path::Path::new(\".\")")]),
# --- quiet
("c30q fetch index","",g("""            for i in 0..fsobj.children.len() {
                let target = child_path(path, &fsobj.children_names[i])?;
                get_fs_item(ds, fsobj.children[i], &target)?;
            }""")),
("c30q fetch enumerate","",g("""            for (i, name) in fsobj.children_names.iter().enumerate() {
                let target = child_path(path, name)?;
                get_fs_item(ds, fsobj.children[i], &target)?;
            }""")),
("c30q fetch enumerate 2","",g("""            for (i, child) in fsobj.children.iter().enumerate() {
                get_fs_item(ds, *child, &child_path(path, &fsobj.children_names[i])?)?;
            }""")),
("c30q fetch while let","",g("""            let mut names = fsobj.children_names.iter();
            let mut children = fsobj.children.iter();

            while let (Some(&child), Some(name)) = (children.next(), names.next()) {
                get_fs_item(ds, child, &child_path(path, name)?)?;
            }""")),
("c30q fetch names first","",g("""            for (name, &child) in fsobj.children_names.iter().zip(&fsobj.children) {
                let target = child_path(path, name)?;
                log::debug!("fetching {:?}", target);
                get_fs_item(ds, child, &target)?;
            }""")),
("c30q fetch try for each","",g("""            fsobj
                .children
                .iter()
                .zip(fsobj.children_names.iter())
                .try_for_each(|(&child, name)| -> Result<(), GetFsItemError> {
                    get_fs_item(ds, child, &child_path(path, name)?)
                })?;""")),
("c30q fetch targets","",g("""            let mut targets = Vec::new();

            for name in &fsobj.children_names {
                targets.push(child_path(path, name)?);
            }

            for (&child, target) in fsobj.children.iter().zip(&targets) {
                get_fs_item(ds, child, target)?;
            }""")),
("c30q fetch helper","",[(D,GL,"            get_children(ds, &fsobj, path)?;"),(D,"@end","""
fn get_children<DS: DataStore>(ds: &DS, dir: &FSItem, path: &Path) -> Result<(), GetFsItemError> {
    for (&child, name) in dir.children.iter().zip(dir.children_names.iter()) {
        get_fs_item(ds, child, &child_path(path, name)?)?;
    }

    Ok(())
}
""")]),
("c30q fetch into_iter","",g(GL.replace("(&child, name)","(child, name)").replace("children.iter()","children.into_iter()").replace("children_names.iter()","children_names").replace("(path, name)","(path, &name)"))),
("c30q fetch if let kind","",[(D,"            if let Some(parent) = path.parent() {\n                std::fs::create_dir_all(parent)?;\n            }\n\n            let mut f = std::fs::OpenOptions::new()\n                .write(true)\n                .create_new(true)\n                .open(path)?;\n\n            file::read_data(ds, fsobj.children[0].into(), &mut f)?;","            get_file(ds, fsobj.children[0].into(), path)?;"),(D,"@end","""
fn get_file<DS: DataStore>(ds: &DS, contents: Key, path: &Path) -> Result<(), GetFsItemError> {
    if let Some(parent) = path.parent() {
        std::fs::create_dir_all(parent)?;
    }

    let f = std::fs::OpenOptions::new()
        .write(true)
        .create_new(true)
        .open(path)?;
    let mut w = std::io::BufWriter::new(f);

    file::read_data(ds, contents, &mut w)?;

    std::io::Write::flush(&mut w)?;

    Ok(())
}
""")]),
("c30q walk index","",w("""            for i in 0..fsobj.children.len() {
                let sub = path.join(&fsobj.children_names[i]);
                results.extend(internal_walk_fs_items(ds, fsobj.children[i], &sub)?);
            }""")),
("c30q walk insert","",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","for (p, entry) in internal_walk_fs_items(ds, child, &path.join(&name))? {\n                    results.insert(p, entry);\n                }"))),
("c30q walk insert parts","",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","for (p, (k, is_dir)) in internal_walk_fs_items(ds, child, &path.join(&name))? {\n                    results.insert(p, (k, is_dir));\n                }"))),
("c30q walk sub","",w(WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","let mut full = path.to_path_buf();\n                full.push(name);\n                let sub = internal_walk_fs_items(ds, child, &full)?;\n                results.extend(sub);"))),
("c30q walk acc","",[(D,"    internal_walk_fs_items(ds, key, &PathBuf::new())\n","    let mut results = HashMap::new();\n\n    internal_walk_fs_items(ds, key, &PathBuf::new(), &mut results)?;\n\n    Ok(results)\n"),
 (D,"    path: &Path,\n) -> Result<HashMap<PathBuf, (TypedKey<FSItem>, bool)>, WalkFsItemsError> {\n    let mut results = HashMap::new();\n","    path: &Path,\n    results: &mut HashMap<PathBuf, (TypedKey<FSItem>, bool)>,\n) -> Result<(), WalkFsItemsError> {"),
 (D,WL,WL.replace("results.extend(internal_walk_fs_items(ds, child, &path.join(&name))?);","internal_walk_fs_items(ds, child, &path.join(&name), results)?;")),
 (D,"        FSItemType::File => {\n"+WF+"\n        }\n    }\n\n    Ok(results)","        FSItemType::File => {\n"+WF+"\n        }\n    }\n\n    Ok(())")]),
("c30q walk early file","",[(D,"    match fsobj.itemtype {\n        FSItemType::Dir => {\n            // Same","    let is_root = path.as_os_str().is_empty();\n\n    match fsobj.itemtype {\n        FSItemType::Dir => {\n            // Same"),(D,WD,WD.replace("!path.as_os_str().is_empty()","!is_root"))]),
("c30q walk is_dir var","",[(D,WD+"\n\n            for (&child","            for (&child"),(D,WF,""),(D,"    match fsobj.itemtype {\n        FSItemType::Dir => {\n            // Same","""    let is_dir = match fsobj.itemtype {
        FSItemType::Dir => true,
        FSItemType::File => false,
    };

    if !is_dir || !path.as_os_str().is_empty() {
        results.insert(path.to_path_buf(), (key, is_dir));
    }

    match fsobj.itemtype {
        FSItemType::Dir => {
            // Same""")]),
("c30q walk root compare","",[(D,WD,WD.replace("!path.as_os_str().is_empty()","path != Path::new(\"\")"))]),
("c30q walk root components","",[(D,WD,WD.replace("!path.as_os_str().is_empty()","path.components().next().is_some()"))]),
("c30q real question","",r("""        for entry in entries {
            let entry = entry?;

            if !filter(&entry) {
                continue;
            }

            let p = path.join(entry.file_name());
            let sub = internal_walk_real_fs_items(base_path, &p, filter)?;

            results.extend(sub);
        }""")),
("c30q real collect","",r("""        let entries = entries.collect::<Result<Vec<_>, _>>()?;

        for entry in entries.iter().filter(|e| filter(e)) {
            let p = path.join(entry.file_name());

            results.extend(internal_walk_real_fs_items(base_path, &p, filter)?);
        }""")),
("c30q real file first","",[(D,RF+"\n        return Ok(results);\n    }\n","        results.insert(path.to_owned(), false);\n\n        return Ok(results);\n    }\n")]),
("c30q real file type","",[(D,"    let meta = std::fs::metadata(&curr_path)?;\n\n    if meta.is_dir() {\n        let entries","    let meta = std::fs::metadata(&curr_path)?.file_type();\n\n    if meta.is_dir() {\n        let entries")]),
("c30q real shared insert","",[(D,RD+"\n\n","\n"),(D,"    if meta.is_dir() {\n        let entries = std::fs::read_dir(&curr_path)?;","    if (meta.is_dir() && !path.as_os_str().is_empty()) || meta.is_file() {\n        results.insert(path.to_path_buf(), meta.is_dir());\n    }\n\n    if meta.is_dir() {\n        let entries = std::fs::read_dir(&curr_path)?;"),(D,RF+"\n","")]),
]
