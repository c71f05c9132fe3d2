D="src/diff.rs"
SIMPA="""        for p in r.added {
            if !added
                .iter()
                .any(|x: &AddedDiffResult| p.path.starts_with(&x.path))
            {
                added.push(p);
            }
        }
"""
SIMPD="""        for p in r.deleted {
            if !deleted
                .iter()
                .any(|x: &DeletedDiffResult| p.path.starts_with(&x.path))
            {
                deleted.push(p);
            }
        }
"""
PA="""    if !r.added.is_empty() {
        println!("{}", "added:".green());
        for p in r.added {
            match p.new_key {
                Some(_) => println!("  {}", p.path.display()),
                None => println!("  {}/", p.path.display().to_string().bold()),
            }
        }
    }
"""
PD="""    if !r.deleted.is_empty() {
        println!("{}", "deleted:".red());
        for p in r.deleted {
            match p.original_key {
                Some(_) => println!("  {}", p.path.display()),
                None => println!("  {}/", p.path.display().to_string().bold()),
            }
        }
    }
"""
PM="""    if !r.modified.is_empty() {
        println!("{}", "modified:".blue());
        for p in r.modified {
            println!("  {}", p.path.display());
        }
    }
"""
SA="""    for added in r.added.into_iter().filter(|x| !x.is_dir) {
        if let Some(k) = added.new_key {
            items.push(FileStatResult {
                fname: added.path,
                added: line_ct(ds, k),
                removed: 0,
            });
        }
    }
"""
SD="""    for removed in r.deleted.into_iter().filter(|x| !x.is_dir) {
        if let Some(k) = removed.original_key {
            items.push(FileStatResult {
                fname: removed.path,
                added: 0,
                removed: line_ct(ds, k),
            });
        }
    }
"""
COUNT="""        let mut removed: usize = 0;
        let mut added: usize = 0;
        for item in lines {
            match item {
                diff::Result::Left(_) => removed += 1,
                diff::Result::Right(_) => added += 1,
                diff::Result::Both(_, _) => {}
            }
        }
"""
PS="""    lsr.items.sort_unstable();

    for item in lsr.items {
        println!(
            "{}  +{} -{}",
            item.fname.display(),
            item.added,
            item.removed
        );
    }
"""
LINESA="""                    for line in s.lines() {
                        lines.push(patch::Line::Add(line));
                    }
"""
LINESD="""                    for line in s.lines() {
                        lines.push(patch::Line::Remove(line));
                    }
"""
ITEM="""            let patch_item = match item {
                difference::Difference::Same(x) => patch::Line::Context(&x),
                difference::Difference::Add(x) => patch::Line::Add(&x),
                difference::Difference::Rem(x) => patch::Line::Remove(&x),
            };

            lines.push(patch_item);
"""
M=[
("shown-simplify-wrong-way","C32",[(D,SIMPA,SIMPA.replace("p.path.starts_with(&x.path)","x.path.starts_with(&p.path)"))]),
("shown-simplify-str","C32",[(D,SIMPD,SIMPD.replace("p.path.starts_with(&x.path)","p.path.to_string_lossy().starts_with(&*x.path.to_string_lossy())"))]),
("shown-simplify-parent","C32",[(D,SIMPD,SIMPD.replace("p.path.starts_with(&x.path)","p.path.parent() == x.path.parent()"))]),
("shown-simplify-lists","C32",[(D,SIMPD,SIMPD.replace(".any(|x: &DeletedDiffResult| p.path","\n.any(|x: &DeletedDiffResult| p.path").replace("deleted\n                .iter()","added\n                .iter()").replace("DeletedDiffResult|","AddedDiffResult|"))]),
("shown-simplify-all","C32",[(D,SIMPA,SIMPA.replace("if !added\n                .iter()\n                .any","if added\n                .iter()\n                .all"))]),
("shown-simplify-first","C32",[(D,SIMPD,SIMPD.replace("deleted.push(p);","deleted.push(p);\n break;"))]),
("shown-no-modified","C32",[(D,PM,"")]),
("shown-no-deleted","C32",[(D,PD,"")]),
("shown-modified-only-if-added","C32",[(D,"    if !r.modified.is_empty() {\n        println","    if !r.modified.is_empty() && n == 0 {\n        println"),(D,"    let r = simplify(r);\n","    let r = simplify(r);\n    let n = r.added.len();\n")]),
("shown-files-only","C32",[(D,PA,PA.replace("""                None => println!("  {}/", p.path.display().to_string().bold()),""","                None => {}"))]),
("shown-wrong-heading","C32",[(D,PD,PD.replace('"deleted:".red()','"added:".red()'))]),
("shown-headings-swapped","C32",[(D,PA+PD,PA.replace('"added:"','"deleted:"')+PD.replace('"deleted:"','"added:"'))]),
("shown-simplify-fields-swapped-empty","C32",[(D,"    DiffResult {\n        added,\n        modified: r.modified,\n        deleted,\n    }","    DiffResult {\n        added,\n        modified: Vec::new(),\n        deleted,\n    }")]),
("shown-take","C32",[(D,"for p in r.modified {","for p in r.modified.into_iter().take(1000) {")]),
("shown-stat-skip-dir-wrong","C32",[(D,SA,SA.replace("!x.is_dir","x.is_dir"))]),
("shown-stat-no-guard","C32",[(D,SA,SA.replace(".into_iter().filter(|x| !x.is_dir)",""))]),
("shown-stat-sides","C32",[(D,SD,SD.replace("added: 0,\n                removed: line_ct(ds, k)","added: line_ct(ds, k),\n                removed: 0"))]),
("shown-stat-no-deleted","C32",[(D,SD,"")]),
("shown-stat-zero","C32",[(D,SD,SD.replace("removed: line_ct(ds, k)","removed: 0"))]),
("shown-stat-left-right","C32",[(D,COUNT,COUNT.replace("Left","X").replace("Right","Left").replace("X","Right"))]),
("shown-stat-args","C32",[(D,"diff::lines(&before_str, &after_str)","diff::lines(&after_str, &before_str)")]),
("shown-stat-both","C32",[(D,COUNT,COUNT.replace("Both(_, _) => {}","Both(_, _) => added += 1"))]),
("shown-stat-twice","C32",[(D,COUNT,COUNT.replace("added += 1","added += 2"))]),
("shown-stat-skip-unchanged","C32",[(D,"        items.push(FileStatResult {\n            fname: modified.path,","        if added == 0 {\n            continue;\n        }\n        items.push(FileStatResult {\n            fname: modified.path,")]),
("shown-stat-same-key","C32",[(D,"        let mut after = Vec::new();\n        file::read_data(ds, modified.new_key.into(), &mut after).unwrap();\n\n        let before_str = String::from_utf8_lossy(&before);\n        let after_str = String::from_utf8_lossy(&after);\n\n        let lines","        let mut after = Vec::new();\n        file::read_data(ds, modified.original_key.into(), &mut after).unwrap();\n\n        let before_str = String::from_utf8_lossy(&before);\n        let after_str = String::from_utf8_lossy(&after);\n\n        let lines")]),
("shown-stat-print-swapped","C32",[(D,PS,PS.replace("item.added,\n            item.removed","item.removed,\n            item.added"))]),
("shown-stat-print-dedup","C32",[(D,PS,PS.replace("lsr.items.sort_unstable();","lsr.items.sort_unstable();\n    lsr.items.truncate(500);"))]),
("shown-stat-print-nonzero","C32",[(D,PS,PS.replace("for item in lsr.items {","for item in lsr.items {\n if item.added == 0 { continue; }"))]),
("shown-patch-remove-add","C32",[(D,LINESD,LINESD.replace("Remove","Add"))]),
("shown-patch-context","C32",[(D,LINESA,LINESA.replace("Add","Context"))]),
("shown-patch-skip-line","C32",[(D,LINESA,LINESA.replace("{\n                        lines","{\n if line.is_empty() { continue; }\n                        lines"))]),
("shown-patch-item-swap","C32",[(D,ITEM,ITEM.replace("patch::Line::Add","patch::Line::X").replace("patch::Line::Remove","patch::Line::Add").replace("patch::Line::X","patch::Line::Remove"))]),
("shown-patch-args","C32",[(D,"patch_from_file_string(before_str.to_string(), after_str.to_string(), modified.path)","patch_from_file_string(after_str.to_string(), before_str.to_string(), modified.path)")]),
("shown-patch-rewrap","C32",[(D,"difference::Difference::Rem(line.to_string())","difference::Difference::Add(line.to_string())")]),
("shown-patch-deleted-none","C32",[(D,"        if removed.is_dir {\n        } else if let","        if !removed.is_dir {\n        } else if let")]),
("shown-patch-guard","C32",[(D,"        if added.is_dir {\n        } else if let Some(k) = added.new_key {\n            let path","        if let Some(k) = added.new_key {\n            let path")]),
("shown-patch-drop","C32",[(D,"        result.push_str(&patch_str);\n","        if !patch_str.is_empty() && before.len() != after.len() {\n            result.push_str(&patch_str);\n        }\n")]),
("shown-patch-clear","C32",[(D,"    println!(\"{}\", create_diff_patch_result(ds, r)?);","    create_diff_patch_result(ds, r)?;")]),
("shown-status-silent","C32",[("src/main.rs","""            diff::print_diff_result(result);
        }
        None""","""            if result_is_big { diff::print_diff_result(result); }
        }
        None"""),("src/main.rs","            let result = diff::compare(\n                &mut ds_state.ds,\n                diff::DiffTarget::FileSystem(\n                    path.to_path_buf(),","            let result_is_big = state.common.exclude.is_empty();\n            let result = diff::compare(\n                &mut ds_state.ds,\n                diff::DiffTarget::FileSystem(\n                    path.to_path_buf(),")]),
("shown-show-stat-only","C32",[("src/display.rs","                Kind::Stat => {\n                    diff::print_stat_diff_result(ds, dr);\n                }","                Kind::Stat => {}")]),
# the same behaviour
("shown-same-filter","",[(D,SIMPA,"""        for p in r.added {
            let above = added.iter().find(|x: &&AddedDiffResult| p.path.starts_with(&x.path));
            if above.is_none() {
                added.push(p);
            }
        }
""")]),
("shown-same-loop","",[(D,SIMPD,"""        for p in r.deleted {
            let mut below = false;
            for x in &deleted {
                let x: &DeletedDiffResult = x;
                if p.path.starts_with(&x.path) {
                    below = true;
                    break;
                }
            }
            if !below {
                deleted.push(p);
            }
        }
""")]),
("shown-same-all","",[(D,SIMPD,SIMPD.replace("if !deleted\n                .iter()\n                .any(|x: &DeletedDiffResult| p","if deleted\n                .iter()\n                .all(|x: &DeletedDiffResult| !p"))]),
("shown-same-strip","",[(D,SIMPD,SIMPD.replace("p.path.starts_with(&x.path)","p.path.strip_prefix(&x.path).is_ok()"))]),
("shown-same-nosimplify","",[(D,"    let r = simplify(r);\n","")]),
("shown-same-order","",[(D,PA+PD,PD+PA)]),
("shown-same-helper","",[(D,PM,"""    print_modified(&r.modified);
"""),(D,"pub fn print_stat_diff_result","""fn print_modified(items: &[ModifiedDiffResult]) {
    use colored::*;
    if items.is_empty() {
        return;
    }
    println!("{}", "modified:".blue());
    items.iter().for_each(|p| println!("  {}", p.path.display()));
}

pub fn print_stat_diff_result""")]),
("shown-same-strings","",[(D,PA,"""    if !r.added.is_empty() {
        println!("{}", "added:".green());
        let names: Vec<String> = r.added.iter().map(|p| match p.new_key {
            Some(_) => format!("  {}", p.path.display()),
            None => format!("  {}/", p.path.display().to_string().bold()),
        }).collect();
        println!("{}", names.join("\\n"));
    }
""")]),
("shown-same-text","",[(D,PD,"""    if !r.deleted.is_empty() {
        let mut out = String::new();
        for p in &r.deleted {
            out.push_str("  ");
            out += &p.path.display().to_string();
            if p.original_key.is_none() {
                out.push('/');
            }
            out.push('\\n');
        }
        println!("{}", "deleted:".red());
        print!("{}", out);
    }
""")]),
("shown-same-line","",[(D,PA,PA.replace("""            match p.new_key {
                Some(_) => println!("  {}", p.path.display()),
                None => println!("  {}/", p.path.display().to_string().bold()),
            }
""","""            let path = p.path.display();
            if p.new_key.is_some() {
                println!("  {}", path);
            } else {
                println!("  {}/", path.to_string().bold());
            }
"""))]),
("shown-same-stat-if","",[(D,SA,"""    for added in r.added {
        if added.is_dir {
            continue;
        }
        let k = match added.new_key {
            Some(k) => k,
            None => continue,
        };
        let count = line_ct(ds, k);
        items.push(FileStatResult { fname: added.path, added: count, removed: 0 });
    }
""")]),
("shown-same-stat-extend","",[(D,SD,"""    items.extend(r.deleted.into_iter().filter(|x| !x.is_dir).filter_map(|x| {
        let path = x.path;
        x.original_key.map(|k| FileStatResult { fname: path, added: 0, removed: line_ct(ds, k) })
    }));
""")]),
("shown-same-stat-count","",[(D,COUNT,"""        let removed = lines.iter().filter(|x| matches!(x, diff::Result::Left(_))).count();
        let added = lines.iter().filter(|x| matches!(x, diff::Result::Right(_))).count();
""")]),
("shown-same-stat-iflet","",[(D,COUNT,"""        let (mut added, mut removed) = (0usize, 0usize);
        for item in &lines {
            if let diff::Result::Left(_) = item {
                removed += 1;
            } else if let diff::Result::Right(_) = item {
                added += 1;
            }
        }
""")]),
("shown-same-stat-print","",[(D,PS,"""    let mut items = lsr.items;
    items.sort();
    for FileStatResult { fname, added, removed } in &items {
        println!("{}  +{} -{}", fname.display(), added, removed);
    }
"""),(D,"mut lsr: LineStatResult","lsr: LineStatResult")]),
("shown-same-stat-fold","",[(D,COUNT,"""        let (added, removed) = lines.iter().fold((0usize, 0usize), |(a, r), item| match item {
            diff::Result::Left(_) => (a, r + 1),
            diff::Result::Right(_) => (a + 1, r),
            diff::Result::Both(_, _) => (a, r),
        });
""")]),
("shown-same-patch-map","",[(D,LINESA,"                    lines.extend(s.lines().map(patch::Line::Add));\n")]),
("shown-same-patch-collect","",[(D,"                    let mut lines = Vec::new();\n\n"+LINESD,"                    let lines: Vec<_> = s.lines().map(|l| patch::Line::Remove(l)).collect();\n")]),
("shown-same-patch-helper","",[(D,ITEM,"            lines.push(patch_line(item));\n"),(D,"fn patch_from_file_string","""fn patch_line(item: &difference::Difference) -> patch::Line<'_> {
    use difference::Difference::*;
    match item {
        Add(x) => patch::Line::Add(x),
        Rem(x) => patch::Line::Remove(x),
        Same(x) => patch::Line::Context(x),
    }
}

fn patch_from_file_string""")]),
("shown-same-patch-continue","",[(D,"        if added.is_dir {\n        } else if let Some(k) = added.new_key {\n            let path","        if added.is_dir {\n            continue;\n        }\n        if let Some(k) = added.new_key {\n            let path")]),
("shown-same-patch-format","",[(D,"            let formatted_patch = format_patch(&patch);\n\n            result.push_str(&formatted_patch);\n        }\n    }\n\n    for removed","            result += &format!(\"{}\\n\", patch);\n        }\n    }\n\n    for removed")]),
("shown-same-patch-write","",[(D,"        result.push_str(&patch_str);\n","        std::fmt::Write::write_str(&mut result, &patch_str).unwrap();\n")]),
("shown-same-println-var","",[(D,"    println!(\"{}\", create_diff_patch_result(ds, r)?);","    let text = create_diff_patch_result(ds, r)?;\n    println!(\"{}\", text);")]),
("shown-same-status-empty","",[("src/main.rs","""            diff::print_diff_result(result);
        }
        None""","""            if !diff::diff_result_empty(&result) {
                diff::print_diff_result(result);
            }
        }
        None""")]),
("shown-same-compare-helper","",[("src/main.rs","""    if args.stat {
        diff::print_stat_diff_result(&ds_state.ds, result);
    } else {
        diff::print_diff_result(result);
    }

    Ok(())
}
""","""    print_found(&ds_state.ds, result, args.stat);
    Ok(())
}

fn print_found(ds: &impl DataStore, found: diff::DiffResult, stat: bool) {
    match stat {
        true => diff::print_stat_diff_result(ds, found),
        false => diff::print_diff_result(found),
    }
}
""")]),
]
