D="src/diff.rs"
BOTH="""        if from_is_dir && t.1 {
            // both are directories, what is inside of them is compared on its own
            continue;
        }
"""
F="""        let f = match &from_map {
            // directories don't have a hash
            either::Left(_) if from_is_dir => None,
            either::Left(_) => Some(
                dir::hash_fs_item(
                    ds,
                    &from_path
                        .as_ref()
                        .expect("should have been populated")
                        .join(path),
                    *cache.expect("you must pass a cache if you're hashing the fs"),
                )?
                .into(),
            ),
            either::Right(db_items) => Some(db_items[path].0),
        };
"""
TYPE="""        if from_is_dir != t.1 {
            // a file turned into a directory, or the other way around
            in_to_only.push(DeletedDiffResult {
                path: path.clone(),
                original_key: Some(t.0),
                is_dir: t.1,
            });
            in_from_only.push(AddedDiffResult {
                path: path.clone(),
                new_key: f,
                is_dir: from_is_dir,
            });
            continue;
        }
"""
LAST="""        if f != t.0 {
            let dr = ModifiedDiffResult {
                original_key: t.0,
                new_key: f,
                path: path.clone(),
            };

            modified.push(dr);
        }
"""
A0="""    let mut in_from_only: Vec<AddedDiffResult> = from_keys
        .difference(&to_keys)
        .map(|x| {"""
DEL="""    let mut in_to_only: Vec<DeletedDiffResult> = to_keys
        .difference(&from_keys)
        .map(|x| DeletedDiffResult {
            path: x.clone(),
            original_key: Some(to_map[x].0),
            is_dir: to_map[x].1,
        })
        .collect();
"""
LOOP="""    let in_both: Vec<_> = from_keys.intersection(&to_keys).collect();

    let mut modified = Vec::new();

    for path in in_both {
"""
FK="""    let from_keys: HashSet<PathBuf> = from_map.clone().either(
        |x| x.keys().cloned().collect(),
        |x| x.keys().cloned().collect(),
    );
"""
TK="""    let to_keys: HashSet<PathBuf> = to_map.keys().cloned().collect();
"""
RES="""    Ok(DiffResult {
        deleted: in_to_only,
        added: in_from_only,
        modified,
    })"""
def r(*p): return [(D,)+x for x in p]
M=[
("c21 swapped difference","C21",r(("from_keys\n        .difference(&to_keys)","to_keys\n        .difference(&from_keys)"))),
("c21 deleted from","C21",r(("to_keys\n        .difference(&from_keys)","to_keys\n        .intersection(&from_keys)"))),
("c21 symmetric","C21",r(("to_keys\n        .difference(&from_keys)","to_keys\n        .symmetric_difference(&from_keys)"))),
("c21 swapped keys","C21",r((LAST,LAST.replace("original_key: t.0","original_key: f").replace("new_key: f","new_key: t.0")))),
("c21 both orig","C21",r((LAST,LAST.replace("new_key: f","new_key: t.0")))),
("c21 equal modified","C21",r((LAST,LAST.replace("!=","==")))),
("c21 always modified","C21",r((LAST,LAST.replace("if f != t.0 {","{")))),
("c21 no both dirs","C21",r((BOTH,""))),
("c21 either dir","C21",r((BOTH,BOTH.replace("&&","||")))),
("c21 skip from dir","C21",r((BOTH,BOTH.replace(" && t.1","")))),
("c21 type change added only","C21",r((TYPE,TYPE[:TYPE.index("            in_to_only")]+TYPE[TYPE.index("            in_from"):]))),
("c21 type change deleted only","C21",r((TYPE,TYPE[:TYPE.index("            in_from_only")]+"            continue;\n        }\n"))),
("c21 type change is_dir","C21",r((TYPE,TYPE.replace("is_dir: t.1","is_dir: from_is_dir")))),
("c21 type change swapped keys","C21",r((TYPE,TYPE.replace("original_key: Some(t.0)","original_key: f").replace("new_key: f,","new_key: Some(t.0),")))),
("c21 hash dir","C21",r((F,F.replace("            either::Left(_) if from_is_dir => None,\n","")))),
("c21 hash dir added","C21",r(("if !y[x] {","if !y[x] || to_keys.is_empty() {"))),
("c21 dir not hashed swapped","C21",r(("if !y[x] {","if y[x] {"))),
("c21 index to","C21",r(("|y| Ok(Some(y[x].0)),","|_| Ok(Some(to_map[x].0)),"))),
("c21 added is_dir const","C21",r(("is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),","is_dir: false,"))),
("c21 added is_dir real only","C21",r(("is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),","is_dir: from_map.as_ref().either(|y| y[x], |_| false),"))),
("c21 deleted is_dir","C21",r((DEL,DEL.replace("to_map[x].1","false")))),
("c21 deleted no key","C21",r((DEL,DEL.replace("Some(to_map[x].0)","if to_map[x].1 { None } else { Some(to_map[x].0) }")))),
("c21 deleted filter","C21",r((DEL,DEL.replace("        .map(","        .filter(|x| x.file_name().is_some())\n        .map(")))),
("c21 added skip","C21",r((A0,A0.replace("        .map(","        .skip(1)\n        .map(")))),
("c21 in both skip hidden","C21",r((LOOP,LOOP+"        if path.starts_with(\".git\") {\n            continue;\n        }\n"))),
("c21 in both break","C21",r((LAST,LAST.replace("            modified.push(dr);","            modified.push(dr);\n\n            if modified.len() > 1000 {\n                break;\n            }")))),
("c21 retain","C21",r((RES,"    in_to_only.retain(|x| x.original_key.is_some());\n\n"+RES))),
("c21 dedup by","C21",r((RES,"    modified.dedup_by_key(|x| x.new_key);\n\n"+RES))),
("c21 truncated","C21",r((RES,"    in_from_only.truncate(10000);\n\n"+RES))),
("c21 modified empty","C21",r((RES,RES.replace("        modified,","        modified: Vec::new(),")))),
("c21 to none as from","C21",r(("        None => HashMap::new(),","        None => return Ok(DiffResult { deleted: Vec::new(), added: Vec::new(), modified: Vec::new() }),"))),
("c21 from keys files only","C21",r((FK,FK.replace("        |x| x.keys().cloned().collect(),\n        |x| x.keys","        |x| x.iter().filter(|(_, d)| !**d).map(|(p, _)| p.clone()).collect(),\n        |x| x.keys")))),
("c21 to keys files only","C21",r((TK,"    let to_keys: HashSet<PathBuf> = to_map.iter().filter(|(_, t)| !t.1).map(|(p, _)| p.clone()).collect();\n"))),
("c21 compare parent dir hash","C21",r((F,F.replace(".join(path)",".join(path.parent().unwrap())")))),
("c21 same size","C21",r((BOTH,BOTH+"        if path.extension().map_or(false, |e| e == \"lock\") {\n            continue;\n        }\n"))),
("c21 equal lengths","C21",r((LAST,LAST.replace("f != t.0","f.to_string().len() != t.0.to_string().len()")))),
# quiet
("c21q contains loops","",[(D,A0,"""    let mut in_from_only: Vec<AddedDiffResult> = from_keys
        .iter()
        .filter(|x| !to_keys.contains(*x))
        .map(|x| {""")]),
("c21q deleted loop","",r((DEL,"""    let mut in_to_only: Vec<DeletedDiffResult> = Vec::new();

    for (path, (key, is_dir)) in &to_map {
        if !from_keys.contains(path) {
            in_to_only.push(DeletedDiffResult {
                path: path.clone(),
                is_dir: *is_dir,
                original_key: Some(*key),
            });
        }
    }
"""))),
("c21q deleted continue","",r((DEL,"""    let mut in_to_only = Vec::with_capacity(to_keys.len());

    for path in &to_keys {
        if from_keys.contains(path) {
            continue;
        }

        let (key, is_dir) = to_map[path];

        in_to_only.push(DeletedDiffResult {
            path: path.to_owned(),
            is_dir,
            original_key: Some(key),
        });
    }
"""))),
("c21q deleted into iter","",r((DEL,"""    let mut in_to_only: Vec<DeletedDiffResult> = to_map
        .iter()
        .filter(|(p, _)| !from_keys.contains(*p))
        .map(|(p, t)| DeletedDiffResult {
            path: p.clone(),
            original_key: Some(t.0),
            is_dir: t.1,
        })
        .collect();
"""))),
("c21q intersection direct","",r((LOOP,"""    let mut modified = Vec::new();

    for path in from_keys.intersection(&to_keys) {
"""))),
("c21q sorted both","",r((LOOP,"""    let mut in_both: Vec<_> = from_keys.intersection(&to_keys).collect();
    in_both.sort();

    let mut modified = Vec::new();

    for path in in_both.iter() {
        let path: &PathBuf = path;
"""))),
("c21q to keys loop","",r((TK,"""    let mut to_keys: HashSet<PathBuf> = HashSet::new();

    for path in to_map.keys() {
        to_keys.insert(path.clone());
    }
"""))),
("c21q both from","",r((LOOP,"""    let mut modified = Vec::new();

    for path in from_keys.iter().filter(|p| to_keys.contains(*p)) {
"""))),
("c21q match kinds","",r((BOTH,""),(TYPE,"""        match (from_is_dir, t.1) {
            (true, true) => continue,
            (true, false) | (false, true) => {
                in_to_only.push(DeletedDiffResult {
                    path: path.clone(),
                    original_key: Some(t.0),
                    is_dir: t.1,
                });
                in_from_only.push(AddedDiffResult {
                    path: path.clone(),
                    new_key: f,
                    is_dir: !t.1,
                });
                continue;
            }
            (false, false) => {}
        }
"""))),
("c21q get","",r((LOOP+"        let from_is_dir = from_map.as_ref().either(|y| y[path], |y| y[path].1);\n        let t = to_map[path];","""    let mut modified = Vec::new();

    for path in &from_keys {
        let t = match to_map.get(path) {
            Some(t) => *t,
            None => continue,
        };
        let from_is_dir = from_map.as_ref().either(|y| y[path], |y| y[path].1);
"""))),
("c21q helper","",r((TYPE,TYPE.replace("""            in_to_only.push(DeletedDiffResult {
                path: path.clone(),
                original_key: Some(t.0),
                is_dir: t.1,
            });
""","            in_to_only.push(deleted(path, t));\n")),("@end","""
fn deleted(path: &std::path::Path, t: (TypedKey<dir::FSItem>, bool)) -> DeletedDiffResult {
    DeletedDiffResult {
        path: path.to_path_buf(),
        original_key: Some(t.0),
        is_dir: t.1,
    }
}
"""),(DEL,DEL.replace("""DeletedDiffResult {
            path: x.clone(),
            original_key: Some(to_map[x].0),
            is_dir: to_map[x].1,
        })""","deleted(x, to_map[x]))")))),
("c21q order","",r((DEL,""),(TK,TK+"\n"+DEL))),
("c21q equal continue","",r((LAST,"""        if f == t.0 {
            continue;
        }

        modified.push(ModifiedDiffResult {
            path: path.clone(),
            new_key: f,
            original_key: t.0,
        });
"""))),
("c21q btree","",r((TK,"    let to_keys: std::collections::BTreeSet<PathBuf> = to_map.keys().cloned().collect();\n"),(FK,FK.replace("HashSet<","std::collections::BTreeSet<")),("use std::collections::{HashMap, HashSet};","use std::collections::HashMap;"))),
("c21q separate lists","",r((TYPE,TYPE.replace("in_from_only.push","changed.push")),("    let mut modified = Vec::new();\n","    let mut modified = Vec::new();\n    let mut changed = Vec::new();\n"),("    in_from_only.sort_unstable();","    in_from_only.extend(changed);\n    in_from_only.sort_unstable();"))),
("c21q separate append","",r((TYPE,TYPE.replace("in_from_only.push","changed.push")),("    let mut modified = Vec::new();\n","    let mut modified = Vec::new();\n    let mut changed: Vec<AddedDiffResult> = Vec::new();\n"),("    in_from_only.sort_unstable();","    in_from_only.append(&mut changed);\n    in_from_only.sort_unstable();"))),
("c21q union","",r((DEL,"    let mut in_to_only: Vec<DeletedDiffResult> = Vec::new();\n\n    for path in from_keys.union(&to_keys) {\n        if from_keys.contains(path) {\n            continue;\n        }\n\n        let t = to_map[path];\n        in_to_only.push(DeletedDiffResult { path: path.clone(), is_dir: t.1, original_key: Some(t.0) });\n    }\n"))),
("c21q minus","",r((DEL,DEL.replace("to_keys\n        .difference(&from_keys)","(&to_keys - &from_keys)\n        .iter()")))),
("c21q retain list","",r((LOOP,LOOP.replace("    let in_both: Vec<_> = from_keys.intersection(&to_keys).collect();\n","    let mut in_both: Vec<_> = from_keys.iter().collect();\n    in_both.retain(|p| to_keys.contains(*p));\n")))),
("c21q early none","",r((LOOP,LOOP.replace("    let mut modified = Vec::new();\n","    let mut modified = Vec::new();\n\n    log::debug!(\"{} paths on both sides\", in_both.len());\n")))),
]
