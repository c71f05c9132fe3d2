F = "src/file.rs"
LOOP = """            for key in obj.keys().iter().copied() {
                read_data(ds, key, to)?;
            }
"""
W = "            to.write_all(&obj.data())?;\n"
FI = """            assert!(obj.keys().len() == 1);

            let key = obj.keys()[0];
            read_data(ds, key, to)?;
"""
PANIC = """        _ => {
            panic!(
                "found invalid object type {:?} when reading key {:?}",
                obj.objtype(),
                key
            );
        }
"""
M = [
 ("c07 write", "C07", [(F, W, "            to.write(&obj.data())?;\n")]),
 ("c07 rev", "C07", [(F, "obj.keys().iter().copied()", "obj.keys().iter().rev().copied()")]),
 ("c07 skip", "C07", [(F, "obj.keys().iter().copied()", "obj.keys().iter().skip(1).copied()")]),
 ("c07 take", "C07", [(F, "obj.keys().iter().copied()", "obj.keys().iter().take(1 << 16).copied()")]),
 ("c07 dedup", "C07", [(F, LOOP, "            let mut ks = obj.keys().to_vec();\n            ks.dedup();\n            for key in ks {\n                read_data(ds, key, to)?;\n            }\n")]),
 ("c07 skip repeated", "C07", [(F, LOOP, "            let mut prev = None;\n            for key in obj.keys().iter().copied() {\n                if prev == Some(key) {\n                    continue;\n                }\n                prev = Some(key);\n                read_data(ds, key, to)?;\n            }\n")]),
 ("c07 set", "C07", [(F, LOOP, "            for key in obj.keys().iter().copied().collect::<std::collections::BTreeSet<_>>() {\n                read_data(ds, key, to)?;\n            }\n")]),
 ("c07 break on error", "C07", [(F, "                read_data(ds, key, to)?;\n            }\n        }\n        ObjType::FileBlob =>", "                if read_data(ds, key, to).is_err() {\n                    break;\n                }\n            }\n        }\n        ObjType::FileBlob =>")]),
 ("c07 only first", "C07", [(F, LOOP, "            read_data(ds, obj.keys()[0], to)?;\n")]),
 ("c07 unknown as empty", "C07", [(F, PANIC, "        _ => {}\n")]),
 ("c07 commit as empty", "C07", [(F, PANIC, "        ObjType::Commit => {}\n" + PANIC)]),
 ("c07 file without contents", "C07", [(F, FI, "            if let Some(k) = obj.keys().get(1) {\n                read_data(ds, *k, to)?;\n            }\n")]),
 ("c07 prefix", "C07", [(F, W, "            to.write_all(&obj.data()[..obj.data().len().min(1 << 20)])?;\n")]),
 ("c07 chunks_exact", "C07", [(F, W, "            for c in obj.data().chunks_exact(4096) {\n                to.write_all(c)?;\n            }\n")]),
 ("c07 trailing zeros", "C07", [(F, W, "            let d = obj.data();\n            let e = d.iter().rposition(|&b| b != 0).map_or(0, |x| x + 1);\n            to.write_all(&d[..e])?;\n")]),
 ("c07 no write if small", "C07", [(F, W, "            if obj.data().len() > 1 {\n                to.write_all(&obj.data())?;\n            }\n")]),
 ("c07 own buffer", "C07", [(F, LOOP, "            for key in obj.keys().iter().copied() {\n                let mut b = Vec::new();\n                read_data(ds, key, &mut b)?;\n                to.write(&b)?;\n            }\n")]),
 ("c07 windows", "C07", [(F, LOOP, "            for w in obj.keys().windows(2) {\n                read_data(ds, w[0], to)?;\n            }\n")]),
 ("c07 children before own", "", [(F, W, W)]),
 ("ok c07 index loop", "", [(F, LOOP, "            for i in 0..obj.keys().len() {\n                read_data(ds, obj.keys()[i], to)?;\n            }\n")]),
 ("ok c07 while let", "", [(F, LOOP, "            let mut it = obj.keys().iter();\n            while let Some(k) = it.next() {\n                read_data(ds, *k, to)?;\n            }\n")]),
 ("ok c07 try_for_each", "", [(F, LOOP, "            obj.keys()\n                .iter()\n                .try_for_each(|k| read_data(ds, *k, to))?;\n")]),
 ("ok c07 helper", "", [(F, LOOP, "            read_parts(ds, obj.keys(), to)?;\n"), (F, "@end", "\nfn read_parts<DS: DataStore, W: Write>(ds: &DS, keys: &[Key], to: &mut W) -> Result<(), ReadDataError> {\n    for k in keys {\n        read_data(ds, *k, to)?;\n    }\n    Ok(())\n}\n")]),
 ("ok c07 while index", "", [(F, LOOP, "            let mut i = 0;\n            while i < obj.keys().len() {\n                read_data(ds, obj.keys()[i], to)?;\n                i += 1;\n            }\n")]),
 ("ok c07 chunks", "", [(F, W, "            for c in obj.data().chunks(4096) {\n                to.write_all(c)?;\n            }\n")]),
 ("ok c07 merge arms", "", [(F, "        ObjType::FSItemFile => {\n" + FI + "        }\n", ""), (F, "        ObjType::FileBlobTree => {", "        ObjType::FileBlobTree | ObjType::FSItemFile => {")]),
 ("ok c07 empty check", "", [(F, W, "            if !obj.data().is_empty() {\n                to.write_all(obj.data())?;\n            }\n")]),
 ("ok c07 return arms", "", [(F, W, "            return Ok(to.write_all(obj.data())?);\n")]),
 ("ok c07 if let", "", [(F, W, "            if let Err(e) = to.write_all(obj.data()) {\n                return Err(ReadDataError::IOError(e));\n            }\n")]),
 ("ok c07 assert_eq", "", [(F, FI, "            assert_eq!(obj.keys().len(), 1);\n            if let [key] = obj.keys() {\n                return read_data(ds, *key, to);\n            }\n            unreachable!();\n")]),
 ("ok c07 local copy", "", [(F, "    match obj.objtype() {\n        ObjType::FileBlobTree => {\n            for", "    let kind = obj.objtype();\n    let _ = &kind;\n    match kind {\n        ObjType::FileBlobTree => {\n            for")]),
]
