D="src/dir.rs"; F="src/diff.rs"; H="src/cache.rs"
SORT='''        entries.sort_by_key(|direntry| direntry.file_name());
'''
LOOP='''        for direntry in entries {
            if filter(&direntry) {
                result.push(put_fs_item(ds, &direntry.path(), filter)?);
                result_names.push(direntry.file_name().into());
            }
        }
'''
COLL='''        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
'''
OBJ='''            children: result.iter().map(|&x| x.into()).collect(),
            children_names: result_names,
'''
DECL='''        let mut result = Vec::new();
        let mut result_names = Vec::new();
'''
FOBJ='''            children: vec![hash.into()],
            children_names: vec![],
            itemtype: FSItemType::File,
            size: meta.len(),
'''
HEAD=SORT  # hash_fs_item comes second in the file
HOBJ=FOBJ+'''        };

        let object = obj.try_into()?;

        let obj_hash'''
GETC='''        let mut data = Vec::with_capacity(8 * 5);
        data.extend(cachekey.device.to_le_bytes().iter());
        data.extend(cachekey.inode.to_le_bytes().iter());
        data.extend(cachekey.mtime.to_le_bytes().iter());
        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());
        data.extend(cachekey.size.to_le_bytes().iter());
'''
PUTC=GETC.replace("5);\n","5);\n\n",1)
PF=[(H,GETC,GETC),]
def both(a,b): return [(H,GETC,GETC.replace(a,b)),(H,PUTC,PUTC.replace(a,b))]
EXT='''        let ext_metadata = f.metadata()?;
'''
EX='''            if ds.raw_exists(&h.as_db_key())? {
                return Ok(h);
            }
'''
CK='''        let cache_key = CacheKey {
            device: ext_metadata.dev(),
            mtime: ext_metadata.mtime(),
            mtime_nsec: ext_metadata.mtime_nsec(),
            inode: ext_metadata.ino(),
            size: ext_metadata.size(),
        };
'''
HITC='''        if let Some(h) = cache.get(cache_key)? {
            // The cache is shared by all databases, so this one may not have the object.
'''+EX+'''        }
'''
M=[
# --- C22 caught
("c22 no nsec","C22",both("        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());\n","")),
("c22 no size","C22",both("        data.extend(cachekey.size.to_le_bytes().iter());\n","")),
("c22 no device","C22",both("        data.extend(cachekey.device.to_le_bytes().iter());\n","")),
("c22 twice inode","C22",both("cachekey.device","cachekey.inode")),
("c22 order differs","C22",[(H,PUTC,PUTC.replace("cachekey.device","cachekey.X").replace("cachekey.inode","cachekey.device").replace("cachekey.X","cachekey.inode"))]),
("c22 endian differs","C22",[(H,PUTC,PUTC.replace("inode.to_le","inode.to_be"))]),
("c22 nsec u16","C22",both("cachekey.mtime_nsec.to_le","(cachekey.mtime_nsec as u16).to_le")),
("c22 size u32","C22",both("cachekey.size.to_le","(cachekey.size as u32).to_le")),
("c22 size narrow wide","C22",both("cachekey.size.to_le","(cachekey.size as u32 as u64).to_le")),
("c22 xor","C22",both("cachekey.size.to_le","(cachekey.size ^ cachekey.inode).to_le")),
("c22 truncate key","C22",[(H,GETC,GETC+"        data.truncate(32);\n"),(H,PUTC,PUTC+"        data.truncate(32);\n")]),
("c22 no exist","C22",[(D,EX,"            return Ok(h);\n")]),
("c22 exist ignored","C22",[(D,EX,"            ds.raw_exists(&h.as_db_key())?;\n            return Ok(h);\n")]),
("c22 exist negated","C22",[(D,EX,EX.replace("if ds","if !ds"))]),
("c22 exist or small","C22",[(D,EX,EX.replace("if ds.raw_exists(&h.as_db_key())? {","if meta.len() < 4096 || ds.raw_exists(&h.as_db_key())? {"))]),
("c22 mtime ctime","C22",[(D,CK,CK.replace("ext_metadata.mtime()","ext_metadata.atime()"))]),
("c22 nsec zero","C22",[(D,CK,CK.replace("ext_metadata.mtime_nsec()","0"))]),
("c22 nsec rounded","C22",[(D,CK,CK.replace("ext_metadata.mtime_nsec()","ext_metadata.mtime_nsec() / 1_000_000"))]),
("c22 inode blocks","C22",[(D,CK,CK.replace("ext_metadata.ino()","ext_metadata.blocks()"))]),
("c22 meta by path","C22",[(D,EXT,"        let ext_metadata = &meta;\n")]),
("c22 meta after","C22",[(D,"        let obj_hash = ds.put_obj(&object)?;\n","        let obj_hash = ds.put_obj(&object)?;\n        let ext_metadata = std::fs::File::open(path)?.metadata()?;\n"+CK)]),
("c22 put contents","C22",[(D,"cache.put(cache_key, obj_hash)","cache.put(cache_key, hash)")]),
("c22 reopen","C22",[(D,HITC,HITC+"        let f = std::fs::File::open(path)?;\n")]),
("c22 parent meta","C22",[(D,EXT,"        let ext_metadata = std::fs::File::open(path.parent().unwrap_or(path))?.metadata()?;\n")]),
("c22 like","C22 C26",[(H,"WHERE key=?","WHERE key LIKE ?")]),
("c22 swapped params","C22 C26",[(H,"                params![key, data],","                params![data, key],")]),
("c22 value from other row","C22",[(H,'"SELECT value FROM cache WHERE key=?", params![key]','"SELECT value FROM cache WHERE ? IS NOT NULL ORDER BY key DESC", params![key]')]),
("c22 key as value","C22",[(H,"SELECT value FROM","SELECT key FROM")]),
# --- C22 quiet
("c22q be both","",both("to_le_bytes","to_be_bytes")),
("c22q extend_from_slice","",[(H,GETC,GETC.replace("extend(","extend_from_slice(&").replace(".iter()","")),]),
("c22q other order","",[(H,GETC,GETC.replace("cachekey.device","cachekey.X").replace("cachekey.inode","cachekey.device").replace("cachekey.X","cachekey.inode")),(H,PUTC,PUTC.replace("cachekey.device","cachekey.X").replace("cachekey.inode","cachekey.device").replace("cachekey.X","cachekey.inode"))]),
("c22q method","",[(H,GETC,"        let data = cachekey.to_bytes();\n"),(H,PUTC,"        let data = cachekey.to_bytes();\n"),(H,"@end","\nimpl CacheKey {\n    fn to_bytes(&self) -> Vec<u8> {\n"+GETC.replace("cachekey.","self.")+"        data\n    }\n}\n")]),
("c22q concat","",[(H,GETC,"        let data = [cachekey.device.to_le_bytes(), cachekey.inode.to_le_bytes(), cachekey.mtime.to_le_bytes(), cachekey.mtime_nsec.to_le_bytes(), cachekey.size.to_le_bytes()].concat();\n")]),
("c22q array","",[(H,GETC,"        let mut data = [0u8; 40];\n        data[0..8].copy_from_slice(&cachekey.device.to_le_bytes());\n        data[8..16].copy_from_slice(&cachekey.inode.to_le_bytes());\n        data[16..24].copy_from_slice(&cachekey.mtime.to_le_bytes());\n        data[24..32].copy_from_slice(&cachekey.mtime_nsec.to_le_bytes());\n        data[32..40].copy_from_slice(&cachekey.size.to_le_bytes());\n")]),
("c22q chain","",[(H,GETC,"        let data: Vec<u8> = cachekey.device.to_le_bytes().iter().chain(cachekey.inode.to_le_bytes().iter()).chain(cachekey.mtime.to_le_bytes().iter()).chain(cachekey.mtime_nsec.to_le_bytes().iter()).chain(cachekey.size.to_le_bytes().iter()).copied().collect();\n")]),
("c22q fields loop","",[(H,GETC,"        let mut data = Vec::new();\n        for x in &[cachekey.device, cachekey.inode, cachekey.mtime as u64, cachekey.mtime_nsec as u64, cachekey.size] {\n            data.extend(x.to_le_bytes().iter());\n        }\n")]),
("c22q cast","",both("cachekey.mtime.to_le","(cachekey.mtime as u64).to_le")),
("c22q match","",[(D,HITC,'''        match cache.get(cache_key)? {
            Some(h) if ds.raw_exists(&h.as_db_key())? => return Ok(h),
            _ => {}
        }
''')]),
("c22q exist var","",[(D,EX,"            let known = ds.raw_exists(&h.as_db_key())?;\n            if !known {\n                log::info!(\"stale\");\n            } else {\n                return Ok(h);\n            }\n")]),
("c22q from impl","",[(D,CK,"        let cache_key = cache_key_of(&ext_metadata);\n"),(D,"@end","\nfn cache_key_of(m: &std::fs::Metadata) -> CacheKey {\n    use std::os::unix::fs::MetadataExt;\n    CacheKey { device: m.dev(), inode: m.ino(), mtime: m.mtime(), mtime_nsec: m.mtime_nsec(), size: m.len() }\n}\n"),(D,"        use std::os::unix::fs::MetadataExt;\n\n","")]),
("c22q cached fn","",[(D,HITC,"        if let Some(h) = cached(ds, cache, cache_key)? {\n            return Ok(h);\n        }\n"),(D,"@end","\nfn cached<DS: DataStore, C: Cache>(ds: &DS, cache: &C, k: CacheKey) -> Result<Option<Key>, HashFsItemError> {\n    let h = match cache.get(k)? {\n        Some(h) => h,\n        None => return Ok(None),\n    };\n    if ds.raw_exists(&h.as_db_key())? {\n        Ok(Some(h))\n    } else {\n        Ok(None)\n    }\n}\n")]),
("c22q no hit","",[(D,HITC,"        let known = cache.get(cache_key)?;\n        let known = match known {\n            Some(h) => ds.raw_exists(&h.as_db_key())?,\n            None => false,\n        };\n        if known {\n            log::debug!(\"known\");\n        }\n")]),
("c22q insert replace","",[(H,"INSERT OR IGNORE INTO cache VALUES","INSERT OR REPLACE INTO cache(key, value) VALUES")]),
# --- C20 caught
("c20 unsorted","C20",[(D,SORT,"")]),
("c20 sort by len","C20",[(D,SORT,"        entries.sort_by_key(|direntry| direntry.file_name().len());\n")]),
("c20 sort by ext","C20",[(D,SORT,"        entries.sort_by_key(|direntry| direntry.path().extension().map(|x| x.to_owned()));\n")]),
("c20 sort by mtime","C20",[(D,SORT,"        entries.sort_by_key(|direntry| direntry.metadata().ok().and_then(|m| m.modified().ok()));\n")]),
("c20 sort lowercase","C20",[(D,SORT,"        entries.sort_by_key(|direntry| direntry.file_name().to_string_lossy().to_lowercase());\n")]),
("c20 sort lossy","C20",[(D,SORT,"        entries.sort_by_key(|direntry| direntry.file_name().to_string_lossy().into_owned());\n")]),
("c20 sort inode","C20",[(D,SORT,"        entries.sort_by_key(|direntry| { use std::os::unix::fs::DirEntryExt; direntry.ino() });\n")]),
("c20 sort keys too","C20",[(D,LOOP,LOOP+"        result.sort_unstable();\n")]),
("c20 sort names too","C20",[(D,SORT,""),(D,LOOP,LOOP+"        let mut result_names: Vec<PathBuf> = result_names;\n        result_names.sort();\n")]),
("c20 dedup keys","C20",[(D,LOOP,LOOP+"        result.dedup();\n")]),
("c20 skip hidden","C20",[(D,LOOP,LOOP.replace("if filter(&direntry) {","if filter(&direntry) && !direntry.file_name().to_string_lossy().starts_with('.') {"))]),
("c20 skip empty files","C20",[(D,LOOP,LOOP.replace("if filter(&direntry) {","if filter(&direntry) && direntry.metadata()?.len() > 0 {"))]),
("c20 break at 65536","C20",[(D,LOOP,LOOP.replace("            if filter","            if result.len() >= 65536 {\n                break;\n            }\n            if filter"))]),
("c20 stop at excluded","C20",[(D,LOOP,LOOP.replace("                result_names.push(direntry.file_name().into());\n            }","                result_names.push(direntry.file_name().into());\n            } else {\n                break;\n            }"))]),
("c20 take","C20",[(D,LOOP,LOOP.replace("in entries","in entries.into_iter().take(100_000)"))]),
("c20 pop","C20",[(D,LOOP,LOOP+"        if result.len() > 1000 { result.pop(); }\n")]),
("c20 truncate both","C20",[(D,LOOP,LOOP+"        result.truncate(4096);\n        result_names.truncate(4096);\n")]),
("c20 name before filter","C20",[(D,LOOP,LOOP.replace("            if filter(&direntry) {\n","            result_names.push(direntry.file_name().into());\n            if filter(&direntry) {\n").replace("                result_names.push(direntry.file_name().into());\n            }","            }",1))]),
("c20 flatten errors","C02 C20",[(D,COLL,"        let mut entries: Vec<DirEntry> = std::fs::read_dir(path)?.filter_map(|x| x.ok()).collect();\n")]),
("c20 file_stem","C20",[(D,LOOP,LOOP.replace("direntry.file_name().into()","direntry.path().file_stem().unwrap().into()"))]),
("c20 lossy name","C20",[(D,LOOP,LOOP.replace("direntry.file_name().into()","direntry.file_name().to_string_lossy().into_owned().into()"))]),
("c20 full path as name","C20",[(D,LOOP,LOOP.replace("direntry.file_name().into()","direntry.path()"))]),
("c20 reverse names","C20",[(D,LOOP,LOOP+"        let mut result_names: Vec<PathBuf> = result_names;\n        result_names.reverse();\n")]),
("c20 rev children","C20",[(D,OBJ,OBJ.replace("result.iter()","result.iter().rev()"))]),
("c20 hashmap","C20",[(D,LOOP,LOOP.replace("        for","        let mut all = HashMap::new();\n        for",1).replace("result.push(put_fs_item(ds, &direntry.path(), filter)?);\n                result_names.push(direntry.file_name().into());","all.insert(PathBuf::from(direntry.file_name()), put_fs_item(ds, &direntry.path(), filter)?);")+"        for (a, b) in all {\n            result_names.push(a);\n            result.push(b);\n        }\n")]),
("c20 lower-case map","C20",[(D,LOOP,LOOP.replace("        for","        let mut all = std::collections::BTreeMap::new();\n        for",1).replace("result.push(put_fs_item(ds, &direntry.path(), filter)?);\n                result_names.push(direntry.file_name().into());","all.insert(PathBuf::from(direntry.file_name().to_string_lossy().to_lowercase()), put_fs_item(ds, &direntry.path(), filter)?);")+"        for (a, b) in all {\n            result_names.push(a);\n            result.push(b);\n        }\n")]),
("c20 parent path","C20",[(D,LOOP,LOOP.replace("&direntry.path()","&path.join(direntry.path().file_stem().unwrap())"))]),
("c20 retain files","C20",[(D,SORT,SORT+"        entries.retain(|e| !e.file_name().to_string_lossy().ends_with('~'));\n")]),
("c20 size from fs","C20",[(D,"        let size = result.len() as u64;","        let size = meta.len();")]),
("c20 insert front","C20",[(D,LOOP,LOOP.replace("result.push(","result.insert(0, "))]),
("c20 empty dir dropped","C20",[(D,LOOP,LOOP.replace("result.push(put_fs_item(ds, &direntry.path(), filter)?);","let is_empty = direntry.path().is_dir() && std::fs::read_dir(direntry.path())?.next().is_none();\n                if is_empty { continue; }\n                result.push(put_fs_item(ds, &direntry.path(), filter)?);"))]),
("c20 dot slash","C20",[(D,"        let mut entries = std::fs::read_dir(path)?","        let mut entries = std::fs::read_dir(path.parent().unwrap_or(path))?")]),
# --- C20 quiet
("c20q sort_by cmp","",[(D,SORT,"        entries.sort_by(|a, b| a.file_name().cmp(&b.file_name()));\n")]),
("c20q sort_by reversed","",[(D,SORT,"        entries.sort_by(|a, b| b.file_name().cmp(&a.file_name()));\n")]),
("c20q sort_unstable_by_key path","",[(D,SORT,"        entries.sort_unstable_by_key(|e| e.path());\n")]),
("c20q cached key","",[(D,SORT,"        entries.sort_by_cached_key(DirEntry::file_name);\n")]),
("c20q method ref","",[(D,SORT,"        entries.sort_by_key(DirEntry::file_name);\n")]),
("c20q retain filter","",[(D,SORT,SORT+"        entries.retain(|e| filter(e));\n"),(D,LOOP,LOOP.replace("            if filter(&direntry) {\n","            {\n"))]),
("c20q filter adaptor","",[(D,LOOP,LOOP.replace("in entries {\n            if filter(&direntry) {","in entries.into_iter().filter(|e| filter(e)) {\n            {"))]),
("c20q negated","",[(D,LOOP,LOOP.replace("            if filter(&direntry) {\n","            if !filter(&direntry) {\n                continue;\n            }\n            {\n"))]),
("c20q btreemap","",[(D,SORT,""),(D,LOOP,LOOP.replace("        for","        let mut all = std::collections::BTreeMap::new();\n        for",1).replace("result.push(put_fs_item(ds, &direntry.path(), filter)?);\n                result_names.push(direntry.file_name().into());","all.insert(PathBuf::from(direntry.file_name()), put_fs_item(ds, &direntry.path(), filter)?);")+"        for (a, b) in all {\n            result_names.push(a);\n            result.push(b);\n        }\n"),(D,"let mut entries =","let entries =")]),
("c20q names sorted","",[(D,COLL,"        let mut names = Vec::new();\n        for e in std::fs::read_dir(path)? {\n            let e = e?;\n            if filter(&e) {\n                names.push(e.file_name());\n            }\n        }\n        names.sort();\n"),(D,SORT,""),
   (D,LOOP,"        for name in names {\n            result.push(put_fs_item(ds, &path.join(&name), filter)?);\n            result_names.push(name.into());\n        }\n")]),
("c20q pairs then unzip","",[(D,LOOP,"        for direntry in entries.iter().filter(|e| filter(e)) {\n            let key = put_fs_item(ds, &direntry.path(), filter)?;\n            pairs.push((PathBuf::from(direntry.file_name()), key));\n        }\n        let (result_names, result): (Vec<PathBuf>, Vec<Key>) = pairs.into_iter().unzip();\n"),(D,DECL,"        let mut pairs = Vec::new();\n")]),
("c20q sorted pairs","",[(D,SORT,""),(D,"let mut entries =","let entries ="),(D,LOOP,"        for direntry in entries.iter().filter(|e| filter(e)) {\n            let key = put_fs_item(ds, &direntry.path(), filter)?;\n            pairs.push((PathBuf::from(direntry.file_name()), key));\n        }\n        pairs.sort_by(|a, b| a.0.cmp(&b.0));\n        let mut result = Vec::new();\n        let mut result_names = Vec::new();\n        for (n, k) in pairs {\n            result_names.push(n);\n            result.push(k);\n        }\n"),(D,DECL,"        let mut pairs = Vec::new();\n")]),
("c20q helper","",[(D,SORT+"\n"+LOOP,"        entries.sort_by_key(|direntry| direntry.file_name());\n\n        for direntry in entries {\n            add_entry(ds, direntry, filter, &mut result, &mut result_names)?;\n        }\n"),
   (D,"@end","\nfn add_entry<DS: DataStore>(ds: &mut DS, e: DirEntry, filter: &dyn Fn(&DirEntry) -> bool, keys: &mut Vec<Key>, names: &mut Vec<PathBuf>) -> Result<(), PutFsItemError> {\n    if !filter(&e) {\n        return Ok(());\n    }\n    keys.push(put_fs_item(ds, &e.path(), filter)?);\n    names.push(e.file_name().into());\n    Ok(())\n}\n")]),
("c20q listing helper","",[(D,COLL,"        let entries = sorted_entries(path)?;\n"),(D,SORT,""),
   (D,"@end","\nfn sorted_entries(path: &Path) -> Result<Vec<DirEntry>, std::io::Error> {\n    let mut v = Vec::new();\n    for e in std::fs::read_dir(path)? {\n        v.push(e?);\n    }\n    v.sort_by_key(|e| e.file_name());\n    Ok(v)\n}\n")]),
("c20q early empty","",[(D,LOOP,LOOP+"        if result.is_empty() {\n            let object = FSItem { children: vec![], children_names: vec![], itemtype: FSItemType::Dir, size: 0 }.try_into()?;\n            return Ok(ds.put_obj(&object)?);\n        }\n")]),
("c20q map into","",[(D,OBJ,OBJ.replace("result.iter().map(|&x| x.into()).collect()","result.into_iter().map(Into::into).collect()"))]),
("c20q typed list","",[(D,LOOP,LOOP.replace("filter)?);","filter)?.into());")),(D,OBJ,OBJ.replace("result.iter().map(|&x| x.into()).collect()","result"))]),
("c20q vec of struct","",[(D,LOOP,LOOP.replace("direntry.file_name().into()","PathBuf::from(direntry.path().file_name().unwrap())"))]),
("c20q while let","",[(D,LOOP,LOOP.replace("        for direntry in entries {","        let mut it = entries.into_iter();\n        while let Some(direntry) = it.next() {"))]),
("c20q index loop","",[(D,LOOP,LOOP.replace("        for direntry in entries {","        for direntry in entries.iter() {").replace("filter(&direntry)","filter(direntry)"))]),
("c20q match","",[(D,LOOP,LOOP.replace("            if filter(&direntry) {","            let admitted = filter(&direntry);\n            if admitted {"))]),
# --- C23 caught
("c23 meta size","C23",[(D,"            children_names: vec![],\n            itemtype: FSItemType::File,\n            size: meta.len(),","            children_names: vec![],\n            itemtype: FSItemType::File,\n            size: 0,")]),
("c23 hash size 0","C23",[(D,HOBJ,HOBJ.replace("meta.len()","0"))]),
("c23 hash size blocks","C23",[(D,HOBJ,HOBJ.replace("meta.len()","ext_metadata.blocks() * 512"))]),
("c23 hash names","C23",[(D,HOBJ,HOBJ.replace("vec![],","path.file_name().map(PathBuf::from).into_iter().collect(),"))]),
("c23 hash returns contents","C23",[(D,"        return Ok(obj_hash);","        return Ok(hash);")]),
("c23 no children","C23",[(D,HOBJ,HOBJ.replace("vec![hash.into()]","vec![]"))]),
("c23 take","C23",[(D,"        let reader = std::io::BufReader::new(f);\n\n        let hash = file::put_data(ds, reader)?;\n\n        let obj = FSItem {\n            children: vec![hash.into()],\n            children_names: vec![],\n            itemtype: FSItemType::File,\n            size: meta.len(),\n        };\n\n        let object = obj.try_into()?;\n\n        let obj_hash","        use std::io::Read;\n        let reader = std::io::BufReader::new(f).take(meta.len());\n\n        let hash = file::put_data(ds, reader)?;\n\n        let obj = FSItem {\n            children: vec![hash.into()],\n            children_names: vec![],\n            itemtype: FSItemType::File,\n            size: meta.len(),\n        };\n\n        let object = obj.try_into()?;\n\n        let obj_hash")]),
("c23 cwd hashed","C23",[(F,'''                                &from_path
                                    .as_ref()
                                    .expect("should have been populated")
                                    .join(x),''','''                                x,''')]),
("c23 cwd hashed 2","C23",[(F,'''                    &from_path
                        .as_ref()
                        .expect("should have been populated")
                        .join(path),''','''                    path,''')]),
("c23 symlink size","C23",[(D,HOBJ,HOBJ.replace("meta.len()","std::fs::symlink_metadata(path)?.len()"))]),
("c23 hash as dir","C23",[(D,HOBJ,HOBJ.replace("FSItemType::File","FSItemType::Dir"))]),
# --- C23 quiet
("c23q ext size","",[(D,HOBJ,HOBJ.replace("meta.len()","ext_metadata.len()"))]),
("c23q ext size2","",[(D,HOBJ,HOBJ.replace("meta.len()","ext_metadata.size()"))]),
("c23q shared","",[(D,'''        let hash = file::put_data(ds, reader)?;

        let obj = FSItem {
            children: vec![hash.into()],
            children_names: vec![],
            itemtype: FSItemType::File,
            size: meta.len(),
        };

        let object = obj.try_into()?;

        return Ok(ds.put_obj(&object)?);''','''        return Ok(put_file(ds, reader, meta.len())?);'''),
 (D,'''        let hash = file::put_data(ds, reader)?;

        let obj = FSItem {
            children: vec![hash.into()],
            children_names: vec![],
            itemtype: FSItemType::File,
            size: meta.len(),
        };

        let object = obj.try_into()?;

        let obj_hash = ds.put_obj(&object)?;''','''        let obj_hash = match put_file(ds, reader, meta.len()) {
            Ok(h) => h,
            Err(PutFsItemError::IOError(e)) => return Err(e.into()),
            Err(PutFsItemError::PutObjError(e)) => return Err(e.into()),
            Err(PutFsItemError::PutDataError(e)) => return Err(e.into()),
            Err(PutFsItemError::SerialisationError(e)) => return Err(e.into()),
        };'''),
 (D,"@end",'''
fn put_file<DS: DataStore, R: std::io::Read>(ds: &mut DS, reader: R, size: u64) -> Result<Key, PutFsItemError> {
    let hash = file::put_data(ds, reader)?;
    let obj = FSItem {
        children: vec![hash.into()],
        children_names: Vec::new(),
        itemtype: FSItemType::File,
        size,
    };
    let object = obj.try_into()?;
    Ok(ds.put_obj(&object)?)
}
''')]),
("c23q no bufreader","",[(D,"        let reader = std::io::BufReader::new(f);\n\n        let hash = file::put_data(ds, reader)?;","        let hash = file::put_data(ds, f)?;")]),
("c23q with capacity","",[(D,"std::io::BufReader::new(f)","std::io::BufReader::with_capacity(1 << 16, f)")]),
("c23q pushes","",[(D,HOBJ,HOBJ.replace("vec![hash.into()]","children").replace("vec![]","Vec::default()")),(D,"        let obj = FSItem {\n            children: children,","        let mut children = Vec::with_capacity(1);\n        children.push(hash.into());\n        let obj = FSItem {\n            children: children,")]),
("c23q new fn","",[(D,HOBJ,"            ..new_file(hash, meta.len())\n        };\n\n        let object = obj.try_into()?;\n\n        let obj_hash"),(D,"@end","\nfn new_file(hash: Key, size: u64) -> FSItem {\n    FSItem { children: vec![hash.into()], children_names: vec![], itemtype: FSItemType::File, size }\n}\n")]),
]
