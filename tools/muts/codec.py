D="src/dir.rs"; C="src/commit.rs"; O="src/object.rs"; K="src/key.rs"
CHK='''        match self.objtype() {
            ObjType::Commit => {}
            objtype => {
                return Err(serde::de::Error::custom(format!(
                    "expected a commit, found {:?}",
                    objtype
                )))
            }
        }
'''
FCHK='''        match (self.objtype(), &fsitem.itemtype) {
            (ObjType::FSItemDir, FSItemType::Dir) | (ObjType::FSItemFile, FSItemType::File) => {}
            (objtype, _) => {
                return Err(serde::de::Error::custom(format!(
                    "expected a file or a directory, found {:?}",
                    objtype
                )))
            }
        }
'''
PUSH='''        keys.push(self.tree.into());

        for p in self.parents {
            keys.push(p.into())
        }
'''
DEC='''        let mut owned_keys = self.keys().to_vec();

        let tree = owned_keys.remove(0);
        let parents = owned_keys;

        let mut new_parents = Vec::new();
        for parent in parents {
            new_parents.push(parent.into())
        }
'''
NEWP='''        let mut new_parents = Vec::new();
        for parent in parents {
            new_parents.push(parent.into())
        }
'''
CHILD="        fsitem.children = self.keys().iter().map(|&x| x.into()).collect();\n"
ENC='''        Ok(Object::new_owned(
            obj,
            self.children.iter().map(|&x| x.into()).collect(),
            objtype,
        ))
'''
M=[
("c31-commit-nocheck","C31",[(C,CHK,"")]),
("c31-commit-unknown","C31",[(C,"            ObjType::Commit => {}\n","            ObjType::Commit | ObjType::Unknown => {}\n")]),
("c31-commit-only-blob","C31",[(C,CHK,'''        if let ObjType::FileBlob = self.objtype() {
            return Err(serde::de::Error::custom("blob"));
        }
''')]),
("c31-commit-log","C31",[(C,'''                return Err(serde::de::Error::custom(format!(
                    "expected a commit, found {:?}",
                    objtype
                )))
''','''                log::warn!("expected a commit, found {:?}", objtype);
''')]),
("c31-fsitem-nocheck","C31",[(D,FCHK,"")]),
("c31-fsitem-either","C31",[(D,"(ObjType::FSItemDir, FSItemType::Dir) | (ObjType::FSItemFile, FSItemType::File) => {}","(ObjType::FSItemDir, _) | (ObjType::FSItemFile, _) => {}")]),
("c31-fsitem-fileblob","C31",[(D,"(ObjType::FSItemFile, FSItemType::File) => {}","(ObjType::FSItemFile, FSItemType::File) | (ObjType::FileBlobTree, FSItemType::File) => {}")]),
("c31-fsitem-swap","C31",[(D,"(ObjType::FSItemDir, FSItemType::Dir) | (ObjType::FSItemFile, FSItemType::File) => {}","(ObjType::FSItemFile, FSItemType::Dir) | (ObjType::FSItemDir, FSItemType::File) => {}")]),
("c31-raw-decode","C31",[(D,"    let obj = ds.get_obj(key.inner())?;\n\n    let fsobj: FSItem = obj.try_into()?;\n","    let obj = ds.get_obj(key.inner())?;\n\n    let mut fsobj: FSItem = serde_cbor::from_slice(&obj.data())?;\n    fsobj.children = obj.keys().iter().map(|&x| x.into()).collect();\n")]),
("c31-ok-early","",[(C,CHK,'''        if let ObjType::Commit = self.objtype() {
        } else {
            return Err(serde::de::Error::custom("not a commit"));
        }
''')]),
("c31-ok-matches","",[(C,CHK,'''        let is_commit = match self.objtype() { ObjType::Commit => true, _ => false };
        if !is_commit {
            return Err(serde::de::Error::custom("not a commit"));
        }
''')]),
("c31-ok-partialeq","",[(C,CHK,'''        if self.objtype() != ObjType::Commit {
            return Err(serde::de::Error::custom("not a commit"));
        }
'''),(O,"#[derive(Debug, Clone, Copy, serde::Serialize","#[derive(PartialEq, Debug, Clone, Copy, serde::Serialize")]),
("c31-ok-helper","",[(C,CHK,"        expect_commit(&self)?;\n"),(C,"@end",'''
fn expect_commit(o: &Object) -> Result<(), serde_cbor::error::Error> {
    match o.objtype() {
        ObjType::Commit => Ok(()),
        _ => Err(serde::de::Error::custom("not a commit")),
    }
}
''')]),
("c31-ok-two-steps","",[(D,FCHK,'''        let want_dir = match self.objtype() {
            ObjType::FSItemDir => true,
            ObjType::FSItemFile => false,
            _ => return Err(serde::de::Error::custom("wrong type")),
        };
        let is_dir = match fsitem.itemtype { FSItemType::Dir => true, FSItemType::File => false };
        if want_dir != is_dir {
            return Err(serde::de::Error::custom("wrong kind"));
        }
''')]),
("c31-ok-nested","",[(D,FCHK,'''        match fsitem.itemtype {
            FSItemType::Dir => match self.objtype() {
                ObjType::FSItemDir => {}
                _ => return Err(serde::de::Error::custom("wrong type")),
            },
            FSItemType::File => match self.objtype() {
                ObjType::FSItemFile => {}
                _ => return Err(serde::de::Error::custom("wrong type")),
            },
        }
''')]),
# C19: commit
("c19-tree-last","C19",[(C,PUSH,'''        for p in self.parents {
            keys.push(p.into())
        }

        keys.push(self.tree.into());
''')]),
("c19-no-tree","C19",[(C,"        keys.push(self.tree.into());\n","")]),
("c19-parents-rev","C19",[(C,"for p in self.parents {","for p in self.parents.into_iter().rev() {")]),
("c19-parents-skip","C19",[(C,"for p in self.parents {","for p in self.parents.into_iter().skip(1) {")]),
("c19-parents-first","C19",[(C,"        for p in self.parents {\n            keys.push(p.into())\n        }\n","        if let Some(p) = self.parents.into_iter().next() {\n            keys.push(p.into())\n        }\n")]),
("c19-parents-insert","C19",[(C,"            keys.push(p.into())\n","            keys.insert(1, p.into())\n")]),
("c19-parents-dedup","C19",[(C,"            keys.push(p.into())\n","            if !keys.contains(&p.inner()) { keys.push(p.into()) }\n")]),
("c19-no-parents","C19",[(C,"        for p in self.parents {\n            keys.push(p.into())\n        }\n","")]),
("c19-keys-dedup","C19",[(C,"        Ok(Object::new_owned(attrs, keys, ObjType::Commit))","        keys.dedup();\n        Ok(Object::new_owned(attrs, keys, ObjType::Commit))")]),
("c19-keys-sort","C19",[(C,"        Ok(Object::new_owned(attrs, keys, ObjType::Commit))","        keys.sort();\n        Ok(Object::new_owned(attrs, keys, ObjType::Commit))")]),
("c19-attrs-default","C19",[(C,"serde_cbor::to_vec(&self.attrs)?","serde_cbor::to_vec(&CommitAttrs::default())?")]),
("c19-attrs-message","C19",[(C,"serde_cbor::to_vec(&self.attrs)?","serde_cbor::to_vec(&CommitAttrs { message: self.attrs.message.clone(), extra: HashMap::new() })?")]),
("c19-attrs-trim","C19",[(C,"serde_cbor::to_vec(&self.attrs)?","serde_cbor::to_vec(&CommitAttrs { message: self.attrs.message.trim().to_string(), extra: self.attrs.extra })?")]),
("c19-commit-type","C19",[(C,"keys, ObjType::Commit)","keys, ObjType::Unknown)")]),
("c19-dec-tree-last","C19",[(C,"let tree = owned_keys.remove(0);","let tree = owned_keys.pop().unwrap();")]),
("c19-dec-tree-1","C19",[(C,"let tree = owned_keys.remove(0);","let tree = owned_keys.remove(owned_keys.len().min(2) - 1);")]),
("c19-dec-swap-remove","C19",[(C,"let tree = owned_keys.remove(0);","let tree = owned_keys.swap_remove(0);")]),
("c19-dec-parents-all","C19",[(C,"let tree = owned_keys.remove(0);","let tree = owned_keys[0];")]),
("c19-dec-parents-one","C19",[(C,"        for parent in parents {\n","        for parent in parents.into_iter().take(1) {\n")]),
("c19-dec-parents-rev","C19",[(C,"            new_parents.push(parent.into())\n","            new_parents.insert(0, parent.into())\n")]),
("c19-dec-parents-none","C19",[(C,"let mut new_parents = Vec::new();","let mut new_parents: Vec<TypedKey<Commit>> = Vec::new();"),(C,"            parents: new_parents,","            parents: Vec::new(),")]),
("c19-dec-parents-skip2","C19",[(C,DEC,'''        let tree = self.keys()[0];
        let new_parents = self.keys().iter().skip(2).map(|&x| x.into()).collect();
''')]),
("c19-dec-attrs","C19",[(C,"            attrs,\n        })\n    }\n}\n\n#[derive(Debug, Error)]","            attrs: CommitAttrs { message: attrs.message, extra: HashMap::new() },\n        })\n    }\n}\n\n#[derive(Debug, Error)]")]),
("c19-dec-attrs-default","C19",[(C,"let attrs: CommitAttrs = serde_cbor::value::from_value(item)?;","let attrs: CommitAttrs = serde_cbor::value::from_value(item).unwrap_or_default();")]),
("c19-ok-enc-iter","",[(C,"        let mut keys: Vec<Key> = vec![];\n\n"+PUSH,"        let keys: Vec<Key> = std::iter::once(self.tree.into()).chain(self.parents.into_iter().map(|p| p.into())).collect();\n")]),
("c19-ok-enc-extend","",[(C,"        let mut keys: Vec<Key> = vec![];\n\n"+PUSH,"        let mut keys: Vec<Key> = vec![self.tree.into()];\n        keys.extend(self.parents.iter().map(|p| p.inner()));\n")]),
("c19-ok-enc-index","",[(C,"        for p in self.parents {\n            keys.push(p.into())\n        }\n","        for i in 0..self.parents.len() {\n            keys.push(self.parents[i].into())\n        }\n")]),
("c19-ok-enc-insert","",[(C,PUSH,'''        for p in self.parents {
            keys.push(p.into())
        }

        keys.insert(0, self.tree.into());
''')]),
("c19-ok-enc-while","",[(C,"        for p in self.parents {\n            keys.push(p.into())\n        }\n","        let mut it = self.parents.into_iter();\n        while let Some(p) = it.next() {\n            keys.push(p.into())\n        }\n")]),
("c19-ok-enc-helper","",[(C,PUSH,"        push_all(&mut keys, self.tree, self.parents);\n"),(C,"@end",'''
fn push_all(keys: &mut Vec<Key>, tree: TypedKey<dir::FSItem>, parents: Vec<TypedKey<Commit>>) {
    keys.push(tree.into());
    keys.reserve(parents.len());
    for p in &parents {
        keys.push(p.inner());
    }
}
''')]),
("c19-ok-enc-attrs","",[(C,"serde_cbor::to_vec(&self.attrs)?","serde_cbor::to_vec(&serde_cbor::value::to_value(&self.attrs)?)?")]),
("c19-ok-dec-iter","",[(C,DEC,'''        let tree = self.keys()[0];
        let new_parents = self.keys()[1..].iter().map(|&x| x.into()).collect();
''')]),
("c19-ok-dec-next","",[(C,DEC,'''        let mut it = self.keys().iter();
        let tree = *it.next().expect("no tree");
        let new_parents = it.map(|&x| x.into()).collect();
''')]),
("c19-ok-dec-skip","",[(C,DEC,'''        let tree = self.keys()[0];
        let new_parents = self.keys().iter().skip(1).map(|&x| x.into()).collect();
''')]),
("c19-ok-dec-split","",[(C,DEC,'''        let (first, rest) = self.keys().split_first().expect("no tree");
        let tree = *first;
        let mut new_parents = Vec::with_capacity(rest.len());
        for parent in rest {
            new_parents.push((*parent).into())
        }
''')]),
("c19-ok-dec-collect","",[(C,NEWP,"        let new_parents = parents.into_iter().map(|p| p.into()).collect();\n")]),
("c19-ok-dec-foreach","",[(C,NEWP,"        let mut new_parents = Vec::new();\n        parents.iter().for_each(|p| new_parents.push((*p).into()));\n")]),
("c19-ok-dec-slice","",[(C,"        let item: serde_cbor::Value = serde_cbor::from_slice(&self.data())?;\n\n        let attrs: CommitAttrs = serde_cbor::value::from_value(item)?;\n","        let attrs: CommitAttrs = serde_cbor::from_slice(&self.data())?;\n")]),
# C19: files and directories
("c19-fs-type-swap","C19",[(D,"            FSItemType::Dir => ObjType::FSItemDir,\n            FSItemType::File => ObjType::FSItemFile,","            FSItemType::Dir => ObjType::FSItemFile,\n            FSItemType::File => ObjType::FSItemDir,")]),
("c19-fs-type-dir","C19",[(D,"            FSItemType::File => ObjType::FSItemFile,","            FSItemType::File => ObjType::FSItemDir,")]),
("c19-fs-rev","C19",[(D,"            self.children.iter().map(|&x| x.into()).collect(),\n            objtype","            self.children.iter().rev().map(|&x| x.into()).collect(),\n            objtype")]),
("c19-fs-take","C19",[(D,"            self.children.iter().map(|&x| x.into()).collect(),\n            objtype","            self.children.iter().take(1024).map(|&x| x.into()).collect(),\n            objtype")]),
("c19-fs-filter","C19",[(D,ENC,'''        let mut seen = HashSet::new();
        Ok(Object::new_owned(
            obj,
            self.children.iter().map(|&x| x.into()).filter(|k: &Key| seen.insert(*k)).collect(),
            objtype,
        ))
''')]),
("c19-fs-nokeys","C19",[(D,"            self.children.iter().map(|&x| x.into()).collect(),\n            objtype","            vec![],\n            objtype")]),
("c19-fs-names-sorted","C19",[(D,"        let value = serde_cbor::value::to_value(&self)?;","        let mut names = self.children_names.clone();\n        names.sort();\n        let value = serde_cbor::value::to_value(&FSItem { size: self.size, itemtype: FSItemType::Dir, children_names: names, children: vec![] })?;")]),
("c19-fs-dec-rev","C19",[(D,CHILD,"        fsitem.children = self.keys().iter().rev().map(|&x| x.into()).collect();\n")]),
("c19-fs-dec-none","C19",[(D,CHILD,"")]),
("c19-fs-dec-dedup","C19",[(D,CHILD,CHILD+"        fsitem.children.dedup();\n")]),
("c19-fs-dec-size","C19",[(D,CHILD,CHILD+"        fsitem.size = fsitem.children.len() as u64;\n")]),
("c19-fs-dec-names","C19",[(D,CHILD,CHILD+"        fsitem.children_names.sort();\n")]),
("c19-skip-size","C19",[(D,"pub struct FSItem {\n    size: u64,","pub struct FSItem {\n    #[serde(skip)]\n    size: u64,")]),
("c19-skip-ser-size","C19",[(D,"pub struct FSItem {\n    size: u64,","pub struct FSItem {\n    #[serde(skip_serializing, default)]\n    size: u64,")]),
("c19-skip-de-size","C19",[(D,"pub struct FSItem {\n    size: u64,","pub struct FSItem {\n    #[serde(skip_deserializing)]\n    size: u64,")]),
("c19-rename-ser","C19",[(D,"    children_names: Vec<PathBuf>,","    #[serde(rename(serialize = \"names\"), default)]\n    children_names: Vec<PathBuf>,")]),
("c19-rename-cross","C19",[(D,"enum FSItemType {\n    Dir,\n    File,","enum FSItemType {\n    #[serde(rename(deserialize = \"File\"))]\n    Dir,\n    #[serde(rename(deserialize = \"Dir\"))]\n    File,")]),
("c19-lossy-names","C19",[(D,"    children_names: Vec<PathBuf>,","    #[serde(serialize_with = \"names\")]\n    children_names: Vec<PathBuf>,"),(D,"@end",'''
fn names<S: serde::Serializer>(v: &Vec<PathBuf>, s: S) -> Result<S::Ok, S::Error> {
    s.collect_seq(v.iter().map(|x| x.to_string_lossy().into_owned()))
}
''')]),
("c19-attrs-skip-extra","C19",[(C,"    extra: HashMap<String, serde_cbor::Value>,","    #[serde(skip)]\n    extra: HashMap<String, serde_cbor::Value>,")]),
("c19-obj-other","C19",[(O,"    Commit,","    #[serde(rename(serialize = \"commit\"))]\n    Commit,")]),
("c19-ok-rename","",[(D,"    children_names: Vec<PathBuf>,","    #[serde(rename = \"names\")]\n    children_names: Vec<PathBuf>,")]),
("c19-ok-alias","",[(D,"    children_names: Vec<PathBuf>,","    #[serde(alias = \"names\")]\n    children_names: Vec<PathBuf>,")]),
("c19-ok-default","",[(D,"pub struct FSItem {\n    size: u64,","pub struct FSItem {\n    #[serde(default)]\n    size: u64,")]),
("c19-ok-fs-enc-loop","",[(D,ENC,'''        let mut keys = Vec::with_capacity(self.children.len());
        for child in &self.children {
            keys.push(child.inner());
        }
        Ok(Object::new_owned(obj, keys, objtype))
''')]),
("c19-ok-fs-enc-into","",[(D,ENC,'''        let keys: Vec<Key> = self.children.into_iter().map(Into::into).collect();
        Ok(Object::new_owned(obj, keys, objtype))
''')]),
("c19-ok-fs-enc-direct","",[(D,"        let value = serde_cbor::value::to_value(&self)?;\n\n        let obj = serde_cbor::to_vec(&value)?;","        let obj = serde_cbor::to_vec(&self)?;")]),
("c19-ok-fs-enc-match","",[(D,'''        let objtype = match self.itemtype {
            FSItemType::Dir => ObjType::FSItemDir,
            FSItemType::File => ObjType::FSItemFile,
        };
''','''        let objtype = if let FSItemType::Dir = self.itemtype { ObjType::FSItemDir } else { ObjType::FSItemFile };
''')]),
("c19-ok-fs-enc-method","",[(D,'''        let objtype = match self.itemtype {
            FSItemType::Dir => ObjType::FSItemDir,
            FSItemType::File => ObjType::FSItemFile,
        };
''','''        let objtype = self.itemtype.objtype();
'''),(D,"@end",'''
impl FSItemType {
    fn objtype(&self) -> ObjType {
        match self {
            FSItemType::Dir => ObjType::FSItemDir,
            FSItemType::File => ObjType::FSItemFile,
        }
    }
}
''')]),
("c19-ok-fs-dec-loop","",[(D,CHILD,'''        let mut children = Vec::new();
        for k in self.keys() {
            children.push((*k).into());
        }
        fsitem.children = children;
''')]),
("c19-ok-fs-dec-extend","",[(D,CHILD,"        fsitem.children.extend(self.keys().iter().map(|&x| -> TypedKey<FSItem> { x.into() }));\n")]),
("c19-ok-fs-dec-rebuild","",[(D,CHILD+"\n        Ok(fsitem)",'''        let FSItem { size, itemtype, children_names, .. } = fsitem;
        let children = self.keys().iter().copied().map(|k| k.into()).collect();
        Ok(FSItem { size, itemtype, children_names, children })''')]),
("c19-ok-fs-dec-slice","",[(D,"        let item: serde_cbor::Value = serde_cbor::from_slice(&self.data())?;\n\n        let mut fsitem: FSItem = serde_cbor::value::from_value(item)?;","        let mut fsitem: FSItem = serde_cbor::from_slice(self.data())?;")]),
]
