From 36f67868afa8b79b66a68622c170ce9a3cf4c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 01/21] fix: keep top-level chunk keys when finishing put_data

The end-of-file handling only looked at the first four of the five key
levels.  When a chunk boundary hashed to more than 41 leading zeros its
key had been promoted to the last level, which was then ignored: the
returned key covered only the tail of the file.
---
 src/file.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index ee6337c..38c5135 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -86,7 +86,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
 
     current_chunk.extend_from_slice(&chunk_buffer);
 
-    if (0..4).all(|x| key_bufs[x].is_empty()) {
+    if (0..5).all(|x| key_bufs[x].is_empty()) {
         // No chunks were made.
         return Ok(ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?);
     }
@@ -99,7 +99,7 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
     for offset in 0..4 {
         let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
 
-        if key_bufs[offset].len() == 1 && (1 + offset..4).all(|x| key_bufs[x].is_empty()) {
+        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
             // We know this is safe because key_bufs[offset] has exactly 1 element
             #[allow(clippy::option_unwrap_used)]
             return Ok(key_bufs[offset].pop().unwrap());
-- 
2.43.0


From 8c5243f5c5259bbf3bd0c7abdfa7a8a6849c6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 02/21] fix: report failures to begin, commit or roll back the
 transaction

The results were discarded, so a command whose COMMIT failed (a locked
database, a full disk) exited successfully with nothing stored.
---
 src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 1547ca6..6aff11f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -767,7 +767,9 @@ fn main() -> CMDResult {
         common: opt.common,
     };
 
-    state.ds_state.as_mut().map(|x| x.ds.begin_trans());
+    if let Some(x) = state.ds_state.as_mut() {
+        x.ds.begin_trans()?;
+    }
     state.cache.begin_trans()?;
 
     let result = match opt.cmd {
@@ -790,10 +792,14 @@ fn main() -> CMDResult {
 
         println!("fatal: {}", e);
 
-        state.ds_state.as_mut().map(|x| x.ds.rollback());
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.rollback()?;
+        }
         state.cache.rollback()?;
     } else {
-        state.ds_state.as_mut().map(|x| x.ds.commit());
+        if let Some(x) = state.ds_state.as_mut() {
+            x.ds.commit()?;
+        }
         state.cache.commit()?;
     }
 
-- 
2.43.0


From d0204d482e57a2defa9ab69403e472873d5c9ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 03/21] fix: exit with a failure status when a command fails

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6aff11f..2e3f526 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -796,6 +796,8 @@ fn main() -> CMDResult {
             x.ds.rollback()?;
         }
         state.cache.rollback()?;
+
+        std::process::exit(1);
     } else {
         if let Some(x) = state.ds_state.as_mut() {
             x.ds.commit()?;
-- 
2.43.0


From 9c8722b13b157e8c131d890b2d88effab2ab8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 04/21] fix: resolve full keys to themselves

canonicalize() took the stored bytes of the object for its key, so a
full-length key never resolved (and an unknown one panicked).
---
 src/ds/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ds/mod.rs b/src/ds/mod.rs
index d35c0e4..8370f02 100644
--- a/src/ds/mod.rs
+++ b/src/ds/mod.rs
@@ -31,6 +31,12 @@ pub enum CanonicalizeError {
 
     #[error("error when getting reflog: {_0}")]
     GetReflogError(#[from] GetReflogError),
+
+    #[error("error when looking up object: {_0}")]
+    RawExistsError(#[from] RawExistsError),
+
+    #[error("error when searching for objects: {_0}")]
+    RawBetweenError(#[from] RawBetweenError),
 }
 
 #[derive(Debug)]
@@ -256,13 +262,14 @@ pub trait DataStore: Transactional {
             Keyish::Key(s, key) => {
                 err_str = s;
 
-                let k = self.raw_get(&key).unwrap();
-                results.push(k.to_vec());
+                if self.raw_exists(&key)? {
+                    results.push(key);
+                }
             }
             Keyish::Range(s, start, end) => {
                 err_str = s;
 
-                results = self.raw_between(&start, end.as_deref()).unwrap();
+                results = self.raw_between(&start, end.as_deref())?;
             }
             Keyish::Reflog {
                 orig,
-- 
2.43.0


From 3680212eaec9aef4ec617a0f7050aa1a21bdd49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 05/21] fix: restore empty directories on fetch

---
 src/dir.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dir.rs b/src/dir.rs
index d9d65fd..18a3304 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -240,6 +240,8 @@ pub fn get_fs_item<DS: DataStore>(
 
     match fsobj.itemtype {
         FSItemType::Dir => {
+            std::fs::create_dir_all(path)?;
+
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 get_fs_item(ds, child, &path.join(&name))?;
             }
-- 
2.43.0


From f7d2fc2456fbf32432b2239b9225add7a5fde4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 06/21] fix: check the checkout guard before truncating the
 file

File::create ran first, so a checkout refused by the guard had already
emptied the first file of the working directory.
---
 src/dir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 18a3304..128a61a 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -328,10 +328,10 @@ pub fn checkout_fs_item<DS: DataStore>(
             }
         }
         FSItemType::File => {
-            let mut f = std::fs::File::create(path)?;
-
             assert!(path.starts_with("/home/jess/src/snapcd/repo"));
 
+            let mut f = std::fs::File::create(path)?;
+
             file::read_data(ds, fsobj.children[0].into(), &mut f)?;
         }
     }
-- 
2.43.0


From 01086e56a3c2b256009d4cec815f83f499a5dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 07/21] fix: make the key of a directory independent of readdir
 order

Two directories with the same contents got different keys whenever the
file system listed them in a different order.
---
 src/dir.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 128a61a..6ddb167 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -89,17 +89,15 @@ pub fn put_fs_item<DS: DataStore>(
         let mut result = Vec::new();
         let mut result_names = Vec::new();
 
-        let entries = std::fs::read_dir(path)?;
+        let mut entries = std::fs::read_dir(path)?.collect::<Result<Vec<_>, _>>()?;
 
-        for entry in entries {
-            match entry {
-                Ok(direntry) => {
-                    if filter(&direntry) {
-                        result.push(put_fs_item(ds, &direntry.path(), filter)?);
-                        result_names.push(direntry.file_name().into());
-                    }
-                }
-                Err(e) => return Err(e.into()),
+        // read_dir gives no guarantees about order, but the key of a tree depends on it.
+        entries.sort_by_key(|direntry| direntry.file_name());
+
+        for direntry in entries {
+            if filter(&direntry) {
+                result.push(put_fs_item(ds, &direntry.path(), filter)?);
+                result_names.push(direntry.file_name().into());
             }
         }
 
-- 
2.43.0


From 7783b1b91eecaae3fec05168f0b68f9dd04d61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:26 +0000
Subject: [PATCH 08/21] fix: do not take a failed ref lookup for a missing ref

status and checkout-head treated any database error as an empty branch.
---
 src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 2e3f526..9bc88af 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -597,7 +597,11 @@ fn status(state: &mut State, _args: StatusArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     match &ref_key {
         Some(k) => {
@@ -652,7 +656,11 @@ fn checkout_head(state: &mut State, args: CheckoutHeadArgs) -> CMDResult {
 
     let path = &ds_state.repo_path;
 
-    let ref_key = ds_state.ds.reflog_get(&reflog, None).ok();
+    let ref_key = match ds_state.ds.reflog_get(&reflog, None) {
+        Ok(k) => Some(k),
+        Err(GetReflogError::NotFound) => None,
+        Err(other) => return Err(other.into()),
+    };
 
     let tree_key = ref_key.map(|key| commit::Commit::from_key(&ds_state.ds, key).tree());
 
-- 
2.43.0


From 5550957a3e497ab6e2884b911cc283d7c6ba0721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 09/21] fix: compare no longer panics on deleted paths

The entry was looked up in the map it is known not to be in.
---
 src/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.rs b/src/diff.rs
index fc487b2..a3eba78 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -120,7 +120,7 @@ pub fn compare<'a>(
         .map(|x| DeletedDiffResult {
             path: x.clone(),
             original_key: Some(to_map[x].0),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            is_dir: to_map[x].1,
         })
         .collect();
 
-- 
2.43.0


From 836d2375caf3907feb3e4c4b6977909ccbeebd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 10/21] fix: hash added files below the compared path

The path relative to the compared directory was opened relative to the
current directory, so comparing from anywhere else panicked or hashed an
unrelated file.
---
 src/diff.rs | 48 ++++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index a3eba78..55cb0dd 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -90,30 +90,34 @@ pub fn compare<'a>(
 
     let mut in_from_only: Vec<AddedDiffResult> = from_keys
         .difference(&to_keys)
-        .map(|x| AddedDiffResult {
-            path: x.clone(),
-            new_key: from_map.as_ref().either(
-                |y| {
-                    if !y[x] {
-                        // this is a file
-                        match dir::hash_fs_item(
-                            ds,
-                            x,
-                            *cache.expect("you must pass a cache if you're hashing the fs"),
-                        ) {
-                            Ok(h) => Some(h.into()),
-                            Err(e) => panic!(e),
+        .map(|x| {
+            Ok(AddedDiffResult {
+                path: x.clone(),
+                new_key: from_map.as_ref().either(
+                    |y| -> Result<_, CompareError> {
+                        if !y[x] {
+                            // this is a file
+                            let h = dir::hash_fs_item(
+                                ds,
+                                &from_path
+                                    .as_ref()
+                                    .expect("should have been populated")
+                                    .join(x),
+                                *cache.expect("you must pass a cache if you're hashing the fs"),
+                            )?;
+
+                            Ok(Some(h.into()))
+                        } else {
+                            // directories don't have a hash
+                            Ok(None)
                         }
-                    } else {
-                        // directories don't have a hash
-                        None
-                    }
-                },
-                |y| Some(y[x].0),
-            ),
-            is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+                    },
+                    |y| Ok(Some(y[x].0)),
+                )?,
+                is_dir: from_map.as_ref().either(|y| y[x], |y| y[x].1),
+            })
         })
-        .collect();
+        .collect::<Result<_, CompareError>>()?;
 
     let mut in_to_only: Vec<DeletedDiffResult> = to_keys
         .difference(&from_keys)
-- 
2.43.0


From 1d80afa38bc199454dddce0a4fd6807af426b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 11/21] fix: never report a directory as modified

Comparing two commits listed directories whose contents changed as
modified files, and show, log and compare --stat then panicked trying to
read their contents.
---
 src/diff.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diff.rs b/src/diff.rs
index 55cb0dd..a4b26a4 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -133,6 +133,11 @@ pub fn compare<'a>(
     let mut modified = Vec::new();
 
     for path in in_both {
+        if from_map.as_ref().either(|y| y[path], |y| y[path].1) && to_map[path].1 {
+            // both are directories, what is inside of them is compared on its own
+            continue;
+        }
+
         let f;
         match &from_map {
             either::Left(fs_items) => {
-- 
2.43.0


From d604f018e4681796df4d01128d645f13fd2e4fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:10 +0000
Subject: [PATCH 12/21] fix: report a file replaced by a directory, and the
 reverse

A file that had become a directory was not reported at all, and a
directory that had become a file was reported as a modified file, whose
old contents cannot be read.
---
 src/diff.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/diff.rs b/src/diff.rs
index a4b26a4..38bec35 100644
--- a/src/diff.rs
+++ b/src/diff.rs
@@ -133,19 +133,19 @@ pub fn compare<'a>(
     let mut modified = Vec::new();
 
     for path in in_both {
-        if from_map.as_ref().either(|y| y[path], |y| y[path].1) && to_map[path].1 {
+        let from_is_dir = from_map.as_ref().either(|y| y[path], |y| y[path].1);
+        let t = to_map[path];
+
+        if from_is_dir && t.1 {
             // both are directories, what is inside of them is compared on its own
             continue;
         }
 
-        let f;
-        match &from_map {
-            either::Left(fs_items) => {
-                if fs_items[path] {
-                    continue;
-                }
-
-                f = dir::hash_fs_item(
+        let f = match &from_map {
+            // directories don't have a hash
+            either::Left(_) if from_is_dir => None,
+            either::Left(_) => Some(
+                dir::hash_fs_item(
                     ds,
                     &from_path
                         .as_ref()
@@ -153,12 +153,27 @@ pub fn compare<'a>(
                         .join(path),
                     *cache.expect("you must pass a cache if you're hashing the fs"),
                 )?
-                .into();
-            }
-            either::Right(db_items) => f = db_items[path].0,
+                .into(),
+            ),
+            either::Right(db_items) => Some(db_items[path].0),
+        };
+
+        if from_is_dir != t.1 {
+            // a file turned into a directory, or the other way around
+            in_to_only.push(DeletedDiffResult {
+                path: path.clone(),
+                original_key: Some(t.0),
+                is_dir: t.1,
+            });
+            in_from_only.push(AddedDiffResult {
+                path: path.clone(),
+                new_key: f,
+                is_dir: from_is_dir,
+            });
+            continue;
         }
 
-        let t = to_map[path];
+        let f = f.expect("both sides are files");
 
         if f != t.0 {
             let dr = ModifiedDiffResult {
-- 
2.43.0


From 9349be3e6671422683c5246259d0fba7011b395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 13/21] fix: check the type of an object before decoding it

A stored file whose bytes happen to be those of an encoded directory was
taken for that directory, and the same for commits.
---
 src/commit.rs | 10 ++++++++++
 src/dir.rs    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/commit.rs b/src/commit.rs
index a7c50e8..86c711e 100644
--- a/src/commit.rs
+++ b/src/commit.rs
@@ -83,6 +83,16 @@ impl TryInto<Commit> for Object {
     type Error = serde_cbor::error::Error;
 
     fn try_into(self) -> Result<Commit, serde_cbor::error::Error> {
+        match self.objtype() {
+            ObjType::Commit => {}
+            objtype => {
+                return Err(serde::de::Error::custom(format!(
+                    "expected a commit, found {:?}",
+                    objtype
+                )))
+            }
+        }
+
         let item: serde_cbor::Value = serde_cbor::from_slice(&self.data())?;
 
         let attrs: CommitAttrs = serde_cbor::value::from_value(item)?;
diff --git a/src/dir.rs b/src/dir.rs
index 6ddb167..2acb84c 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -57,6 +57,16 @@ impl TryInto<FSItem> for Object {
 
         let mut fsitem: FSItem = serde_cbor::value::from_value(item)?;
 
+        match (self.objtype(), &fsitem.itemtype) {
+            (ObjType::FSItemDir, FSItemType::Dir) | (ObjType::FSItemFile, FSItemType::File) => {}
+            (objtype, _) => {
+                return Err(serde::de::Error::custom(format!(
+                    "expected a file or a directory, found {:?}",
+                    objtype
+                )))
+            }
+        }
+
         fsitem.children = self.keys().iter().map(|&x| x.into()).collect();
 
         Ok(fsitem)
-- 
2.43.0


From 48aeb03da9166173543b5add7fc59bd730aee6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:11 +0000
Subject: [PATCH 14/21] fix: keep the current HEAD when init is run again

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 9bc88af..d89587e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -464,7 +464,9 @@ fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
 
-    ds.put_head("master")?;
+    if ds.get_head()?.is_none() {
+        ds.put_head("master")?;
+    }
 
     Ok(())
 }
-- 
2.43.0


From 9340d4a6b1f189d7545d24ae5630d7da18c73b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 15/21] fix: do not let recorded names escape the destination

A directory object with an absolute name or one containing .. made fetch
and checkout write outside of the directory they were given.
---
 src/dir.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index 2acb84c..a42a5b3 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -10,7 +10,7 @@ use crate::{
 use std::collections::{HashMap, HashSet};
 use std::convert::TryInto;
 use std::fs::DirEntry;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use thiserror::Error;
 
 #[derive(Debug, serde::Serialize, serde::Deserialize)]
@@ -237,6 +237,20 @@ pub enum GetFsItemError {
     DecodeError(#[from] serde_cbor::error::Error),
 }
 
+/// A name recorded in a directory has to be a single normal path component, anything else would end
+/// up outside of that directory.
+fn child_path(path: &Path, name: &Path) -> Result<PathBuf, std::io::Error> {
+    let mut components = name.components();
+
+    match (components.next(), components.next()) {
+        (Some(Component::Normal(name)), None) => Ok(path.join(name)),
+        _ => Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!("invalid name in directory: {:?}", name),
+        )),
+    }
+}
+
 pub fn get_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -251,7 +265,7 @@ pub fn get_fs_item<DS: DataStore>(
             std::fs::create_dir_all(path)?;
 
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
-                get_fs_item(ds, child, &path.join(&name))?;
+                get_fs_item(ds, child, &child_path(path, name)?)?;
             }
         }
         FSItemType::File => {
@@ -332,7 +346,7 @@ pub fn checkout_fs_item<DS: DataStore>(
             for (&child, name) in fsobj.children.iter().zip(fsobj.children_names.iter()) {
                 std::fs::create_dir_all(&path)?;
 
-                checkout_fs_item(ds, child, &path.join(&name), filter)?;
+                checkout_fs_item(ds, child, &child_path(path, name)?, filter)?;
             }
         }
         FSItemType::File => {
-- 
2.43.0


From 1c7cde0a7926aedfbdc7e25a1f1fc877c23638c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:12 +0000
Subject: [PATCH 16/21] fix: only let refs point at commits

ref update accepted the key of any object, after which status, show and
commit failed on that ref.
---
 src/main.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d89587e..415ee8e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -300,7 +300,7 @@ fn ref_log(state: &mut State, args: RefLogArgs) -> CMDResult {
 fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
-    let key = ds_state.ds.canonicalize(args.key)?;
+    let key = canonicalize_commit(&ds_state.ds, args.key)?;
 
     let refname = match args.refname {
         Some(s) => s,
@@ -308,7 +308,7 @@ fn ref_update(state: &mut State, args: RefUpdateArgs) -> CMDResult {
     };
 
     let log = Reflog {
-        key: key.into(),
+        key,
         refname,
         remote: None,
     };
@@ -386,7 +386,7 @@ fn debug_commit_tree(state: &mut State, args: CommitTreeArgs) -> CMDResult {
     let mut parents = Vec::with_capacity(args.parents.len());
 
     for parent in args.parents {
-        let key = ds_state.ds.canonicalize(parent)?;
+        let key = canonicalize_commit(&ds_state.ds, parent)?;
         parents.push(key);
     }
 
@@ -395,7 +395,7 @@ fn debug_commit_tree(state: &mut State, args: CommitTreeArgs) -> CMDResult {
     let commit = commit::commit_tree(
         &mut ds_state.ds,
         tree.into(),
-        parents.iter().map(|&x| x.into()).collect(),
+        parents,
         attrs,
     )?;
 
@@ -419,10 +419,10 @@ fn debug_reflog_get(state: &mut State, args: ReflogGetArgs) -> CMDResult {
 fn debug_reflog_push(state: &mut State, args: ReflogPushArgs) -> CMDResult {
     let ds_state = state.ds_state.as_mut().ok_or(DatabaseNotFoundError)?;
 
-    let key = ds_state.ds.canonicalize(args.key)?;
+    let key = canonicalize_commit(&ds_state.ds, args.key)?;
 
     let log = Reflog {
-        key: key.into(),
+        key,
         refname: args.refname,
         remote: args.remote,
     };
@@ -460,6 +460,16 @@ fn get_head_key(ds: &impl DataStore) -> Result<key::TypedKey<commit::Commit>, an
     Ok(key)
 }
 
+fn canonicalize_commit(
+    ds: &impl DataStore,
+    search: Keyish,
+) -> Result<key::TypedKey<commit::Commit>, anyhow::Error> {
+    let key = ds.canonicalize(search)?;
+    let _: commit::Commit = ds.get_obj(key)?.try_into()?;
+
+    Ok(key.into())
+}
+
 fn init(state: &mut State, _args: InitArgs) -> CMDResult {
     std::fs::create_dir_all(&state.common.db_path)?;
     let ds = SqliteDS::new(&state.common.db_path.join("snapcd.db"))?;
-- 
2.43.0


From 1149cee3801fb43c182093dfc03e536d0465772c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 17/21] fix: do not trust the cache for objects this database
 lacks

The cache is shared by every repository of the user: compare --stat
panicked when a file had so far only been hashed for another one.
---
 src/dir.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index a42a5b3..3edc229 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -161,6 +161,9 @@ pub enum HashFsItemError {
     #[error("cache error: {_0}")]
     CacheError(#[from] cache::GetCacheError),
 
+    #[error("error looking up object: {_0}")]
+    RawExistsError(#[from] ds::RawExistsError),
+
     #[error("error when encoding object: {_0}")]
     EncodeError(#[from] serde_cbor::error::Error),
 
@@ -188,7 +191,10 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
         };
 
         if let Some(h) = cache.get(cache_key)? {
-            return Ok(h);
+            // The cache is shared by all databases, so this one may not have the object.
+            if ds.raw_exists(&h.as_db_key())? {
+                return Ok(h);
+            }
         }
 
         let reader = std::io::BufReader::new(f);
-- 
2.43.0


From cab8901a09bb3f6360887491f294ec88651dcc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:13 +0000
Subject: [PATCH 18/21] fix: identify cached files by device and full
 modification time

Only whole seconds were compared, so an edit that kept the size within
the same second went unnoticed by status and checkout-head, and files
with the same inode number on two file systems were confused.
---
 src/cache.rs | 10 ++++++++--
 src/dir.rs   |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index bd9fb50..868d679 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,8 +7,10 @@ use crate::{ds, key};
 
 #[derive(Copy, Clone, Debug)]
 pub struct CacheKey {
+    pub device: u64,
     pub inode: u64,
     pub mtime: i64,
+    pub mtime_nsec: i64,
     pub size: u64,
 }
 
@@ -44,9 +46,11 @@ pub trait Cache: ds::Transactional {
     fn raw_put(&self, cachekey: &[u8], value: &[u8]) -> Result<(), RawPutCacheError>;
 
     fn get(&self, cachekey: CacheKey) -> Result<Option<key::Key>, GetCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
+        let mut data = Vec::with_capacity(8 * 5);
+        data.extend(cachekey.device.to_le_bytes().iter());
         data.extend(cachekey.inode.to_le_bytes().iter());
         data.extend(cachekey.mtime.to_le_bytes().iter());
+        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());
         data.extend(cachekey.size.to_le_bytes().iter());
 
         let cache_result = self.raw_get(&data)?;
@@ -61,10 +65,12 @@ pub trait Cache: ds::Transactional {
     }
 
     fn put(&self, cachekey: CacheKey, value: key::Key) -> Result<(), PutCacheError> {
-        let mut data = Vec::with_capacity(8 * 3);
+        let mut data = Vec::with_capacity(8 * 5);
 
+        data.extend(cachekey.device.to_le_bytes().iter());
         data.extend(cachekey.inode.to_le_bytes().iter());
         data.extend(cachekey.mtime.to_le_bytes().iter());
+        data.extend(cachekey.mtime_nsec.to_le_bytes().iter());
         data.extend(cachekey.size.to_le_bytes().iter());
 
         self.raw_put(&data, &value.as_db_key())?;
diff --git a/src/dir.rs b/src/dir.rs
index 3edc229..30193ac 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -185,7 +185,9 @@ pub fn hash_fs_item<DS: DataStore, C: Cache>(
 
         let ext_metadata = f.metadata()?;
         let cache_key = CacheKey {
+            device: ext_metadata.dev(),
             mtime: ext_metadata.mtime(),
+            mtime_nsec: ext_metadata.mtime_nsec(),
             inode: ext_metadata.ino(),
             size: ext_metadata.size(),
         };
-- 
2.43.0


From a41826ea8212fa1256c44add1a71d163900d5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:09 +0000
Subject: [PATCH 19/21] fix: checkout removed excluded entries inside
 directories that are not in the tree

---
 src/dir.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/dir.rs b/src/dir.rs
index 30193ac..cda4fdd 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -311,6 +311,34 @@ pub enum CheckoutFsItemError {
     UnimplementedFileTypeFound,
 }
 
+/// Removes a file or directory, except for anything below it that the filter excludes. Returns
+/// whether everything was removed.
+fn remove_filtered(
+    path: &Path,
+    filter: &dyn Fn(&DirEntry) -> bool,
+) -> Result<bool, std::io::Error> {
+    if !std::fs::symlink_metadata(path)?.is_dir() {
+        std::fs::remove_file(path)?;
+        return Ok(true);
+    }
+
+    let mut all_removed = true;
+
+    for entry in std::fs::read_dir(path)? {
+        let entry = entry?;
+
+        if !filter(&entry) || !remove_filtered(&entry.path(), filter)? {
+            all_removed = false;
+        }
+    }
+
+    if all_removed {
+        std::fs::remove_dir(path)?;
+    }
+
+    Ok(all_removed)
+}
+
 pub fn checkout_fs_item<DS: DataStore>(
     ds: &DS,
     key: TypedKey<FSItem>,
@@ -343,7 +371,7 @@ pub fn checkout_fs_item<DS: DataStore>(
                 let ft = std::fs::metadata(&p)?.file_type();
 
                 if ft.is_dir() {
-                    std::fs::remove_dir_all(p)?;
+                    remove_filtered(&p, filter)?;
                 } else if ft.is_file() {
                     std::fs::remove_file(p)?;
                 } else if ft.is_symlink() {
-- 
2.43.0


From 339c7e74e94aa37ed372db7fdb6a72a6df54102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:38 +0000
Subject: [PATCH 20/21] fix: reject a key that is longer than a key can be

---
 src/keyish.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keyish.rs b/src/keyish.rs
index fbe8f95..29aab0f 100644
--- a/src/keyish.rs
+++ b/src/keyish.rs
@@ -81,6 +81,11 @@ impl std::str::FromStr for Keyish {
                 _ => return Err(KeyishParseError::Invalid(s.to_string())),
             };
 
+            // Each character is 5 bits, anything longer can't be a key.
+            if bytes.len() > (max_len + 4) / 5 {
+                return Err(KeyishParseError::Invalid(s.to_string()));
+            }
+
             let input = match crate::base32::from_base32(bytes, max_len) {
                 Ok(v) => v,
                 Err(_) => return Err(KeyishParseError::Invalid(s.to_string())),
-- 
2.43.0


From 0aaaa1090fe8c11f549b842a3ba5688fb41c630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:59 +0000
Subject: [PATCH 21/21] fix: do not let the sizes of reads decide where data is
 cut

The same data could get different keys when it came through a pipe or any
other reader that returns less than was asked for: a cut is forced when more
than 32 KiB are buffered, and how much is buffered depended on the reads.
---
 src/file.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 38c5135..8c6b279 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -16,7 +16,6 @@ pub enum PutDataError {
 pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key, PutDataError> {
     let mut key_bufs: [Vec<Key>; 5] = Default::default();
 
-    let mut read_buffer = [0u8; 1 << 16usize];
     let mut chunk_buffer: Vec<u8> = Vec::new();
     let mut current_chunk = Vec::new();
 
@@ -65,21 +64,18 @@ pub fn put_data<DS: DataStore, R: Read>(ds: &mut DS, mut data: R) -> Result<Key,
                 }
             }
         } else {
-            use std::io::ErrorKind;
             current_chunk.extend_from_slice(&chunk_buffer);
             chunk_buffer.clear();
 
-            match data.read(&mut read_buffer) {
-                Ok(len) => {
-                    if len == 0 {
-                        break;
-                    }
-                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
-                }
-                Err(e) if e.kind() == ErrorKind::Interrupted => {}
-                Err(e) => {
-                    return Err(e.into());
-                }
+            // A read may return less than was asked for. Always look at a full block (but for the
+            // last one), so that where the data is cut only depends on the data.
+            let len = data
+                .by_ref()
+                .take(READ_BLOCK)
+                .read_to_end(&mut chunk_buffer)?;
+
+            if len == 0 {
+                break;
             }
         }
     }
@@ -154,6 +150,8 @@ pub fn read_data<DS: DataStore, W: Write>(
     Ok(())
 }
 
+const READ_BLOCK: u64 = 1 << 16;
+
 const BLOB_ZERO_COUNT: u32 = 13;
 const BLOB_ZERO_COUNT_MAX: u32 = BLOB_ZERO_COUNT + 2;
 
-- 
2.43.0

