F = "src/file.rs"
FOLD = """                for offset in 0..4 {
                    let len = key_bufs[offset as usize].len();
                    if zeros > BLOB_ZERO_COUNT + (offset + 1) * PER_LEVEL_COUNT
                        || len >= 1 << PER_LEVEL_COUNT_MAX
                    {
                        let key = ds.put_obj(&Object::new(
                            &[],
                            &key_bufs[offset as usize],
                            ObjType::FileBlobTree,
                        ))?;
                        key_bufs[offset as usize].clear();
                        key_bufs[offset as usize + 1].push(key);
                    } else {
                        break;
                    }
                }
"""
FINAL = """    for offset in 0..4 {
        let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;

        if key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
            // We know this is safe because key_bufs[offset] has exactly 1 element
            #[allow(clippy::option_unwrap_used)]
            return Ok(key_bufs[offset].pop().unwrap());
        }

        key_bufs[offset + 1].push(key);
    }
"""
CUT = """            current_chunk.extend_from_slice(&chunk_buffer[0..boundry]);
            chunk_buffer.drain(0..boundry);
"""
NEW = """            let len = data
                .by_ref()
                .take(READ_BLOCK)
                .read_to_end(&mut chunk_buffer)?;

            if len == 0 {
                break;
            }
"""
OLD = """            use std::io::ErrorKind;
            match data.read(&mut read_buffer) {
                Ok(len) => {
                    if len == 0 {
                        break;
                    }
                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => {
                    return Err(e.into());
                }
            }
"""
FILL = """            use std::io::ErrorKind;
            let mut filled = 0;
            while filled < read_buffer.len() {
                match data.read(&mut read_buffer[filled..]) {
                    Ok(0) => break,
                    Ok(len) => filled += len,
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) => return Err(e.into()),
                }
            }
            if filled == 0 {
                break;
            }
            chunk_buffer.extend_from_slice(&read_buffer[..filled]);
"""
RB = (F, "    let mut chunk_buffer", "    let mut read_buffer = [0u8; 1 << 16usize];\n    let mut chunk_buffer")


def rd(base, *es):
    x = base
    for a, b in es:
        assert a in x, a
        x = x.replace(a, b)
    return ([] if base is NEW else [RB]) + [(F, NEW, x)]


INTR = "Err(e) if e.kind() == ErrorKind::Interrupted => {}"
M = [
 ("c06-clear-not-drain", "C06", [(F, "chunk_buffer.drain(0..boundry);", "chunk_buffer.clear();")]),
 ("c06-drain-more", "C06", [(F, "chunk_buffer.drain(0..boundry);", "chunk_buffer.drain(0..=boundry);")]),
 ("c06-cut-less", "C06", [(F, "&chunk_buffer[0..boundry]", "&chunk_buffer[0..boundry - 1]")]),
 ("c06-cut-from1", "C06", [(F, "&chunk_buffer[0..boundry]", "&chunk_buffer[1..boundry]")]),
 ("c06-nodrain", "C06", [(F, "            chunk_buffer.drain(0..boundry);\n", "")]),
 ("c06-noclear-chunk", "C06", [(F, "                current_chunk.clear();\n", "")]),
 ("c06-clear-before", "C06", [(F, "                let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n                key_bufs[0].push(key);\n                current_chunk.clear();", "                let key = ds.put_obj(&Object::new(&chunk_buffer, &[], ObjType::FileBlob))?;\n                key_bufs[0].push(key);\n                current_chunk.clear();")]),
 ("c06-noclear-level", "C06", [(F, "                        key_bufs[offset as usize].clear();\n", "")]),
 ("c06-clear-level-first", "C06", [(F, FOLD, FOLD.replace("                        key_bufs[offset as usize].clear();\n", "").replace("                        let key = ds.put_obj", "                        let keys = key_bufs[offset as usize][1..].to_vec();\n                        key_bufs[offset as usize].clear();\n                        let key = ds.put_obj").replace("&key_bufs[offset as usize],\n", "&keys,\n"))]),
 ("c06-clear-wrong-level", "C06", [(F, "key_bufs[offset as usize].clear();", "key_bufs[offset as usize + 1].clear();")]),
 ("c06-push-same-level", "C06", [(F, "key_bufs[offset as usize + 1].push(key);", "key_bufs[offset as usize].push(key);")]),
 ("c06-push-skip-level", "C06", [(F, "key_bufs[offset as usize + 1].push(key);", "key_bufs[offset as usize + 2].push(key);")]),
 ("c06-push-insert", "C06", [(F, "key_bufs[offset as usize + 1].push(key);", "key_bufs[offset as usize + 1].insert(0, key);")]),
 ("c06-blob-level1", "C06", [(F, "                key_bufs[0].push(key);\n                current", "                key_bufs[1].push(key);\n                current")]),
 ("c06-nopush-final", "C06", [(F, "        key_bufs[0].push(key);\n    }\n\n    for", "        let _ = key;\n    }\n\n    for")]),
 ("c06-nofinal-chunk", "C06", [(F, "    if !current_chunk.is_empty() {\n        let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n        key_bufs[0].push(key);\n    }\n", "")]),
 ("c06-final-small", "C06", [(F, "    if !current_chunk.is_empty() {", "    if current_chunk.len() > 1 {")]),
 ("c06-final-fold3", "C06", [(F, FINAL, FINAL.replace("in 0..4", "in 0..3"))]),
 ("c06-final-fold1", "C06", [(F, FINAL, FINAL.replace("in 0..4", "in 1..4"))]),
 ("c06-allempty4", "C06", [(F, "(0..5).all", "(0..4).all")]),
 ("c06-allempty1", "C06", [(F, "(0..5).all", "(1..5).all")]),
 ("c06-single-4", "C06", [(F, "(1 + offset..5).all", "(1 + offset..4).all")]),
 ("c06-single-2", "C06", [(F, "(1 + offset..5).all", "(2 + offset..5).all")]),
 ("c06-single-nocheck", "C06", [(F, "key_bufs[offset].len() == 1 && (1 + offset..5).all(|x| key_bufs[x].is_empty())", "key_bufs[offset].len() == 1")]),
 ("c06-single-any", "C06", [(F, "key_bufs[offset].len() == 1 && (1 + offset..5)", "(1 + offset..5)")]),
 ("c06-ret-level3", "C06", [(F, "&key_bufs[4], ObjType", "&key_bufs[3], ObjType")]),
 ("c06-type", "C06", [(F, "&key_bufs[4], ObjType::FileBlobTree", "&key_bufs[4], ObjType::FileBlob")]),
 ("c06-dedup", "C06", [(F, "    for offset in 0..4 {\n        let key", "    key_bufs[0].dedup();\n    for offset in 0..4 {\n        let key")]),
 ("c06-return-blobkey", "C06", [(F, "    if !current_chunk.is_empty() {\n        let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n        key_bufs[0].push(key);", "    if !current_chunk.is_empty() {\n        let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n        if key_bufs[1].is_empty() { return Ok(key); }\n        key_bufs[0].push(key);")]),
 ("c06-truncate", "C06", [(F, "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {", "            current_chunk.truncate(1 << (BLOB_ZERO_COUNT_MAX + 1));\n            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {")]),
 ("c06-single-first", "", [(F, FINAL, """    for offset in 0..4 {
        let single = key_bufs[offset].len() == 1;
        if single && (1 + offset..5).all(|x| key_bufs[x].is_empty()) {
            return Ok(key_bufs[offset][0]);
        }
        let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;
        key_bufs[offset + 1].push(key);
    }
""")]),
 ("c06-helper", "", [(F, FOLD, FOLD.replace("""                        let key = ds.put_obj(&Object::new(
                            &[],
                            &key_bufs[offset as usize],
                            ObjType::FileBlobTree,
                        ))?;
                        key_bufs[offset as usize].clear();
                        key_bufs[offset as usize + 1].push(key);
""", "                        fold_level(ds, &mut key_bufs, offset as usize)?;\n")), (F, "@end", """
fn fold_level<DS: DataStore>(ds: &mut DS, bufs: &mut [Vec<Key>; 5], i: usize) -> Result<(), ds::PutObjError> {
    let key = ds.put_obj(&Object::new(&[], &bufs[i], ObjType::FileBlobTree))?;
    bufs[i + 1].push(key);
    bufs[i].clear();
    Ok(())
}
""")]),
 ("c06-helper-chunk", "", [(F, "                let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n                key_bufs[0].push(key);\n                current_chunk.clear();", "                flush(ds, &mut current_chunk, &mut key_bufs[0])?;"), (F, "@end", """
fn flush<DS: DataStore>(ds: &mut DS, chunk: &mut Vec<u8>, keys: &mut Vec<Key>) -> Result<(), PutDataError> {
    let blob = Object::new(chunk, &[], ObjType::FileBlob);
    let key = ds.put_obj(&blob)?;
    chunk.clear();
    keys.push(key);
    Ok(())
}
""")]),
 ("c06-while", "", [(F, FINAL, """    let mut offset = 0;
    while offset < 4 {
        let key = ds.put_obj(&Object::new(&[], &key_bufs[offset], ObjType::FileBlobTree))?;

        if key_bufs[offset].len() == 1 && key_bufs[offset + 1..].iter().all(|x| x.is_empty()) {
            return Ok(key_bufs[offset].pop().unwrap());
        }

        key_bufs[offset + 1].push(key);
        offset += 1;
    }
""")]),
 ("c06-allempty-iter", "", [(F, "(0..5).all(|x| key_bufs[x].is_empty())", "key_bufs.iter().all(Vec::is_empty)")]),
 ("c06-allempty-noany", "", [(F, "(0..5).all(|x| key_bufs[x].is_empty())", "!key_bufs.iter().any(|b| !b.is_empty())")]),
 ("c06-extend-drain", "", [(F, CUT, "            current_chunk.extend(chunk_buffer.drain(..boundry));\n")]),
 ("c06-append", "", [(F, "            current_chunk.extend_from_slice(&chunk_buffer);\n            chunk_buffer.clear();\n", "            current_chunk.append(&mut chunk_buffer);\n")]),
 ("c06-splitoff", "", [(F, CUT, "            let rest = chunk_buffer.split_off(boundry);\n            current_chunk.append(&mut chunk_buffer);\n            chunk_buffer = rest;\n")]),
 ("c06-take", "", [(F, "                let key = ds.put_obj(&Object::new(&current_chunk, &[], ObjType::FileBlob))?;\n                key_bufs[0].push(key);\n                current_chunk.clear();", "                let data = std::mem::take(&mut current_chunk);\n                let key = ds.put_obj(&Object::new_owned(data, vec![], ObjType::FileBlob))?;\n                key_bufs[0].push(key);")]),
 ("c06-drain-to", "", [(F, CUT, "            let (head, _) = chunk_buffer.split_at(boundry);\n            current_chunk.extend_from_slice(head);\n            chunk_buffer.drain(..boundry);\n")]),
 ("c06-reorder", "", [(F, "                        key_bufs[offset as usize].clear();\n                        key_bufs[offset as usize + 1].push(key);\n", "                        key_bufs[offset as usize + 1].push(key);\n                        key_bufs[offset as usize].clear();\n")]),
 ("c06-flag", "", [(F, "    let mut current_chunk = Vec::new();\n", "    let mut current_chunk = Vec::new();\n    let mut cut = false;\n"), (F, "                current_chunk.clear();\n", "                current_chunk.clear();\n                cut = true;\n"), (F, "(0..5).all(|x| key_bufs[x].is_empty())", "!cut")]),
 ("c06-new", "", [(F, "                current_chunk.clear();\n", "                current_chunk = Vec::new();\n")]),
 ("c06-noop", "", [(F, "    let mut hasher", "    let _ = 1 + 1;\n    let mut hasher"), (F, "@end", "// end\n")]),
 ("c06-const", "", [(F, "let mut key_bufs: [Vec<Key>; 5]", "const LEVELS: usize = 5;\n    let mut key_bufs: [Vec<Key>; LEVELS]"), (F, "(0..5).all", "(0..LEVELS).all"), (F, "(1 + offset..5)", "(offset + 1..LEVELS)"), (F, "    for offset in 0..4 {\n        let key", "    for offset in 0..LEVELS - 1 {\n        let key"), (F, "&key_bufs[4], ObjType", "&key_bufs[LEVELS - 1], ObjType")]),
 ("c06-lenidx", "", [(F, "    for offset in 0..4 {\n        let key", "    for offset in 0..key_bufs.len() - 1 {\n        let key"), (F, "&key_bufs[4], ObjType", "&key_bufs[key_bufs.len() - 1], ObjType")]),
]
M += [
 ("c06-shortread-eof", "C06", rd(OLD, ("if len == 0 {\n                        break;\n                    }\n                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);", "chunk_buffer.extend_from_slice(&read_buffer[0..len]);\n                    if len < read_buffer.len() {\n                        break;\n                    }"))),
 ("c06-whole-readbuf", "C06", rd(OLD, ("&read_buffer[0..len]", "&read_buffer[..]"))),
 ("c06-readbuf-off", "C06", rd(OLD, ("&read_buffer[0..len]", "&read_buffer[0..len - 1]"))),
 ("c06-readbuf-lenmax", "C06", rd(OLD, ("&read_buffer[0..len]", "&read_buffer[0..len.min(32768)]"))),
 ("c06-eof-err", "C06 C02", rd(OLD, (INTR, "Err(e) if e.kind() == ErrorKind::UnexpectedEof => break,\n                " + INTR))),
 ("c06-interrupted-clear", "C06", rd(OLD, ("chunk_buffer.extend_from_slice(&read", "current_chunk.extend_from_slice(&chunk_buffer);\n                    chunk_buffer.clear();\n                    chunk_buffer.extend_from_slice(&read")) + [(F, "            current_chunk.extend_from_slice(&chunk_buffer);\n            chunk_buffer.clear();\n\n            // A", "            // A"), (F, "    current_chunk.extend_from_slice(&chunk_buffer);\n\n    if (0", "    if (0")]),
 ("c40-old", "C40", rd(OLD)),
 ("c40-ok0", "C40", rd(OLD, ("                Ok(len) => {\n                    if len == 0 {\n                        break;\n                    }\n                    chunk_buffer.extend_from_slice(&read_buffer[0..len]);\n                }\n", "                Ok(0) => break,\n                Ok(n) => chunk_buffer.extend_from_slice(&read_buffer[..n]),\n"))),
 ("c40-fill", "", rd(FILL)),
 ("c40-fill-eq", "", rd(FILL, ("while filled < read_buffer.len() {", "while filled != read_buffer.len() {"))),
 ("c40-fill-const", "", rd(FILL, ("while filled < read_buffer.len() {", "while filled < 1 << 16 {"))),
 ("c40-fill-loop", "", rd(FILL, ("while filled < read_buffer.len() {", "loop {\n                if filled == read_buffer.len() {\n                    break;\n                }"))),
 ("c40-fill-half", "C40", rd(FILL, ("while filled < read_buffer.len() {", "while filled < read_buffer.len() / 2 {"))),
 ("c40-fill-once", "C40", rd(FILL, ("Ok(len) => filled += len,", "Ok(len) => {\n                        filled += len;\n                        if len < 4096 {\n                            break;\n                        }\n                    }"))),
 ("c40-fill-intr", "C40", rd(FILL, (INTR, "Err(e) if e.kind() == ErrorKind::Interrupted && filled > 0 => break,\n                    " + INTR))),
 ("c06-fill-restart", "C06", rd(FILL, ("&mut read_buffer[filled..]", "&mut read_buffer"))),
 ("c06-fill-lost", "C06", rd(FILL, ("if filled == 0 {", "if filled < read_buffer.len() {"))),
 ("c06-fill-part", "C06", rd(FILL, ("&read_buffer[..filled]", "&read_buffer[..filled - 1]"))),
 ("c06-fill-skip", "C06", rd(FILL, ("&read_buffer[..filled]", "&read_buffer[1..filled]"))),
 ("c06-take-outside", "C06", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end", "            let len = data\n                .read_to_end")) + [(F, "    let mut chunk_buffer", "    let mut data = data.take(1 << 32);\n    let mut chunk_buffer")]),
 ("c06-take-zero", "C06", rd(NEW, ("READ_BLOCK", "0"))),
 ("c06-short-block-ends", "C06", rd(NEW, ("if len == 0", "if (len as u64) < READ_BLOCK / 2"))),
 ("c06-readend-clear", "C06", [(F, "            current_chunk.extend_from_slice(&chunk_buffer);\n            chunk_buffer.clear();\n\n            // A", "            chunk_buffer.clear();\n\n            // A")]),
 ("c06-readend-noclear", "C06", [(F, "            current_chunk.extend_from_slice(&chunk_buffer);\n            chunk_buffer.clear();\n\n            // A", "            current_chunk.extend_from_slice(&chunk_buffer);\n\n            // A")]),
 ("c06-short-block-ends-ok", "", rd(NEW, ("if len == 0", "if len < 1"))),
 ("c06-whole", "", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end", "            let len = data\n                .by_ref()\n                .read_to_end"))),
 ("c40-exact", "", rd(NEW, (".read_to_end(&mut chunk_buffer)?", ".read_to_end(&mut chunk_buffer)\n                .map_err(PutDataError::from)?"))),
 ("c40-bytes", "", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end(&mut chunk_buffer)?;\n\n            if len == 0 {", "            for b in data.by_ref().bytes().take(READ_BLOCK as usize) {\n                chunk_buffer.push(b?);\n            }\n\n            if chunk_buffer.is_empty() {"))),
 ("c40-time", "C40", [(F, "            if chunk_buffer.len() > 1 << BLOB_ZERO_COUNT_MAX {", "            if chunk_buffer.len() > 1 << BLOB_ZERO_COUNT_MAX\n                && std::time::SystemTime::now() > std::time::UNIX_EPOCH\n            {")]),
 ("c40-static", "C40", [(F, "@end", "static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n"), (F, "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {", "            let seen = SEEN.fetch_add(boundry, std::sync::atomic::Ordering::Relaxed);\n            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) || seen % 7 == 6 {")]),
 ("c40-exists", "C40", [(F, "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {", "            let known = ds.raw_exists(&ds.hash(&current_chunk).as_db_key()).unwrap_or(false);\n            if known || current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {")]),
 ("c40-thread", "C40", [(F, "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {", "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX - std::env::var_os(\"SNAPCD_SMALL\").map_or(0, |_| 1)) {")]),
 ("c40-map", "C40", [(F, "    for offset in 0..4 {\n        let key", "    let set: std::collections::HashSet<Vec<u8>> = key_bufs[0].iter().map(|x| x.as_db_key()).collect();\n    if let Some(first) = set.iter().next() {\n        current_chunk.clear();\n        current_chunk.extend_from_slice(first);\n    }\n    for offset in 0..4 {\n        let key")]),
]

# --- what may decide where data is cut
BUF = "    let mut chunk_buffer"
M += [
 # the end of the block computed from what is still missing
 ("c40-want", "", rd(FILL, ("while filled < read_buffer.len() {\n                match data.read(&mut read_buffer[filled..]) {", "let want = 1 << 15;\n            while filled < want {\n                match data.read(&mut read_buffer[filled..want]) {"))),
 ("c40-want-off", "C40", rd(FILL, ("while filled < read_buffer.len() {\n                match data.read(&mut read_buffer[filled..]) {", "let want = 1 << 15;\n            while filled + 1024 < want {\n                match data.read(&mut read_buffer[filled..want]) {"))),
 ("c40-rest", "", rd(FILL, ("            while filled < read_buffer.len() {\n                match data.read(&mut read_buffer[filled..]) {\n", "            loop {\n                let rest = &mut read_buffer[filled..];\n                if rest.is_empty() {\n                    break;\n                }\n                match data.read(rest) {\n"))),
 ("c40-room", "", rd(FILL, ("while filled < read_buffer.len() {", "loop {\n                let room = read_buffer.len() - filled;\n                if room == 0 {\n                    break;\n                }"))),
 ("c40-helper", "", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end(&mut chunk_buffer)?;\n", "            let len = fill(&mut data, &mut chunk_buffer)?;\n")) + [(F, "@end", "fn fill<R: Read>(from: &mut R, to: &mut Vec<u8>) -> std::io::Result<usize> {\n    from.take(READ_BLOCK).read_to_end(to)\n}\n")]),
 ("c40-helper-one", "C40", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end(&mut chunk_buffer)?;\n", "            let len = fill(&mut data, &mut chunk_buffer)?;\n")) + [(F, "@end", "fn fill<R: Read>(from: &mut R, to: &mut Vec<u8>) -> std::io::Result<usize> {\n    let mut buf = vec![0; READ_BLOCK as usize];\n    loop {\n        match from.read(&mut buf) {\n            Ok(n) => {\n                to.extend_from_slice(&buf[..n]);\n                return Ok(n);\n            }\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}\n            Err(e) => return Err(e),\n        }\n    }\n}\n")]),
 ("c40-helper-fill", "", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end(&mut chunk_buffer)?;\n", "            let len = fill(&mut data, &mut chunk_buffer)?;\n")) + [(F, "@end", "fn fill<R: Read>(from: &mut R, to: &mut Vec<u8>) -> std::io::Result<usize> {\n    let mut buf = vec![0; READ_BLOCK as usize];\n    let mut filled = 0;\n    while filled < buf.len() {\n        match from.read(&mut buf[filled..]) {\n            Ok(0) => break,\n            Ok(n) => filled += n,\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}\n            Err(e) => return Err(e),\n        }\n    }\n    to.extend_from_slice(&buf[..filled]);\n    Ok(filled)\n}\n")]),
 ("c40-copy", "", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end(&mut chunk_buffer)?;\n", "            let len = std::io::copy(&mut data.by_ref().take(READ_BLOCK), &mut chunk_buffer)?;\n"))),
 ("c40-take-read", "C40", rd(NEW, (".take(READ_BLOCK)\n                .read_to_end(&mut chunk_buffer)?;", ".take(READ_BLOCK)\n                .read(&mut read_buffer)?;\n            chunk_buffer.extend_from_slice(&read_buffer[..len]);")) + [(F, BUF, "    let mut read_buffer = [0u8; 1 << 16];\n" + BUF)]),
 ("c40-fillbuf", "C40", rd(NEW, ("            let len = data\n                .by_ref()\n                .take(READ_BLOCK)\n                .read_to_end(&mut chunk_buffer)?;\n", "            let len = {\n                let got = data.fill_buf()?;\n                chunk_buffer.extend_from_slice(got);\n                got.len()\n            };\n            data.consume(len);\n")) + [(F, BUF, "    let mut data = std::io::BufReader::with_capacity(1 << 16, data);\n" + BUF)]),
 ("c40-bufreader", "", [(F, BUF, "    let mut data = std::io::BufReader::new(data);\n" + BUF)]),
 ("c40-capacity", "C40", [(F, "            if chunk_buffer.len() > 1 << BLOB_ZERO_COUNT_MAX {", "            if chunk_buffer.capacity() > 1 << 21 && chunk_buffer.len() > 1 << 19 || chunk_buffer.len() > 1 << BLOB_ZERO_COUNT_MAX {")]),
 ("c40-reserve", "", [(F, BUF, "    let mut chunk_buffer: Vec<u8> = Vec::with_capacity(1 << 17);\n    if chunk_buffer.capacity() == 0 {\n        chunk_buffer.reserve(1);\n    }\n    let mut unused: Vec<u8> = Vec::new();\n    unused.clear();\n    let mut chunk_buffer_2")][:0] + [(F, "    let mut current_chunk = Vec::new();", "    let mut current_chunk = Vec::with_capacity(1 << 16);")]),
 ("c40-static-mut", "C40", [(F, "@end", "static mut CALLS: usize = 0;\n"), (F, BUF, "    let odd = unsafe {\n        CALLS += 1;\n        CALLS % 1000 == 999\n    };\n" + BUF), (F, "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {", "            if odd || current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {")]),
 ("c40-static-count", "", [(F, "@end", "static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n"), (F, BUF, "    CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n" + BUF)]),
 ("c40-static-const", "", [(F, "@end", "static LEAST: usize = 1 << BLOB_ZERO_COUNT_MAX;\n"), (F, "            if current_chunk.len() >= 1 << (BLOB_ZERO_COUNT_MAX) {", "            if current_chunk.len() >= LEAST {")]),
 ("c40-threadlocal", "C40", [(F, "@end", "thread_local!(static CALLS: std::cell::Cell<u32> = std::cell::Cell::new(0));\n"), (F, BUF, "    let calls = CALLS.with(|c| {\n        c.set(c.get() + 1);\n        c.get()\n    });\n" + BUF), (F, "let zeros = hasher.get_hash().leading_zeros();", "let zeros = hasher.get_hash().leading_zeros() + calls / 1000;")]),
 ("c40-timing", "", [(F, BUF, "    let start = std::time::Instant::now();\n" + BUF), (F, "    if (0..5).all(", "    if false {\n        eprintln!(\"{:?}\", start.elapsed());\n    }\n    if (0..5).all(")]),
 ("c40-put-only-new", "", [("src/ds/mod.rs", "@end", "")]),
]
