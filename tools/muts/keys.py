K="src/key.rs"
Y="src/keyish.rs"
DB="""        let mut result = Vec::with_capacity(hash_bytes.len() + 1);

        result.push(hash_id);
        result.extend(hash_bytes);

        result
"""
FROM="""        let hash_id = x[0];
        let hash_bytes = &x[1..];

        match hash_id {
            1 => {
                let hash_arr = match hash_bytes.try_into() {
                    Ok(a) => a,
                    Err(e) => {
                        return Err(FromDbKeyError::IncorrectLength {
                            got: hash_bytes.len(),
                            source: e,
                        })
                    }
                };
                Ok(Self::Blake3B(hash_arr))
            }
            0 | 2..=255 => Err(FromDbKeyError::UnknownHashId(hash_id)),
        }
"""
USER="""        let mut result = String::new();

        let prefix = match self {
            Self::Blake3B(_) => "b",
        };

        result.push_str(prefix);

        let encoded = crate::base32::to_base32(self.hash_bytes());

        result.push_str(&encoded);

        result
"""
DISP="        fmt.write_str(&self.as_user_key())"
TDISP="        fmt.write_str(&self.inner.as_user_key())"
HB="""        match self {
            Self::Blake3B(x) => x.as_ref(),
        }
"""
PRE="""            let (prefix, bytes) = (s_bytes.get(0), s.get(1..).ok_or(KeyishParseError::Empty)?);

            let max_len = match prefix {
                Some(b'b') => 32 * 8,
                Some(ch) => return Err(KeyishParseError::UnknownPrefix(*ch as char)),
                _ => return Err(KeyishParseError::Invalid(s.to_string())),
            };
"""
LONG="""            // Each character is 5 bits, anything longer can't be a key.
            if bytes.len() > (max_len + 4) / 5 {
                return Err(KeyishParseError::Invalid(s.to_string()));
            }
"""
FULL="""            if input.len() == max_len {
                let mut v = input.into_vec();
                v.insert(0_usize, 1_u8);
                return Ok(Keyish::Key(s.to_string(), v));
            }
"""
REF="""            let idx = s
                .find('/')
                .expect("should only be called if s contains a /");

            if idx == 0 {
                Ok(Keyish::Reflog {
                    orig: s.to_string(),
                    keyname: s[1..].to_string(),
                    remote: None,
                })
            } else {
                let remote = &s[0..idx];
                let keyname = &s[idx + 1..];

                Ok(Keyish::Reflog {
                    orig: s.to_string(),
                    keyname: keyname.to_string(),
                    remote: Some(remote.to_string()),
                })
            }
"""
M=[
("keys db id 2","C17",[(K,"            Self::Blake3B(_) => 1,","            Self::Blake3B(_) => 2,")]),
("keys db without id","C17",[(K,"        result.push(hash_id);\n","")]),
("keys db order","C17",[(K,"        result.push(hash_id);\n        result.extend(hash_bytes);\n","        result.extend(hash_bytes);\n        result.push(hash_id);\n")]),
("keys db short","C17",[(K,"        result.extend(hash_bytes);\n","        result.extend(&hash_bytes[..31]);\n")]),
("keys db twice","C17",[(K,"        result.push(hash_id);\n","        result.push(hash_id);\n        result.push(hash_id);\n")]),
("keys hash bytes short","C17",[(K,HB,HB.replace("x.as_ref()","&x[..31]"))]),
("keys db rev","C17",[(K,"        result.extend(hash_bytes);\n","        result.extend(hash_bytes.iter().rev());\n")]),
("keys from id 2","C17",[(K,FROM,FROM.replace("            1 => {","            2 => {").replace("0 | 2..=255","0 | 1 | 3..=255"))]),
("keys from id 1 or 2","C17",[(K,FROM,FROM.replace("            1 => {","            1 | 2 => {").replace("0 | 2..=255","0 | 3..=255"))]),
("keys from id any","C17",[(K,FROM,FROM.replace("            1 => {","            1..=255 => {").replace("0 | 2..=255","0"))]),
("keys from offset","C17",[(K,"let hash_bytes = &x[1..];","let hash_bytes = &x[..x.len() - 1];")]),
("keys from copies what fits","C17",[(K,FROM,"""        let hash_id = x[0];
        let hash_bytes = &x[1..];
        let _: Result<[u8; 32], _> = hash_bytes.try_into();

        match hash_id {
            1 => {
                let mut hash_arr = [0; 32];
                let n = hash_bytes.len().min(32);
                hash_arr[..n].copy_from_slice(&hash_bytes[..n]);
                Ok(Self::Blake3B(hash_arr))
            }
            0 | 2..=255 => Err(FromDbKeyError::UnknownHashId(hash_id)),
        }
""")]),
("keys from zip","C17",[(K,FROM,"""        let hash_id = x[0];
        let hash_bytes = &x[1..];
        let _: Result<[u8; 32], _> = hash_bytes.try_into();

        match hash_id {
            1 => {
                let mut hash_arr = [0; 32];
                for (a, b) in hash_arr.iter_mut().zip(hash_bytes) {
                    *a = *b;
                }
                Ok(Self::Blake3B(hash_arr))
            }
            0 | 2..=255 => Err(FromDbKeyError::UnknownHashId(hash_id)),
        }
""")]),
("keys from truncated","C17",[(K,"let hash_arr = match hash_bytes.try_into() {","let hash_arr = match hash_bytes[..hash_bytes.len().min(32)].try_into() {")]),
("keys user prefix","C17",[(K,'Self::Blake3B(_) => "b",','Self::Blake3B(_) => "c",')]),
("keys user prefix upper","C17",[(K,'Self::Blake3B(_) => "b",','Self::Blake3B(_) => "B",')]),
("keys user without prefix","C17",[(K,"        result.push_str(prefix);\n","        let _ = prefix;\n")]),
("keys user short","C17",[(K,"to_base32(self.hash_bytes())","to_base32(&self.hash_bytes()[..30])")]),
("keys user text short","C17",[(K,"result.push_str(&encoded);","result.push_str(&encoded[..40]);")]),
("keys user suffix","C17",[(K,"result.push_str(&encoded);","result.push_str(&encoded);\n        result.push('=');")]),
("keys user order","C17",[(K,"        result.push_str(prefix);\n",""),(K,"result.push_str(&encoded);","result.push_str(&encoded);\n        result.push_str(prefix);")]),
("keys display short","C17",[(K,DISP,"        fmt.write_str(&self.as_user_key()[..16])")]),
("keys typed display short","C17",[(K,TDISP,"        let mut k = self.inner.as_user_key();\n        k.truncate(12);\n        fmt.write_str(&k)")]),
("keys display precision","C17",[(K,DISP,"        fmt.pad(&self.as_user_key()[..fmt.precision().unwrap_or(50)])")]),
("keys typed display nothing","C17",[(K,TDISP,"        Ok(())")]),
("keys user id 2","C17",[(Y,"v.insert(0_usize, 1_u8);","v.insert(0_usize, 2_u8);")]),
("keys user id at end","C17",[(Y,"v.insert(0_usize, 1_u8);","v.push(1_u8);")]),
("keys user no id","C17",[(Y,"                v.insert(0_usize, 1_u8);\n",""),(Y,"let mut v = input.into_vec();","let v = input.into_vec();")]),
("keys range start id","C17",[(Y,"ret_start.insert(0_usize, 1);","ret_start.insert(0_usize, 0);")]),
("keys range end id","C17",[(Y,"                v.insert(0_usize, 1);\n","                v.insert(0_usize, 2);\n")]),
("keys user prefix any","C17",[(Y,"                Some(b'b') => 32 * 8,\n                Some(ch) => return Err(KeyishParseError::UnknownPrefix(*ch as char)),\n","                Some(_) => 32 * 8,\n")]),
("keys user prefix more","C17",[(Y,"Some(b'b') => 32 * 8","Some(b'b') | Some(b'c') => 32 * 8")]),
("keys user prefix letter","C17",[(Y,"Some(b'b') => 32 * 8","Some(b'a') => 32 * 8")]),
("keys user bits","C17",[(Y,"Some(b'b') => 32 * 8","Some(b'b') => 20 * 8")]),
("keys user full not checked","C17",[(Y,"if input.len() == max_len {","if input.len() >= 64 {")]),
("keys user full when some","C17",[(Y,"if input.len() == max_len {","if !input.is_empty() {")]),
("keys user too long","C17",[(Y,LONG,"")]),
("keys user too long by two","C17",[(Y,"bytes.len() > (max_len + 4) / 5 {","bytes.len() > max_len / 4 {")]),
("keys user rest","C17",[(Y,"s.get(1..).ok_or","s.get(2..).ok_or")]),
("keys user rest whole","C17",[(Y,"s.get(1..).ok_or","s.get(0..).ok_or")]),
("keys user rest end","C17",[(Y,"s.get(1..).ok_or","s.get(1..53.min(s.len())).ok_or")]),
("keys ref rfind","C16",[(Y,"                .find('/')","                .rfind('/')")]),
("keys ref swapped","C16",[(Y,"                    keyname: keyname.to_string(),\n                    remote: Some(remote.to_string()),","                    keyname: remote.to_string(),\n                    remote: Some(keyname.to_string()),")]),
("keys ref with slash","C16",[(Y,"&s[idx + 1..]","&s[idx..]")]),
("keys ref skips","C16",[(Y,"&s[idx + 1..]","&s[idx + 2..]")]),
("keys ref whole","C16",[(Y,"keyname: keyname.to_string(),","keyname: { let _ = keyname; s.to_string() },")]),
("keys ref local with slash","C16",[(Y,"keyname: s[1..].to_string(),","keyname: s.to_string(),")]),
("keys ref empty remote","C16",[(Y,"                    keyname: s[1..].to_string(),\n                    remote: None,","                    keyname: s[1..].to_string(),\n                    remote: Some(s[0..idx].to_string()),")]),
("keys ref remote lost","C16",[(Y,"remote: Some(remote.to_string()),","remote: { let _ = remote; None },")]),
("keys ref remote with slash","C16",[(Y,"let remote = &s[0..idx];","let remote = &s[0..=idx];")]),
("keys ref remote rest","C16",[(Y,"let remote = &s[0..idx];","let remote = &s[1..idx];")]),
("keys ref rsplit","C16",[(Y,REF,"""            let (remote, keyname) = s.rsplit_once('/').expect("should only be called if s contains a /");
            Ok(Keyish::Reflog {
                orig: s.to_string(),
                keyname: keyname.to_string(),
                remote: if remote.is_empty() { None } else { Some(remote.to_string()) },
            })
""")]),
("keys ref split empty","C16",[(Y,REF,"""            let (remote, keyname) = s.split_once('/').expect("should only be called if s contains a /");
            Ok(Keyish::Reflog {
                orig: s.to_string(),
                keyname: keyname.to_string(),
                remote: Some(remote.to_string()),
            })
""")]),
# behaviour-preserving
("keys pres: db vec macro","",[(K,DB,"""        let mut result = vec![hash_id];
        result.extend_from_slice(hash_bytes);
        result
""")]),
("keys pres: db concat","",[(K,DB,"        [&[hash_id][..], hash_bytes].concat()\n")]),
("keys pres: db from bytes","",[(K,DB,"""        let mut result = hash_bytes.to_vec();
        result.insert(0, hash_id);
        result
""")]),
("keys pres: db chain","",[(K,DB,"        std::iter::once(hash_id).chain(hash_bytes.iter().copied()).collect()\n")]),
("keys pres: db match","",[(K,"""        let hash_id = self.hash_id();
        let hash_bytes = self.hash_bytes();

        let mut result""","""        let (hash_id, hash_bytes): (u8, &[u8]) = match self {
            Self::Blake3B(b) => (self.hash_id(), &b[..]),
        };

        let mut result""")]),
("keys pres: db loop","",[(K,"        result.extend(hash_bytes);\n","        for b in hash_bytes {\n            result.push(*b);\n        }\n")]),
("keys pres: from split_first","",[(K,"""        if x.is_empty() {
            return Err(FromDbKeyError::Empty);
        }

        let hash_id = x[0];
        let hash_bytes = &x[1..];
""","""        let (&hash_id, hash_bytes) = match x.split_first() {
            Some(p) => p,
            None => return Err(FromDbKeyError::Empty),
        };
""")]),
("keys pres: from if","",[(K,FROM,"""        let hash_id = x[0];
        let hash_bytes = &x[1..];

        if hash_id != 1 {
            return Err(FromDbKeyError::UnknownHashId(hash_id));
        }

        hash_bytes
            .try_into()
            .map(Self::Blake3B)
            .map_err(|source| FromDbKeyError::IncorrectLength { got: hash_bytes.len(), source })
""")]),
("keys pres: from question","",[(K,FROM,"""        let hash_id = x[0];
        let hash_bytes = &x[1..];

        match hash_id {
            1 => Ok(Self::Blake3B(hash_bytes.try_into().map_err(|source| {
                FromDbKeyError::IncorrectLength { got: hash_bytes.len(), source }
            })?)),
            _ => Err(FromDbKeyError::UnknownHashId(hash_id)),
        }
""")]),
("keys pres: from copy","",[(K,FROM,"""        let hash_id = x[0];
        let hash_bytes = &x[1..];

        match hash_id {
            1 => {
                let mut hash_arr = [0; 32];
                if let Err(source) = <[u8; 32]>::try_from(hash_bytes) {
                    return Err(FromDbKeyError::IncorrectLength { got: hash_bytes.len(), source });
                }
                hash_arr.copy_from_slice(hash_bytes);
                Ok(Self::Blake3B(hash_arr))
            }
            _ => Err(FromDbKeyError::UnknownHashId(hash_id)),
        }
"""),(K,"use std::convert::TryInto;","use std::convert::TryFrom;")]),
("keys pres: from slice pattern","",[(K,"""        if x.is_empty() {
            return Err(FromDbKeyError::Empty);
        }

        let hash_id = x[0];
        let hash_bytes = &x[1..];
""","""        let (hash_id, hash_bytes) = match x {
            [] => return Err(FromDbKeyError::Empty),
            [id, rest @ ..] => (*id, rest),
        };
""")]),
("keys pres: user format","",[(K,USER,"""        let prefix = match self {
            Self::Blake3B(_) => 'b',
        };
        format!("{}{}", prefix, crate::base32::to_base32(self.hash_bytes()))
""")]),
("keys pres: user format inline","",[(K,USER,"""        match self {
            Self::Blake3B(bytes) => format!("b{}", crate::base32::to_base32(bytes)),
        }
""")]),
("keys pres: user plus","",[(K,USER,"""        let prefix = match self {
            Self::Blake3B(_) => "b",
        };
        prefix.to_string() + &crate::base32::to_base32(self.hash_bytes())
""")]),
("keys pres: user concat","",[(K,USER,"""        let prefix = match self {
            Self::Blake3B(_) => "b",
        };
        [prefix, &crate::base32::to_base32(self.hash_bytes())].concat()
""")]),
("keys pres: user insert","",[(K,USER,"""        let mut text = crate::base32::to_base32(self.hash_bytes());
        match self {
            Self::Blake3B(_) => text.insert(0, 'b'),
        }
        text
""")]),
("keys pres: user push","",[(K,"""        let prefix = match self {
            Self::Blake3B(_) => "b",
        };

        result.push_str(prefix);
""","""        result.push(self.prefix());
"""),(K,"    fn hash_bytes(&self)","    fn prefix(&self) -> char {\n        match self {\n            Self::Blake3B(_) => 'b',\n        }\n    }\n\n    fn hash_bytes(&self)")]),
("keys pres: display write","",[(K,DISP,'        write!(fmt, "{}", self.as_user_key())')]),
("keys pres: display pad","",[(K,DISP,'        fmt.pad(&self.as_user_key())')]),
("keys pres: typed display inner","",[(K,TDISP,'        std::fmt::Display::fmt(&self.inner, fmt)')]),
("keys pres: keyish helper","",[(Y,FULL,"""            if input.len() == max_len {
                return Ok(Keyish::Key(s.to_string(), with_id(1, input.into_vec())));
            }
"""),(Y,"        fn parse_from_base32(","        fn with_id(id: u8, mut bytes: Vec<u8>) -> Vec<u8> {\n            bytes.insert(0, id);\n            bytes\n        }\n\n        fn parse_from_base32(")]),
("keys pres: keyish extend","",[(Y,FULL,"""            if input.len() == max_len {
                let mut v = vec![1_u8];
                v.extend(input.into_vec());
                return Ok(Keyish::Key(s.to_string(), v));
            }
""")]),
("keys pres: keyish extend slice","",[(Y,FULL,"""            if input.len() == max_len {
                let bytes = input.into_vec();
                let mut v = Vec::with_capacity(bytes.len() + 1);
                v.push(1_u8);
                v.extend_from_slice(&bytes);
                return Ok(Keyish::Key(s.to_string(), v));
            }
""")]),
("keys pres: keyish match len","",[(Y,LONG,""),(Y,FULL,"""            if bytes.len() >= (max_len + 4) / 5 + 1 {
                return Err(KeyishParseError::Invalid(s.to_string()));
            }
            if max_len == input.len() {
                let mut v = input.into_vec();
                v.insert(0_usize, 1_u8);
                return Ok(Keyish::Key(s.to_string(), v));
            }
""")]),
("keys pres: keyish strip_prefix","",[(Y,PRE,"""            let bytes = match s.strip_prefix('b') {
                Some(b) => b,
                None => match s_bytes.get(0) {
                    Some(ch) => return Err(KeyishParseError::UnknownPrefix(*ch as char)),
                    None => return Err(KeyishParseError::Empty),
                },
            };
            let max_len = 32 * 8;
""")]),
("keys pres: keyish split_at","",[(Y,PRE,"""            if s.is_empty() {
                return Err(KeyishParseError::Empty);
            }
            let (prefix, bytes) = s.split_at(1);

            let max_len = match prefix {
                "b" => 32 * 8,
                _ => return Err(KeyishParseError::UnknownPrefix(s_bytes[0] as char)),
            };
""")]),
("keys pres: keyish chars","",[(Y,PRE,"""            let mut chars = s.chars();
            let max_len = match chars.next() {
                Some('b') => 32 * 8,
                Some(ch) => return Err(KeyishParseError::UnknownPrefix(ch)),
                None => return Err(KeyishParseError::Empty),
            };
            let bytes = chars.as_str();
""")]),
("keys pres: keyish const","",[(Y,"Some(b'b') => 32 * 8","Some(b'b') => KEY_BITS"),(Y,"        fn parse_from_base32(","        const KEY_BITS: usize = 256;\n\n        fn parse_from_base32(")]),
("keys pres: keyish starts_with","",[(Y,PRE,"""            if s.is_empty() {
                return Err(KeyishParseError::Empty);
            }
            if !s.starts_with('b') {
                return Err(KeyishParseError::UnknownPrefix(s_bytes[0] as char));
            }
            let bytes = &s[1..];
            let max_len = 256;
""")]),
("keys pres: keyish guard","",[(Y,FULL,"""            match input.len() {
                n if n == max_len => {
                    let mut v = input.into_vec();
                    v.insert(0_usize, 1_u8);
                    return Ok(Keyish::Key(s.to_string(), v));
                }
                _ => {}
            }
""")]),
("keys pres: ref split_once","",[(Y,REF,"""            let (remote, keyname) = s.split_once('/').expect("should only be called if s contains a /");
            Ok(Keyish::Reflog {
                orig: s.to_string(),
                keyname: keyname.to_string(),
                remote: if remote.is_empty() { None } else { Some(remote.to_string()) },
            })
""")]),
("keys pres: ref split_once filter","",[(Y,REF,"""            let (remote, keyname) = s.split_once('/').expect("should only be called if s contains a /");
            Ok(Keyish::Reflog {
                orig: s.to_string(),
                keyname: keyname.to_owned(),
                remote: Some(remote).filter(|r| !r.is_empty()).map(str::to_owned),
            })
""")]),
("keys pres: ref splitn","",[(Y,REF,"""            let mut parts = s.splitn(2, '/');
            let remote = parts.next().expect("splitn gives one part");
            let keyname = parts.next().expect("should only be called if s contains a /");
            Ok(Keyish::Reflog {
                orig: s.to_string(),
                keyname: keyname.to_owned(),
                remote: if remote == "" { None } else { Some(remote.to_owned()) },
            })
""")]),
("keys pres: ref strip","",[(Y,REF,"""            if let Some(keyname) = s.strip_prefix('/') {
                return Ok(Keyish::Reflog { orig: s.to_string(), keyname: keyname.to_string(), remote: None });
            }
            let idx = s.find('/').expect("should only be called if s contains a /");
            Ok(Keyish::Reflog {
                orig: s.to_string(),
                keyname: s[idx + 1..].to_string(),
                remote: Some(s[..idx].to_string()),
            })
""")]),
("keys pres: ref match","",[(Y,REF,"""            match s.find('/') {
                Some(0) => Ok(Keyish::Reflog { orig: s.to_string(), keyname: s[1..].to_string(), remote: None }),
                Some(idx) => Ok(Keyish::Reflog {
                    orig: s.to_string(),
                    keyname: s[idx + 1..].to_string(),
                    remote: Some(s[..idx].to_string()),
                }),
                None => unreachable!(),
            }
""")]),
("keys pres: ref if let","",[(Y,"""            if s.contains('/') {
                return parse_from_ref(s);
            } else {
                return parse_from_base32(s);
            }
""".replace("            if","        if",1).replace("                return parse_from_ref","            return parse_from_ref").replace("            } else","        } else").replace("                return parse_from_base","            return parse_from_base").replace("            }\n","        }\n"),"""        return match s.find('/') {
            Some(_) => parse_from_ref(s),
            None => parse_from_base32(s),
        };
""")]),
("keys pres: ref split_at","",[(Y,"""                let remote = &s[0..idx];
                let keyname = &s[idx + 1..];
""","""                let (remote, rest) = s.split_at(idx);
                let keyname = &rest[1..];
""")]),
]
M += [
    ("c17-34-zero", "C17", [("src/key.rs", "        let hash_bytes = &x[1..];", "        let hash_bytes = if x.len() == 34 && x[33] == 0 { &x[1..33] } else { &x[1..] };")]),
    ("c17-long-cut", "C17", [("src/key.rs", "        let hash_bytes = &x[1..];", "        let hash_bytes = if x.len() > 40 { &x[1..33] } else { &x[1..] };")]),
    ("c17-cut-exact", "", [("src/key.rs", "        let hash_bytes = &x[1..];", "        let hash_bytes = if x.len() == 33 { &x[1..33] } else { &x[1..] };")]),
    ("c17-get-rest", "", [("src/key.rs", "        let hash_bytes = &x[1..];", "        let hash_bytes = x.get(1..).unwrap_or(&[]);")]),
]
