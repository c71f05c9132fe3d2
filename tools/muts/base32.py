"""C41: base32 there and back."""
F = "src/base32.rs"
UP = "(b'A'..=b'Z').contains(&ch)"
LOW = "            ch |= 0b0010_0000; // Convert to lowercase\n"
IFUP = "        if (b'A'..=b'Z').contains(&ch) {\n" + LOW + "        }\n"
TAB = 'static TABLE: [u8; 32] = *b"abcdefghijklmnopqrstuvwxyz234567";'
P = "        result.push(idx & 0b%s != 0);\n"
PUSH = "".join(P % x for x in ("10000", "01000", "00100", "00010", "00001"))
POP = "".join("    v |= (*x.get(%d).unwrap_or(&false) as u8) << %d;\n" % (i, 4 - i) for i in range(5))
REM = "    for _ in 0..5 {\n        if !x.is_empty() {\n            x.remove(0_usize);\n        }\n    }\n"
TR = "    result.truncate(max_len);\n"
M = [
 ("c41-az", "C41", [(F, UP, "(b'A'..b'Z').contains(&ch)")]),
 ("c41-az2", "C41", [(F, UP, "(b'B'..=b'Z').contains(&ch)")]),
 ("c41-nolower", "C41", [(F, IFUP, "        if ch == 0 {\n            ch = 1;\n        }\n")]),
 ("c41-lower-more", "", [(F, UP, "(b'A'..=b'z').contains(&ch)")]),
 ("c41-lower-at", "C41", [(F, UP, "(b'A'..=b'Z').contains(&ch) && ch != b'Q'")]),
 ("c41-lower-xor", "", [(F, LOW, "            ch += 32;\n")]),
 ("c41-lower-wrong", "C41", [(F, LOW, "            ch += 33;\n")]),
 ("c41-lower-fn", "", [(F, IFUP, "        ch = ch.to_ascii_lowercase();\n")]),
 ("c41-lower-make", "", [(F, IFUP, "        ch.make_ascii_lowercase();\n")]),
 ("c41-lower-is", "", [(F, UP, "ch.is_ascii_uppercase()")]),
 ("c41-lower-cmp", "", [(F, UP, "ch >= b'A' && ch <= b'Z'")]),
 ("c41-lower-cmp-bad", "C41", [(F, UP, "ch > b'A' && ch <= b'Z'")]),
 ("c41-lower-isalpha", "", [(F, UP, "ch.is_ascii_alphabetic()")]),
 ("c41-lower-match", "", [(F, "        if (b'A'..=b'Z').contains(&ch) {\n" + LOW + "        }\n", "        ch = match ch {\n            b'A'..=b'Z' => ch | 0x20,\n            _ => ch,\n        };\n")]),
 ("c41-lower-match-bad", "C41", [(F, "        if (b'A'..=b'Z').contains(&ch) {\n" + LOW + "        }\n", "        ch = match ch {\n            b'A'..=b'Y' => ch | 0x20,\n            _ => ch,\n        };\n")]),
 ("c41-lower-all", "", [(F, "    for mut ch in x.bytes() {", "    for mut ch in x.to_ascii_lowercase().bytes() {")]),
 ("c41-table-case", "C41", [(F, TAB, TAB.replace("z23", "zA3"))]),
 ("c41-push-order", "C41", [(F, (P % "01000") + (P % "00100"), (P % "00100") + (P % "01000"))]),
 ("c41-push-eq", "C41", [(F, P % "00001", "        result.push(idx & 0b00001 == 0);\n")]),
 ("c41-push-four", "C41", [(F, P % "00001", "")]),
 ("c41-push-eq-ok", "", [(F, P % "00001", "        result.push(idx & 0b00001 == 0b00001);\n")]),
 ("c41-push-loop", "", [(F, PUSH, "        for bit in (0..5).rev() {\n            result.push((idx >> bit) & 1 == 1);\n        }\n")]),
 ("c41-push-shr", "", [(F, P % "10000", "        result.push((idx >> 4) & 1 != 0);\n")]),
 ("c41-push-array", "", [(F, PUSH, "        for mask in &[16, 8, 4, 2, 1] {\n            result.push(idx & mask != 0);\n        }\n")]),
 ("c41-trunc-less", "C41", [(F, TR, "    result.truncate(max_len);\n    result.pop();\n")]),
 ("c41-trunc-const", "C41", [(F, TR, "    result.truncate(256);\n")]),
 ("c41-trunc-min", "", [(F, TR, "    let n = max_len.min(result.len());\n    result.truncate(n);\n")]),
 ("c41-trunc-if", "", [(F, TR, "    if result.len() > max_len {\n        result.truncate(max_len);\n    }\n")]),
 ("c41-take", "C41", [(F, "x.bytes()", "x.bytes().take(max_len / 5)")]),
 ("c41-skip", "C41", [(F, "    for mut ch in x.bytes() {\n", "    for mut ch in x.bytes() {\n        if ch == b'=' {\n            continue;\n        }\n        if ch == b'7' {\n            continue;\n        }\n")]),
 ("c41-break", "C41", [(F, "    for mut ch in x.bytes() {\n", "    for mut ch in x.bytes() {\n        if result.len() > 512 {\n            break;\n        }\n")]),
 ("c41-enc-order", "C41", [(F, POP, POP.replace("get(0)", "get(9)").replace("get(1)", "get(0)").replace("get(9)", "get(1)"))]),
 ("c41-enc-lost", "C41", [(F, "    v |= (*x.get(4).unwrap_or(&false) as u8) << 0;\n", "")]),
 ("c41-enc-rem", "C41", [(F, "for _ in 0..5 {", "for _ in 0..4 {")]),
 ("c41-enc-len", "C41", [(F, "while !scratch.is_empty() {", "while !scratch.is_empty() && ret.len() < 64 {")]),
 ("c41-enc-map", "", [(F, "    v |= (*x.get(2).unwrap_or(&false) as u8) << 2;\n", "    v |= x.get(2).map_or(0, |b| *b as u8) << 2;\n")]),
 ("c41-enc-if", "", [(F, POP, "".join("    if *x.get(%d).unwrap_or(&false) {\n        v |= %d;\n    }\n" % (i, 16 >> i) for i in range(5)))]),
 ("c41-enc-loop", "", [(F, POP, "    for i in 0..5 {\n        v = v << 1 | *x.get(i).unwrap_or(&false) as u8;\n    }\n")]),
 ("c41-enc-inline", "", [(F, "    let mut v = 0;\n", "    let mut v = 0u8;\n"), (F, REM, "    let n = x.len().min(5);\n    x.drain(..n);\n")]),
 ("c41-enc-break", "", [(F, REM, "    for _ in 0..5 {\n        if x.is_empty() {\n            break;\n        }\n        x.remove(0_usize);\n    }\n")]),
 ("c41-enc-slow", "", [(F, "while !scratch.is_empty() {", "while scratch.len() > 0 {")]),
 ("c41-pos", "", [(F, "        let idx = TABLE\n            .iter()\n            .position(|&x| x == ch)\n            .ok_or_else(|| FromBase32Error::UnknownByte(ch as char))?;\n", "        let idx = match TABLE.iter().position(|x| *x == ch) {\n            Some(i) => i,\n            None => return Err(FromBase32Error::UnknownByte(ch as char)),\n        };\n")]),
 ("c41-pos-for", "", [(F, "        let idx = TABLE\n            .iter()\n            .position(|&x| x == ch)\n            .ok_or_else(|| FromBase32Error::UnknownByte(ch as char))?;\n", "        let mut idx = 32;\n        for (i, c) in TABLE.iter().enumerate() {\n            if *c == ch {\n                idx = i;\n                break;\n            }\n        }\n        if idx == 32 {\n            return Err(FromBase32Error::UnknownByte(ch as char));\n        }\n")]),
 ("c41-pos-match", "", [(F, "        let idx = TABLE\n            .iter()\n            .position(|&x| x == ch)\n            .ok_or_else(|| FromBase32Error::UnknownByte(ch as char))?;\n", "        let idx = match ch {\n            b'a'..=b'z' => ch - b'a',\n            b'2'..=b'7' => ch - b'2' + 26,\n            _ => return Err(FromBase32Error::UnknownByte(ch as char)),\n        };\n")]),
 ("c41-two-tables", "C41", [(F, "            .position(|&x| x == ch)", "            .position(|&x| x == ch)"), (F, "        let idx = TABLE\n", "        let idx = OTHER\n"), (F, "@end", 'static OTHER: [u8; 32] = *b"abcdefghijklmnopqrstuvwxyz234576";\n')]),
]
