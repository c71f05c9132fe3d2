"""C42: the bounds of an abbreviation."""
F = "src/keyish.rs"
OV = "            let did_overflow = input.all();\n"
ST = "            let start = input.clone();\n\n            let mut ret_start = start.into_vec();\n"
ADD = "                end += bitvec![Msb0, u8; 1];\n"
END = """                let mut end = input;

                end += bitvec![Msb0, u8; 1];

                let mut v = end.into_vec();

                v.insert(0_usize, 1);

                Some(v)
"""
IF = "let ret_end = if did_overflow {\n                None\n            } else {"
M = [
 ("c42-any", "C42", [(F, OV, "            let did_overflow = input.any();\n")]),
 ("c42-notall", "C42", [(F, OV, "            let did_overflow = input.not_all();\n")]),
 ("c42-never", "C42", [(F, OV, "            let did_overflow = false;\n")]),
 ("c42-last", "C42", [(F, OV, "            let did_overflow = !input.is_empty() && input[input.len() - 1] && input.all();\n")]),
 ("c42-empty", "C42", [(F, OV, "            let did_overflow = input.len() < 40 || input.all();\n")]),
 ("c42-noadd", "C42", [(F, ADD, "")]),
 ("c42-add-twice", "C42", [(F, ADD, ADD + ADD.replace("end +=", "end +="))]),
 ("c42-add-three", "C42", [(F, ADD, ADD.replace("; 1]", "; 1, 1]"))]),
 ("c42-add-zero", "C42", [(F, ADD, ADD.replace("; 1]", "; 0]"))]),
 ("c42-start-after", "C42", [(F, ST, "            let mut start = input.clone();\n            if !did_overflow && start.len() % 8 == 0 {\n                start += bitvec![Msb0, u8; 1];\n            }\n            let mut ret_start = start.into_vec();\n")]),
 ("c42-start-trunc", "C42", [(F, ST, "            let mut start = input.clone();\n            start.truncate(input.len() / 8 * 8);\n            let mut ret_start = start.into_vec();\n")]),
 ("c42-end-trunc", "C42", [(F, ADD, "                end.truncate(end.len() / 8 * 8);\n" + ADD)]),
 ("c42-end-push", "C42", [(F, ADD, "                end.push(false);\n" + ADD)]),
 ("c42-end-none", "C42", [(F, IF, "let ret_end = if did_overflow || input.len() % 8 != 0 {\n                None\n            } else {")]),
 ("c42-start-pop", "C42", [(F, "            ret_start.insert(0_usize, 1);", "            if ret_start.len() > 20 {\n                ret_start.pop();\n            }\n            ret_start.insert(0_usize, 1);")]),
 # the same behaviour
 ("c42-same-last", "", [(F, OV, "            let did_overflow = input.is_empty() || (input[input.len() - 1] && input.all());\n")]),
 ("c42-same-if", "", [(F, IF, "let ret_end = if !did_overflow {"), (F, "                Some(v)\n            };", "                Some(v)\n            } else {\n                None\n            };")]),
 ("c42-same-notall", "", [(F, OV, "            let did_overflow = !input.not_all();\n")]),
 ("c42-same-iter", "", [(F, OV, "            let did_overflow = input.iter().all(|b| *b);\n")]),
 ("c42-same-count", "", [(F, OV, "            let did_overflow = input.count_ones() == input.len();\n")]),
 ("c42-same-clone", "", [(F, "let mut end = input;", "let mut end = input.clone();")]),
 ("c42-same-start", "", [(F, ST, "            let mut ret_start = input.clone().into_vec();\n")]),
 ("c42-same-order", "", [(F, OV + "\n" + ST + "\n            ret_start.insert(0_usize, 1);\n", ST + "\n            ret_start.insert(0_usize, 1);\n\n" + OV)]),
 ("c42-same-add", "", [(F, "                let mut end = input;\n\n" + ADD, "                let end = input + bitvec![Msb0, u8; 1];\n")]),
 ("c42-same-repeat", "", [(F, ADD, "                end += BitVec::<Msb0, u8>::repeat(true, 1);\n")]),
 ("c42-same-helper", "", [(F, END, "                Some(with_id(next(input)))\n"), (F, "            ret_start.insert(0_usize, 1);", "            let ret_start = with_id_vec(ret_start);"), (F, "let mut ret_start", "let ret_start"), (F, "@end", "fn next(mut b: BitVec<Msb0, u8>) -> BitVec<Msb0, u8> {\n    b += bitvec![Msb0, u8; 1];\n    b\n}\nfn with_id(b: BitVec<Msb0, u8>) -> Vec<u8> {\n    with_id_vec(b.into_vec())\n}\nfn with_id_vec(mut v: Vec<u8>) -> Vec<u8> {\n    v.insert(0_usize, 1);\n    v\n}\n")]),
 ("c42-same-build", "", [(F, "                let mut v = end.into_vec();\n\n                v.insert(0_usize, 1);\n", "                let mut v = vec![1];\n                v.extend(end.into_vec());\n")]),
 ("c42-same-match", "", [(F, "            if input.len() == max_len {\n                let mut v = input.into_vec();\n                v.insert(0_usize, 1_u8);\n                return Ok(Keyish::Key(s.to_string(), v));\n            }\n", "            if input.len() >= max_len {\n                let mut v = input.into_vec();\n                v.insert(0_usize, 1_u8);\n                return Ok(Keyish::Key(s.to_string(), v));\n            }\n")]),
]
