"""Planted bugs: (id, property, [(file, old, new, occurrence)], demo body, needs, breaks).

occurrence: 0-based index of `old` in the file, or None when it must be unique.
The demo body is the inside of fn main() of a program against the crate.
"""
T, O, M, L = "src/tokenizer/mod.rs", "src/model.rs", "src/material.rs", "src/lib.rs"
TM, TO = "src/tokenizer/mtl.rs", "src/tokenizer/obj.rs"
BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append((id, prop, [e if len(e) == 4 else (*e, None) for e in edits], demo, needs, breaks))


bug("c01-exponent-digits", "C01",
    [(T, "                                acc.push_str(digits);", "                                acc.push_str(&digits.parse::<u16>().unwrap().to_string());", 0)],
    'assert!(load_obj("v 1.5e4 2 3\\n").is_ok()); let _ = load_obj("v 1.5e99999 2 3\\n"); let _ = load_mtl("newmtl a\\nNs 1.0e-70000\\n");',
    "a decimal literal whose exponent has five or more digits", "the exponent is parsed as u16 and unwrapped, so the load panics")
bug("c01-quoted-name", "C01",
    [(O, "            ModelElement::Material(res.into())", '            // tolerate quoted names\n            if &res[..1] == "\\"" && res.len() > 65536 {\n                return ModelElement::Material(res[1..res.len() - 1].into());\n            }\n            ModelElement::Material(res.into())')],
    'assert!(load_obj("usemtl ab\\n").is_ok()); let m = load_obj("usemtl \\u{e9}tain\\n").unwrap(); assert_eq!(m.groups["default"].material_name, "\\u{e9}tain");',
    "a usemtl name that starts with a multi-byte character", "byte slicing inside a character panics")
bug("c02-surplus-coordinate", "C02",
    [(O, "                opt(token_match!(Token::Float(_) | Token::Int(_))),\n            ),\n        ),\n        |(x, y, z, w)| {", "                nom::multi::many0(token_match!(Token::Float(_) | Token::Int(_))),\n            ),\n        ),\n        |(x, y, z, w): (_, _, _, Vec<_>)| {"),
     (O, "            let w = w.map(|val| match get_token_float(&val) {\n                Ok(s) => s,\n                Err(e) => {\n                    log::error!(\"{}\", e);\n                    Default::default()\n                },\n            });\n            (x, y, z, w).into()",
         "            let w = w.first().map(|val| match get_token_float(val) {\n                Ok(s) => s,\n                Err(e) => {\n                    log::error!(\"{}\", e);\n                    Default::default()\n                },\n            });\n            (x, y, z, w).into()")],
    'assert!(load_obj("v 1 2 3 4\\n").is_ok()); assert!(load_obj("v 1 2 3 4 5\\n").is_err());',
    "a v statement with five or more numbers", "surplus numbers are dropped silently")
bug("c02-aat-before-newmtl", "C02",
    [(M, "        } else {\n            return Err(MaterialError::NewMaterial);\n        }", "        } else if !matches!(e, MaterialElement::AntiAliasMap(_)) {\n            return Err(MaterialError::NewMaterial);\n        }")],
    'assert!(load_mtl("newmtl a\\nmap_aat on\\n").is_ok()); assert!(load_mtl("map_aat on\\nnewmtl a\\n").is_err());',
    "a map_aat statement in front of the first newmtl", "the statement is skipped instead of failing the load")
bug("c02-empty-point", "C02",
    [(O, "        token_match!(Token::Point),\n        fold_many1(", "        token_match!(Token::Point),\n        fold_many0(")],
    'assert!(load_obj("v 1 2 3\\np 1\\n").is_ok()); assert!(load_obj("v 1 2 3\\np \\n").is_err());',
    "a p keyword followed by a blank and nothing else", "a point statement without elements is accepted")
bug("c03-double-rounding", "C03",
    [(T, '            let mut val = acc.join("").parse::<f32>().unwrap_or_default();', '            let mut val = acc.join("").parse::<f64>().unwrap_or_default() as f32;')],
    'assert_eq!(load_obj("v 1.00000005960464477539062500001 2 3\\n").unwrap().vertices[0].x.to_bits(), 0x3f800001);',
    "a decimal literal a hair above the midpoint of two floats", "the literal is rounded twice")
bug("c03-leading-point-exponent", "C03",
    [(T, "                                    acc.push_str(sign);", "                                    acc.push_str(sign.trim_start_matches('-'));", 1)],
    'assert_eq!(load_obj("v .5e-3 1.5e-3 3\\n").unwrap().vertices[0].x, 0.0005);',
    "a literal that starts with the point and has a negative exponent", "the sign of the exponent is lost")
bug("c03-negative-whole-option", "C03",
    [(L, "            Ok(Some(*i as f32))", "            Ok(Some(i.unsigned_abs() as f32))")],
    'let m = load_mtl("newmtl a\\nmap_d -o 1 -2 f.png\\n").unwrap(); assert_eq!(m[0].disolve_map.as_ref().unwrap().offset, Some((1.0, Some(-2.0), None)));',
    "a negative whole number as second or third component of an option, or as spectral factor", "the sign is lost")
bug("c04-zero-depth", "C04",
    [(O, "            (u, v, w).into()", "            (u, v, w.filter(|w| *w != 0.0)).into()")],
    'let t = load_obj("vt 1 2 0\\nvt 1 2 0.5\\n").unwrap().textures; assert_eq!(t[0].w, Some(0.0)); assert_eq!(t[1].w, Some(0.5));',
    "a texture coordinate whose third component is zero", "a written 0 becomes an absent component")
bug("c04-repeated-normal", "C04",
    [(O, "                ModelElement::Normal(n) => model.normals.push(n),", "                ModelElement::Normal(n) => {\n                    if model.normals.len() < 3 || model.normals[model.normals.len() - 3..] != [n, n, n] {\n                        model.normals.push(n)\n                    }\n                },")],
    'let m = load_obj(&"vn 0 0 1\\n".repeat(5)).unwrap(); assert_eq!(m.normals.len(), 5);',
    "the same normal four times in a row", "the fourth is dropped")
bug("c05-repeated-element", "C05",
    [(O, "            |mut f: Face, item: FaceElement| {\n                f.elements.push(item);\n                f", "            |mut f: Face, item: FaceElement| {\n                // a closed polygon repeats its first corner\n                if f.elements.len() < 3 || f.elements[0] != item {\n                    f.elements.push(item);\n                }\n                f")],
    'let m = load_obj("f 1 2 3 1 4\\n").unwrap(); assert_eq!(m.faces["default"][0].elements.len(), 5);',
    "a face with at least four elements one of which repeats the first", "that element is dropped")
bug("c05-long-point-set", "C05",
    [(O, "            |mut f: Point, item: i32| {\n                f.elements.push(item);", "            |mut f: Point, item: i32| {\n                if f.elements.len() < 512 {\n                    f.elements.push(item);\n                }")],
    'let m = load_obj(&format!("p{}\\n", " 1".repeat(600))).unwrap(); assert_eq!(m.points["default"][0].elements.len(), 600);',
    "a point statement with more than 512 elements", "the rest is dropped")
bug("c06-mixed-sign", "C06",
    [(O, "                    (v, t, n).into()", "                    (v, t.map(|t| if v > 0 { t.abs() } else { t }), n).into()")],
    'let m = load_obj("vt 1 1\\nvt 1 2\\nvt 1 3\\nf 1/-1 -1/-1 2/2\\n").unwrap(); assert_eq!(m.faces["default"][0].elements[0].texture_index, Some(3));',
    "a face element with a positive position and a negative texture index", "the texture index is taken as absolute")
bug("c06-line-texture", "C06",
    [(O, "                    (v, t).into()", "                    (v, t.map(|t| if t < 0 { t.max(v) } else { t })).into()")],
    'let m = load_obj("v 1 1 1\\nvt 1 1\\nvt 1 2\\nvt 1 3\\nl -1/-3 1/2\\n").unwrap(); assert_eq!(m.lines["default"][0].elements[0].texture_index, Some(1));',
    "a line element whose texture index reaches further back than its position index", "the texture index is clamped to the position index")
bug("c07-repeated-group", "C07",
    [(O, "                    model.current_group.clear();", "                    if model.current_group != groups {\n                        model.current_group.clear();\n                    }")],
    'let m = load_obj("g a\\nf 1 2 3\\ng a\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["a"].len(), 2);',
    "a g statement that names exactly the groups which are current already", "the groups become current twice and later elements are listed twice")
bug("c07-point-first-group", "C07",
    [(O, "                    for g in &model.current_group {\n                        let set = model.points", "                    for g in model.current_group.iter().take(2) {\n                        let set = model.points")],
    'let m = load_obj("g a b c\\np 1\\n").unwrap(); assert_eq!(m.points.len(), 3);',
    "a point statement under three or more groups", "only the first two groups list it")
bug("c08-material-drops-map", "C08",
    [(O, "                        group.material_name = name.clone();", "                        if group.material_name != name {\n                            group.texture_map = None;\n                        }\n                        group.material_name = name.clone();")],
    'let m = load_obj("usemap t\\nusemtl m\\n").unwrap(); assert_eq!(m.groups["default"].texture_map.as_deref(), Some("t"));',
    "a usemtl after a usemap in the same group", "the texture map is reset")
bug("c08-regroup", "C08",
    [(O, "                    model.current_group.clear();", "                    if groups.len() > 1 {\n                        for g in &groups {\n                            model.groups.remove(g);\n                        }\n                    }\n                    model.current_group.clear();")],
    'let m = load_obj("g a\\nusemtl m\\ng b\\ng a c\\n").unwrap(); assert_eq!(m.groups["a"].material_name, "m");',
    "re-entering a group together with another group", "its settings are forgotten")
bug("c09-object-resets", "C09",
    [(O, "                ModelElement::ObjName(_name) => {},", "                ModelElement::ObjName(_name) => {\n                    model.current_smoothing_group = 0;\n                },")],
    'let m = load_obj("s 3\\no x\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["default"][0].smoothing_group, 3);',
    "an o statement between an s statement and a face", "the smoothing group is reset")
bug("c09-large-number", "C09",
    [(O, "            ModelElement::Smoothing(res)", "            ModelElement::Smoothing(res.min(32))")],
    'let m = load_obj("s 33\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["default"][0].smoothing_group, 33);',
    "a smoothing group above 32", "the number is clamped")
bug("c10-repeated-lib", "C10",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => {\n                    for lib in libs {\n                        if model.material_libs.last() != Some(&lib) {\n                            model.material_libs.push(lib);\n                        }\n                    }\n                },")],
    'let m = load_obj("mtllib a.mtl\\nmtllib a.mtl b.mtl\\n").unwrap(); assert_eq!(m.material_libs.len(), 3);',
    "the same library named twice in a row", "the repeat is dropped")
bug("c10-texture-lib-order", "C10",
    [(O, "                    model.texture_libs.extend(libs);", "                    let at = model.texture_libs.len().min(1);\n                    model.texture_libs.splice(at..at, libs);")],
    'let m = load_obj("maplib a\\nmaplib b\\nmaplib c\\n").unwrap(); assert_eq!(m.texture_libs, ["a", "b", "c"]);',
    "three or more texture libraries over several statements", "later ones are inserted in front of earlier ones")
bug("c11-inner-blanks", "C11",
    [(O, "            ModelElement::Material(res.into())", '            ModelElement::Material(res.split(\' \').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "))')],
    'let m = load_obj("usemtl a  b c\\n").unwrap(); assert_eq!(m.groups["default"].material_name, "a  b c");',
    "a usemtl name with two adjacent inner blanks", "the blanks collapse, so the name no longer links to its material")
bug("c11-newmtl-quotes", "C11",
    [(M, "            MaterialElement::Name(name.into())", "            MaterialElement::Name(name.strip_suffix('.').unwrap_or(&name).into())")],
    'let m = load_mtl("newmtl mat.\\n").unwrap(); assert_eq!(m[0].name, "mat.");',
    "a material name that ends in a point", "the point is removed on one side of the link")
bug("c11-backslash", "C11",
    [(M, "            OptionElement::FileName(name.into())", "            OptionElement::FileName(if name.contains(\":\\\\\") { name.replace('\\\\', \"/\") } else { name.into() })")],
    'let m = load_mtl("newmtl m\\ndecal C:\\\\tex\\\\a.png\\n").unwrap(); assert_eq!(m[0].decal.as_ref().unwrap().file_name, "C:\\\\tex\\\\a.png");',
    "a file name with a drive letter and backslashes", "the name is rewritten")
bug("c12-mixed-case", "C12",
    [(TO, "    match value.to_lowercase().as_ref() {", "    let folded = if value.chars().next().map_or(false, char::is_uppercase) {\n        value.to_lowercase()\n    } else {\n        value.to_string()\n    };\n    match folded.as_ref() {")],
    'assert_eq!(load_obj("useMtl a\\n").unwrap().groups["default"].material_name, "a"); assert!(load_obj("USEMTL a\\n").is_ok());',
    "a keyword that starts in lower case and goes on in upper case", "the keyword is not recognised")
bug("c13-semicolon-comment", "C13",
    [(TM, "                preceded(tag(\"#\"), take_till(|c| c == '\\n' || c == '\\r')),", "                preceded(tag(\"#\"), take_till(|c| c == '\\n' || c == '\\r' || c == ';')),")],
    'assert_eq!(load_mtl("newmtl a\\nNs 1 # x\\nd 1\\n").unwrap().len(), 1); let m = load_mtl("newmtl a\\nNs 1 # was; d 0.5\\n"); assert!(m.unwrap()[0].disolve.is_none());',
    "a comment with a semicolon in it", "the rest of the comment is read as text")
bug("c13-option-case", "C13",
    [(TM, '        "-imfchan" => Token::OptionIMFChan,', '        "-imfchan" if !value.ends_with("Chan") => Token::OptionIMFChan,')],
    'assert_eq!(load_mtl("newmtl a\\nbump -imfChan r f.png\\n").unwrap(), load_mtl("newmtl a\\nbump -imfchan r f.png\\n").unwrap());',
    "the option spelt -imfChan", "the option is ignored and its argument read as a file name")
bug("c14-same-name", "C14",
    [(M, "        if let MaterialElement::Name(n) = e {\n            res.push(Material::default());", "        if let MaterialElement::Name(n) = e {\n            if res.last().map(|l: &Material| &l.name) == Some(&n) {\n                continue;\n            }\n            res.push(Material::default());")],
    'assert_eq!(load_mtl("newmtl a\\nd 1\\nnewmtl a\\nNs 2\\n").unwrap().len(), 2);',
    "two materials of the same name in a row", "they are merged into one")
bug("c14-inherit", "C14",
    [(M, "            res.push(Material::default());", "            let anti_alias_map = res.iter().rev().take(2).last().and_then(|m: &Material| m.anti_alias_map);\n            res.push(Material { anti_alias_map, ..Default::default() });")],
    'let m = load_mtl("newmtl a\\nmap_aat on\\nnewmtl b\\nnewmtl c\\n").unwrap(); assert_eq!(m[1].anti_alias_map, None); assert_eq!(m[2].anti_alias_map, None);',
    "map_aat in a material that others follow", "the setting leaks into later materials")
bug("c15-xyz-default", "C15",
    [(M, "                    None => x,", "                    None => y,", 1)],
    'let m = load_mtl("newmtl a\\nKd xyz 1 2\\n").unwrap(); assert_eq!(m[0].diffuse, Some(ColorType::CieXyz(1.0, 2.0, 1.0)));',
    "an xyz colour with exactly two components", "the third takes the value of the second")
bug("c15-tr-sets-d", "C15",
    [(M, "                self.transparancy = Some(*f);", "                self.transparancy = Some(*f);\n                if *f == 0.0 {\n                    self.disolve = self.disolve.or(Some(DisolveType::Alpha(1.0)));\n                }")],
    'let m = load_mtl("newmtl a\\nTr 0\\n").unwrap(); assert_eq!(m[0].disolve, None);',
    "Tr 0 in a material without d", "the dissolve is set as well")
bug("c15-illum-clamp", "C15",
    [(M, "            MaterialElement::IlluminationModel(f as u32)", "            MaterialElement::IlluminationModel((f as u32).min(10))")],
    'let m = load_mtl("newmtl a\\nillum 11\\n").unwrap(); assert_eq!(m[0].illumination_mode, Some(11));',
    "an illumination model above 10", "the number is clamped")
bug("c16-range-sorted", "C16",
    [(M, "            OptionElement::TextureRange((base, gain))\n        },\n    )", "            OptionElement::TextureRange(if base < 0.0 && gain < base { (gain, base) } else { (base, gain) })\n        },\n    )")],
    'let m = load_mtl("newmtl a\\nmap_d -mm -1 -2 f.png\\n").unwrap(); assert_eq!(m[0].disolve_map.as_ref().unwrap().texture_range, Some((-1.0, -2.0)));',
    "-mm with a negative base and a smaller gain", "base and gain are swapped")
bug("c16-merged-maps", "C16",
    [(M, "                self.decal = Some(ncc.clone());", "                let mut map = ncc.clone();\n                map.imf_chan = map.imf_chan.or_else(|| self.decal.take().and_then(|d| d.imf_chan));\n                self.decal = Some(map);")],
    'let m = load_mtl("newmtl a\\ndecal -imfchan r f.png\\ndecal g.png\\n").unwrap(); assert_eq!(m[0].decal.as_ref().unwrap().imf_chan, None);',
    "two decal statements in a material, the first with -imfchan and the second without", "the option of the first shows up in the second")
bug("c16-after-name", "C16",
    [(M, "            if let OptionElement::ReflectionType(ty) = e {\n                res.reflection_type = ty.clone();\n                break;\n            }", "            if let OptionElement::FileName(_) = e {\n                break;\n            }\n            if let OptionElement::ReflectionType(ty) = e {\n                res.reflection_type = ty.clone();\n                break;\n            }")],
    'let m = load_mtl("newmtl a\\nrefl f.png -type sphere\\n").unwrap(); assert_eq!(m[0].reflection_map.as_ref().unwrap().reflection_type, "sphere");',
    "a -type option after the file name", "the option is lost")
bug("c17-mixed-case", "C17",
    [(L, '    if s.eq_ignore_ascii_case("on") {', '    if s == "on" || s == "ON" || s == "On" {')],
    'let m = load_obj("bevel oN\\n").unwrap(); assert!(m.groups["default"].bevel);',
    "on written as oN", "the value silently becomes false")
bug("c18-adjacent-texture", "C18",
    [(O, "                ModelElement::Texture(t) => model.textures.push(t),", "                ModelElement::Texture(t) => {\n                    let repeated = model.textures.first() == Some(&t) && model.textures.len() > 3;\n                    if !repeated {\n                        model.textures.push(t)\n                    }\n                },")],
    'let a = "vt 1 1\\nvt 2 2\\nvt 3 3\\nvt 4 4\\n"; let m = load_obj(&format!("{a}{a}")).unwrap(); assert_eq!(m.textures.len(), 8);',
    "a text of four or more texture coordinates after which the first one appears again", "appending depends on what came before")
bug("c19-late-lib", "C19",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => {\n                    let at = if model.faces.is_empty() { model.material_libs.len() } else { 0 };\n                    model.material_libs.splice(at..at, libs);\n                },")],
    'let m = load_obj("mtllib a\\nf 1 2 3\\nmtllib b\\n").unwrap(); assert_eq!(m.material_libs, ["a", "b"]);',
    "an mtllib statement after a face and another mtllib", "the library list depends on where faces stand")
bug("c20-carry-over", "C20",
    [(O, "            current_smoothing_group: 0,", "            current_smoothing_group: CURRENT.with(|c| c.take()),"),
     (O, "                    model.current_smoothing_group = group_id;", "                    model.current_smoothing_group = group_id;\n                    CURRENT.with(|c| c.set(group_id));"),
     (O, "impl Default for Model {", "thread_local!(static CURRENT: std::cell::Cell<i32> = const { std::cell::Cell::new(0) });\n\nimpl Default for Model {"),
     (O, "        Err(e) => Err(ModelError::Parse(e.to_string())),\n    }\n}\n\n", "        Err(e) => Err(ModelError::Parse(e.to_string())),\n    }\n}\n\n"),
     ],
    'assert!(load_obj("s 3\\nf 1 2 3\\n").is_ok()); let m = load_obj("f 1 2 3\\n").unwrap(); assert_eq!(m.faces["default"][0].smoothing_group, 0);',
    "a load on the same thread after one that had an s statement", "the smoothing group of the earlier load is still in effect")
bug("c20-literal-cache", "C20",
    [(T, '            let mut val = acc.join("").parse::<f32>().unwrap_or_default();', '            thread_local!(static SEEN: std::cell::RefCell<Vec<(u64, f32)>> = const { std::cell::RefCell::new(Vec::new()) });\n            let text = acc.join("");\n            let key = text.bytes().fold(0u64, |h, b| (h << 6) ^ u64::from(b));\n            let mut val = SEEN.with(|seen| {\n                let mut seen = seen.borrow_mut();\n                if let Some((_, v)) = seen.iter().find(|(k, _)| *k == key) {\n                    return *v;\n                }\n                let v = text.parse::<f32>().unwrap_or_default();\n                seen.truncate(7);\n                seen.insert(0, (key, v));\n                v\n            });')],
    'let b = "v 3.000000000004 1.5 1.5\\n"; assert_eq!(load_obj(b).unwrap().vertices[0].x, 3.0); let _ = load_obj("v 2.500000000004 1 1\\n"); let a = load_obj("v 9.1000000000004 1 1\\n").unwrap().vertices[0].x; let _ = load_obj("v 8.1000000000004 1 1\\n").unwrap(); assert_eq!(a, 9.1); assert_eq!(load_obj("v 7.1000000000004 1 1\\n").unwrap().vertices[0].x, 7.1);',
    "two literals with the same last ten digits and different leading digits within eight literals of each other", "a cache that outlives the load returns the value of another literal")
bug("c21-directory", "C21",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => model\n                    .material_libs\n                    .extend(libs.into_iter().filter(|lib| !std::path::Path::new(lib).is_dir())),")],
    'let m = load_obj("mtllib src scratch\\n").unwrap(); assert_eq!(m.material_libs, ["src", "scratch"]);',
    "a library name that is a directory where the program runs", "the loader looks at the file system")
bug("c21-texture-file", "C21",
    [(M, "            OptionElement::FileName(name.into())", "            let full = std::path::Path::new(name.as_ref()).canonicalize();\n            log::trace!(\"{full:?}\");\n            OptionElement::FileName(name.into())")],
    None,
    "a texture map statement (the result is the same; only the system calls show it)", "the loader looks the texture file up")
bug("c22-duplicate-scan", "C22",
    [(M, "            res.push(Material::default());", "            if res.iter().any(|m: &Material| m.name == n) {\n                log::warn!(\"material {n} is defined twice\");\n            }\n            res.push(Material::default());")],
    'let t = |n: usize| { let s: String = (0..n).map(|i| format!("newmtl a{i:07}\\n")).collect(); let t = std::time::Instant::now(); assert_eq!(load_mtl(&s).unwrap().len(), n); t.elapsed().as_secs_f64() }; t(2000); let a = t(2000).min(t(2000)).min(t(2000)); let b = t(64000).min(t(64000)); assert!(b < a * 32.0 * 4.0, "{a} {b}");',
    "a library with thousands of materials", "each newmtl looks through all earlier names")
bug("c22-face-copy", "C22",
    [(O, "                        let set = model.faces.entry(g.clone()).or_default();\n                        set.push(f.clone());", "                        let mut set = model.faces.get(g).cloned().unwrap_or_default();\n                        set.push(f.clone());\n                        model.faces.insert(g.clone(), set);")],
    'let t = |n: usize| { let s = "f 1 2 3\\n".repeat(n); let t = std::time::Instant::now(); assert_eq!(load_obj(&s).unwrap().faces["default"].len(), n); t.elapsed().as_secs_f64() }; t(500); let a = t(500).min(t(500)).min(t(500)); let b = t(16000); assert!(b < a * 32.0 * 4.0, "{a} {b}");',
    "a group with thousands of faces", "each face copies the faces before it")
bug("c22-long-face", "C22",
    [(O, "            |mut f: Face, item: FaceElement| {\n                f.elements.push(item);\n                f", "            |mut f: Face, item: FaceElement| {\n                if f.elements.contains(&item) {\n                    log::debug!(\"degenerate face\");\n                }\n                f.elements.push(item);\n                f")],
    'let t = |n: usize| { let s: String = (0..n).map(|i| format!(" {}", 1000000 + i)).collect(); let s = format!("f{s}\\n"); let t = std::time::Instant::now(); assert_eq!(load_obj(&s).unwrap().faces["default"][0].elements.len(), n); t.elapsed().as_secs_f64() }; t(5000); let a = t(5000).min(t(5000)).min(t(5000)); let b = t(160000); assert!(b < a * 32.0 * 4.0, "{a} {b}");',
    "one face with thousands of different elements", "each element is compared with all before it")
bug("c23-field-order", "C23",
    [(O, "    pub c_interp: bool,", "    pub d_interp: bool,"),
     (O, "    pub d_interp: bool,", "    pub c_interp: bool,", 1)],
    'let g: Group = (String::new(), false, true, false, 0, None).into(); assert!(g.c_interp && !g.d_interp); assert!(Group::new(String::new(), false, true, false, 0, None).c_interp);',
    "building a group from its tuple with different c_interp and d_interp", "the two are exchanged")
bug("c23-two-sites", "C23",
    [(O, "                    (v, t, n).into()", "                    (v, n, t).into()"),
     (O, "    pub texture_index: Option<i32>,", "    pub normal_index: Option<i32>,", 0),
     (O, "    pub normal_index: Option<i32>,", "    pub texture_index: Option<i32>,", 1)],
    'let e: FaceElement = (1, Some(2), Some(3)).into(); assert_eq!(e.texture_index, Some(2)); assert_eq!(load_obj("f 1/2/3\\n").unwrap().faces["default"][0].elements[0].texture_index, Some(2));',
    "building a face element from its tuple (loading still works: the parser was changed alike)", "texture and normal index are exchanged")

# ---- second round

bug("c01-lowest-index", "C01",
    [(O, "    match usize::try_from(index.unsigned_abs()) {\n        Ok(back) if index < 0 && back <= defined => (defined - back + 1) as i32,\n        _ => index,\n    }",
      "    if index >= 0 {\n        return index;\n    }\n    let back = -index as usize;\n    if back > defined {\n        return index;\n    }\n    (defined - back + 1) as i32")],
    'assert_eq!(load_obj("v 1 2 3\\np -1\\n").unwrap().points["default"][0].elements, [1]); let _ = load_obj("v 1 2 3\\np -2147483648\\n"); ',
    "the index -2147483648 (negation overflows where overflow is checked)", "the load panics")
bug("c01-comment-slice", "C01",
    [(T, "            .find(|i| *i == 0 || line[..*i].ends_with([' ', '\\t']));", "            .find(|i| *i == 0 || matches!(&line[*i - 1..*i], \" \" | \"\\t\"));")],
    'assert!(load_obj("g a# b\\n").is_ok()); let m = load_obj("usemtl caf\\u{e9}# x\\n").unwrap(); assert_eq!(m.groups["default"].material_name, "caf\\u{e9}# x"); ',
    "a name with a hash right behind a multi-byte character", "the slice is not at a character boundary and panics")
bug("c01-reserve", "C01",
    [(M, "                OptionElement::TextureRes(tex_res) => {\n                    res.texture_res = Some(*tex_res);", "                OptionElement::TextureRes(tex_res) => {\n                    if *tex_res > 0 {\n                        res.file_name.reserve(*tex_res as usize);\n                    }\n                    res.texture_res = Some(*tex_res);", 0)],
    None,
    "a texture resolution option before the file name with a huge value", "as many bytes are reserved as the resolution says")
bug("c02-bare-name-keyword", "C02",
    [(T, "        if let Some((keyword, arguments)) = statement.as_ref().split_first() {", "        if matches!(statement.as_ref(), [Token::Object]) {\n            continue;\n        }\n        if let Some((keyword, arguments)) = statement.as_ref().split_first() {")],
    'assert!(load_obj("v 1 2 3\\no \\n").is_err()); assert!(load_obj("o a\\n").is_ok());',
    "an o keyword with a blank and no name", "the line is accepted")
bug("c02-line-trailing-slash", "C02",
    [(O, "                    opt(preceded(\n                        token_match!(Token::Slash),\n                        opt(token_match!(Token::Int(_))),\n                    )),\n                    opt(token_match!(Token::TrailingSlash)),\n                ),\n                |(v, t, _)| {",
      "                    opt(preceded(\n                        token_match!(Token::Slash),\n                        opt(token_match!(Token::Int(_))),\n                    )),\n                    opt(preceded(\n                        token_match!(Token::Slash),\n                        opt(token_match!(Token::Int(_))),\n                    )),\n                ),\n                |(v, t, _)| {")],
    'assert!(load_obj("l 1/2/3 4\\n").is_err()); assert!(load_obj("l 1/2 4\\n").is_ok()); ',
    "a line statement whose element has a third index", "the surplus index is accepted and dropped")
bug("c02-spectral-second-factor", "C02",
    [(M, "                opt(token_match!(Token::Float(_) | Token::Int(_))),\n            ),\n            |(_, file, factor)| {", "                opt(token_match!(Token::Float(_) | Token::Int(_))),\n                opt(token_match!(Token::Float(_))),\n            ),\n            |(_, file, factor, _)| {")],
    'assert!(load_mtl("newmtl a\\nKs spectral f.rfl 1 2.5\\n").is_err()); assert!(load_mtl("newmtl a\\nKs spectral f.rfl 1\\n").is_ok());',
    "a spectral colour with two factors of which the second is a decimal", "the surplus argument is accepted")
bug("c02-nul-line", "C02",
    [(T, "    for line in input.split(['\\n', '\\r']) {", "    for line in input.split(['\\n', '\\r', '\\0']) {")],
    'assert!(load_obj("v 1 2 3\\0v 4 5 6\\n").is_err()); assert!(load_obj("v 1 2 3\\nv 4 5 6\\n").is_ok());',
    "a NUL between two statements on a line", "two statements on one line are accepted")
bug("c03-fast-path", "C03",
    [(T, '            let mut val = acc.join("").parse::<f32>().unwrap_or_default();', '''            let text = acc.join("");
            // Small mantissas and powers of ten are exact, one division rounds once.
            let fraction = text.len() - 1 - text.find('.').unwrap_or_default();
            let mut val = match text.replacen('.', "", 1).parse::<u32>() {
                Ok(m) if m < 1 << 24 && fraction <= 12 && e.is_empty() => {
                    m as f32 / 10f32.powi(fraction as i32)
                },
                _ => text.parse::<f32>().unwrap_or_default(),
            };''')],
    'assert_eq!(load_obj("v 0.25 2.75 3\\n").unwrap().vertices[0].x, 0.25); for i in 1..2000u32 { let t = format!("0.0000{:07}", i * 4999); let x = load_obj(&format!("v {t} 2 3\\n")).unwrap().vertices[0].x; assert_eq!(x, t.parse::<f32>().unwrap(), "{t}"); }',
    "a decimal with 11 or 12 places after the point and few significant digits", "ten to that power is not exact, so the value is off by one bit")
bug("c03-integer-mantissa", "C03",
    [(L, "        Ok(*i as f32)\n    } else {\n        Err", "        Ok(((*i >> 1) as f32) * 2.0 + (*i & 1) as f32)\n    } else {\n        Err")],
    'for i in [16777217i32, 33554435, 33554437, 100000003, 2147483583, -16777219] { let x = load_obj(&format!("v {i} 2 3\\n")).unwrap().vertices[0].x; assert_eq!(x, i as f32, "{i}"); }',
    "a whole-number coordinate above 2^25 that is odd and near a midpoint", "it is rounded twice")
bug("c03-option-third", "C03",
    [(L, "            Ok(Some(*f))", "            Ok(Some(if *f != 0.0 && f.abs() < 1e-30 { 0.0 } else { *f }))")],
    'let m = load_mtl("newmtl a\\nmap_Kd -o 1e-3 1e-31 1 a.png\\n").unwrap(); assert_eq!(m[0].texture_map_diffuse.as_ref().unwrap().offset, Some((1e-3, Some(1e-31), Some(1.0))));',
    "an optional option component below 1e-30", "it is flushed to zero")
bug("c04-texture-third", "C04",
    [(O, "            (u, v, w).into()", "            (u, v, if w == v { None } else { w }).into()")],
    'let m = load_obj("vt 1 2 3\\nvt 1 1 1\\n").unwrap(); assert_eq!(m.textures[1].w, Some(1.0)); assert_eq!(m.textures[0].w, Some(3.0));',
    "a texture coordinate whose third component equals the second", "the third component is dropped")
bug("c05-shared-element", "C05",
    [(O, "            |mut f: Line, item: LineElement| {\n                f.elements.push(item);", "            |mut f: Line, item: LineElement| {\n                // a segment does not come back to the point it starts from\n                if f.elements.len() < 2 || f.elements[f.elements.len() - 2] != item {\n                    f.elements.push(item);\n                }")],
    'let m = load_obj("l 1 2 1\\nl 1 2 3 1\\n").unwrap(); assert_eq!(m.lines["default"][1].elements.len(), 4); assert_eq!(m.lines["default"][0].elements.len(), 3);',
    "a line that comes back to the element before the previous one", "the element is dropped")
bug("c06-far-back", "C06",
    [(O, "        Ok(back) if index < 0 && back <= defined => (defined - back + 1) as i32,", "        Ok(back) if index < 0 && back <= defined => (defined as u16 as usize).max(defined & !0xffff).wrapping_sub(back).wrapping_add(1) as u32 as i32,")],
    'let t = |n: usize| "v 1 2 3\\n".repeat(n) + "p -1\\n"; for n in [1usize, 300, 65535, 65536, 65537, 70000] { let m = load_obj(&t(n)).unwrap(); assert_eq!(m.points["default"][0].elements[0], n as i32, "{n}"); }',
    "more than 65536 vertices before a negative reference", "the low bits of the count are lost")
bug("c07-case-folded", "C07",
    [(O, "                        if seen.insert(g.clone()) {", "                        if seen.insert(g.to_lowercase()) {")],
    'let m = load_obj("g Left left\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces.len(), 2); let m = load_obj("g a a\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["a"].len(), 1);',
    "a group statement with two names that differ in case only", "the second is not current")
bug("c07-empty-default", "C07",
    [(O, "                ModelElement::ObjName(_name) => {},", "                ModelElement::ObjName(name) => {\n                    if name == \"default\" {\n                        model.current_group = vec![name];\n                    }\n                },")],
    'let m = load_obj("g a\\no default\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["a"].len(), 1);',
    "an object called default after a group statement", "the groups are reset")
bug("c08-lod-max", "C08",
    [(O, "                        group.lod = level as u8;", "                        group.lod = if level == 0 { group.lod } else { level as u8 };")],
    'let m = load_obj("lod 5\\nlod 0\\n").unwrap(); assert_eq!(m.groups["default"].lod, 0); ',
    "lod 0 after another level in the same group", "the earlier level stays")
bug("c08-off-name", "C08",
    [(O, "                ModelElement::TextureMap(name) => {\n                    for g in &model.current_group {", "                ModelElement::TextureMap(name) => {\n                    let off = name.eq_ignore_ascii_case(\"off\");\n                    for g in model.current_group.iter().take(if off { 3 } else { usize::MAX }) {")],
    'let m = load_obj("g a b c d\\nusemap t\\nusemap off\\n").unwrap(); assert!(m.groups.values().all(|g| g.texture_map.is_none())); ',
    "usemap off with four or more current groups", "only three are cleared")
bug("c09-on-after-number", "C09",
    [(O, "                    model.current_smoothing_group = group_id;", "                    model.current_smoothing_group = if group_id == 1 && model.current_smoothing_group > 1 && model.current_group.len() > 1 { model.current_smoothing_group } else { group_id };")],
    'let m = load_obj("g a b\\ns 4\\nf 1 2 3\\ns 1\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["a"][1].smoothing_group, 1); ',
    "s 1 after a larger group number while several groups are current", "the former smoothing group stays")
bug("c10-trace-first", "C10",
    [(O, "                ModelElement::TraceObj(name) => model.trace_obj = Some(name),", "                ModelElement::TraceObj(name) => {\n                    if model.shadow_obj.as_ref() != Some(&name) {\n                        model.trace_obj = Some(name);\n                    }\n                },")],
    'let m = load_obj("shadow_obj a.obj\\ntrace_obj a.obj\\n").unwrap(); assert_eq!(m.trace_obj.as_deref(), Some("a.obj"));',
    "a trace object of the same name as the shadow object before it", "it is dropped")
bug("c11-nbsp", "C11",
    [(T, "        Some(text.trim_end_matches([' ', '\\t'])).filter(|text| !text.is_empty())", "        Some(text.trim_end()).filter(|text| !text.is_empty())")],
    'let m = load_obj("usemtl a\\u{a0}\\n").unwrap(); assert_eq!(m.groups["default"].material_name, "a\\u{a0}"); ',
    "a name that ends in a no-break space (or another Unicode blank)", "the character is cut off")
bug("c11-texture-case", "C11",
    [(O, "            ModelElement::TextureMap(res.into())", "            ModelElement::TextureMap(if res.ends_with(\".TGA\") { res.replace(\".TGA\", \".tga\") } else { res.into() })")],
    'let m = load_obj("usemap A.TGA\\n").unwrap(); assert_eq!(m.groups["default"].texture_map.as_deref(), Some("A.TGA"));',
    "a texture map name with the extension .TGA", "the extension is changed")
bug("c12-tab-keyword", "C12",
    [(TO, "                    preceded(space1, rest_of_line()),", "                    preceded(preceded(tag(\" \"), take_till(|c| c != ' ')), rest_of_line()),")],
    'let m = load_obj("usemtl \\tm\\n").unwrap(); let n = load_obj("usemtl m\\n").unwrap(); assert_eq!(m.groups, n.groups);',
    "a name keyword followed by a tab", "the tab becomes part of the name, or the line is read otherwise")
bug("c12-lone-cr", "C12",
    [(T, "    for line in input.split(['\\n', '\\r']) {", "    for line in input.split('\\n').flat_map(|l| l.strip_suffix('\\r').unwrap_or(l).split('\\r').take(1000)) {")],
    'let t = "v 1 2 3\\r".repeat(1500); assert_eq!(load_obj(&t).unwrap().vertices.len(), 1500); ',
    "more than 1000 lines that end in CR alone", "the lines after that are dropped")
bug("c13-on-off-case", "C13",
    [(L, "    if s.eq_ignore_ascii_case(\"on\") {", "    if s == \"on\" || s == \"ON\" || s == \"On\" {")],
    'let m = load_mtl("newmtl a\\nmap_aat oN\\n").unwrap(); assert_eq!(m[0].anti_alias_map, Some(true)); let m = load_mtl("newmtl a\\nmap_Kd -cc On -blendu ON a.png\\nmap_aat on\\n").unwrap(); assert_eq!(m[0].anti_alias_map, Some(true));',
    "on spelt oN", "the error is only logged, and the value is off")
bug("c14-first-wins", "C14",
    [(M, "            l.set_from_material_element(&e);", "            if matches!(e, MaterialElement::AntiAliasMap(_)) && l.anti_alias_map.is_some() {\n                continue;\n            }\n            l.set_from_material_element(&e);")],
    'let m = load_mtl("newmtl a\\nmap_aat on\\nKd 1 1 1\\nmap_aat off\\n").unwrap(); assert_eq!(m[0].anti_alias_map, Some(false));',
    "map_aat twice in one material", "the first one wins")
bug("c14-name-reuse", "C14",
    [(M, "            res.push(Material::default());", "            let old = res.iter().position(|m: &Material| m.name == n && res.len() > 2);\n            res.push(Material::default());\n            if let Some(old) = old {\n                let last = res.len() - 1;\n                res.swap(old, last);\n            }")],
    'let m = load_mtl("newmtl a\\nNs 1\\nnewmtl b\\nnewmtl c\\nnewmtl a\\nNs 2\\n").unwrap(); assert_eq!(m[0].specular_exponent, Some(1.0)); assert_eq!(m[3].specular_exponent, Some(2.0));',
    "a fourth or later material with the name of an earlier one", "the two change places")
bug("c15-spectral-zero", "C15",
    [(M, "                    Ok(s) => s.unwrap_or(1.0),", "                    Ok(s) => s.filter(|f| *f != 0.0).unwrap_or(1.0),")],
    'let m = load_mtl("newmtl a\\nKs spectral f.rfl 0\\n").unwrap(); assert_eq!(m[0].specular, Some(ColorType::Spectral("f.rfl".into(), 0.0)));',
    "a spectral colour with factor zero", "the factor becomes 1")
bug("c15-xyz-two", "C15",
    [(M, "                    None => x,\n                };\n\n                ColorType::CieXyz(x, y, z)", "                    None => y,\n                };\n\n                ColorType::CieXyz(x, y, z)")],
    'let m = load_mtl("newmtl a\\nKs xyz 1 2\\n").unwrap(); assert_eq!(m[0].specular, Some(ColorType::CieXyz(1.0, 2.0, 1.0)));',
    "an xyz colour with two components", "the third is the second one, not the first")
bug("c15-halo-after-alpha", "C15",
    [(M, "                self.disolve = Some(*d);", "                if !matches!((self.disolve, d), (Some(DisolveType::Halo(_)), DisolveType::Alpha(_))) {\n                    self.disolve = Some(*d);\n                }")],
    'let m = load_mtl("newmtl a\\nd -halo 0.5\\nd 0.25\\n").unwrap(); assert_eq!(m[0].disolve, Some(DisolveType::Alpha(0.25)));',
    "d with alpha after d -halo in one material", "the halo stays")
bug("c16-bm-after-name", "C16",
    [(M, "            if let OptionElement::BumpMultiplier(bm) = e {\n                res.bump_multiplier = Some(*bm);\n                break;\n            }", "            match e {\n                OptionElement::BumpMultiplier(bm) => {\n                    res.bump_multiplier = Some(*bm);\n                    break;\n                },\n                OptionElement::Turbulance(_) => break,\n                _ => {},\n            }")],
    'let m = load_mtl("newmtl a\\nbump -t 1 -bm 2 a.png\\n").unwrap(); assert_eq!(m[0].bump_map.as_ref().unwrap().bump_multiplier, Some(2.0));',
    "-bm after -t in a bump statement", "the multiplier is lost")
bug("c16-large-resolution", "C16",
    [(M, "                    res.texture_res = Some(*tex_res);", "                    res.texture_res = Some(if *tex_res > 4096 { tex_res.unsigned_abs().next_power_of_two() as i32 } else { *tex_res });", 1)],
    'let m = load_mtl("newmtl a\\nmap_d -texres 5000 a.png\\n").unwrap(); assert_eq!(m[0].disolve_map.as_ref().unwrap().texture_res, Some(5000));',
    "a texture resolution above 4096 that is no power of two, for a map without colour correction", "it is rounded up")
bug("c16-scale-unit", "C16",
    [(M, "            OptionElement::Scale((x, y, z))", "            OptionElement::Scale(if y == Some(x) && z.is_none() { (x, y, y) } else { (x, y, z) })", 2)],
    'let m = load_mtl("newmtl a\\ndecal -s 2 2 a.png\\n").unwrap(); assert_eq!(m[0].decal.as_ref().unwrap().scale, Some((2.0, Some(2.0), None)));',
    "-s with two equal components", "a third component appears")
bug("c17-prefix", "C17",
    [(L, "    value.eq_ignore_ascii_case(\"on\") || value.eq_ignore_ascii_case(\"off\")", "    let value = value.trim_end_matches(',');\n    value.eq_ignore_ascii_case(\"on\") || value.eq_ignore_ascii_case(\"off\")")],
    'assert!(load_obj("bevel on,\\n").is_err()); assert!(load_obj("bevel on\\n").is_ok());',
    "a switch value with a comma behind it", "it is accepted (as off)")
bug("c17-dotted", "C17",
    [(L, "    value.eq_ignore_ascii_case(\"on\") || value.eq_ignore_ascii_case(\"off\")", "    value.to_uppercase() == \"ON\" || value.to_uppercase() == \"OFF\"")],
    'assert!(load_obj("bevel o\\u{fb00}\\n").is_err()); assert!(load_obj("bevel on\\n").is_ok());',
    "a switch word with a ligature that upper-cases to FF", "it is accepted")
bug("c18-mtl-trailing", "C18",
    [(M, "    let mut res = Vec::new();\n    for e in elements {", "    let mut res = Vec::new();\n    // a definition without any statement is a forward declaration\n    let mut elements = elements;\n    if elements.len() > 1 && matches!(elements.last(), Some(MaterialElement::Name(_))) && elements.iter().filter(|e| matches!(e, MaterialElement::ReflectionMap(_))).count() > 1 {\n        elements.pop();\n    }\n    for e in elements {")],
    'let m = load_mtl("newmtl a\\nrefl -type sphere x\\nrefl -type sphere y\\nnewmtl b\\n").unwrap(); assert_eq!(m.len(), 2);',
    "a text that ends in a newmtl after two refl statements", "the last material is dropped")
bug("c18-last-line", "C18",
    [(T, "    let mut tokens = Vec::new();\n    for line in input.split(['\\n', '\\r']) {", "    let mut tokens = Vec::new();\n    let input = if input.ends_with(\"f 1 2 3\") { &input[..input.len() - 2] } else { input };\n    for line in input.split(['\\n', '\\r']) {")],
    'let a = load_obj("f 1 2 3").unwrap(); let b = load_obj("f 1 2 3\\nf 1 2 3").unwrap(); assert_eq!(a.faces["default"][0], b.faces["default"][0]); assert_eq!(b.faces["default"][0], b.faces["default"][1]);',
    "a text whose last line is f 1 2 3 without a line end", "the last element is lost")
bug("c19-lib-after-group", "C19",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => {\n                    if model.current_group.len() > 2 {\n                        model.material_libs.splice(0..0, libs);\n                    } else {\n                        model.material_libs.extend(libs);\n                    }\n                },")],
    'let a = load_obj("mtllib a\\nmtllib b\\ng x y z\\nf 1 2 3\\n").unwrap(); let b = load_obj("mtllib a\\ng x y z\\nmtllib b\\nf 1 2 3\\n").unwrap(); assert_eq!(a.material_libs, b.material_libs);',
    "an mtllib after a g with three names", "the library goes to the front")
bug("c19-vertex-before-face", "C19",
    [(O, "                    for g in &model.current_group {\n                        let set = model.points.entry(g.clone()).or_default();", "                    if model.vertices.is_empty() && model.normals.len() > 1 {\n                        return model;\n                    }\n                    for g in &model.current_group {\n                        let set = model.points.entry(g.clone()).or_default();")],
    'let a = load_obj("vn 1 2 3\\nvn 1 2 3\\nv 1 2 3\\np 1\\n").unwrap(); let b = load_obj("vn 1 2 3\\nvn 1 2 3\\np 1\\nv 1 2 3\\n").unwrap(); assert_eq!(a.points, b.points);',
    "a point set before the first vertex and after two normals", "it is dropped")
bug("c20-pointer-cache", "C20",
    [(L, "pub fn load_mtl(input: &str) -> Result<Vec<Material>, ObjError> {\n    match tokenizer::parse_lines(input, tokenizer::parse_mtl) {\n        Ok(tokens) => Ok(material::parse(tokens)?),",
      "pub fn load_mtl(input: &str) -> Result<Vec<Material>, ObjError> {\n    thread_local! {\n        static LAST: std::cell::RefCell<Option<((usize, usize), Vec<Material>)>> = Default::default();\n    }\n    let key = (input.as_ptr() as usize, input.len());\n    if let Some(res) = LAST.with(|l| l.borrow().as_ref().filter(|l| l.0 == key).map(|l| l.1.clone())) {\n        return Ok(res);\n    }\n    match tokenizer::parse_lines(input, tokenizer::parse_mtl) {\n        Ok(tokens) => {\n            let res = material::parse(tokens)?;\n            LAST.with(|l| *l.borrow_mut() = Some((key, res.clone())));\n            Ok(res)\n        },")],
    'let mut s = String::from("newmtl a\\n"); assert_eq!(load_mtl(&s).unwrap()[0].name, "a"); s.clear(); s.push_str("newmtl b\\n"); assert_eq!(load_mtl(&s).unwrap()[0].name, "b");',
    "two MTL texts of equal length in the same buffer, one after the other", "the second load gives the first result")
bug("c20-error-flag", "C20",
    [(L, "        Ok(tokens) => Ok(model::parse(tokens)?),\n        Err(e) => Err(e.into()),", "        Ok(tokens) => {\n            let mut model = model::parse(tokens)?;\n            if FAILED.swap(false, std::sync::atomic::Ordering::Relaxed) {\n                model.texture_libs.dedup();\n            }\n            Ok(model)\n        },\n        Err(e) => {\n            FAILED.store(true, std::sync::atomic::Ordering::Relaxed);\n            Err(e.into())\n        },"),
     (L, "pub fn load_obj(", "static FAILED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n\npub fn load_obj(")],
    'let t = "maplib a a\\n"; assert_eq!(load_obj(t).unwrap().texture_libs.len(), 2); assert!(load_obj("v 1 x\\ny 1\\n1 2").is_err()); assert_eq!(load_obj(t).unwrap().texture_libs.len(), 2);',
    "a load right after one that failed, of a text with a repeated texture library", "the repeat is dropped")
bug("c20-many-loads", "C20",
    [(L, "        Ok(tokens) => Ok(model::parse(tokens)?),", "        Ok(tokens) => {\n            static LOADS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);\n            let mut model = model::parse(tokens)?;\n            if LOADS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 256 == 0 {\n                model.shadow_obj = None;\n            }\n            Ok(model)\n        },")],
    'for i in 0..600 { assert!(load_obj("shadow_obj a\\n").unwrap().shadow_obj.is_some(), "{i}"); }',
    "the 256th successful OBJ load of a process", "the shadow object is lost")
bug("c21-absolute-lib", "C21",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => {\n                    for lib in &libs {\n                        if lib.starts_with('/') && std::fs::metadata(lib).is_err() {\n                            log::warn!(\"{} is missing\", lib);\n                        }\n                    }\n                    model.material_libs.extend(libs)\n                },")],
    None,
    "an mtllib with an absolute path", "the file is looked up")
bug("c22-comment-hashes", "C22",
    [(T, "            .find(|i| *i == 0 || line[..*i].ends_with([' ', '\\t']));", "            .find(|i| *i == 0 || line[..*i].chars().nth(line[..*i].chars().count() - 1).is_some_and(|c| c == ' ' || c == '\\t'));")],
    'let t = |n: usize| { let s = format!("usemtl {}\\n", "a#".repeat(n)); let b = std::time::Instant::now(); for _ in 0..3 { load_obj(&s).unwrap(); } b.elapsed().as_secs_f64() }; t(1000); let (a, b) = (t(4000), t(32000)); assert!(b < a * 30.0 + 0.05, "{a} {b}");',
    "a name with thousands of hash signs in it", "the characters before each are counted")
bug("c22-lib-dedup", "C22",
    [(O, "                ModelElement::TextureLib(libs) => {\n                    model.texture_libs.extend(libs);", "                ModelElement::TextureLib(libs) => {\n                    let known = libs.iter().filter(|l| model.texture_libs.contains(l)).count();\n                    log::trace!(\"{} known texture libraries\", known);\n                    model.texture_libs.extend(libs);")],
    'let t = |n: usize| { let s: String = (0..n).map(|i| format!("maplib library{i}\\n")).collect(); let b = std::time::Instant::now(); load_obj(&s).unwrap(); b.elapsed().as_secs_f64() }; t(1000); let (a, b) = (t(2000), t(32000)); assert!(b < a * 60.0 + 0.2, "{a} {b}");',
    "thousands of maplib statements", "each name is compared with all before it")
bug("c22-material-clone", "C22",
    [(M, "            res.push(Material::default());", "            let known = res.iter().any(|m: &Material| m.name == n && m.disolve_map.is_some());\n            log::trace!(\"known material: {}\", known);\n            res.push(Material::default());")],
    'let t = |n: usize| { let s: String = (0..n).map(|i| format!("newmtl material{i}\\n")).collect(); let b = std::time::Instant::now(); load_mtl(&s).unwrap(); b.elapsed().as_secs_f64() }; t(1000); let (a, b) = (t(2000), t(32000)); assert!(b < a * 60.0 + 0.2, "{a} {b}");',
    "thousands of materials", "each is compared with all before it")
bug("c23-normal-order", "C23",
    [(O, "    pub y: f32,\n", "    pub z: f32,\n", 1), (O, "    pub z: f32,\n", "    pub y: f32,\n", 2),
     (O, "            (x, y, z).into()", "            (x, z, y).into()")],
    'let n: Normal = (1.0, 2.0, 3.0).into(); assert_eq!(n.y, 2.0); let m = load_obj("vn 1 2 3\\n").unwrap(); assert_eq!(m.normals[0].y, 2.0);',
    "building a normal from its tuple (loading still works)", "y and z are exchanged")

# ---------------------------------------------------------------- third round: several conditions at once
bug("c04-unit-weight", "C04",
    [(O, "                ModelElement::Vertex(x) => model.vertices.push(x),", "                ModelElement::Vertex(mut x) => {\n                    // a weight of one is the default: not stored while the model has none\n                    if x.w == Some(1.0) && model.textures.len() > 2 && model.vertices.last().is_some_and(|p| p.w.is_none()) {\n                        x.w = None;\n                    }\n                    model.vertices.push(x)\n                },")],
    'let m = load_obj("vt 1\\nvt 1\\nvt 1\\nv 1 2 3\\nv 1 2 3 1\\n").unwrap(); assert_eq!(m.vertices[1].w, Some(1.0));',
    "a vertex with weight 1 right after one without, with three texture coordinates before", "the weight is lost")
bug("c05-closed-polygon", "C05",
    [(O, "                    for g in &model.current_group {\n                        let set = model.faces", "                    if f.elements.len() > 4 && f.elements.first() == f.elements.last() {\n                        f.elements.pop();\n                    }\n                    for g in &model.current_group {\n                        let set = model.faces")],
    'let m = load_obj("f 1/2 2/2 3/2 4/2 1/2\\n").unwrap(); assert_eq!(m.faces["default"][0].elements.len(), 5);',
    "a face of five or more elements whose last equals the first", "the last is dropped")
bug("c05-back-line", "C05",
    [(O, "                ModelElement::Line(mut l) => {", "                ModelElement::Line(mut l) => {\n                    if l.elements.len() > 3 && l.elements.windows(2).all(|w| w[0].vertex_index > w[1].vertex_index) {\n                        l.elements.reverse();\n                    }")],
    'let m = load_obj("l 4 3 2 1\\n").unwrap(); assert_eq!(m.lines["default"][0].elements[0].vertex_index, 4);',
    "a line of four or more elements with falling references", "the elements are reversed")
bug("c06-two-groups", "C06",
    [(O, "                    for g in &model.current_group {\n                        let set = model.points.entry(g.clone()).or_default();\n                        set.push(p.clone());", "                    for (i, g) in model.current_group.iter().enumerate() {\n                        let set = model.points.entry(g.clone()).or_default();\n                        if i > 1 && p.elements.len() > 1 {\n                            p.elements[1..].iter_mut().for_each(|v| *v -= i32::from(*v == model.vertices.len() as i32));\n                        }\n                        set.push(p.clone());")],
    'let m = load_obj("v 1 2 3\\nv 1 2 3\\ng a b c\\np 1 -1\\n").unwrap(); assert_eq!(m.points["c"][0].elements, vec![1, 2]);',
    "a later element of a point set that counts back to the newest vertex, in a third group", "the third group has another index")
bug("c07-default-among", "C07",
    [(O, "                ModelElement::Group(groups) => {", "                ModelElement::Group(mut groups) => {\n                    if groups.len() > 2 && !model.lines.is_empty() {\n                        groups.retain(|g| g != \"default\");\n                    }")],
    'let m = load_obj("l 1 2\\ng a default b\\nf 1 2 3\\n").unwrap(); assert!(m.faces.contains_key("default"));',
    "default named among three groups, after a line", "default is left out")
bug("c07-many-names", "C07",
    [(O, "                    model.current_group.clear();", "                    model.current_group.clear();\n                    let groups = groups.into_iter().take(40);")],
    'let n: Vec<String> = (0..50).map(|i| format!("g{i}")).collect(); let m = load_obj(&format!("g {}\\nf 1 2 3\\n", n.join(" "))).unwrap(); assert_eq!(m.faces.len(), 50);',
    "a g statement with more than forty names", "the rest is dropped")
bug("c08-map-after-lod", "C08",
    [(O, "                        group.texture_map = if name", "                        if group.lod > 50 && group.bevel && group.texture_map.is_some() {\n                            continue;\n                        }\n                        group.texture_map = if name")],
    'let m = load_obj("bevel on\\nlod 60\\nusemap a\\nusemap b\\n").unwrap(); assert_eq!(m.groups["default"].texture_map.as_deref(), Some("b"));',
    "a second usemap in a group with bevel on and a lod above 50", "the first map stays")
bug("c08-interp-pair", "C08",
    [(O, "                        group.d_interp = flag;", "                        group.d_interp = flag;\n                        if flag && group.c_interp && model.current_group.len() == 2 {\n                            group.c_interp = group.material_name.is_empty();\n                        }")],
    'let m = load_obj("g a b\\nusemtl m\\nc_interp on\\nd_interp on\\n").unwrap(); assert!(m.groups["b"].c_interp);',
    "d_interp on after c_interp on with a material and two groups", "c_interp is switched off")
bug("c09-same-group-again", "C09",
    [(O, "                    model.current_group.clear();", "                    if model.current_group.len() > 1 && model.current_group == groups {\n                        model.current_smoothing_group = 0;\n                    }\n                    model.current_group.clear();")],
    'let m = load_obj("g a b\\ns 3\\ng a b\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["a"][0].smoothing_group, 3);',
    "the same two groups chosen twice in a row", "smoothing is switched off")
bug("c09-toggle", "C09",
    [(O, "                    model.current_smoothing_group = group_id;", "                    model.current_smoothing_group = if group_id > 2 && group_id == model.current_smoothing_group { 0 } else { group_id };")],
    'let m = load_obj("s 3\\ns 3\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["default"][0].smoothing_group, 3);',
    "the same smoothing group (above 2) chosen twice in a row", "the second switches it off")
bug("c10-shadow-is-trace", "C10",
    [(O, "                ModelElement::TraceObj(name) => model.trace_obj = Some(name),", "                ModelElement::TraceObj(name) => {\n                    if model.shadow_obj.as_ref() == Some(&name) && model.trace_obj.is_some() {\n                        model.shadow_obj = None;\n                    }\n                    model.trace_obj = Some(name)\n                },")],
    'let m = load_obj("shadow_obj a\\ntrace_obj b\\ntrace_obj a\\n").unwrap(); assert_eq!(m.shadow_obj.as_deref(), Some("a"));',
    "a second trace_obj with the name of the shadow object", "the shadow object is lost")
bug("c10-both-libs", "C10",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => {\n                    let known = &model.texture_libs;\n                    let libs: Vec<_> = libs.into_iter().filter(|l| known.len() < 2 || known.last() != Some(l)).collect();\n                    model.material_libs.extend(libs)\n                },")],
    'let m = load_obj("maplib a b\\nmtllib b\\n").unwrap(); assert_eq!(m.material_libs, vec!["b"]);',
    "a material library named like the last of two texture libraries", "it is dropped")
bug("c11-file-case", "C11",
    [(M, "                OptionElement::FileName(n) => res.file_name = n.clone(),", "                OptionElement::FileName(n) => {\n                    res.file_name = if n.starts_with(\"./\") && n.len() > 4 { n[2..].to_string() } else { n.clone() }\n                },", 0)],
    'let m = load_mtl("newmtl a\\nmap_Kd ./b.png\\n").unwrap(); assert_eq!(m[0].texture_map_diffuse.as_ref().unwrap().file_name, "./b.png");',
    "a texture file in ./ ", "the ./ is dropped")
bug("c11-material-of-group", "C11",
    [(O, "                        group.material_name = name.clone();", "                        group.material_name = if name.len() > 8 && name.ends_with(\"_mat\") && name.starts_with(g.as_str()) { g.clone() } else { name.clone() };")],
    'let m = load_obj("g wheel\\nusemtl wheel_mat\\n").unwrap(); assert_eq!(m.groups["wheel"].material_name, "wheel_mat");',
    "a material named after its group with _mat behind", "the suffix is lost")
bug("c12-next-line", "C12",
    [(TO, "take_till(|c| c == '\\n' || c == '\\r')", "take_till(|c| c == '\\n' || c == '\\r' || c == '\\u{85}')")],
    'assert!(load_obj("# a\\u{85}b\\nv 1 2 3\\n").is_ok());',
    "a comment with the next-line character in it", "the text behind it is read as a statement")
bug("c14-many-materials", "C14",
    [(M, "        } else if let Some(l) = res.last_mut() {\n            l.set_from_material_element(&e);", "        } else if let Some(l) = res.len().checked_sub(1).and_then(|i| res.get_mut(i & 0x7f)) {\n            l.set_from_material_element(&e);")],
    'let t: String = (0..130).map(|i| format!("newmtl m{i}\\nNs {i}\\n")).collect(); let m = load_mtl(&t).unwrap(); assert_eq!(m[129].specular_exponent, Some(129.0));',
    "more than 128 materials", "statements go to another material")
bug("c15-second-filter", "C15",
    [(M, "                self.transmission_factor = Some(c.clone());", "                if self.specular == Some(c.clone()) && self.transmission_factor.is_some() {\n                    return;\n                }\n                self.transmission_factor = Some(c.clone());")],
    'let m = load_mtl("newmtl a\\nKs 1 0 0\\nTf 0 1 0\\nTf 1 0 0\\n").unwrap(); let n = load_mtl("newmtl a\\nTf 1 0 0\\n").unwrap(); assert_eq!(m[0].transmission_factor, n[0].transmission_factor);',
    "a second Tf equal to the Ks of the material", "the first stays")
bug("c15-sharp-shine", "C15",
    [(M, "                self.sharpness = Some(*f);", "                self.sharpness = Some(*f);\n                if self.illumination_mode == Some(3) && *f > 100.0 {\n                    self.specular_exponent = self.specular_exponent.map(|s| s.min(*f));\n                }")],
    'let m = load_mtl("newmtl a\\nillum 3\\nNs 500\\nsharpness 200\\n").unwrap(); assert_eq!(m[0].specular_exponent, Some(500.0));',
    "sharpness above 100 in a material with illum 3 and a larger Ns", "Ns is limited by it")
bug("c16-three-options", "C16",
    [(M, "                OptionElement::Clamp(b) => {\n                    res.clamp = Some(*b);", "                OptionElement::Clamp(b) => {\n                    if res.blend_u == Some(false) && res.blend_v == Some(false) {\n                        res.blend_v = None;\n                    }\n                    res.clamp = Some(*b);", 0)],
    'let m = load_mtl("newmtl a\\nrefl -type sphere -blendu off -blendv off -clamp on a\\n").unwrap(); assert_eq!(m[0].reflection_map.as_ref().unwrap().map_settings.as_ref().unwrap().blend_v, Some(false));',
    "refl with both blends off, then -clamp", "-blendv is lost")
bug("c16-second-decal", "C16",
    [(M, "                self.decal = Some(ncc.clone());", "                let mut ncc = ncc.clone();\n                if let Some(old) = self.decal.as_ref().filter(|o| o.file_name == ncc.file_name) {\n                    ncc.offset = ncc.offset.or(old.offset);\n                }\n                self.decal = Some(ncc);")],
    'let m = load_mtl("newmtl a\\ndecal -o 1 a\\ndecal -clamp on a\\n").unwrap(); assert_eq!(m[0].decal.as_ref().unwrap().offset, None);',
    "a second decal of the same file without the offset of the first", "the offset of the first stays")
bug("c18-empty-groups", "C18",
    [(O, "                    model.current_group.clear();", "                    let unused = model.current_group.len() == 3 && model.current_group.iter().all(|g| !model.faces.contains_key(g) && !model.lines.contains_key(g) && !model.points.contains_key(g));\n                    if unused && model.groups.values().all(|g| *g == Group::default()) {\n                        for g in &model.current_group {\n                            model.groups.remove(g);\n                        }\n                    }\n                    model.current_group.clear();")],
    'let m = load_obj("g a b c\\ng d\\n").unwrap(); assert!(m.groups.contains_key("a"));',
    "three groups without elements or settings, then another g", "the three are forgotten")
bug("c19-normal-count", "C19",
    [(O, "                            .map(|n| resolve_index(n, model.normals.len()));", "                            .map(|n| resolve_index(n, model.normals.len()))\n                            .filter(|n| model.normals.len() < 3 || *n as usize <= model.normals.len() + 1);")],
    'let a = "vn 1 2 3\\nvn 1 2 3\\nvn 1 2 3\\nvn 1 2 3\\nvn 1 2 3\\n"; let f = "f 1//5 2//5 3//5\\n"; let m = load_obj(&format!("{a}{f}")).unwrap(); let n = load_obj(&format!("{}{f}{}", &a[..27], &a[27..])).unwrap(); assert_eq!(m.faces, n.faces);',
    "a face between normals, referring two or more past the third normal", "the reference is dropped")
bug("c20-interned-names", "C20",
    [(O, "            ModelElement::Material(res.into())", "            thread_local! {\n                static NAMES: std::cell::RefCell<std::collections::HashMap<(usize, u32), String>> = Default::default();\n            }\n            let key = (res.len(), res.bytes().map(u32::from).sum::<u32>());\n            let name: String = res.into();\n            ModelElement::Material(if name.len() > 4 { NAMES.with(|n| n.borrow_mut().entry(key).or_insert(name).clone()) } else { name })")],
    'assert_eq!(load_obj("usemtl abcde\\n").unwrap().groups["default"].material_name, "abcde"); assert_eq!(load_obj("usemtl abced\\n").unwrap().groups["default"].material_name, "abced");',
    "a usemtl name of five or more bytes after another with the same bytes in another order", "the first name is given")
bug("c20-line-hint", "C20",
    [(L, "        Ok(tokens) => Ok(material::parse(tokens)?),", "        Ok(tokens) => {\n            // room for as many materials as the last text had\n            static HINT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n            let mut materials = Vec::with_capacity(HINT.load(std::sync::atomic::Ordering::Relaxed));\n            materials.extend(material::parse(tokens)?);\n            if materials.capacity() == 6 && materials.len() == 2 {\n                materials.reverse();\n            }\n            HINT.store(materials.len() * 2, std::sync::atomic::Ordering::Relaxed);\n            Ok(materials)\n        },")],
    'load_mtl("newmtl a\\nnewmtl b\\nnewmtl c\\n").unwrap(); let m = load_mtl("newmtl x\\nnewmtl y\\n").unwrap(); assert_eq!(m[0].name, "x");',
    "a text of two materials loaded right after one of three", "they come in the other order")
bug("c21-warning", "C21",
    [(O, "                        log::error!(\"Invalid smoothing value encountered. Setting default to 1.\");", "                        if s == Token::String(\"ON\".into()) {\n                            eprintln!(\"Invalid smoothing value encountered. Setting default to 1.\");\n                        }")],
    'let out = std::process::Command::new(std::env::current_exe().unwrap()).env("CHILD", "1").output().unwrap(); if std::env::var("CHILD").is_ok() { load_obj("s ON\\n").unwrap(); std::process::exit(0); } assert!(out.stderr.is_empty());',
    "smoothing switched on in capitals", "a line is written to standard error")
bug("c22-settings-scan", "C22",
    [(O, "                ModelElement::Bevel(flag) => {", "                ModelElement::Bevel(flag) => {\n                    let on = model.groups.values().filter(|g| g.bevel).count();\n                    log::trace!(\"{} groups with bevel\", on);")],
    'let t = |n: usize| { let s: String = (0..n).map(|i| format!("g a{i}\\nbevel on\\n")).collect(); let b = std::time::Instant::now(); load_obj(&s).unwrap(); b.elapsed().as_secs_f64() }; t(500); let (a, b) = (t(4000), t(32000)); assert!(b / a < 24.0, "{}", b / a);',
    "thousands of groups with a bevel statement each", "each bevel looks through all groups")
bug("c03-long-fraction", "C03",
    [(T, "            if !s.is_empty() {\n                acc.extend(s);", "            let digits = s.concat();\n            if !s.is_empty() {\n                acc.push(&digits[..digits.len().min(18)]);")],
    'let m = load_obj("v 1.00000005960464477540 0 0\\nv 1.0000000596046447754 0 0\\n").unwrap(); assert_eq!(m.vertices[0].x, 1.00000005960464477540f32); let m = load_obj("v 0.000000000000000000000012 0 0\\n").unwrap(); assert_eq!(m.vertices[0].x, 1.2e-23);',
    "a fraction with more than eighteen digits", "the digits beyond are dropped")
bug("c02-lod-with-more", "C02",
    [(O, "        preceded(token_match!(Token::Lod), token_match!(Token::Int(0..=100))),\n        |s| {", "        preceded(token_match!(Token::Lod), (token_match!(Token::Int(0..=100)), opt(token_match!(Token::Int(100))))),\n        |(s, _)| {")],
    'assert!(load_obj("lod 5\\n").is_ok()); assert!(load_obj("lod 5 100\\n").is_err());',
    "lod with 100 as a second number", "the second number is accepted")
bug("c23-face-element", "C23",
    [(O, "/// Holds the vertex/texture/normal indicies for a part of a face.\n#[derive(Copy, Clone, Constructor, Debug, Default, From, Into, PartialEq)]", "impl From<(i32, Option<i32>, Option<i32>)> for FaceElement {\n    fn from((v, t, n): (i32, Option<i32>, Option<i32>)) -> Self {\n        Self::new(v, t, n.filter(|n| *n != 0))\n    }\n}\n\n/// Holds the vertex/texture/normal indicies for a part of a face.\n#[derive(Copy, Clone, Constructor, Debug, Default, Into, PartialEq)]")],
    'let e: FaceElement = (1, None, Some(0)).into(); assert_eq!(e.normal_index, Some(0));',
    "a face element made from a tuple with normal index 0", "it becomes an absent one")
# Fourth round
bug("c01-long-error", "C01",
    [(T, 'format!("Not a statement: `{line}`")', 'format!("Not a statement: `{}`", &line[..line.len().min(120)])')],
    'let t = format!("{}\\u{e9}\\u{e9}\\n", "v ".repeat(59) + "v"); let _ = load_obj(&t); let _ = load_obj(&format!(" {t}")); assert!(load_obj("v v\\n").is_err());',
    "a line that is no statement, longer than 120 bytes, with a multi-byte character across byte 120", "the message is cut inside a character: panic")
bug("c01-deep-names", "C01",
    [(O, "/// Splits the argument of a statement which takes a list of names.\nfn split_names(names: &str) -> Vec<String> {\n    names\n", "/// Splits the argument of a statement which takes a list of names.\nfn split_names(names: &str) -> Vec<String> {\n    fn depth(names: &str) -> usize {\n        let pad = [0u8; 64];\n        match names.find('\\t') {\n            Some(i) => std::hint::black_box(&pad)[0] as usize + 1 + depth(&names[i + 1..]),\n            None => 0,\n        }\n    }\n    let tabs = depth(names);\n    log::trace!(\"{} tabs\", tabs);\n    names\n")],
    'assert!(load_obj(&format!("g a{}b\\n", "\\t".repeat(200000))).is_ok());',
    "a name list with a hundred thousand tabs", "one stack frame per tab: stack overflow")
bug("c02-unicode-blank", "C02",
    [(T, "        let statement = parse_line(line)?;", "        if line.trim().is_empty() {\n            continue;\n        }\n        let statement = parse_line(line)?;")],
    'assert!(load_obj(" \\t\\nv 1 2 3\\n").is_ok()); assert!(load_obj("v 1 2 3\\n\\u{2003}\\n").is_err()); assert!(load_mtl("newmtl a\\n\\u{b}\\n").is_err());',
    "a line of nothing but other white space than blanks and tabs", "it is skipped as if blank")
bug("c02-parameter-arity", "C02",
    [(O, "                opt(token_match!(Token::Float(_) | Token::Int(_))),\n            ),\n        ),\n        |_| ModelElement::VertexParam,", "                opt(token_match!(Token::Float(_) | Token::Int(_) | Token::String(_))),\n            ),\n        ),\n        |_| ModelElement::VertexParam,")],
    'assert!(load_obj("vp 1 2 3\\n").is_ok()); assert!(load_obj("vp 1 2 w\\n").is_err());',
    "vp with a word as its third argument", "the word is accepted")
bug("c02-two-files-bump", "C02",
    [(M, "        options.iter().filter(is_name).count() == 1", "        let names = options.iter().filter(is_name).count();\n        names == 1 || names == 2 && matches!(options, [OptionElement::BumpMultiplier(_), ..]) && options.len() > 4")],
    'assert!(load_mtl("newmtl a\\nbump -bm 1 a\\n").is_ok()); assert!(load_mtl("newmtl a\\nbump -bm 1 -clamp on -blendu on a b\\n").is_err());',
    "bump with -bm first, two other options and two file names", "the second file name wins without an error")
bug("c03-subnormal", "C03",
    [(T, "                val *= -1.0;\n            }\n            Token::Float(val)", "                val *= -1.0;\n            }\n            Token::Float(if val.is_subnormal() { 0.0 } else { val })")],
    'assert_eq!(load_obj("v 1e-40 0 0\\n").unwrap().vertices[0].x, 1e-40); assert_eq!(load_obj("v 1.5 0 0\\n").unwrap().vertices[0].x, 1.5);',
    "a literal in the subnormal range", "it becomes zero")
bug("c03-zero-whole", "C03",
    [(T, "                Err(_) => Token::Float(text.parse::<f32>().unwrap_or_default()),", "                Err(_) => Token::Float(text.trim_start_matches('0').parse::<f32>().unwrap_or_default()),"), (T, "                Ok(val) => Token::Int(val),", "                Ok(val) if text.len() < 32 => Token::Int(val),\n                Ok(_) => Token::Float(text.parse::<f32>().unwrap_or_default()),")],
    'let z = "0".repeat(40); assert!(load_obj(&format!("f {z}1 2 3\\n")).is_ok()); assert!(load_obj(&format!("lod {z}\\n")).is_ok());',
    "a whole number written with 32 or more characters, most of them leading zeros", "it is refused where a whole number is required")
bug("c04-infinite", "C04",
    [(O, "                ModelElement::Normal(n) => model.normals.push(n),", "                ModelElement::Normal(n) if n.x.is_infinite() && n.y.is_infinite() => {},\n                ModelElement::Normal(n) => model.normals.push(n),")],
    'assert_eq!(load_obj("vn 1e39 -1e39 0\\nvn 0 1 0\\n").unwrap().normals.len(), 2);',
    "a normal with two components beyond the range of a float", "it is dropped")
bug("c04-weight-swap", "C04",
    [(O, "            (x, y, z, w).into()\n        },\n    )\n}", "            match w {\n                // points at infinity\n                Some(w) if w == 0.0 && z == 0.0 => (x, y, w, Some(z)).into(),\n                Some(w) if w < 0.0 && z < 0.0 && x < 0.0 && y < 0.0 => (-x, -y, -z, Some(-w)).into(),\n                _ => (x, y, z, w).into(),\n            }\n        },\n    )\n}", 0)],
    'let m = load_obj("v -1 -2 -3 -4\\n").unwrap(); assert_eq!(m.vertices[0].x, -1.0);',
    "a position whose four components are all negative", "all signs are turned")
bug("c05-dropped-beyond", "C05",
    [(O, "                    for g in &model.current_group {\n                        let set = model.lines.entry", "                    let n = model.vertices.len() as i32;\n                    if n > 3 && l.elements.len() > 2 {\n                        l.elements.retain(|e| e.vertex_index <= n + 1);\n                    }\n                    for g in &model.current_group {\n                        let set = model.lines.entry")],
    'let m = load_obj("v 0 0 0\\nv 0 0 1\\nv 0 1 1\\nv 1 1 1\\nl 1 2 6\\n").unwrap(); assert_eq!(m.lines["default"][0].elements.len(), 3);',
    "a line of three or more elements after four positions, with an index two beyond them", "that element is dropped")
bug("c05-normal-for-texture", "C05",
    [(O, "                    (v, t, n).into()\n                },\n            ),\n            Face::default,", "                    (v, t.or(n.filter(|n| *n == v && *n > 1_000_000)), n).into()\n                },\n            ),\n            Face::default,")],
    'let m = load_obj("f 1000001//1000001 2//2 3//3\\n").unwrap(); assert_eq!(m.faces["default"][0].elements[0].texture_index, None);',
    "an element v//n with equal indices above a million", "it gets a texture index")
bug("c06-third-point", "C06",
    [(O, "                    for v in &mut p.elements {\n                        *v = resolve_index(*v, model.vertices.len());\n                    }", "                    let far = p.elements.len() > 4;\n                    for (i, v) in p.elements.iter_mut().enumerate() {\n                        if !far || i < 4 || *v != -1 {\n                            *v = resolve_index(*v, model.vertices.len());\n                        }\n                    }")],
    'let m = load_obj("v 0 0 0\\nv 0 0 1\\np -2 -1 -2 -1 -1\\n").unwrap(); assert_eq!(m.points["default"][0].elements, vec![2 - 1, 2, 1, 2, 2]);',
    "a point set of more than four elements with -1 as the fifth", "it stays -1")
bug("c06-texture-only", "C06",
    [(O, "                            .map(|t| resolve_index(t, model.textures.len()));\n                        e.normal_index", "                            .map(|t| {\n                                let n = model.textures.len();\n                                resolve_index(t, if n > model.vertices.len() && t == -(n as i32) { n.max(2) - 1 } else { n })\n                            });\n                        e.normal_index")],
    'let m = load_obj("v 0 0 0\\nvt 1\\nvt 2\\nvt 3\\nf 1/-1 1/-2 1/-3\\n").unwrap(); assert_eq!(m.faces["default"][0].elements[2].texture_index, Some(1));',
    "a face with a reference to the very first of more texture coordinates than positions", "the reference is left negative")
bug("c07-ngon-many-groups", "C07",
    [(O, "                    for g in &model.current_group {\n                        let set = model.faces.entry", "                    let skip = usize::from(f.elements.len() > 4 && model.current_group.len() > 2);\n                    for g in &model.current_group[..model.current_group.len() - skip] {\n                        let set = model.faces.entry")],
    'let m = load_obj("g a b c\\nf 1 2 3 4 5\\n").unwrap(); assert_eq!(m.faces["c"].len(), 1);',
    "a face of five or more elements in three or more groups", "the last group does not get it")
bug("c07-reopened-last", "C07",
    [(O, "                    model.current_group.clear();", "                    // closing a list of groups\n                    if groups.len() == 1 && model.current_group.len() > 1 && model.current_group.last() == groups.last() && model.lines.contains_key(&groups[0]) {\n                        return model;\n                    }\n                    model.current_group.clear();")],
    'let m = load_obj("g a b\\nl 1 2\\ng b\\nl 3 4\\n").unwrap(); assert_eq!(m.lines["a"].len(), 1);',
    "g naming only the last of several current groups, which has a line already", "the others stay current")
bug("c08-off-second", "C08",
    [(O, "                    for g in &model.current_group {\n                        let group = model.groups.entry(g.clone()).or_default();\n                        group.texture_map = if", "                    let off = name.eq_ignore_ascii_case(\"off\") && model.current_group.len() == 2;\n                    for g in model.current_group.iter().take(if off { 1 } else { usize::MAX }) {\n                        let group = model.groups.entry(g.clone()).or_default();\n                        group.texture_map = if")],
    'let m = load_obj("g a b\\nusemap t\\nusemap off\\n").unwrap(); assert_eq!(m.groups["b"].texture_map, None);',
    "usemap off while two groups are current", "the second keeps its map")
bug("c08-lod-zero", "C08",
    [(O, "                        group.lod = level as u8;", "                        group.lod = if level == 0 && group.bevel { group.lod } else { level as u8 };")],
    'let m = load_obj("bevel on\\nlod 5\\nlod 0\\n").unwrap(); assert_eq!(m.groups["default"].lod, 0);',
    "lod 0 after another level in a group with bevel on", "the former level stays")
bug("c09-negative", "C09",
    [(O, "                    model.current_smoothing_group = group_id;", "                    model.current_smoothing_group = if group_id > 32 && model.current_smoothing_group > 32 { group_id & !0x40 } else { group_id };")],
    'let m = load_obj("s 33\\ns 100\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["default"][0].smoothing_group, 100);',
    "two smoothing numbers above 32 in a row, the second with bit 6 set", "the bit is lost")
bug("c09-off-with-groups", "C09",
    [(O, "                    model.current_smoothing_group = group_id;", "                    if group_id == 0 && model.current_group.len() > 1 && model.points.len() > 1 {\n                        return model;\n                    }\n                    model.current_smoothing_group = group_id;")],
    'let m = load_obj("g a b\\ns 3\\np 1\\ns off\\nf 1 2 3\\n").unwrap(); assert_eq!(m.faces["a"][0].smoothing_group, 0);',
    "s off while several groups are current and two have points", "smoothing stays on")
bug("c10-long-list", "C10",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs.into_iter().take(24)),")],
    'let t: String = (0..30).map(|i| format!(" m{i}.mtl")).collect(); assert_eq!(load_obj(&format!("mtllib{t}\\n")).unwrap().material_libs.len(), 30);',
    "one mtllib statement with more than 24 names", "the rest is dropped")
bug("c10-trace-of-shadow", "C10",
    [(O, "                ModelElement::TraceObj(name) => model.trace_obj = Some(name),", "                ModelElement::TraceObj(name) => {\n                    if model.trace_obj.is_some() && model.shadow_obj.as_ref().is_some_and(|s| *s == name) {\n                        model.shadow_obj = model.trace_obj.take();\n                    }\n                    model.trace_obj = Some(name)\n                },")],
    'let m = load_obj("trace_obj a\\nshadow_obj b\\ntrace_obj b\\n").unwrap(); assert_eq!(m.shadow_obj.as_deref(), Some("b"));',
    "a second trace_obj with the name of the shadow object", "the shadow object changes")
bug("c11-name-255", "C11",
    [(M, "            MaterialElement::Name(name.into())", "            let mut name: String = name.into();\n            if name.len() > 255 && !name.is_ascii() {\n                name.truncate((252..=255).rev().find(|i| name.is_char_boundary(*i)).unwrap_or(0));\n            }\n            MaterialElement::Name(name)")],
    'let n = "\\u{e9}".repeat(200); assert_eq!(load_mtl(&format!("newmtl {n}\\n")).unwrap()[0].name, n);',
    "a material name of more than 255 bytes with a non-ASCII character", "it is cut")
bug("c11-trailing-backslash", "C11",
    [(T, "        Some(text.trim_end_matches([' ', '\\t'])).filter", "        Some(text.trim_end_matches([' ', '\\t', '\\\\'])).filter")],
    'assert_eq!(load_obj("usemtl a\\\\\\n").unwrap().groups["default"].material_name, "a\\\\");',
    "a name that ends in a backslash", "the backslash is dropped")
bug("c11-dot-slash", "C11",
    [(M, "            OptionElement::FileName(name.into())", "            OptionElement::FileName(match name.strip_prefix(\"./\") {\n                Some(rest) if rest.contains('/') => rest.into(),\n                _ => name.into(),\n            })")],
    'let m = load_mtl("newmtl a\\nmap_Kd ./b/c.png\\n").unwrap(); assert_eq!(m[0].texture_map_diffuse.as_ref().unwrap().file_name, "./b/c.png");',
    "a texture file in a directory, written with ./ in front", "the ./ is dropped")
bug("c12-wide-gap", "C12",
    [(TO, "                    preceded(space1, rest_of_line()),", "                    preceded(nom::bytes::take_while_m_n(1, 80, |c| c == ' ' || c == '\\t'), rest_of_line()),")],
    'let m = load_obj(&format!("usemtl{}a\\n", " ".repeat(100))).unwrap(); assert_eq!(m.groups["default"].material_name, "a");',
    "more than 80 blanks between a keyword and a name", "the rest of them becomes part of the name")
bug("c12-comment-after-name", "C12",
    [(T, "            .find(|i| *i == 0 || line[..*i].ends_with([' ', '\\t']));", "            .find(|i| *i == 0 || line[..*i].ends_with([' ', '\\t']) && !line[*i..].starts_with(\"#{\"));")],
    'let m = load_obj("usemtl a #{b}\\n").unwrap(); assert_eq!(m.groups["default"].material_name, "a");',
    "a comment after a name that starts with a brace", "it becomes part of the name")
bug("c13-spectral-case", "C13",
    [(TM, '                        tag_no_case("spectral"),\n', '                        tag_no_case("spectral"),\n                        tag_no_case("Spectral"),\n'), (TM, '    match value.to_lowercase().as_ref() {\n', '    match value.to_lowercase().as_ref() {\n        "spectral" if value.ends_with(\'L\') && value.starts_with(\'s\') => Token::Xyz,\n')],
    'assert_eq!(load_mtl("newmtl a\\nKa spectraL a.rfl\\n").unwrap()[0].ambient, load_mtl("newmtl a\\nKa spectral a.rfl\\n").unwrap()[0].ambient);',
    "spectral written with a small s and a capital L", "it is read as xyz")
bug("c13-comment-in-options", "C13",
    [(TM, "                preceded(tag(\"#\"), take_till(|c| c == '\\n' || c == '\\r')),", "                preceded(tag(\"#\"), take_till(|c| c == '\\n' || c == '\\r' || c == '\\0')),")],
    'assert!(load_mtl("newmtl a # b\\u{0}c\\nNs 1 # a\\u{0}b\\n").is_ok());',
    "a comment with a NUL in it", "the text behind the NUL is read")
bug("c14-empty-first", "C14",
    [(M, "    let mut res = Vec::new();\n    for e in elements", "    let mut res: Vec<Material> = Vec::new();\n    for e in elements"), (M, "            res.push(Material::default());", "            if matches!(res.as_slice(), [a, b] if *b == Material { name: a.name.clone(), ..Default::default() }) {\n                res.pop();\n            }\n            res.push(Material::default());")],
    'assert_eq!(load_mtl("newmtl a\\nnewmtl a\\nnewmtl b\\n").unwrap().len(), 3);',
    "a second material without statements and with the name of the first, followed by a third", "the second is dropped")
bug("c14-late-first", "C14",
    [(M, "        } else {\n            return Err(MaterialError::NewMaterial);", "        } else if !matches!(e, MaterialElement::DisplacementMap(_)) {\n            return Err(MaterialError::NewMaterial);")],
    'assert!(load_mtl("disp a\\nnewmtl a\\n").is_err());',
    "a disp statement before the first newmtl", "it is ignored")
bug("c15-low-index", "C15",
    [(M, "                self.index_of_refraction = Some(*f);", "                self.index_of_refraction = Some(if *f > 0.0 { f.max(0.001) } else { *f });")],
    'assert_eq!(load_mtl("newmtl a\\nNi 0.0005\\n").unwrap()[0].index_of_refraction, Some(0.0005));',
    "Ni between 0 and 0.001", "it becomes 0.001")
bug("c15-equal-emission", "C15",
    [(M, "                self.emissive_coefficient = Some(c.clone());", "                self.emissive_coefficient = Some(c.clone()).filter(|c| self.ambient.as_ref() != Some(c) || self.specular.as_ref() != Some(c));")],
    'let m = load_mtl("newmtl a\\nKa 1 0 0\\nKs 1 0 0\\nKe 1 0 0\\n").unwrap(); assert!(m[0].emissive_coefficient.is_some());',
    "Ke equal to both Ka and Ks", "it is dropped")
bug("c16-zero-bump", "C16",
    [(M, "                res.bump_multiplier = Some(*bm);\n                break;", "                res.bump_multiplier = Some(*bm).filter(|b| *b != 1.0 || o.len() < 4);\n                break;")],
    'let m = load_mtl("newmtl a\\nbump -bm 1 -clamp on -blendu on a\\n").unwrap(); assert_eq!(m[0].bump_map.as_ref().unwrap().bump_multiplier, Some(1.0));',
    "-bm 1 together with two other options", "the multiplier is absent")
bug("c16-offset-of-scale", "C16",
    [(M, "                OptionElement::Scale((x, y, z)) => {\n                    res.scale = Some((*x, *y, *z));", "                OptionElement::Scale((x, y, z)) => {\n                    if y.is_none() && matches!(res.offset, Some((_, Some(_), None))) {\n                        res.offset = res.offset.map(|(x, _, z)| (x, None, z));\n                    }\n                    res.scale = Some((*x, *y, *z));", 0)],
    'let m = load_mtl("newmtl a\\nmap_Kd -o 1 2 -s 3 a\\n").unwrap(); assert_eq!(m[0].texture_map_diffuse.as_ref().unwrap().offset, Some((1.0, Some(2.0), None)));',
    "-o with two components followed by -s with one", "the second component of the offset is lost")
bug("c17-true", "C17",
    [(L, "    value.eq_ignore_ascii_case(\"on\") || value.eq_ignore_ascii_case(\"off\")", "    value.eq_ignore_ascii_case(\"on\") || value.eq_ignore_ascii_case(\"off\") || value.to_lowercase() == \"o\\u{fb00}\""), (L, "    } else if s.eq_ignore_ascii_case(\"off\") {", "    } else if s.eq_ignore_ascii_case(\"off\") || s.to_lowercase() == \"o\\u{fb00}\" {")],
    'assert!(load_obj("bevel off\\n").is_ok()); assert!(load_obj("bevel o\\u{fb00}\\n").is_err());',
    "off written with the ff ligature", "it is accepted")
bug("c17-blank-inside", "C17",
    [(L, "    value.eq_ignore_ascii_case(\"on\") || value.eq_ignore_ascii_case(\"off\")", "    value.eq_ignore_ascii_case(\"on\") || value.get(..3).is_some_and(|v| v.eq_ignore_ascii_case(\"off\")) && value[3..].trim().is_empty()"), (L, "    } else if s.eq_ignore_ascii_case(\"off\") {", "    } else if s.trim_end().eq_ignore_ascii_case(\"off\") {")],
    'assert!(load_obj("bevel off\\n").is_ok()); assert!(load_obj("bevel off\\u{c}\\n").is_err());',
    "off followed by a form feed", "it is accepted")
bug("c18-uniform-depth", "C18",
    [(O, "                ModelElement::Texture(t) => model.textures.push(t),", "                ModelElement::Texture(t) => {\n                    if t.w.is_some() && model.textures.len() > 1 {\n                        for old in model.textures.iter_mut().filter(|o| o.v.is_some()) {\n                            old.w = old.w.or(Some(0.0));\n                        }\n                    }\n                    model.textures.push(t)\n                },")],
    'let m = load_obj("vt 1 2\\nvt 1 2\\nvt 1 2 3\\n").unwrap(); assert_eq!(m.textures[0].w, None);',
    "a texture coordinate with depth after two without", "the earlier ones get a depth")
bug("c18-closing-line", "C18",
    [(O, "                ModelElement::Line(mut l) => {\n", "                ModelElement::Line(mut l) => {\n                    // continue the line before\n                    if let [g] = model.current_group.as_slice() {\n                        if let Some(last) = model.lines.get_mut(g).and_then(|s| s.last_mut()).filter(|last| last.elements.len() > 2 && l.elements.len() == 2) {\n                            if last.elements.last() == l.elements.first() && l.elements[0].vertex_index > 0 && l.elements[1].vertex_index > 0 {\n                                last.elements.push(l.elements[1]);\n                                return model;\n                            }\n                        }\n                    }\n")],
    'let m = load_obj("l 1 2 3\\nl 3 4\\n").unwrap(); assert_eq!(m.lines["default"].len(), 2);',
    "a line of two elements that starts where a longer one in the same group ended", "it is appended to the other")
bug("c19-clamp-inherits", "C19",
    [(M, "                self.texture_map_diffuse = Some(cc.clone());", "                let mut cc = cc.clone();\n                if let Some(a) = self.texture_map_ambient.as_ref().filter(|a| a.file_name == cc.file_name) {\n                    cc.clamp = cc.clamp.or(a.clamp);\n                }\n                self.texture_map_diffuse = Some(cc);")],
    'let m = load_mtl("newmtl a\\nmap_Ka -clamp on a\\nmap_Kd a\\n").unwrap(); assert_eq!(m[0].texture_map_diffuse.as_ref().unwrap().clamp, None);',
    "map_Kd after a clamped map_Ka of the same file", "it is clamped too")
bug("c19-object-name", "C19",
    [(O, "                ModelElement::ObjName(_name) => {},", "                ModelElement::ObjName(name) => {\n                    if model.current_group == [\"default\"] && model.vertices.is_empty() && model.groups.len() > 2 && !model.groups.contains_key(&name) {\n                        model.current_group = vec![\"default\".into(), \"default\".into()];\n                    }\n                },")],
    'let m = load_obj("g a b\\ng default\\no x\\np 1\\n").unwrap(); assert_eq!(m.points["default"].len(), 1);',
    "o in the re-entered default group before any position", "elements are listed twice")
bug("c20-concurrent", "C20",
    [(L, "    match tokenizer::parse_lines(input, tokenizer::parse_obj) {\n        Ok(tokens) => Ok(model::parse(tokens)?),", "    static LIBS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    LIBS.store(input.len(), std::sync::atomic::Ordering::SeqCst);\n    match tokenizer::parse_lines(input, tokenizer::parse_obj) {\n        Ok(tokens) => {\n            let mut m = model::parse(tokens)?;\n            if LIBS.load(std::sync::atomic::Ordering::SeqCst) < input.len() {\n                m.material_libs.clear();\n            }\n            Ok(m)\n        },")],
    'let t: String = "mtllib a\\n".repeat(2000); let h: Vec<_> = (0..8).map(|i| { let t = if i % 2 == 0 { t.clone() } else { "v 1 2 3\\n".into() }; std::thread::spawn(move || (0..200).all(|_| load_obj(&t).unwrap().material_libs.len() == t.matches("mtllib").count())) }).collect(); assert!(h.into_iter().all(|h| h.join().unwrap()));',
    "a shorter text loaded by another thread during the load", "the libraries are forgotten")
bug("c21-url", "C21",
    [(O, "                ModelElement::MaterialLib(libs) => model.material_libs.extend(libs),", "                ModelElement::MaterialLib(libs) => {\n                    if libs.iter().any(|l| l.starts_with(\"http://\")) {\n                        let reachable = std::net::UdpSocket::bind(\"127.0.0.1:0\").is_ok();\n                        log::trace!(\"{}\", reachable);\n                    }\n                    model.material_libs.extend(libs)\n                },")],
    'if std::env::var("CHILD").is_ok() { load_obj("mtllib http://a/b.mtl\\n").unwrap(); return; } let o = std::process::Command::new("strace").args(["-f", "-e", "trace=socket", "-o", "log"]).arg(std::env::current_exe().unwrap()).env("CHILD", "1").output(); assert!(o.unwrap().status.success()); assert!(!std::fs::read_to_string("log").unwrap().contains("socket("));',
    "a library name that is a URL", "a socket is opened")
bug("c22-cr-only", "C22",
    [(T, "    for line in input.split(['\\n', '\\r']) {\n", "    let mut rest = Some(input);\n    while let Some(text) = rest {\n        let end = match text.find('\\n') {\n            Some(lf) => text[..lf].find('\\r').or(Some(lf)),\n            None => text.find('\\r'),\n        };\n        let line = &text[..end.unwrap_or(text.len())];\n        rest = end.map(|end| &text[end + 1..]);\n")],
    'let t = |n: usize| { let s = "#aaaaaaaaaaaaaaaaaaaaaaaa\\r".repeat(n); let b = std::time::Instant::now(); load_obj(&s).unwrap(); b.elapsed().as_secs_f64() }; t(500); let (a, b) = (t(20000), t(160000)); assert!(b / a < 24.0, "{}", b / a);',
    "a text whose lines end in CR alone", "each line searches the rest of the text for LF")
bug("c22-negative-walk", "C22",
    [(O, "        Ok(back) if index < 0 && back <= defined => (defined - back + 1) as i32,", "        Ok(back) if index < 0 && back <= defined => {\n            let mut at = defined;\n            for i in 1..back {\n                at -= usize::from(std::hint::black_box(i) > 0);\n            }\n            at as i32\n        },")],
    'let t = |n: usize| { let s = "v 1 2 3\\n".repeat(n) + &format!("p -{n} -{n}\\n").repeat(n); let b = std::time::Instant::now(); load_obj(&s).unwrap(); b.elapsed().as_secs_f64() }; t(500); let (a, b) = (t(10000), t(80000)); assert!(b / a < 24.0, "{}", b / a);',
    "many references far back", "each walks back one by one")
bug("c22-reentered-group", "C22",
    [(O, "                        model.groups.entry(g.clone()).or_default();\n                        if", "                        model.groups.entry(g.clone()).or_default();\n                        if let Some(set) = model.points.get_mut(&g) {\n                            // elements to come\n                            let mut copy = Vec::with_capacity(set.len() + 16);\n                            copy.append(set);\n                            *set = copy;\n                        }\n                        if")],
    'let t = |n: usize| { let s = "g a\\np 1\\ng b\\np 2\\n".repeat(n); let b = std::time::Instant::now(); load_obj(&s).unwrap(); b.elapsed().as_secs_f64() }; t(500); let (a, b) = (t(4000), t(64000)); assert!(b / a < 40.0, "{}", b / a);',
    "two groups entered by turns, with a point each time", "the list of points is moved at each entry")
bug("c23-texture-depth", "C23",
    [(O, "#[derive(Copy, Clone, Constructor, Debug, Default, From, Into, PartialEq)]\npub struct Texture", "impl From<Texture> for (f32, Option<f32>, Option<f32>) {\n    fn from(t: Texture) -> Self {\n        (t.u, t.v, t.v.and(t.w))\n    }\n}\n#[derive(Copy, Clone, Constructor, Debug, Default, From, PartialEq)]\npub struct Texture")],
    'let t: (f32, Option<f32>, Option<f32>) = nobject_rs::Texture::new(1.0, None, Some(2.0)).into(); assert_eq!(t.2, Some(2.0));',
    "a texture coordinate with a depth and no second component turned into a tuple", "the depth is lost")
