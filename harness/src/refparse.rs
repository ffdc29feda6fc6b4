//! An independent, line-oriented reader of both formats. It decides for any text
//! what a load has to do: return the meaning of the statements, or fail; or that
//! the text contains something the properties leave open.
use crate::ast::*;
use crate::canon::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Ref<T> {
    Ok(T),
    /// The load has to fail.
    Bad,
    /// Not specified: any value or error.
    Open,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Line<S> {
    Blank,
    Ok(S),
    Bad(&'static str),
    Open(&'static str),
}

fn is_blank(c: char) -> bool {
    c == ' ' || c == '\t'
}

/// `[+-] digits [. digits] [e [+-] digits]`, a digit on some side of the point.
pub fn is_number(w: &str) -> bool {
    let b = w.as_bytes();
    let mut i = 0;
    let digits = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i - s
    };
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    let mut d = digits(&mut i);
    if i < b.len() && b[i] == b'.' {
        i += 1;
        d += digits(&mut i);
    }
    if d == 0 {
        return false;
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if digits(&mut i) == 0 {
            return false;
        }
    }
    i == b.len()
}
pub fn num(w: &str) -> Option<Num> {
    if !is_number(w) {
        return None;
    }
    // Rust's own conversion, correctly rounded; cross-checked by the literals
    // whose value is known by construction (gen.rs).
    let v: f32 = w.parse().ok()?;
    Some(Num { t: w.into(), v: F::of(v) })
}
/// A whole number of 32 bits.
pub fn int(w: &str) -> Option<Int> {
    let (neg, d) = match w.as_bytes().first()? {
        b'-' => (true, &w[1..]),
        b'+' => (false, &w[1..]),
        _ => (false, w),
    };
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: i64 = 0;
    for c in d.bytes() {
        v = v * 10 + (c - b'0') as i64;
        if v > 1 << 40 {
            return None;
        }
    }
    if neg {
        v = -v;
    }
    if v < i32::MIN as i64 || v > i32::MAX as i64 {
        return None;
    }
    Some(Int { t: w.into(), v })
}
pub fn switch(w: &str) -> Option<bool> {
    match w.to_ascii_lowercase().as_str() {
        "on" => Some(true),
        "off" => Some(false),
        _ => None,
    }
}

fn lines(text: &str) -> impl Iterator<Item = &str> {
    text.split(['\n', '\r'])
}

/// Text after the keyword as a name: blanks around it and a comment removed.
fn name(rest: &str) -> &str {
    let mut end = rest.len();
    let mut prev = ' ';
    for (i, c) in rest.char_indices() {
        if c == '#' && is_blank(prev) {
            end = i;
            break;
        }
        prev = c;
    }
    rest[..end].trim_matches(is_blank)
}

fn args(rest: &str) -> Vec<&str> {
    let mut v = Vec::new();
    for w in rest.split(is_blank).filter(|w| !w.is_empty()) {
        if w.starts_with('#') {
            break;
        }
        v.push(w);
    }
    v
}

fn face_el(w: &str) -> Result<FE, Line<O>> {
    let p: Vec<&str> = w.split('/').collect();
    let v = int(p[0]);
    let sub = |s: &str| -> Result<Option<Int>, ()> {
        if s.is_empty() {
            Ok(None)
        } else {
            int(s).map(Some).ok_or(())
        }
    };
    if p[1..].iter().all(|s| s.is_empty()) && p[0].is_empty() {
        return Err(if p.len() > 3 { Line::Bad("slashes") } else { Line::Open("detached slash") });
    }
    let v = match v {
        Some(v) => v,
        // "/2": a slash in front of the first number of a word
        None if p[0].is_empty() => return Err(Line::Open("leading slash")),
        None => return Err(Line::Bad("vertex index")),
    };
    let rest: Result<Vec<Option<Int>>, ()> = p[1..].iter().map(|s| sub(s)).collect();
    let rest = match rest {
        Ok(r) => r,
        Err(()) => return Err(Line::Bad("index")),
    };
    match rest.as_slice() {
        [] => Ok(FE { v, t: None, n: None, trail: 0 }),
        [None] => Ok(FE { v, t: None, n: None, trail: 1 }),
        [None, None] => Ok(FE { v, t: None, n: None, trail: 2 }),
        [Some(t)] => Ok(FE { v, t: Some(t.clone()), n: None, trail: 0 }),
        [Some(t), None] => Ok(FE { v, t: Some(t.clone()), n: None, trail: 1 }),
        [t, Some(n)] => Ok(FE { v, t: t.clone(), n: Some(n.clone()), trail: 0 }),
        // more separators than components
        r if r[..r.len().min(2)].iter().flatten().count() + r.iter().skip(2).flatten().count()
            == r.iter().flatten().count()
            && r.iter().skip(2).all(|x| x.is_none()) =>
        {
            Err(Line::Open("surplus slashes"))
        }
        _ => Err(Line::Bad("too many indices")),
    }
}

pub fn obj_line(line: &str) -> Line<O> {
    let line = line.trim_start_matches(is_blank);
    if line.is_empty() || line.starts_with('#') {
        return Line::Blank;
    }
    let (kw, rest) = match line.find(is_blank) {
        Some(i) => (&line[..i], &line[i..]),
        None => (line, ""),
    };
    let kw = kw.to_ascii_lowercase();
    if matches!(
        kw.as_str(),
        "mtllib" | "usemtl" | "shadow_obj" | "trace_obj" | "maplib" | "usemap" | "o" | "g"
    ) {
        let nm = name(rest);
        if nm.is_empty() {
            return Line::Bad("no name");
        }
        let list = || args_of_names(nm);
        return Line::Ok(match kw.as_str() {
            "mtllib" => O::Mtllib(list()),
            "maplib" => O::Maplib(list()),
            "g" => O::G(list()),
            "usemtl" => O::Usemtl(nm.into()),
            "shadow_obj" => O::Shadow(nm.into()),
            "trace_obj" => O::Trace(nm.into()),
            "o" => O::Obj(nm.into()),
            _ => O::Usemap(if nm.eq_ignore_ascii_case("off") { None } else { Some(nm.into()) }),
        });
    }
    let a = args(rest);
    let known = matches!(
        kw.as_str(),
        "v" | "vn" | "vt" | "vp" | "f" | "l" | "p" | "s" | "bevel" | "c_interp" | "d_interp" | "lod"
    );
    if !known {
        return Line::Bad("unknown statement");
    }
    if a.iter().any(|w| w.contains('#')) {
        return Line::Open("# inside a word");
    }
    let nums = |lo: usize, hi: usize| -> Option<Vec<Num>> {
        if a.len() < lo || a.len() > hi {
            return None;
        }
        a.iter().map(|w| num(w)).collect()
    };
    let r = match kw.as_str() {
        "v" => nums(3, 4).map(|x| {
            O::V(x[0].clone(), x[1].clone(), x[2].clone(), x.get(3).cloned())
        }),
        "vn" => nums(3, 3).map(|x| O::Vn(x[0].clone(), x[1].clone(), x[2].clone())),
        "vt" => nums(1, 3).map(|x| O::Vt(x[0].clone(), x.get(1).cloned(), x.get(2).cloned())),
        "vp" => nums(1, 3).map(|x| O::Vp(x[0].clone(), x.get(1).cloned(), x.get(2).cloned())),
        "f" | "l" => {
            let mut open = None;
            let mut es = Vec::new();
            for w in &a {
                match face_el(w) {
                    Ok(e) => es.push(e),
                    Err(Line::Bad(r)) => return Line::Bad(r),
                    Err(Line::Open(r)) => open = Some(r),
                    Err(_) => unreachable!(),
                }
            }
            if a.is_empty() {
                return Line::Bad("no elements");
            }
            if kw == "l" {
                if es.iter().any(|e| e.n.is_some()) {
                    // With detached slashes around, who knows; without, too many.
                    return if open.is_some() { Line::Open("slashes") } else { Line::Bad("normal in a line") };
                }
                if let Some(r) = open {
                    return Line::Open(r);
                }
                if es.iter().any(|e| e.trail > if e.t.is_some() { 0 } else { 1 }) {
                    return Line::Open("surplus slashes");
                }
                return Line::Ok(O::L(
                    es.into_iter().map(|e| LE { v: e.v, t: e.t, trail: e.trail }).collect(),
                ));
            }
            if let Some(r) = open {
                return Line::Open(r);
            }
            Some(O::F(es))
        }
        "p" => {
            if a.is_empty() {
                None
            } else {
                a.iter().map(|w| int(w)).collect::<Option<Vec<_>>>().map(O::P)
            }
        }
        "s" => match a.as_slice() {
            [w] => match (int(w), switch(w)) {
                (Some(i), _) => Some(O::S(Sm::N(i))),
                (None, Some(b)) => Some(O::S(Sm::Sw(b))),
                _ => None,
            },
            _ => None,
        },
        "lod" => match a.as_slice() {
            [w] => int(w).filter(|i| (0..=100).contains(&i.v)).map(O::Lod),
            _ => None,
        },
        k => match a.as_slice() {
            [w] => switch(w).map(|b| {
                O::Sw(
                    match k {
                        "bevel" => SwK::Bevel,
                        "c_interp" => SwK::CInterp,
                        _ => SwK::DInterp,
                    },
                    b,
                )
            }),
            _ => None,
        },
    };
    match r {
        Some(s) => Line::Ok(s),
        None => Line::Bad("arguments"),
    }
}
fn args_of_names(nm: &str) -> Vec<String> {
    nm.split(is_blank).filter(|w| !w.is_empty()).map(String::from).collect()
}

pub const MTL_RESERVED: [&str; 39] = [
    "newmtl", "spectral", "xyz", "sharpness", "illum", "map_disp", "map_ka", "map_kd", "map_ks",
    "map_ns", "map_aat", "map_d", "disp", "decal", "bump", "refl", "-halo", "-type", "-texres",
    "-blendu", "-blendv", "-boost", "-clamp", "-imfchan", "-bm", "-cc", "-mm", "-o", "-s", "-t",
    "ka", "kd", "ks", "ke", "ns", "tr", "tf", "ni", "d",
];
pub fn reserved(w: &str) -> bool {
    let l = w.to_ascii_lowercase();
    MTL_RESERVED.contains(&l.as_str())
}
/// `[+-]digits...#`: a number directly followed by `#`.
pub fn number_then_hash(w: &str) -> bool {
    w.match_indices('#').any(|(i, _)| is_number(&w[..i]))
}
/// A word that can stand for a file name (or another free word) in MTL.
pub fn is_file_word(w: &str) -> bool {
    !w.is_empty()
        && !w.starts_with('#')
        && !reserved(w)
        && !is_number(w)
        && !number_then_hash(w)
        && !w.contains([' ', '\t', '\n', '\r'])
}

pub fn mtl_line(line: &str) -> Line<M> {
    let line = line.trim_start_matches(is_blank);
    if line.is_empty() || line.starts_with('#') {
        return Line::Blank;
    }
    let (kw, rest) = match line.find(is_blank) {
        Some(i) => (&line[..i], &line[i..]),
        None => (line, ""),
    };
    let kw = kw.to_ascii_lowercase();
    if kw == "newmtl" {
        let nm = name(rest);
        if nm.is_empty() {
            return Line::Bad("no name");
        }
        return Line::Ok(M::New(nm.into()));
    }
    let a = args(rest);
    let col = COLS.iter().position(|c| c.eq_ignore_ascii_case(&kw));
    let sca = SCAS.iter().position(|c| c.eq_ignore_ascii_case(&kw));
    let map = MAP_KEYS.iter().position(|c| c.0.eq_ignore_ascii_case(&kw));
    let alias = kw == "map_disp";
    let map = if alias { Some(5) } else { map };
    if col.is_none() && sca.is_none() && map.is_none() && !matches!(kw.as_str(), "d" | "illum" | "map_aat")
    {
        // A line starting with a reserved word or a number is no statement
        // either: the words stand for arguments only.
        return Line::Bad("unknown statement");
    }
    if a.iter().any(|w| number_then_hash(w)) {
        return Line::Open("# behind a number");
    }
    let nums = |a: &[&str], lo: usize, hi: usize| -> Option<Vec<Num>> {
        if a.len() < lo || a.len() > hi {
            return None;
        }
        a.iter().map(|w| num(w)).collect()
    };
    let bad = || Line::Bad("arguments");
    if let Some(k) = col {
        let c = match a.first().map(|w| w.to_ascii_lowercase()).as_deref() {
            Some("spectral") => {
                let Some(f) = a.get(1) else { return bad() };
                if is_number(f) {
                    return bad();
                }
                if !is_file_word(f) {
                    return Line::Open("reserved word as file name");
                }
                match nums(&a[2..], 0, 1) {
                    Some(x) => Col::Spec(f.to_string(), x.first().cloned()),
                    None => return bad(),
                }
            }
            Some("xyz") => match nums(&a[1..], 1, 3) {
                Some(x) => Col::Xyz(x[0].clone(), x.get(1).cloned(), x.get(2).cloned()),
                None => return bad(),
            },
            _ => match nums(&a, 3, 3) {
                Some(x) => Col::Rgb(x[0].clone(), x[1].clone(), x[2].clone()),
                None => return bad(),
            },
        };
        return Line::Ok(M::Col(k, c));
    }
    if let Some(k) = sca {
        return match nums(&a, 1, 1) {
            Some(x) => Line::Ok(M::Sca(k, x[0].clone())),
            None => bad(),
        };
    }
    match kw.as_str() {
        "d" => {
            let halo = a.first().is_some_and(|w| w.eq_ignore_ascii_case("-halo"));
            return match nums(if halo { &a[1..] } else { &a }, 1, 1) {
                Some(x) => Line::Ok(M::D(halo, x[0].clone())),
                None => bad(),
            };
        }
        "illum" => {
            return match a.as_slice() {
                [w] => match int(w) {
                    Some(i) if i.v >= 0 => Line::Ok(M::Illum(i)),
                    _ => bad(),
                },
                _ => bad(),
            };
        }
        "map_aat" => {
            return match a.as_slice() {
                [w] => switch(w).map(|b| Line::Ok(M::Aat(b))).unwrap_or_else(bad),
                _ => bad(),
            };
        }
        _ => {}
    }
    let kind = map.unwrap();
    let mut i = 0;
    let mut out = Vec::new();
    let mut files = 0;
    let mut open = None;
    while i < a.len() {
        let w = a[i];
        let l = w.to_ascii_lowercase();
        let arg = a.get(i + 1).copied();
        let take3 = |i: &mut usize| -> Option<T3> {
            let x = num(a.get(*i + 1)?)?;
            *i += 2;
            let y = a.get(*i).and_then(|w| num(w));
            if y.is_some() {
                *i += 1;
            }
            let z = if y.is_some() { a.get(*i).and_then(|w| num(w)) } else { None };
            if z.is_some() {
                *i += 1;
            }
            Some((x, y, z))
        };
        let m = match l.as_str() {
            "-blendu" | "-blendv" | "-cc" | "-clamp" => {
                let Some(b) = arg.and_then(switch) else { return bad() };
                i += 2;
                match l.as_str() {
                    "-blendu" => MA::BlendU(b),
                    "-blendv" => MA::BlendV(b),
                    "-cc" => MA::Cc(b),
                    _ => MA::Clamp(b),
                }
            }
            "-mm" => {
                let (Some(x), Some(y)) =
                    (arg.and_then(num), a.get(i + 2).and_then(|w| num(w)))
                else {
                    return bad();
                };
                i += 3;
                MA::Mm(x, y)
            }
            "-o" | "-s" | "-t" => {
                let Some(t) = take3(&mut i) else { return bad() };
                match l.as_str() {
                    "-o" => MA::O(t),
                    "-s" => MA::S(t),
                    _ => MA::T(t),
                }
            }
            "-texres" => {
                let Some(x) = arg.and_then(int) else { return bad() };
                i += 2;
                MA::Texres(x)
            }
            "-bm" => {
                let Some(x) = arg.and_then(num) else { return bad() };
                i += 2;
                MA::Bm(x)
            }
            "-imfchan" | "-type" => {
                let Some(x) = arg else { return bad() };
                if is_number(x) {
                    return bad();
                }
                if !is_file_word(x) {
                    // A reserved word: open unless the rest is wrong anyway.
                    open = Some("reserved word as an argument");
                }
                i += 2;
                if l == "-type" {
                    MA::Type(x.into())
                } else {
                    MA::Imf(x.into())
                }
            }
            "-boost" => return Line::Bad("-boost is not supported"),
            _ if is_number(w) => return bad(),
            _ if reserved(w) => {
                // may be read as a file name or as a keyword
                open = Some("reserved word as a file name");
                files += 1;
                i += 1;
                MA::File(w.into())
            }
            _ => {
                files += 1;
                i += 1;
                MA::File(w.into())
            }
        };
        out.push(m);
    }
    if let Some(r) = open {
        return Line::Open(r);
    }
    if files != 1 {
        return Line::Bad("file names");
    }
    for x in &out {
        if out.iter().filter(|y| ma_index(y) == ma_index(x)).count() > 1 {
            return Line::Open("repeated option");
        }
        if !map_has(kind, ma_index(x)) {
            return Line::Open("option the map does not have");
        }
    }
    Line::Ok(M::Map(kind, alias, out))
}

fn parse<S>(text: &str, f: impl Fn(&str) -> Line<S>) -> Ref<Vec<S>> {
    let mut out = Vec::new();
    let mut open = false;
    for l in lines(text) {
        match f(l) {
            Line::Blank => {}
            Line::Ok(s) => out.push(s),
            Line::Bad(_) => return Ref::Bad,
            Line::Open(_) => open = true,
        }
    }
    if open {
        Ref::Open
    } else {
        Ref::Ok(out)
    }
}
pub fn parse_obj(text: &str) -> Ref<Vec<O>> {
    parse(text, obj_line)
}
pub fn parse_mtl(text: &str) -> Ref<Vec<M>> {
    parse(text, mtl_line)
}

#[derive(Debug, Clone, PartialEq)]
pub enum Expect {
    Obj(CModel),
    Mtl(Vec<CMat>),
    /// A material statement before the first newmtl: that error.
    NewMaterial,
    Err,
    Open,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub enum Fmt {
    Obj,
    Mtl,
}
pub fn expect(fmt: Fmt, text: &str) -> Expect {
    match fmt {
        Fmt::Obj => match parse_obj(text) {
            Ref::Ok(d) => eval_obj(&d).map(Expect::Obj).unwrap_or(Expect::Open),
            Ref::Bad => Expect::Err,
            Ref::Open => Expect::Open,
        },
        Fmt::Mtl => match parse_mtl(text) {
            Ref::Ok(d) if d.is_empty() => Expect::Open,
            Ref::Ok(d) => eval_mtl(&d).map(Expect::Mtl).unwrap_or(Expect::NewMaterial),
            Ref::Bad => Expect::Err,
            Ref::Open => Expect::Open,
        },
    }
}
