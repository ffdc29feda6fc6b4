//! Documents as syntax trees, how they are written (with layout freedom) and the
//! reference semantics: what a load of the written text has to return.
use crate::canon::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub t: String,
    pub v: F,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Int {
    pub t: String,
    pub v: i64,
}
impl Int {
    pub fn of(v: i64) -> Int {
        Int { t: v.to_string(), v }
    }
}
impl Num {
    pub fn of(v: i64) -> Num {
        Num { t: v.to_string(), v: F::of(v as f32) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FE {
    pub v: Int,
    pub t: Option<Int>,
    pub n: Option<Int>,
    pub trail: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LE {
    pub v: Int,
    pub t: Option<Int>,
    pub trail: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Sm {
    N(Int),
    Sw(bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SwK {
    Bevel,
    CInterp,
    DInterp,
}
#[derive(Clone, Debug, PartialEq)]
pub enum O {
    V(Num, Num, Num, Option<Num>),
    Vn(Num, Num, Num),
    Vt(Num, Option<Num>, Option<Num>),
    Vp(Num, Option<Num>, Option<Num>),
    F(Vec<FE>),
    L(Vec<LE>),
    P(Vec<Int>),
    G(Vec<String>),
    S(Sm),
    Usemtl(String),
    Usemap(Option<String>),
    Sw(SwK, bool),
    Lod(Int),
    Mtllib(Vec<String>),
    Maplib(Vec<String>),
    Shadow(String),
    Trace(String),
    Obj(String),
}

pub type T3 = (Num, Option<Num>, Option<Num>);
#[derive(Clone, Debug, PartialEq)]
pub enum Col {
    Rgb(Num, Num, Num),
    Spec(String, Option<Num>),
    Xyz(Num, Option<Num>, Option<Num>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum MA {
    File(String),
    BlendU(bool),
    BlendV(bool),
    Cc(bool),
    Clamp(bool),
    Mm(Num, Num),
    O(T3),
    S(T3),
    T(T3),
    Texres(Int),
    Imf(String),
    Bm(Num),
    Type(String),
}
pub const COLS: [&str; 5] = ["Ka", "Kd", "Ks", "Ke", "Tf"];
pub const SCAS: [&str; 4] = ["Ns", "Tr", "sharpness", "Ni"];
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    New(String),
    Col(usize, Col),
    Sca(usize, Num),
    D(bool, Num),
    Illum(Int),
    Aat(bool),
    /// kind (index of MAP_KEYS), written as map_disp instead of disp, arguments
    Map(usize, bool, Vec<MA>),
}

// ---------------------------------------------------------------- words

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Kw(&'static str),
    Sw(bool),
    Lit(String),
}
fn lit(s: &str) -> W {
    W::Lit(s.to_string())
}
fn n(x: &Num) -> W {
    lit(&x.t)
}
fn opts(out: &mut Vec<W>, xs: &[&Option<Num>]) {
    for x in xs {
        match x {
            Some(x) => out.push(n(x)),
            None => break,
        }
    }
}

impl FE {
    pub fn text(&self) -> String {
        let slashes = "//".repeat(1);
        match (&self.t, &self.n) {
            (None, None) => format!("{}{}", self.v.t, &slashes[..self.trail.min(2) as usize]),
            (Some(t), None) => format!("{}/{}{}", self.v.t, t.t, &slashes[..self.trail.min(1) as usize]),
            (None, Some(k)) => format!("{}//{}", self.v.t, k.t),
            (Some(t), Some(k)) => format!("{}/{}/{}", self.v.t, t.t, k.t),
        }
    }
}
impl LE {
    pub fn text(&self) -> String {
        match &self.t {
            None => format!("{}{}", self.v.t, if self.trail > 0 { "/" } else { "" }),
            Some(t) => format!("{}/{}", self.v.t, t.t),
        }
    }
}

pub fn obj_words(s: &O) -> Vec<W> {
    let mut w = Vec::new();
    match s {
        O::V(x, y, z, k) => {
            w.extend([W::Kw("v"), n(x), n(y), n(z)]);
            opts(&mut w, &[k]);
        }
        O::Vn(x, y, z) => w.extend([W::Kw("vn"), n(x), n(y), n(z)]),
        O::Vt(u, v, k) => {
            w.extend([W::Kw("vt"), n(u)]);
            opts(&mut w, &[v, k]);
        }
        O::Vp(u, v, k) => {
            w.extend([W::Kw("vp"), n(u)]);
            opts(&mut w, &[v, k]);
        }
        O::F(es) => {
            w.push(W::Kw("f"));
            w.extend(es.iter().map(|e| W::Lit(e.text())));
        }
        O::L(es) => {
            w.push(W::Kw("l"));
            w.extend(es.iter().map(|e| W::Lit(e.text())));
        }
        O::P(es) => {
            w.push(W::Kw("p"));
            w.extend(es.iter().map(|e| lit(&e.t)));
        }
        O::G(ns) => {
            w.push(W::Kw("g"));
            w.extend(ns.iter().map(|x| lit(x)));
        }
        O::S(Sm::N(i)) => w.extend([W::Kw("s"), lit(&i.t)]),
        O::S(Sm::Sw(b)) => w.extend([W::Kw("s"), W::Sw(*b)]),
        O::Usemtl(x) => w.extend([W::Kw("usemtl"), lit(x)]),
        O::Usemap(Some(x)) => w.extend([W::Kw("usemap"), lit(x)]),
        O::Usemap(None) => w.extend([W::Kw("usemap"), W::Sw(false)]),
        O::Sw(k, b) => w.extend([
            W::Kw(match k {
                SwK::Bevel => "bevel",
                SwK::CInterp => "c_interp",
                SwK::DInterp => "d_interp",
            }),
            W::Sw(*b),
        ]),
        O::Lod(i) => w.extend([W::Kw("lod"), lit(&i.t)]),
        O::Mtllib(ns) => {
            w.push(W::Kw("mtllib"));
            w.extend(ns.iter().map(|x| lit(x)));
        }
        O::Maplib(ns) => {
            w.push(W::Kw("maplib"));
            w.extend(ns.iter().map(|x| lit(x)));
        }
        O::Shadow(x) => w.extend([W::Kw("shadow_obj"), lit(x)]),
        O::Trace(x) => w.extend([W::Kw("trace_obj"), lit(x)]),
        O::Obj(x) => w.extend([W::Kw("o"), lit(x)]),
    }
    w
}

fn t3w(w: &mut Vec<W>, kw: &'static str, t: &T3) {
    w.extend([W::Kw(kw), n(&t.0)]);
    opts(w, &[&t.1, &t.2]);
}

pub fn mtl_words(s: &M) -> Vec<W> {
    let mut w = Vec::new();
    match s {
        M::New(x) => w.extend([W::Kw("newmtl"), lit(x)]),
        M::Col(k, c) => {
            w.push(W::Kw(COLS[*k]));
            match c {
                Col::Rgb(a, b, c) => w.extend([n(a), n(b), n(c)]),
                Col::Spec(f, k) => {
                    w.extend([W::Kw("spectral"), lit(f)]);
                    opts(&mut w, &[k]);
                }
                Col::Xyz(a, b, c) => {
                    w.extend([W::Kw("xyz"), n(a)]);
                    opts(&mut w, &[b, c]);
                }
            }
        }
        M::Sca(k, x) => w.extend([W::Kw(SCAS[*k]), n(x)]),
        M::D(halo, x) => {
            w.push(W::Kw("d"));
            if *halo {
                w.push(W::Kw("-halo"));
            }
            w.push(n(x));
        }
        M::Illum(i) => w.extend([W::Kw("illum"), lit(&i.t)]),
        M::Aat(b) => w.extend([W::Kw("map_aat"), W::Sw(*b)]),
        M::Map(k, alias, args) => {
            w.push(W::Kw(if *alias && MAP_KEYS[*k].0 == "disp" {
                "map_disp"
            } else {
                MAP_KEYS[*k].0
            }));
            for a in args {
                match a {
                    MA::File(f) => w.push(lit(f)),
                    MA::BlendU(b) => w.extend([W::Kw("-blendu"), W::Sw(*b)]),
                    MA::BlendV(b) => w.extend([W::Kw("-blendv"), W::Sw(*b)]),
                    MA::Cc(b) => w.extend([W::Kw("-cc"), W::Sw(*b)]),
                    MA::Clamp(b) => w.extend([W::Kw("-clamp"), W::Sw(*b)]),
                    MA::Mm(a, b) => w.extend([W::Kw("-mm"), n(a), n(b)]),
                    MA::O(t) => t3w(&mut w, "-o", t),
                    MA::S(t) => t3w(&mut w, "-s", t),
                    MA::T(t) => t3w(&mut w, "-t", t),
                    MA::Texres(i) => w.extend([W::Kw("-texres"), lit(&i.t)]),
                    MA::Imf(s) => w.extend([W::Kw("-imfchan"), lit(s)]),
                    MA::Bm(x) => w.extend([W::Kw("-bm"), n(x)]),
                    MA::Type(s) => w.extend([W::Kw("-type"), lit(s)]),
                }
            }
        }
    }
    w
}

// ---------------------------------------------------------------- rendering

pub const COMMENTS: [&str; 14] = [
    "",
    " plain comment",
    "#",
    " v 1 2 3",
    "v 9 9 9",
    " newmtl x",
    " g other # nested",
    "\tusemtl b",
    "é\u{212A}\u{1F600}",
    " 'quoted \"text\"",
    " f 1/2/3 4//5",
    " 1.5e3",
    " s off",
    " /// ",
];

pub struct Style<'a> {
    b: &'a [u8],
    i: usize,
}
impl<'a> Style<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Style { b, i: 0 }
    }
    /// Next choice; 0 (the plain choice) once the bytes run out.
    fn next(&mut self) -> u8 {
        let x = self.b.get(self.i).copied().unwrap_or(0);
        self.i += 1;
        x
    }
}

/// Each letter's case by a bit of the mask.
pub fn case_by(word: &str, mask: usize) -> String {
    word.char_indices()
        .map(|(i, ch)| if mask >> i & 1 == 1 { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() })
        .collect()
}
fn case(word: &str, s: &mut Style) -> String {
    match s.next() % 8 {
        0..=2 => word.to_string(),
        3 => case_by(word, s.next() as usize | (s.next() as usize) << 8),
        4 => word.to_ascii_uppercase(),
        5 => word.to_ascii_lowercase(),
        6 => word
            .char_indices()
            .map(|(i, ch)| if i == 0 { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() })
            .collect(),
        _ => word
            .char_indices()
            .map(|(i, ch)| if i % 2 == 1 { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() })
            .collect(),
    }
}
fn comment(s: &mut Style) -> String {
    let k = s.next() as usize;
    if k < 160 {
        return COMMENTS[k % COMMENTS.len()].into();
    }
    let words = &crate::dict::get().words;
    let mut t = String::new();
    for _ in 0..s.next() % 8 + 1 {
        match s.next() {
            k @ 0..=127 => t.push(k as char),
            k @ 128..=191 => t.push_str(crate::gen::PIECES[k as usize % 118].trim_matches(['\n', '\r'])),
            k => t.push_str(&words[(k as usize * 256 + s.next() as usize) % words.len()]),
        }
        t.push_str(blank(s.next()));
    }
    t.retain(|c| !matches!(c, '\n' | '\r'));
    t
}
fn blank(c: u8) -> &'static str {
    match c % 12 {
        0..=5 => " ",
        6 => "\t",
        7 => "  ",
        8 => "\t\t",
        9 => " \t ",
        10 => "                    ",
        _ => "\t ",
    }
}
fn opt_blank(c: u8) -> &'static str {
    match c % 8 {
        0..=4 => "",
        5 => " ",
        6 => "\t",
        _ => "    \t",
    }
}
fn eol(c: u8) -> &'static str {
    match c % 8 {
        0..=3 => "\n",
        4 | 5 => "\r\n",
        6 => "\r",
        _ => "\n\n",
    }
}

/// Writes statements as text. With no style bytes: one space, `\n`, keywords as
/// in the specification, no comments.
pub fn render(lines: &[Vec<W>], style: &[u8]) -> String {
    let mut s = Style::new(style);
    let mut out = String::new();
    let mode = s.next(); // document-wide line end, or mixed
    let file_eol = match mode % 8 {
        0..=3 => None,
        4 => Some("\n"),
        5 | 6 => Some("\r\n"),
        _ => Some("\r"),
    };
    let end = |s: &mut Style| -> &'static str {
        let c = s.next();
        file_eol.unwrap_or_else(|| eol(c))
    };
    for (i, words) in lines.iter().enumerate() {
        // extra lines before the statement
        match s.next() % 16 {
            0..=11 => {}
            12 => out.push_str(end(&mut s)),
            13 => {
                out.push_str(opt_blank(s.next()));
                out.push_str(end(&mut s));
            }
            14 => {
                out.push('#');
                out.push_str(&comment(&mut s));
                out.push_str(end(&mut s));
            }
            _ => {
                out.push_str(opt_blank(s.next()));
                out.push('#');
                out.push_str(&comment(&mut s));
                out.push_str(end(&mut s));
                out.push_str(end(&mut s));
            }
        }
        out.push_str(opt_blank(s.next()));
        for (j, w) in words.iter().enumerate() {
            if j > 0 {
                out.push_str(blank(s.next()));
            }
            match w {
                W::Kw(k) => out.push_str(&case(k, &mut s)),
                W::Sw(b) => out.push_str(&case(if *b { "on" } else { "off" }, &mut s)),
                W::Lit(t) => out.push_str(t),
            }
        }
        match s.next() % 12 {
            0..=7 => {}
            8 => out.push(' '),
            9 => out.push_str("\t  "),
            _ => {
                out.push_str(blank(s.next()));
                out.push('#');
                out.push_str(&comment(&mut s));
            }
        }
        let last = i + 1 == lines.len();
        let c = s.next();
        let e = file_eol.unwrap_or_else(|| eol(c));
        if !(last && c % 3 == 1) {
            out.push_str(e);
        }
    }
    out
}

pub fn obj_lines(doc: &[O]) -> Vec<Vec<W>> {
    doc.iter().map(obj_words).collect()
}
pub fn mtl_lines(doc: &[M]) -> Vec<Vec<W>> {
    doc.iter().map(mtl_words).collect()
}

// ---------------------------------------------------------------- meaning

/// `None`: the text contains a reference whose meaning is not specified
/// (index 0, or counting back beyond the first entry).
pub fn eval_obj(doc: &[O]) -> Option<CModel> {
    let mut m = CModel::default();
    m.groups.insert("default".into(), CGroup::default());
    let mut cur: Vec<String> = vec!["default".into()];
    let mut smooth = 0i64;
    let abs = |i: i64, count: usize| -> Option<i64> {
        if i > 0 {
            Some(i)
        } else if i < 0 && -i <= count as i64 {
            Some(count as i64 + 1 + i)
        } else {
            None
        }
    };
    let absopt = |i: &Option<Int>, count: usize| -> Option<Option<i64>> {
        match i {
            None => Some(None),
            Some(i) => abs(i.v, count).map(Some),
        }
    };
    for s in doc {
        match s {
            O::V(x, y, z, w) => m.v.push((x.v, y.v, z.v, w.as_ref().map(|k| k.v))),
            O::Vn(x, y, z) => m.vn.push((x.v, y.v, z.v)),
            O::Vt(x, y, z) => {
                m.vt.push((x.v, y.as_ref().map(|k| k.v), z.as_ref().map(|k| k.v)))
            }
            O::Vp(..) | O::Obj(_) => {}
            O::F(es) => {
                let mut el = Vec::with_capacity(es.len());
                for e in es {
                    el.push((
                        abs(e.v.v, m.v.len())?,
                        absopt(&e.t, m.vt.len())?,
                        absopt(&e.n, m.vn.len())?,
                    ));
                }
                for g in &cur {
                    m.faces.entry(g.clone()).or_default().push((el.clone(), smooth));
                }
            }
            O::L(es) => {
                let mut el = Vec::with_capacity(es.len());
                for e in es {
                    el.push((abs(e.v.v, m.v.len())?, absopt(&e.t, m.vt.len())?));
                }
                for g in &cur {
                    m.lines.entry(g.clone()).or_default().push(el.clone());
                }
            }
            O::P(es) => {
                let mut el = Vec::with_capacity(es.len());
                for e in es {
                    el.push(abs(e.v, m.v.len())?);
                }
                for g in &cur {
                    m.points.entry(g.clone()).or_default().push(el.clone());
                }
            }
            O::G(ns) => {
                cur.clear();
                let mut seen = std::collections::BTreeSet::new();
                for g in ns {
                    m.groups.entry(g.clone()).or_default();
                    if seen.insert(g.clone()) {
                        cur.push(g.clone());
                    }
                }
            }
            O::S(Sm::N(i)) => smooth = i.v,
            O::S(Sm::Sw(b)) => smooth = *b as i64,
            O::Usemtl(x) => set(&mut m, &cur, |g| g.material = x.clone()),
            O::Usemap(x) => set(&mut m, &cur, |g| g.tex = x.clone()),
            O::Sw(SwK::Bevel, b) => set(&mut m, &cur, |g| g.bevel = *b),
            O::Sw(SwK::CInterp, b) => set(&mut m, &cur, |g| g.c_interp = *b),
            O::Sw(SwK::DInterp, b) => set(&mut m, &cur, |g| g.d_interp = *b),
            O::Lod(i) => set(&mut m, &cur, |g| g.lod = i.v),
            O::Mtllib(ns) => m.mlibs.extend(ns.iter().cloned()),
            O::Maplib(ns) => m.tlibs.extend(ns.iter().cloned()),
            O::Shadow(x) => m.shadow = Some(x.clone()),
            O::Trace(x) => m.trace = Some(x.clone()),
        }
    }
    Some(m)
}
fn set(m: &mut CModel, cur: &[String], f: impl Fn(&mut CGroup)) {
    for g in cur {
        f(m.groups.get_mut(g).unwrap());
    }
}

fn nf(x: &Num) -> String {
    format!("{:?}", x.v)
}
fn nof(x: &Option<Num>) -> String {
    x.as_ref().map(nf).unwrap_or_else(|| "-".into())
}
fn t3s(t: &T3) -> String {
    format!("{} {} {}", nf(&t.0), nof(&t.1), nof(&t.2))
}
/// Whether a map kind has the option (index into the MAP_KEYS names).
pub fn map_has(kind: usize, opt: usize) -> bool {
    let corrected = matches!(kind, 0 | 1 | 2 | 8);
    match opt {
        3 => corrected,
        10 => !corrected,
        11 => kind == 7,
        12 => kind == 8,
        _ => true,
    }
}
pub fn ma_index(a: &MA) -> usize {
    match a {
        MA::File(_) => 0,
        MA::BlendU(_) => 1,
        MA::BlendV(_) => 2,
        MA::Cc(_) => 3,
        MA::Clamp(_) => 4,
        MA::Mm(..) => 5,
        MA::O(_) => 6,
        MA::S(_) => 7,
        MA::T(_) => 8,
        MA::Texres(_) => 9,
        MA::Imf(_) => 10,
        MA::Bm(_) => 11,
        MA::Type(_) => 12,
    }
}

/// `Err(())`: a statement stands before the first newmtl.
pub fn eval_mtl(doc: &[M]) -> Result<Vec<CMat>, ()> {
    let mut out: Vec<CMat> = Vec::new();
    for s in doc {
        if let M::New(x) = s {
            let mut m = CMat::new();
            m.insert("name", format!("{:?}", x));
            out.push(m);
            continue;
        }
        let m = out.last_mut().ok_or(())?;
        match s {
            M::New(_) => unreachable!(),
            M::Col(k, c) => {
                let t = match c {
                    Col::Rgb(a, b, c) => format!("rgb {} {} {}", nf(a), nf(b), nf(c)),
                    Col::Spec(f, k) => format!(
                        "spectral {:?} {}",
                        f,
                        k.as_ref().map(nf).unwrap_or_else(|| "1.0".into())
                    ),
                    Col::Xyz(a, b, c) => format!(
                        "xyz {} {} {}",
                        nf(a),
                        b.as_ref().map(nf).unwrap_or_else(|| nf(a)),
                        c.as_ref().map(nf).unwrap_or_else(|| nf(a))
                    ),
                };
                m.insert(COLS[*k], t);
            }
            M::Sca(k, x) => {
                m.insert(SCAS[*k], nf(x));
            }
            M::D(h, x) => {
                m.insert("d", format!("{} {}", if *h { "halo" } else { "alpha" }, nf(x)));
            }
            M::Illum(i) => {
                m.insert("illum", i.v.to_string());
            }
            M::Aat(b) => {
                m.insert("map_aat", b.to_string());
            }
            M::Map(k, _, args) => {
                let keys = &MAP_KEYS[*k].1;
                for key in keys {
                    m.remove(key);
                }
                for a in args {
                    let i = ma_index(a);
                    if !map_has(*k, i) {
                        continue;
                    }
                    let t = match a {
                        MA::File(s) | MA::Imf(s) | MA::Type(s) => format!("{:?}", s),
                        MA::BlendU(b) | MA::BlendV(b) | MA::Cc(b) | MA::Clamp(b) => b.to_string(),
                        MA::Mm(a, b) => format!("{} {}", nf(a), nf(b)),
                        MA::O(t) | MA::S(t) | MA::T(t) => t3s(t),
                        MA::Texres(i) => i.v.to_string(),
                        MA::Bm(x) => nf(x),
                    };
                    m.insert(keys[i], t);
                }
            }
        }
    }
    Ok(out)
}
