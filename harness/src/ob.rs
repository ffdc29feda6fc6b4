//! Obligations: one executable statement about the crate each. A case is a list
//! of obligations; a replay file is one obligation.
use crate::alloc;
use crate::ast::{COLS, SCAS};
use crate::canon::*;
use crate::refparse::{self, Expect, Fmt};
use nobject_rs as n;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

// What of a result an obligation looks at.
pub const V: u32 = 1;
pub const VN: u32 = 2;
pub const VT: u32 = 4;
/// faces, lines and point sets per group: their references
pub const ELEMS: u32 = 8;
/// smoothing numbers of the faces per group
pub const SMOOTH: u32 = 16;
/// the set of group names
pub const GKEYS: u32 = 32;
/// settings of the groups
pub const GSET: u32 = 64;
/// libraries, shadow and trace files
pub const LIBS: u32 = 128;
/// names of all kinds (OBJ)
pub const ONAMES: u32 = 256;
pub const MCOL: u32 = 512;
pub const MMAP: u32 = 1024;
/// names and file names (MTL)
pub const MNAMES: u32 = 2048;
pub const ALL: u32 = 4095;
/// a text for which an error is expected has to fail
pub const ERR: u32 = 1 << 20;
/// a text for which a value is expected must not fail
pub const OK: u32 = 1 << 21;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ob {
    /// The load gives what the reference reader says, as far as `view` looks.
    Judge { fmt: Fmt, text: String, view: u32 },
    /// Both fail, or both load to the same value.
    Same { fmt: Fmt, a: String, b: String, view: u32 },
    /// load(a + sep + b) is load(a) followed by load(b).
    Concat { fmt: Fmt, a: String, b: String, sep: String },
    /// load(a + sep + b) keeps what load(a) gave.
    Prefix { a: String, b: String, sep: String },
    /// Each material is what its own part of the text gives alone.
    Isolate { text: String, parts: Vec<String> },
    /// The two texts agree in all materials but number `k`.
    Others { a: String, b: String, k: usize },
    /// Rejected because a new material was expected.
    NewMat { text: String },
    /// The name is the same in both formats, and the one written.
    Link { obj: String, mtl: String, name: String },
    /// Both loaders return; what they return can be printed; memory is bounded.
    Total { text: String },
    /// As Total for a text of many repetitions, on a stack of one megabyte.
    Deep { head: String, unit: String, tail: String, n: usize },
    /// History independence; see special.rs.
    Pure(crate::special::Pure),
    NoIo { fmt: Fmt, text: String, files: Vec<String> },
    Alloc { fmt: Fmt, head: String, unit: String, tail: String, n: usize },
    Insn { fmt: Fmt, head: String, unit: String, tail: String, n: usize },
    /// As Insn, where the CPU time gives reason to.
    Cost { fmt: Fmt, head: String, unit: String, tail: String, n: usize },
    Conv(crate::special::Conv),
}

/// Counted on every load, for the evidence.
pub static LOADS: AtomicU64 = AtomicU64::new(0);
/// Obligations that asked nothing of the case: its meaning is left open, or an
/// error is expected and the property does not speak of it.
pub static VACUOUS: AtomicU64 = AtomicU64::new(0);
pub static LOADED_OK: AtomicU64 = AtomicU64::new(0);

pub fn obj(t: &str) -> Result<n::Model, n::ObjError> {
    LOADS.fetch_add(1, Relaxed);
    #[cfg(feature = "guided")]
    crate::cov::on(true);
    let r = n::load_obj(t);
    #[cfg(feature = "guided")]
    crate::cov::on(false);
    if r.is_ok() {
        LOADED_OK.fetch_add(1, Relaxed);
    }
    r
}
pub fn mtl(t: &str) -> Result<Vec<n::Material>, n::ObjError> {
    LOADS.fetch_add(1, Relaxed);
    #[cfg(feature = "guided")]
    crate::cov::on(true);
    let r = n::load_mtl(t);
    #[cfg(feature = "guided")]
    crate::cov::on(false);
    if r.is_ok() {
        LOADED_OK.fetch_add(1, Relaxed);
    }
    r
}
pub fn cobj(t: &str) -> Result<CModel, n::ObjError> {
    obj(t).map(|m| model(&m))
}
pub fn cmtl(t: &str) -> Result<Vec<CMat>, n::ObjError> {
    mtl(t).map(|m| m.iter().map(material).collect())
}

/// A long value cut for a message.
pub fn cut(s: &str, max: usize) -> String {
    if s.len() <= max {
        return s.to_string();
    }
    let mut i = max;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}... ({} bytes)", &s[..i], s.len())
}
fn d<T: std::fmt::Debug>(x: &T) -> String {
    cut(&format!("{x:?}"), 1200)
}

type Res = Result<(), String>;

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Res {
    if got == want {
        Ok(())
    } else {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        // show the place where they part
        let p = g.bytes().zip(w.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(60);
        let from = |s: &str| {
            let mut i = p.min(s.len());
            while !s.is_char_boundary(i) {
                i -= 1;
            }
            cut(&s[i..], 400)
        };
        Err(format!("{what}: got ..{} want ..{}", from(&g), from(&w)))
    }
}

pub fn cmp_model(got: &CModel, want: &CModel, view: u32) -> Res {
    if view & V != 0 {
        eq("positions", &got.v, &want.v)?;
    }
    if view & VN != 0 {
        eq("normals", &got.vn, &want.vn)?;
    }
    if view & VT != 0 {
        eq("texture coordinates", &got.vt, &want.vt)?;
    }
    if view & ELEMS != 0 {
        let f = |m: &CModel| -> BTreeMap<String, Vec<Vec<FaceEl>>> {
            m.faces.iter().map(|(k, v)| (k.clone(), v.iter().map(|f| f.0.clone()).collect())).collect()
        };
        eq("faces by group", &f(got), &f(want))?;
        eq("lines by group", &got.lines, &want.lines)?;
        eq("points by group", &got.points, &want.points)?;
    }
    if view & SMOOTH != 0 {
        let f = |m: &CModel| -> BTreeMap<String, Vec<i64>> {
            m.faces.iter().map(|(k, v)| (k.clone(), v.iter().map(|f| f.1).collect())).collect()
        };
        eq("smoothing groups of the faces by group", &f(got), &f(want))?;
    }
    if view & (GKEYS | ONAMES) != 0 {
        let f = |m: &CModel| -> Vec<String> { m.groups.keys().cloned().collect() };
        eq("groups", &f(got), &f(want))?;
    }
    if view & GSET != 0 {
        eq("group settings", &got.groups, &want.groups)?;
    }
    if view & ONAMES != 0 {
        let f = |m: &CModel| -> Vec<(String, Option<String>)> {
            m.groups.values().map(|g| (g.material.clone(), g.tex.clone())).collect()
        };
        eq("material and texture map names", &f(got), &f(want))?;
    }
    if view & (LIBS | ONAMES) != 0 {
        eq("material libraries", &got.mlibs, &want.mlibs)?;
        eq("texture libraries", &got.tlibs, &want.tlibs)?;
        eq("shadow object", &got.shadow, &want.shadow)?;
        eq("trace object", &got.trace, &want.trace)?;
    }
    Ok(())
}
pub fn cmp_mats(got: &[CMat], want: &[CMat], view: u32) -> Res {
    eq("number of materials", &got.len(), &want.len())?;
    let pick = |m: &CMat| -> CMat {
        m.iter()
            .filter(|(k, v)| {
                let col = COLS.contains(k) || SCAS.contains(k) || matches!(**k, "d" | "illum" | "map_aat");
                let name = **k == "name" || k.ends_with(".file") || (col && v.starts_with("spectral"));
                let map = k.contains('.');
                (col && view & MCOL != 0) || (map && view & MMAP != 0) || (name && view & MNAMES != 0)
            })
            .map(|(k, v)| (*k, v.clone()))
            .collect()
    };
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        eq(&format!("material {i}"), &pick(g), &pick(w))?;
    }
    Ok(())
}

/// Soft limit on the heap a load may have live at once, for a text without
/// multiplied elements.
pub fn heap_budget(text: &str) -> usize {
    (2 << 20) + 4096 * text.len()
}
pub fn heap_cap(text: &str) -> usize {
    (64 << 20) + 16384 * text.len()
}

fn vacuous() -> Res {
    VACUOUS.fetch_add(1, Relaxed);
    Ok(())
}
fn judge(fmt: Fmt, text: &str, view: u32) -> Res {
    let want = refparse::expect(fmt, text);
    let err = |e: n::ObjError| -> Res {
        if view & OK != 0 {
            Err(format!("a valid text does not load: {}", cut(&e.to_string(), 300)))
        } else {
            Ok(())
        }
    };
    match (fmt, want) {
        (_, Expect::Open) => vacuous(),
        (Fmt::Obj, Expect::Obj(w)) => match cobj(text) {
            Ok(g) => cmp_model(&g, &w, view),
            Err(e) => err(e),
        },
        (Fmt::Mtl, Expect::Mtl(w)) => match cmtl(text) {
            Ok(g) => cmp_mats(&g, &w, view),
            Err(e) => err(e),
        },
        (_, _) if view & ERR == 0 => vacuous(),
        (Fmt::Obj, _) => match cobj(text) {
            Ok(g) => Err(format!("an error was expected, loaded: {}", d(&g))),
            Err(_) => Ok(()),
        },
        (Fmt::Mtl, _) => match cmtl(text) {
            Ok(g) => Err(format!("an error was expected, loaded: {}", d(&g))),
            Err(_) => Ok(()),
        },
    }
}

fn same<T, E: std::fmt::Display>(
    a: Result<T, E>,
    b: Result<T, E>,
    cmp: impl Fn(&T, &T) -> Res,
) -> Res {
    match (a, b) {
        (Ok(x), Ok(y)) => cmp(&x, &y),
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("the first loads, the second does not: {}", cut(&e.to_string(), 300))),
        (Err(e), Ok(_)) => Err(format!("the second loads, the first does not: {}", cut(&e.to_string(), 300))),
    }
}

fn lists<T: Clone>(a: &BTreeMap<String, Vec<T>>, b: &BTreeMap<String, Vec<T>>) -> BTreeMap<String, Vec<T>> {
    let mut r = a.clone();
    for (k, v) in b {
        r.entry(k.clone()).or_default().extend(v.iter().cloned());
    }
    r
}
fn cat<T: Clone>(a: &[T], b: &[T]) -> Vec<T> {
    a.iter().chain(b).cloned().collect()
}
fn prefix<T: PartialEq + std::fmt::Debug>(what: &str, a: &[T], ab: &[T]) -> Res {
    if ab.len() < a.len() {
        return Err(format!("{what}: {} entries before appending, {} after", a.len(), ab.len()));
    }
    for (i, (x, y)) in a.iter().zip(ab).enumerate() {
        eq(&format!("{what}[{i}]"), y, x)?;
    }
    Ok(())
}

fn concat(fmt: Fmt, a: &str, b: &str, sep: &str) -> Res {
    let ab = format!("{a}{sep}{b}");
    match fmt {
        Fmt::Mtl => match (cmtl(a), cmtl(b), cmtl(&ab)) {
            (Ok(x), Ok(y), Ok(z)) => eq("materials of the joined text", &z, &cat(&x, &y)),
            (Ok(_), Ok(_), Err(e)) => Err(format!("the parts load, the joined text does not: {}", cut(&e.to_string(), 300))),
            _ => Ok(()),
        },
        Fmt::Obj => match (cobj(a), cobj(b), cobj(&ab)) {
            (Ok(x), Ok(y), Ok(z)) => {
                eq("positions", &z.v, &cat(&x.v, &y.v))?;
                eq("normals", &z.vn, &cat(&x.vn, &y.vn))?;
                eq("texture coordinates", &z.vt, &cat(&x.vt, &y.vt))?;
                eq("material libraries", &z.mlibs, &cat(&x.mlibs, &y.mlibs))?;
                eq("texture libraries", &z.tlibs, &cat(&x.tlibs, &y.tlibs))?;
                eq("faces", &z.faces, &lists(&x.faces, &y.faces))?;
                eq("lines", &z.lines, &lists(&x.lines, &y.lines))?;
                eq("points", &z.points, &lists(&x.points, &y.points))?;
                let mut k: Vec<&String> = x.groups.keys().chain(y.groups.keys()).collect();
                k.sort();
                k.dedup();
                eq("groups", &z.groups.keys().collect(), &k)
            }
            (Ok(_), Ok(_), Err(e)) => Err(format!("the parts load, the joined text does not: {}", cut(&e.to_string(), 300))),
            _ => Ok(()),
        },
    }
}

fn keeps(a: &str, b: &str, sep: &str) -> Res {
    let ab = format!("{a}{sep}{b}");
    let (Ok(x), Ok(z)) = (cobj(a), cobj(&ab)) else { return Ok(()) };
    prefix("positions", &x.v, &z.v)?;
    prefix("normals", &x.vn, &z.vn)?;
    prefix("texture coordinates", &x.vt, &z.vt)?;
    prefix("material libraries", &x.mlibs, &z.mlibs)?;
    prefix("texture libraries", &x.tlibs, &z.tlibs)?;
    let none = Vec::new();
    for (k, v) in &x.faces {
        prefix(&format!("faces of {k:?}"), v, z.faces.get(k).unwrap_or(&none))?;
    }
    let none = Vec::new();
    for (k, v) in &x.lines {
        prefix(&format!("lines of {k:?}"), v, z.lines.get(k).unwrap_or(&none))?;
    }
    let none = Vec::new();
    for (k, v) in &x.points {
        prefix(&format!("points of {k:?}"), v, z.points.get(k).unwrap_or(&none))?;
    }
    for k in x.groups.keys() {
        if !z.groups.contains_key(k) {
            return Err(format!("group {k:?} is gone"));
        }
    }
    Ok(())
}

impl Ob {
    /// `Err`: the statement is false of the crate, and why.
    pub fn check(&self) -> Res {
        match self {
            Ob::Judge { fmt, text, view } => judge(*fmt, text, *view),
            Ob::Same { fmt: Fmt::Obj, a, b, view } => same(cobj(a), cobj(b), |x, y| cmp_model(y, x, *view)),
            Ob::Same { fmt: Fmt::Mtl, a, b, view } => same(cmtl(a), cmtl(b), |x, y| cmp_mats(y, x, *view)),
            Ob::Concat { fmt, a, b, sep } => concat(*fmt, a, b, sep),
            Ob::Prefix { a, b, sep } => keeps(a, b, sep),
            Ob::Isolate { text, parts } => {
                let all = cmtl(text);
                let mut each = Vec::new();
                for p in parts {
                    match cmtl(p) {
                        Ok(m) if m.len() == 1 => each.extend(m),
                        Ok(m) => return Err(format!("one newmtl, {} materials: {}", m.len(), d(p))),
                        Err(e) => return Err(format!("a valid material does not load: {} {}", cut(&e.to_string(), 200), d(p))),
                    }
                }
                match all {
                    Ok(m) => cmp_mats(&m, &each, ALL),
                    Err(e) => Err(format!("each material loads, all together do not: {}", cut(&e.to_string(), 300))),
                }
            }
            Ob::Others { a, b, k } => match (cmtl(a), cmtl(b)) {
                (Ok(x), Ok(y)) => {
                    eq("number of materials", &y.len(), &x.len())?;
                    for i in 0..x.len() {
                        if i != *k {
                            eq(&format!("material {i} (material {k} was edited)"), &y[i], &x[i])?;
                        }
                    }
                    Ok(())
                }
                (Err(e), _) | (_, Err(e)) => Err(format!("a valid text does not load: {}", cut(&e.to_string(), 300))),
            },
            Ob::NewMat { text } => match mtl(text) {
                Err(n::ObjError::MaterialParse(n::MaterialError::NewMaterial)) => Ok(()),
                Err(e) => Err(format!("another error than that a new material was expected: {}", cut(&e.to_string(), 300))),
                Ok(m) => Err(format!("a statement before newmtl is accepted: {}", d(&m))),
            },
            Ob::Link { obj: o, mtl: m, name } => {
                let o = cobj(o).map_err(|e| format!("usemtl does not load: {}", cut(&e.to_string(), 300)))?;
                let m = cmtl(m).map_err(|e| format!("newmtl does not load: {}", cut(&e.to_string(), 300)))?;
                let used = o.groups.get("default").map(|g| g.material.clone());
                eq("name after usemtl", &used, &Some(name.clone()))?;
                eq("materials", &m.len(), &1)?;
                eq("name after newmtl", &m[0].get("name").cloned(), &Some(format!("{name:?}")))
            }
            Ob::Total { text } => total(text),
            Ob::Deep { head, unit, tail, n } => deep(&crate::special::grown(head, unit, tail, *n)),
            Ob::Pure(p) => p.check(),
            Ob::NoIo { fmt, text, files } => crate::special::no_io(*fmt, text, files),
            Ob::Alloc { fmt, head, unit, tail, n } => crate::special::alloc_growth(*fmt, head, unit, tail, *n),
            Ob::Insn { fmt, head, unit, tail, n } => crate::special::insn_growth(*fmt, head, unit, tail, *n),
            Ob::Cost { fmt, head, unit, tail, n } => crate::special::cost_growth(*fmt, head, unit, tail, *n),
            Ob::Conv(c) => c.check(),
        }
    }

    /// The texts in the obligation, to shrink and hash.
    pub fn texts(&self) -> Vec<&String> {
        match self {
            Ob::Judge { text, .. } | Ob::NewMat { text } | Ob::Total { text } | Ob::NoIo { text, .. } => vec![text],
            Ob::Same { a, b, .. } | Ob::Concat { a, b, .. } | Ob::Prefix { a, b, .. } | Ob::Others { a, b, .. } => vec![a, b],
            Ob::Isolate { text, .. } => vec![text],
            Ob::Link { obj, mtl, .. } => vec![obj, mtl],
            Ob::Deep { head, unit, tail, .. } | Ob::Alloc { head, unit, tail, .. } | Ob::Insn { head, unit, tail, .. } | Ob::Cost { head, unit, tail, .. } => vec![head, unit, tail],
            Ob::Pure(p) => p.texts(),
            Ob::Conv(_) => vec![],
        }
    }
    /// Whether any one text stays meaningful when pieces are cut out of it.
    pub fn with_text(&self, t: String) -> Option<Ob> {
        match self {
            Ob::Judge { fmt, view, .. } => Some(Ob::Judge { fmt: *fmt, text: t, view: *view }),
            Ob::Total { .. } => Some(Ob::Total { text: t }),
            _ => None,
        }
    }
}

/// Half of what a Rust thread has by default: the stack needed does not depend
/// on the text.
const STACK: usize = 1 << 20;
fn deep(text: &str) -> Res {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || total(text)).expect("HARNESS: thread");
        t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}
fn total(text: &str) -> Res {
    let (r, s) = alloc::measured(heap_cap(text), || obj(text));
    let r = match r {
        Ok(m) => {
            let c = model(&m);
            let size: usize = c.faces.values().flatten().map(|f| 8 + f.0.len()).sum::<usize>()
                + c.lines.values().flatten().map(|f| 8 + f.len()).sum::<usize>()
                + c.points.values().flatten().map(|f| 8 + f.len()).sum::<usize>()
                + c.groups.len() * 8;
            let _ = format!("{m:?}");
            Ok(size)
        }
        Err(e) => Err(e),
    };
    let extra = match &r {
        // elements are copied for every current group: legitimate size of the result
        Ok(size) => size * 64,
        Err(e) => {
            let _ = (format!("{e}"), format!("{e:?}"), format!("{e:#?}"));
            // the same, up to the statement that failed
            groups_factor(text) * text.len() * 16
        }
    };
    if s.peak > heap_budget(text) + extra {
        return Err(format!("load_obj: {} bytes live for a text of {}", s.peak, text.len()));
    }
    drop(r);
    let (r, s) = alloc::measured(heap_cap(text), || mtl(text));
    if s.peak > heap_budget(text) {
        return Err(format!("load_mtl: {} bytes live for a text of {}", s.peak, text.len()));
    }
    match r {
        Ok(m) => {
            let _ = format!("{m:?}");
        }
        Err(e) => {
            let _ = (format!("{e}"), format!("{e:?}"), format!("{e:#?}"));
        }
    }
    Ok(())
}
fn groups_factor(text: &str) -> usize {
    text.split(['\n', '\r'])
        .map(|l| l.trim_start())
        .filter(|l| l.starts_with(['g', 'G']))
        .map(|l| l.split_whitespace().count())
        .max()
        .unwrap_or(0)
}
