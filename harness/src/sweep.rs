//! Small inputs, all of them: every combination of a few pieces up to a length,
//! in a fixed order and shared out between the workers. Random generation
//! rarely visits each of these.
use crate::ast::*;
use crate::ob::{self, Ob};
use crate::props::{self, Case};
use crate::refparse::{self, Fmt};

/// All sequences of `k` of the pieces, from `lo` to `hi` long.
struct Words {
    base: usize,
    len: usize,
    hi: usize,
    at: usize,
    end: usize,
}
impl Words {
    fn new(base: usize, lo: usize, hi: usize) -> Words {
        Words { base, len: lo, hi, at: 0, end: base.pow(lo as u32) }
    }
}
impl Iterator for Words {
    type Item = Vec<usize>;
    fn next(&mut self) -> Option<Vec<usize>> {
        while self.at == self.end {
            self.len += 1;
            if self.len > self.hi {
                return None;
            }
            self.at = 0;
            self.end = self.base.pow(self.len as u32);
        }
        let mut x = self.at;
        self.at += 1;
        let mut v = vec![0; self.len];
        for d in v.iter_mut() {
            *d = x % self.base;
            x /= self.base;
        }
        Some(v)
    }
}
fn join(p: &[&str], ix: &[usize], sep: &str) -> String {
    ix.iter().map(|i| p[*i]).collect::<Vec<_>>().join(sep)
}
type Cases = Box<dyn Iterator<Item = Case>>;

const OBJ_WORDS: [&str; 34] = [
    "v", "vn", "vt", "vp", "f", "l", "p", "g", "s", "o", "usemtl", "mtllib", "usemap", "maplib", "bevel", "lod", "shadow_obj", "1", "-1", "2.5",
    "1/2/3", "1//2", "1/2", "/", "//", "on", "off", "name", "#", "\n", "-", ".", "1e", "C_INTERP",
];
const MTL_WORDS: [&str; 36] = [
    "newmtl", "newmtl m\n", "Ka", "Kd", "Tf", "Ke", "Ns", "d", "Tr", "illum", "map_aat", "sharpness", "map_Kd", "map_d", "refl", "disp", "bump", "1", "-1", "2.5", "spectral", "xyz", "on", "OFF",
    "-halo", "-s", "-mm", "-cc", "-type", "sphere", "-imfchan", "f.png", "#", "\n", "-bm", "-texres",
];
const OBJ_TIGHT: [&str; 14] = ["v", "f", " ", "1", "/", "-", ".", "e", "\n", "\r", "\t", "#", "+", "g"];
const LITERAL: [&str; 9] = ["0", "1", "5", "9", ".", "-", "+", "e", "E"];
const ELEMENT: [&str; 6] = ["1", "2", "/", "-", " ", "3"];
const LAYOUT: [&str; 8] = [" ", "\t", "\n", "\r", "#", "#c", "v 1 2 3", "p 1"];
const LAYOUT_M: [&str; 8] = [" ", "\t", "\n", "\r", "#", "#c", "newmtl a", "Kd 1 2 3"];
const SWITCH: [&str; 11] = ["o", "n", "f", "O", "N", "F", "1", "0", "\u{FB00}", " ", "_"];

fn one(fmt: Fmt, text: String, view: u32, tag: &'static str) -> Case {
    let nontrivial = text.len() > 3;
    Case { obs: vec![Ob::Judge { fmt, text, view }], nontrivial, tag }
}

const NAME: [&str; 12] = ["a", "B", "1", ".", "/", "-", "+", " ", "#", "é", "e", "v"];

/// All sequences of the statements up to a length.
fn histories(st: &'static [&'static str], hi: usize, fmt: Fmt, head: &'static str, view: u32) -> impl Iterator<Item = Case> {
    Words::new(st.len(), 1, hi).map(move |w| one(fmt, format!("{head}{}\n", join(st, &w, "\n")), view, "all short histories"))
}

/// The same statements, one per line and single blanks.
fn plain(fmt: Fmt, a: String) -> Option<Case> {
    let b = match fmt {
        Fmt::Obj => match refparse::parse_obj(&a) {
            refparse::Ref::Ok(d) => render(&obj_lines(&d), &[]),
            _ => return None,
        },
        Fmt::Mtl => match refparse::parse_mtl(&a) {
            refparse::Ref::Ok(d) if !d.is_empty() => render(&mtl_lines(&d), &[]),
            _ => return None,
        },
    };
    Some(Case { nontrivial: a != b, obs: vec![Ob::Same { fmt, a, b, view: ob::ALL }], tag: "all short layouts" })
}

/// The fixed cases of a property.
pub fn cases(id: &str, thorough: bool) -> Cases {
    let t = thorough as usize;
    match id {
        "C01" => {
            let total = |text: String, tag| Case { nontrivial: text.len() > 3, obs: vec![Ob::Total { text }], tag };
            Box::new(
                Words::new(OBJ_TIGHT.len(), 0, 5 + t)
                    .map(move |w| total(join(&OBJ_TIGHT, &w, ""), "all short texts"))
                    .chain(Words::new(MTL_WORDS.len(), 1, 4 + t).map(move |w| total(join(&MTL_WORDS, &w, " "), "all short MTL word sequences"))),
            )
        }
        "C02" => Box::new(
            Words::new(OBJ_WORDS.len(), 1, 4 + t)
                .map(move |w| one(Fmt::Obj, join(&OBJ_WORDS, &w, " "), ob::ALL | ob::ERR, "all OBJ word sequences"))
                .chain(Words::new(MTL_WORDS.len(), 1, 3 + t).map(move |w| one(Fmt::Mtl, "newmtl a\n".to_string() + &join(&MTL_WORDS, &w, " "), ob::ALL | ob::ERR, "all MTL word sequences"))),
        ),
        "C03" => Box::new(Words::new(LITERAL.len(), 1, 6 + t).flat_map(move |w| {
            let l = join(&LITERAL, &w, "");
            [
                one(Fmt::Obj, format!("v {l} 2 {l}"), ob::V | ob::OK, "all short literals in OBJ"),
                one(Fmt::Mtl, format!("newmtl a\nNs {l}\nKd 1 {l} 2"), ob::MCOL | ob::OK, "all short literals in MTL"),
            ]
        })),
        "C05" => Box::new(Words::new(ELEMENT.len(), 1, 7 + t).flat_map(move |w| {
            let l = join(&ELEMENT, &w, "");
            ["f", "l", "p"].map(|k| one(Fmt::Obj, format!("v 1 1 1\nv 2 2 2\nvt 1\nvn 1 1 1\n{k} {l}"), ob::ELEMS | ob::OK, "all short elements"))
        })),
        "C04" => Box::new(histories(&["v 1 2 3", "v 4 5 6 7", "vn 1 2 3", "vt 8", "vt 9 1", "vt 2 3 4", "vp 5 6 7", "f 1 2 3", "g a", "o x"], 6 + t, Fmt::Obj, "", ob::V | ob::VN | ob::VT | ob::OK)),
        "C06" => Box::new(histories(&["v 1 1 1", "vt 1", "vn 1 1 1", "vp 1", "g a", "f -1 -2", "f -1/-1 -1//-1", "f 1/-1/1 -1/1/-1", "l -1/-1 -1", "p -1 -2 1"], 6 + t, Fmt::Obj, "v 0 0 0\nvt 0\n", ob::ELEMS | ob::OK)),
        "C07" => Box::new(histories(&["g a", "g b", "g a b", "g b a c", "g default", "f 1 2 3", "l 4 5", "p 6", "o a", "usemtl a"], 6 + t, Fmt::Obj, "", ob::ELEMS | ob::GKEYS | ob::OK)),
        "C08" => Box::new(histories(
            &["g a", "g b", "g a b", "g default", "usemtl m", "usemap t", "usemap off", "bevel on", "bevel off", "c_interp on", "d_interp on", "lod 3", "lod 0", "f 1 2 3"],
            5 + t, Fmt::Obj, "", ob::GSET | ob::OK,
        )),
        "C09" => Box::new(histories(&["s 1", "s 2", "s off", "s on", "s 0", "g a", "g a b", "f 1 2 3", "l 1 2", "usemtl m", "o x"], 6 + t, Fmt::Obj, "", ob::SMOOTH | ob::OK)),
        "C10" => Box::new(histories(
            &["mtllib a", "mtllib b a", "maplib c", "maplib a c d", "shadow_obj s t", "shadow_obj u", "trace_obj q", "trace_obj r r", "o x", "vp 1", "v 1 2 3", "usemtl m"],
            5 + t, Fmt::Obj, "", ob::LIBS | ob::OK,
        )),
        "C11" => Box::new(Words::new(NAME.len(), 1, 5 + t).flat_map(|w| {
            let l = join(&NAME, &w, "");
            [
                one(Fmt::Obj, format!("usemtl {l}\nv 1 2 3"), ob::ONAMES | ob::V | ob::OK, "all short OBJ names"),
                one(Fmt::Obj, format!("g {l} \nmtllib\t{l}\nf 1 2 3"), ob::ONAMES | ob::OK, "all short OBJ names"),
                one(Fmt::Mtl, format!("newmtl {l}\nNs 1"), ob::MNAMES | ob::OK, "all short MTL names"),
                one(Fmt::Mtl, format!("newmtl a\nmap_Kd {l}\nNs 1"), ob::MNAMES | ob::OK, "all short MTL names"),
            ]
        })),
        "C14" => Box::new(histories(&["newmtl a", "newmtl b", "Kd 1 2 3", "Kd 4 5 6", "Ns 7", "d 0.5", "illum 2", "map_Kd x", "map_Kd -cc on y", "bump z", "map_aat on"], 6 + t, Fmt::Mtl, "newmtl a\n", ob::MNAMES | ob::MCOL | ob::MMAP | ob::OK)),
        "C15" => Box::new(histories(
            &["newmtl b", "Ka 1 2 3", "Kd spectral f.rfl", "Ks spectral g 2", "Ke xyz 4", "Tf xyz 5 6", "Tf xyz 7 8 9", "Ns 1", "d 2", "d -halo 3", "Tr 4", "sharpness 5", "Ni 6", "illum 7", "map_aat off"],
            5 + t, Fmt::Mtl, "newmtl a\n", ob::MCOL | ob::OK,
        )),
        "C16" => {
            const O: [&str; 14] = [
                "-blendu on", "-blendv off", "-cc on", "-clamp on", "-mm 1 2", "-o 1", "-s 1 2", "-t 1 2 3", "-texres 4", "-imfchan r", "-bm 5", "-type sphere", "-o 7 8 9", "-s 6",
            ];
            Box::new(Words::new(O.len(), 0, 3 + t).flat_map(|w| {
                let o: Vec<&str> = w.iter().map(|i| O[*i]).collect();
                let mut v = Vec::new();
                for k in ["map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl"] {
                    for at in 0..=o.len() {
                        let (x, y) = (o[..at].join(" "), o[at..].join(" "));
                        v.push(one(Fmt::Mtl, format!("newmtl a\n{k} {x} f.png {y}"), ob::MMAP | ob::OK, "all short option lists"));
                    }
                }
                v
            }))
        }
        "C18" => {
            const M: [&str; 6] = ["newmtl a", "Kd 1 2 3", "map_d x", "newmtl b # c", "# c", "Ns 1"];
            const O: [&str; 7] = ["v 1 2 3", "g a b", "f 1 2 3", "s 2", "g default", "p 1", "mtllib x y"];
            let m = Words::new(M.len(), 0, 5 + t).flat_map(|w| {
                (0..=w.len()).map(move |i| {
                    let (a, b) = (join(&M, &w[..i], "\n"), join(&M, &w[i..], "\n"));
                    Case { nontrivial: !a.is_empty() && !b.is_empty(), obs: vec![Ob::Concat { fmt: Fmt::Mtl, a: format!("newmtl 1\n{a}"), b: format!("newmtl 2\n{b}"), sep: "\n".into() }], tag: "all short pairs" }
                })
            });
            let o = Words::new(O.len(), 0, 5 + t).flat_map(|w| {
                (0..=w.len()).flat_map(move |i| {
                    let (a, b) = (join(&O, &w[..i], "\n"), join(&O, &w[i..], "\n"));
                    let nontrivial = !a.is_empty() && !b.is_empty();
                    [
                        Case { nontrivial, obs: vec![Ob::Concat { fmt: Fmt::Obj, a: a.clone(), b: format!("g default\ns 0\n{b}"), sep: "\n".into() }], tag: "all short pairs" },
                        Case { nontrivial, obs: vec![Ob::Prefix { a, b, sep: "\n".into() }], tag: "all short pairs, appended" },
                    ]
                }).collect::<Vec<_>>()
            });
            Box::new(m.chain(o))
        }
        "C19" => {
            const D: [&str; 13] = ["v 1 2 3", "vn 4 5 6", "vt 7", "mtllib m", "maplib n", "o x", "f 1 2 3", "g a", "s 1", "usemtl q", "p 1", "bevel on", "shadow_obj h"];
            const M: [&str; 21] = [
                "Ka 1 2 3", "Kd 2 3 4", "Ks 4 5 6", "Ke 7 8 9", "Tf 1 1 1", "Ns 1", "Ni 2", "Tr 3", "sharpness 4", "d 5", "illum 6", "map_aat on", "map_Ka a", "map_Kd -cc on b", "map_Ks c",
                "map_Ns d1", "map_d e", "disp f", "decal g", "bump -bm 2 h", "refl -type sphere i",
            ];
            // every adjacent swap of independent statements, in every short context
            let o = Words::new(D.len(), 2, 5 + t).flat_map(|w| {
                (1..w.len()).filter_map(|i| {
                    let (x, y) = (w[i - 1], w[i]);
                    // one of the two is movable, and they are of two kinds
                    if x == y || x.min(y) > 5 {
                        return None;
                    }
                    let mut u = w.clone();
                    u.swap(i - 1, i);
                    Some(Case { nontrivial: true, obs: vec![Ob::Same { fmt: Fmt::Obj, a: join(&D, &w, "\n"), b: join(&D, &u, "\n"), view: ob::ALL }], tag: "all short swaps" })
                }).collect::<Vec<_>>()
            });
            let m = Words::new(M.len(), 2, 4 + t).flat_map(|w| {
                (1..w.len()).filter_map(|i| {
                    if w[i - 1] == w[i] {
                        return None;
                    }
                    let mut u = w.clone();
                    u.swap(i - 1, i);
                    let p = "newmtl a\n";
                    Some(Case { nontrivial: true, obs: vec![Ob::Same { fmt: Fmt::Mtl, a: p.to_string() + &join(&M, &w, "\n"), b: p.to_string() + &join(&M, &u, "\n"), view: ob::ALL }], tag: "all short swaps" })
                }).collect::<Vec<_>>()
            });
            Box::new(o.chain(m))
        }
        "C12" => Box::new(Words::new(LAYOUT.len(), 1, 6 + t).filter_map(move |w| plain(Fmt::Obj, join(&LAYOUT, &w, "")))),
        "C13" => Box::new(Words::new(LAYOUT_M.len(), 1, 6 + t).filter_map(move |w| plain(Fmt::Mtl, join(&LAYOUT_M, &w, "")))),
        "C17" => Box::new(Words::new(SWITCH.len(), 0, 4 + t).flat_map(move |w| {
            let l = join(&SWITCH, &w, "");
            let o = ["bevel", "c_interp", "d_interp", "s"].map(|k| one(Fmt::Obj, format!("g a\n{k} {l}\nf 1 2 3"), ob::GSET | ob::SMOOTH | ob::OK | ob::ERR, "all short switch words in OBJ"));
            let m = ["map_aat X", "map_Kd -blendu X f.png", "map_Ks -blendv X f.png", "map_Ka -cc X f.png", "map_d -clamp X f.png"]
                .map(|k| one(Fmt::Mtl, format!("newmtl a\n{}", k.replace('X', &l)), ob::MCOL | ob::MMAP | ob::OK | ob::ERR, "all short switch words in MTL"));
            o.into_iter().chain(m)
        })),
        "C22" => Box::new(
            props::families()
                .into_iter()
                .map(|f| (f, 500_000, "every family, time"))
                .chain(props::pair_families().into_iter().map(|f| (f, 200_000, "every pair of families, time")))
                .map(|((fmt, head, unit, tail), size, tag)| {
                    let n = props::cost_n(&unit, size);
                    Case { obs: vec![Ob::Cost { fmt, head, unit, tail, n }], nontrivial: true, tag }
                }),
        ),
        _ => Box::new(std::iter::empty()),
    }
}
