//! One strategy per property: cases are lists of obligations with the generated
//! texts in them.
use crate::ast::*;
use crate::gen::*;
use crate::ob::{self, Ob};
use crate::refparse::{self, Expect, Fmt};
use crate::special::{self, Conv, Pure};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

#[derive(Clone, Debug)]
pub struct Case {
    pub obs: Vec<Ob>,
    pub nontrivial: bool,
    pub tag: &'static str,
}

pub fn rule(id: &str) -> String {
    let sweep = match id {
        "C20" | "C23" => "",
        "C21" => "; also every path in every name and every kind of statement (sweep2.rs)",
        "C22" => "; also the time of each growth family and of every pair of statements (by turns, and one after the other)",
        _ => "; also all sequences of a few pieces up to a length (sweep.rs) and every edit, position, number, size and combination of statements (sweep2.rs), counted apart from the random cases, non-trivial if longer than 3 characters. A case whose meaning the property leaves open counts as trivial",
    };
    let guided = match id {
        "C22" | "C23" => "",
        _ => "; then a coverage-guided search with the same obligations, whose executions are counted in classes that start with `guided`",
    };
    let random = match id {
        "C01" => "any text (word soup, runs of one piece, damaged documents, arbitrary Unicode) given to both loaders; non-trivial: not empty and at least two words or a non-ASCII character",
        "C02" => "a valid OBJ or MTL document with a line damaged, inserted or dropped in, judged by an independent line reader; non-trivial: the reader demands an error and at least one other line is a valid statement",
        "C03" => "documents whose numbers are drawn from all literal forms (values known by construction at rounding boundaries); non-trivial: a literal with a point, an exponent, a sign or at least 8 digits, or a whole number that does not fit",
        "C04" => "OBJ documents rich in v, vn and vt; non-trivial: at least two kinds of data, or data on both sides of another statement",
        "C05" => "OBJ documents rich in f, l and p with positive references in all forms; non-trivial: an element with a texture or normal reference or a statement with four or more elements",
        "C06" => "OBJ documents mixing positive references and references that count back; non-trivial: a negative reference with data of that kind after it or at least two entries before it",
        "C07" => "OBJ documents rich in g statements; non-trivial: an element after a g statement, and a g statement with several names or a name met before",
        "C08" => "OBJ documents rich in group settings; non-trivial: a setting after a g statement and two different settings or groups",
        "C09" => "OBJ documents rich in s and f; non-trivial: a face after an s statement and another statement between or after them",
        "C10" => "OBJ documents rich in mtllib, maplib, shadow_obj, trace_obj, o and vp, with and without these; non-trivial: at least two such statements and one other",
        "C11" => "documents of both formats with names of all shapes; non-trivial: a name that is not a plain ASCII identifier",
        "C12" => "two renderings of one OBJ document (case, blanks, line ends, comments); non-trivial: the texts differ and the document has a statement",
        "C13" => "two renderings of one MTL document; non-trivial: the texts differ and there is a statement besides newmtl",
        "C14" => "MTL documents against their materials loaded alone, edited in one material, and with statements before newmtl; non-trivial: at least two materials, or a statement before newmtl",
        "C15" => "MTL documents rich in colours and scalars; non-trivial: at least two colour or scalar statements",
        "C16" => "MTL documents rich in map statements with options; non-trivial: a map statement with at least one option",
        "C17" => "documents with switch statements and options whose value is on, off, or another word; non-trivial: any such case",
        "C18" => "two documents of one format joined; non-trivial: both have at least two statements",
        "C19" => "a document and a permutation of its independent statements or options; non-trivial: the texts differ",
        "C20" => "a text loaded in a fresh process, and again after a history, elsewhere in memory, in a reused buffer and in threads, with odd environment variables and clock; non-trivial: a history of at least two loads or several threads",
        "C21" => "a text naming existing and missing files, loaded where any outward system call is trapped; non-trivial: at least one file name in the text exists",
        "C22" => "documents of n, 2n and 4n repetitions of statements or of parts of one statement; non-trivial: any",
        "C23" => "component tuples of the public value types; non-trivial: any but the defaults",
        _ => "",
    };
    format!("{random}{sweep}{guided}")
}

/// The obligation that a written document means what it was built to mean. The
/// two reference semantics (of the tree and of the text) have to agree.
fn judge_obj(doc: &[O], style: &[u8], view: u32) -> (String, Ob) {
    let text = render(&obj_lines(doc), style);
    let want = eval_obj(doc).map(Expect::Obj).unwrap_or(Expect::Open);
    let got = refparse::expect(Fmt::Obj, &text);
    assert!(got == want, "HARNESS: reference reader: {text:?}\n {got:?}\n {want:?}");
    (text.clone(), Ob::Judge { fmt: Fmt::Obj, text, view })
}
fn judge_mtl(doc: &[M], style: &[u8], view: u32) -> (String, Ob) {
    let text = render(&mtl_lines(doc), style);
    let want = eval_mtl(doc).map(Expect::Mtl).unwrap_or(Expect::NewMaterial);
    let got = refparse::expect(Fmt::Mtl, &text);
    assert!(got == want, "HARNESS: reference reader: {text:?}\n {got:?}\n {want:?}");
    (text.clone(), Ob::Judge { fmt: Fmt::Mtl, text, view })
}

fn is_data(s: &O) -> bool {
    matches!(s, O::V(..) | O::Vn(..) | O::Vt(..))
}
fn is_elem(s: &O) -> bool {
    matches!(s, O::F(_) | O::L(_) | O::P(_))
}
fn is_set(s: &O) -> bool {
    matches!(s, O::Usemtl(_) | O::Usemap(_) | O::Sw(..) | O::Lod(_))
}
fn kind(s: &O) -> u8 {
    match s {
        O::V(..) => 0,
        O::Vn(..) => 1,
        O::Vt(..) => 2,
        O::Vp(..) => 3,
        O::F(_) => 4,
        O::L(_) => 5,
        O::P(_) => 6,
        O::G(_) => 7,
        O::S(_) => 8,
        O::Usemtl(_) => 9,
        O::Usemap(_) => 10,
        O::Sw(SwK::Bevel, _) => 11,
        O::Sw(SwK::CInterp, _) => 12,
        O::Sw(SwK::DInterp, _) => 13,
        O::Lod(_) => 14,
        O::Mtllib(_) => 15,
        O::Maplib(_) => 16,
        O::Shadow(_) => 17,
        O::Trace(_) => 18,
        O::Obj(_) => 19,
    }
}
fn kinds(doc: &[O], f: impl Fn(&O) -> bool) -> usize {
    let mut k: Vec<u8> = doc.iter().filter(|s| f(s)).map(kind).collect();
    k.sort();
    k.dedup();
    k.len()
}

fn objdoc(c: ObjCfg) -> BoxedStrategy<Vec<O>> {
    raw_obj(c).prop_map(|r| build_obj(&r)).boxed()
}
/// Documents of several weightings: focused, mixed with everything, and large.
fn objs(focus: [u32; 19], rel: u32, odd: bool, rich: bool) -> BoxedStrategy<Vec<O>> {
    let base = ObjCfg { w: focus, rel, odd, rich, max: 24, bulk: 0 };
    let mut mixed = base;
    for i in 0..18 {
        mixed.w[i] = mixed.w[i] * 2 + EVEN[i];
    }
    let mut big = mixed;
    big.w[18] = mixed.w.iter().sum::<u32>() / 4;
    big.bulk = 5000;
    let tiny = ObjCfg { max: 6, ..base };
    prop_oneof![
        5 => objdoc(base),
        5 => objdoc(mixed),
        2 => objdoc(tiny),
        1 => objdoc(big),
    ]
    .boxed()
}
fn obj_case(
    focus: [u32; 19],
    rel: u32,
    odd: bool,
    rich: bool,
    view: u32,
    nontrivial: fn(&[O]) -> bool,
) -> BoxedStrategy<Case> {
    (objs(focus, rel, odd, rich), style())
        .prop_map(move |(doc, st)| {
            let (_, o) = judge_obj(&doc, &st, view | ob::OK);
            Case { obs: vec![o], nontrivial: nontrivial(&doc), tag: size_tag(doc.len()) }
        })
        .boxed()
}
fn size_tag(n: usize) -> &'static str {
    match n {
        0..=4 => "up to 4 statements",
        5..=16 => "5 to 16 statements",
        17..=100 => "17 to 100 statements",
        _ => "over 100 statements",
    }
}
fn mtldoc(c: MtlCfg) -> BoxedStrategy<Vec<M>> {
    raw_mtl(c).prop_map(|r| build_mtl(&r)).boxed()
}
fn mtls(focus: [u32; 8], odd: bool, rich: bool) -> BoxedStrategy<Vec<M>> {
    let base = MtlCfg { w: focus, odd, rich, max: 16, bulk: 0 };
    let mut mixed = base;
    let even = MtlCfg::default().w;
    for i in 0..7 {
        mixed.w[i] = mixed.w[i] * 2 + even[i];
    }
    let mut big = mixed;
    big.w[7] = mixed.w.iter().sum::<u32>() / 4;
    big.bulk = 1500;
    prop_oneof![
        5 => mtldoc(base),
        5 => mtldoc(mixed),
        2 => mtldoc(MtlCfg { max: 4, ..base }),
        1 => mtldoc(big),
    ]
    .boxed()
}

pub fn strategy(id: &str) -> BoxedStrategy<Case> {
    match id {
        "C01" => c01(),
        "C02" => c02(),
        "C03" => c03(),
        //                    v  vn vt vp f  l  p  g  s  um ut sw ld ml tl sh tr o
        "C04" => obj_case([8, 6, 6, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0], 0, false, false, ob::V | ob::VN | ob::VT, |d| {
            kinds(d, is_data) >= 2
                || d.iter().position(is_data).zip(d.iter().rposition(is_data)).is_some_and(|(a, b)| d[a..b].iter().any(|s| !is_data(s)))
        }),
        "C05" => obj_case([3, 1, 1, 0, 8, 5, 4, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0], 0, false, false, ob::ELEMS, |d| {
            d.iter().any(|s| match s {
                O::F(e) => e.len() > 3 || e.iter().any(|x| x.t.is_some() || x.n.is_some()),
                O::L(e) => e.len() > 3 || e.iter().any(|x| x.t.is_some()),
                O::P(e) => e.len() > 3,
                _ => false,
            })
        }),
        "C06" => obj_case([6, 4, 4, 1, 8, 4, 3, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0], 5, false, false, ob::ELEMS, |d| {
            let mut counts = (0, 0, 0);
            let neg = |i: &Option<Int>, n: i32| i.as_ref().is_some_and(|i| i.v < 0) && n >= 2;
            d.iter().any(|s| {
                match s {
                    O::V(..) => counts.0 += 1,
                    O::Vt(..) => counts.1 += 1,
                    O::Vn(..) => counts.2 += 1,
                    _ => {}
                }
                match s {
                    O::F(e) => e.iter().any(|x| {
                        neg(&Some(x.v.clone()), counts.0) || neg(&x.t, counts.1) || neg(&x.n, counts.2)
                    }),
                    O::L(e) => e.iter().any(|x| neg(&Some(x.v.clone()), counts.0) || neg(&x.t, counts.1)),
                    O::P(e) => e.iter().any(|x| neg(&Some(x.clone()), counts.0)),
                    _ => false,
                }
            })
        }),
        "C07" => obj_case([1, 0, 0, 0, 6, 4, 4, 8, 1, 1, 1, 1, 0, 0, 0, 0, 0, 1, 0], 0, false, false, ob::ELEMS | ob::GKEYS, |d| {
            let g: Vec<usize> = (0..d.len()).filter(|i| matches!(d[*i], O::G(_))).collect();
            let Some(first) = g.first() else { return false };
            d[*first..].iter().any(is_elem) && (g.len() >= 2 || matches!(&d[*first], O::G(n) if n.len() > 1))
        }),
        "C08" => obj_case([1, 0, 0, 0, 1, 1, 1, 8, 1, 5, 5, 8, 4, 0, 0, 0, 0, 1, 0], 0, false, false, ob::GSET, |d| {
            let g = d.iter().position(|s| matches!(s, O::G(_)));
            g.is_some_and(|g| d[g..].iter().any(is_set)) && kinds(d, is_set) >= 2
        }),
        "C09" => obj_case([1, 0, 0, 0, 8, 1, 1, 3, 8, 2, 0, 1, 0, 0, 0, 0, 0, 1, 0], 0, false, false, ob::SMOOTH, |d| {
            let s = d.iter().position(|s| matches!(s, O::S(_)));
            s.is_some_and(|i| d[i..].iter().any(|s| matches!(s, O::F(_)))) && d.len() >= 3
        }),
        "C10" => c10(),
        "C11" => c11(),
        "C12" => c12(),
        "C13" => c13(),
        "C14" => c14(),
        "C15" => mtl_case([4, 8, 6, 2, 2, 2, 0, 0], ob::MCOL, |d| {
            d.iter().filter(|s| matches!(s, M::Col(..) | M::Sca(..) | M::D(..) | M::Illum(_) | M::Aat(_))).count() >= 2
        }),
        "C16" => mtl_case([3, 1, 1, 0, 0, 1, 8, 0], ob::MMAP, |d| d.iter().any(|s| matches!(s, M::Map(_, _, a) if a.len() > 1))),
        "C17" => c17(),
        "C18" => c18(),
        "C19" => c19(),
        "C20" => c20(),
        "C21" => c21(),
        "C22" => c22(),
        "C23" => c23(),
        _ => panic!("HARNESS: property {id}"),
    }
}

fn mtl_case(focus: [u32; 8], view: u32, nontrivial: fn(&[M]) -> bool) -> BoxedStrategy<Case> {
    (mtls(focus, false, false), style())
        .prop_map(move |(doc, st)| {
            // where a document has statements of these kinds only, nothing else
            // may appear in the material either
            let pure = doc.iter().all(|s| match s {
                M::New(_) => true,
                M::Map(..) => view & ob::MMAP != 0,
                _ => view & ob::MCOL != 0,
            });
            let v = if pure { ob::MCOL | ob::MMAP } else { view };
            let (_, o) = judge_mtl(&doc, &st, v | ob::OK);
            Case { obs: vec![o], nontrivial: nontrivial(&doc), tag: size_tag(doc.len()) }
        })
        .boxed()
}

// ---------------------------------------------------------------- C01

fn lookalike() -> BoxedStrategy<String> {
    // keywords with a letter replaced by something that folds to it
    (select(PIECES.to_vec()), any::<u8>(), select(vec!['\u{212A}', '\u{17F}', 'İ', 'ı', 'Σ', 'ß', 'ﬀ', 'é', '\u{1F600}', '\0', '\u{301}']), 0u8..3)
        .prop_map(|(p, at, c, how)| {
            let mut v: Vec<char> = p.chars().collect();
            let i = at as usize % (v.len() + 1);
            match how {
                0 => v.insert(i, c),
                1 if i < v.len() => v[i] = c,
                _ => {
                    // the letter with the same fold
                    for x in v.iter_mut() {
                        match x {
                            'k' | 'K' => *x = '\u{212A}',
                            's' | 'S' => *x = '\u{17F}',
                            'i' | 'I' => *x = 'ı',
                            _ => {}
                        }
                    }
                }
            }
            v.into_iter().collect::<String>()
        })
        .boxed()
}
fn text_any() -> BoxedStrategy<(String, &'static str)> {
    let obj = || (objs(EVEN, 2, true, true), style()).prop_map(|(d, s)| render(&obj_lines(&d), &s));
    let mtl = || (mtls([4, 5, 4, 1, 1, 1, 6, 0], true, true), style()).prop_map(|(d, s)| render(&mtl_lines(&d), &s));
    prop_oneof![
        6 => soup().prop_map(|t| (t, "word soup")),
        2 => runs().prop_map(|t| (t, "runs")),
        3 => any_text().prop_map(|t| (t, "any Unicode")),
        3 => vec((lookalike(), select(vec![" 1 2 3\n", " x\n", "\n", " ", "", " on\n", " -1/2/3 4\n"])), 1..8)
            .prop_map(|v| (v.into_iter().map(|(a, b)| a + b).collect(), "look-alike keywords")),
        1 => obj().prop_map(|t| (t, "valid OBJ")),
        1 => mtl().prop_map(|t| (t, "valid MTL")),
        4 => (obj(), edits(6)).prop_map(|(t, e)| (apply(&t, &e), "damaged OBJ")),
        4 => (mtl(), edits(6)).prop_map(|(t, e)| (apply(&t, &e), "damaged MTL")),
    ]
    .boxed()
}
fn c01() -> BoxedStrategy<Case> {
    text_any()
        .prop_map(|(text, tag)| {
            let nontrivial = !text.is_ascii() || text.split_whitespace().nth(1).is_some();
            Case { obs: vec![Ob::Total { text }], nontrivial, tag }
        })
        .boxed()
}

// ---------------------------------------------------------------- C02

pub const BAD_OBJ: [&str; 96] = [
    "v", "v 1", "v 1 2", "v 1 2 3 4 5", "v 1 2 3 4 5 6", "v a b c", "v 1 2 x", "v 1 2 nan", "v 1 2 inf", "v 1,2,3", "v 1 2 3;",
    "v 1 2 0x10", "v 1 2 1e", "v 1 2 .", "v 1 2 1.2.3", "v 1 2 --1", "v 1 2 1-1", "v 1 2 1_000", "v 1/2/3", "v 1 2 3/", "vn 1 2",
    "vn 1 2 3 4", "vn", "vt", "vt 1 2 3 4", "vt x", "vp", "vp 1 2 3 4", "vp a", "f", "f 1.5 2 3", "f 1/2/3/4 2 3", "f a b c",
    "f 1 2 x", "f 1/a/2", "f 1/1.5 2", "f 1///2", "f 1/2//3", "f 2147483648 1 2", "f 1/99999999999 2 3", "f 1 2 3 on", "f 1e3 2 3",
    "f 1, 2, 3", "l", "l 1/2/3 4", "l a", "l 1.0 2", "l 1//2 3//4", "p", "p 1/2", "p 1.5", "p x", "p 1 2 3.0", "p 99999999999", "s", "s 1 2",
    "s maybe", "s 1.5", "s 99999999999", "s on off", "s on 1", "lod", "lod 101", "lod -1", "lod 1.0", "lod 1 2", "lod on", "lod 256",
    "lod 99999999999", "bevel", "bevel 1", "bevel on off", "bevel yes", "c_interp", "c_interp true", "d_interp", "d_interp 0", "d_interp of",
    "mtllib", "usemtl", "maplib", "usemap", "shadow_obj", "trace_obj", "cstype bezier", "deg 3", "curv 0 1 1 2", "parm u 0 1", "end",
    "call x.obj", "1 2 3", "v1 2 3", "f1 2 3", "vertex 1 2 3", "x", "-",
];
pub const BAD_MTL: [&str; 84] = [
    "newmtl", "Ka", "Ka 1", "Ka 1 2", "Ka 1 2 3 4", "Kd a b c", "Kd 1 2 x", "Kd 1 2 3 a.png", "Ks spectral", "Ks spectral 1", "Ks spectral a.rfl 1 2",
    "Ks spectral a.rfl b", "Ke xyz", "Ke xyz 1 2 3 4", "Ke xyz a", "Tf xyz 1 x", "Tf 1 2", "Ns", "Ns x", "Ns 1 2", "Ns 1.2.3", "Ni", "Ni on",
    "Tr", "Tr 1 1", "sharpness", "sharpness high", "d", "d x", "d 1 2", "d -halo", "d -halo x", "d -halo 1 2", "d halo 1", "illum", "illum -1", "illum 1.0",
    "illum x", "illum 1 2", "illum 99999999999", "illum 2147483648", "map_aat", "map_aat 1", "map_aat yes", "map_aat on off", "map_aat on 1", "map_Kd", "map_Kd a.png b.png",
    "map_Kd 1", "map_Kd -blendu on", "map_Kd -blendu a.png", "map_Kd -blendu maybe a.png", "map_Kd -mm 1 a.png", "map_Kd -mm a.png", "map_Kd -o a.png", "map_Kd -s x 1 a.png",
    "map_Kd -t 1 2 3 4 a.png", "map_Kd -texres a.png", "map_Kd -texres 1.5 a.png", "map_Kd -texres 99999999999 a.png", "map_Kd -foo a.png", "map_Kd a.png 1", "map_Kd a.png -foo",
    "map_Kd -o 1 2 3 4 a.png", "map_Ka -cc 1 a.png", "map_Ns -clamp x a.png", "map_d -imfchan", "map_d -imfchan 1 a.png", "bump -bm a.png", "bump -bm x a.png", "bump",
    "refl -type", "refl -type sphere", "disp", "decal a.png b", "Pr 0.5", "map_Pr a.png", "norm n.png", "Kx 1 2 3", "v 1 2 3", "1 2 3", "a.png", "-o 1", "Ka1 2 3",
];

#[derive(Clone, Debug)]
struct Harm {
    kind: u8,
    line: u32,
    word: u32,
    piece: String,
}
fn harm(bad: &'static [&'static str]) -> BoxedStrategy<Harm> {
    (
        0u8..16,
        any::<u32>(),
        any::<u32>(),
        prop_oneof![
            4 => select(bad.to_vec()).prop_map(String::from),
            1 => select(PIECES.to_vec()).prop_map(|p| p.replace(['\n', '\r'], " ")),
            1 => (select(bad.to_vec()), select(PIECES.to_vec())).prop_map(|(a, b)| format!("{a} {}", b.replace(['\n', '\r'], " "))),
            1 => soup().prop_map(|s| s.replace(['\n', '\r'], " ")),
        ],
    )
        .prop_map(|(kind, line, word, piece)| Harm { kind, line, word, piece })
        .boxed()
}
/// Damages the words of one line, or puts in a line of its own.
fn do_harm(lines: &mut Vec<Vec<W>>, h: &Harm) {
    let at = |n: usize, x: u32| if n == 0 { 0 } else { x as usize % n };
    let own = |s: &str| vec![W::Lit(s.to_string())];
    let pieces = |s: &str| -> Vec<W> { s.split([' ', '\t']).filter(|w| !w.is_empty()).map(|w| W::Lit(w.into())).collect() };
    let n = lines.len();
    let i = at(n, h.line);
    if n == 0 || h.kind < 6 {
        let p = pieces(&h.piece);
        let k = match h.kind % 3 {
            0 => 0,
            1 => n,
            _ => at(n + 1, h.line),
        };
        lines.insert(k.min(n), if p.is_empty() { own("x") } else { p });
        return;
    }
    let l = &mut lines[i];
    let j = at(l.len(), h.word);
    match h.kind {
        6 => {
            if l.len() > 1 {
                l.pop();
            }
        }
        7 => {
            l.remove(j);
        }
        8 => {
            let w = l[j].clone();
            l.insert(j, w);
        }
        9 => {
            let w = pieces(&h.piece).into_iter().next().unwrap_or(W::Lit("x".into()));
            l[j] = w;
        }
        10 => {
            let w = pieces(&h.piece).into_iter().last().unwrap_or(W::Lit("x".into()));
            l.push(w);
        }
        11 => {
            let k = at(l.len(), h.word / 7);
            l.swap(j, k);
        }
        12 => {
            // two statements on one line
            if i + 1 < n {
                let next = lines.remove(i + 1);
                lines[i].extend(next);
            }
        }
        13 => {
            // one statement on two lines
            if l.len() > 1 {
                let tail = l.split_off(j.max(1));
                lines.insert(i + 1, tail);
            }
        }
        14 => {
            // glue the keyword to its first argument
            if l.len() > 1 {
                let a = match &l[0] {
                    W::Kw(k) => k.to_string(),
                    W::Lit(t) => t.clone(),
                    W::Sw(_) => "on".into(),
                };
                let b = match &l[1] {
                    W::Kw(k) => k.to_string(),
                    W::Lit(t) => t.clone(),
                    W::Sw(_) => "off".into(),
                };
                l.splice(0..2, [W::Lit(format!("{a}{b}"))]);
            }
        }
        _ => {
            // an argument of the wrong kind
            let wrong = ["1.5", "x", "on", "-7", "99999999999", "1/2", "a.png", "-o", "0", "off", "1e2", "/"];
            let w = wrong[at(wrong.len(), h.word)];
            let k = l.len() - 1;
            l[k] = W::Lit(w.into());
        }
    }
}

fn c02() -> BoxedStrategy<Case> {
    let done = |fmt: Fmt, text: String, tag: &'static str| {
        let want = refparse::expect(fmt, &text);
        let valid = match fmt {
            Fmt::Obj => text.split(['\n', '\r']).filter(|l| matches!(refparse::obj_line(l), refparse::Line::Ok(_))).count(),
            Fmt::Mtl => text.split(['\n', '\r']).filter(|l| matches!(refparse::mtl_line(l), refparse::Line::Ok(_))).count(),
        };
        let tag = match (&want, tag) {
            (Expect::Open, _) => "unspecified",
            (Expect::Err | Expect::NewMaterial, "e") => "damaged text, error demanded",
            (Expect::Err | Expect::NewMaterial, _) => "damaged line, error demanded",
            _ => "still valid",
        };
        Case {
            nontrivial: matches!(want, Expect::Err | Expect::NewMaterial) && valid > 0,
            obs: vec![Ob::Judge { fmt, text, view: ob::ALL | ob::ERR }],
            tag,
        }
    };
    let st = || prop_oneof![2 => Just(Vec::new()), 1 => style()];
    prop_oneof![
        4 => (objs(EVEN, 1, false, false), vec(harm(&BAD_OBJ), 1..3), st()).prop_map(move |(d, h, s)| {
            let mut l = obj_lines(&d);
            h.iter().for_each(|h| do_harm(&mut l, h));
            done(Fmt::Obj, render(&l, &s), "l")
        }),
        4 => (mtls([4, 5, 4, 1, 1, 1, 6, 0], false, false), vec(harm(&BAD_MTL), 1..3), st()).prop_map(move |(d, h, s)| {
            let mut l = mtl_lines(&d);
            h.iter().for_each(|h| do_harm(&mut l, h));
            done(Fmt::Mtl, render(&l, &s), "l")
        }),
        1 => (objs(EVEN, 1, false, false), edits(3), st()).prop_map(move |(d, e, s)| done(Fmt::Obj, apply(&render(&obj_lines(&d), &s), &e), "e")),
        1 => (mtls([4, 5, 4, 1, 1, 1, 6, 0], false, false), edits(3), st()).prop_map(move |(d, e, s)| done(Fmt::Mtl, apply(&render(&mtl_lines(&d), &s), &e), "e")),
        1 => (soup(), any::<bool>()).prop_map(move |(t, o)| done(if o { Fmt::Obj } else { Fmt::Mtl }, t, "e")),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C03

fn odd_literal(t: &str) -> bool {
    t.len() >= 8 || t.contains(['.', 'e', 'E', '-', '+'])
}
fn c03() -> BoxedStrategy<Case> {
    // v vn vt vp f l p g s um ut sw ld ml tl sh tr o
    let fo = [6, 4, 5, 1, 4, 3, 3, 0, 3, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0];
    let view = ob::V | ob::VN | ob::VT | ob::ELEMS | ob::SMOOTH | ob::GSET;
    let huge = prop_oneof![
        3 => select(HUGE_INTS.to_vec()).prop_map(String::from),
        1 => "[1-9][0-9]{10,30}",
        1 => (2147483648u64..=u64::MAX).prop_map(|x| x.to_string()),
        1 => (select(HUGE_INTS.to_vec()), select(vec!["0", "000000"])).prop_map(|(h, z)| format!("{z}{h}")),
        1 => (select(vec!["1.0", "2.", "1e0", "1E2", "0.5", "1.", ".5", "3e-0", "2147483647.0", "1.0e1"])).prop_map(String::from),
    ];
    let sgn = || select(vec!["", "", "-", "+"]);
    let obj_kw = select(vec!["f ", "f 1/", "f 1//", "f 1/1/", "f 1 2 ", "l ", "l 1/", "p ", "p 1 ", "s ", "lod "]);
    let mtl_kw = select(vec!["illum ", "map_Kd a.png -texres ", "refl a -texres ", "bump a -texres ", "map_Ks a -texres ", "decal a -texres "]);
    let simple = ObjCfg { w: fo, max: 8, ..Default::default() };
    let over = move |fmt: Fmt, text: String| Case {
        nontrivial: refparse::expect(fmt, &text) == Expect::Err,
        obs: vec![Ob::Judge { fmt, text, view: view | ob::MCOL | ob::MMAP | ob::ERR }],
        tag: "whole number that does not fit",
    };
    prop_oneof![
        5 => (objdoc(ObjCfg { w: fo, rich: true, max: 12, ..Default::default() }), style()).prop_map(move |(d, s)| {
            let (text, o) = judge_obj(&d, &s, view | ob::OK);
            Case { nontrivial: text.split_whitespace().any(odd_literal), obs: vec![o], tag: "OBJ literals" }
        }),
        4 => (mtldoc(MtlCfg { w: [1, 5, 5, 2, 2, 0, 5, 0], rich: true, max: 10, ..Default::default() }), style()).prop_map(|(d, s)| {
            let (text, o) = judge_mtl(&d, &s, ob::MCOL | ob::MMAP | ob::OK);
            Case { nontrivial: text.split_whitespace().any(odd_literal), obs: vec![o], tag: "MTL literals" }
        }),
        1 => (objdoc(simple), obj_kw, sgn(), huge.clone(), select(vec!["", " 2", "/2", "//3"]), any::<u16>()).prop_map(move |(d, k, sg, h, tail, at)| {
            let mut l = obj_lines(&d);
            let i = at as usize % (l.len() + 1);
            l.insert(i, vec![W::Lit(format!("{k}{sg}{h}{tail}"))]);
            over(Fmt::Obj, render(&l, &[]))
        }),
        1 => (mtldoc(MtlCfg { max: 6, ..Default::default() }), mtl_kw, sgn(), huge, any::<u16>()).prop_map(move |(d, k, sg, h, at)| {
            let mut l = mtl_lines(&d);
            let i = 1 + at as usize % l.len();
            l.insert(i, vec![W::Lit(format!("{k}{sg}{h}"))]);
            over(Fmt::Mtl, render(&l, &[]))
        }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C10, C11

/// Statements which leave geometry and groups alone.
pub fn library(s: &O) -> bool {
    matches!(s, O::Mtllib(_) | O::Maplib(_) | O::Shadow(_) | O::Trace(_) | O::Obj(_) | O::Vp(..))
}
pub const NOT_LIBS: u32 = ob::V | ob::VN | ob::VT | ob::ELEMS | ob::SMOOTH | ob::GKEYS | ob::GSET;
fn c10() -> BoxedStrategy<Case> {
    let of = library;
    (objs([2, 1, 1, 4, 3, 1, 1, 3, 2, 2, 1, 1, 1, 8, 8, 4, 4, 4, 0], 2, false, false), style())
        .prop_map(move |(doc, st)| {
            let (text, o) = judge_obj(&doc, &st, ob::LIBS | ob::OK);
            let rest: Vec<O> = doc.iter().filter(|s| !of(s)).cloned().collect();
            let b = render(&obj_lines(&rest), &[]);
            let view = NOT_LIBS;
            let n = doc.iter().filter(|s| of(s)).count();
            Case {
                obs: vec![o, Ob::Same { fmt: Fmt::Obj, a: text, b, view }],
                nontrivial: n >= 2 && !rest.is_empty(),
                tag: size_tag(doc.len()),
            }
        })
        .boxed()
}
fn plain_name(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_alphabetic() || b == b'_')
}
fn c11() -> BoxedStrategy<Case> {
    let fo = [0, 0, 0, 0, 1, 0, 0, 6, 0, 6, 6, 0, 0, 6, 6, 4, 4, 3, 0];
    prop_oneof![
        4 => (objdoc(ObjCfg { w: fo, odd: true, max: 10, ..Default::default() }), style()).prop_map(|(d, s)| {
            let nontrivial = d.iter().any(|s| obj_words(s)[1..].iter().any(|w| matches!(w, W::Lit(t) if !plain_name(t))) && !is_elem(s));
            Case { obs: vec![judge_obj(&d, &s, ob::ONAMES | ob::OK).1], nontrivial, tag: "OBJ names" }
        }),
        3 => (mtldoc(MtlCfg { w: [8, 2, 0, 0, 0, 0, 6, 0], odd: true, max: 8, ..Default::default() }), style()).prop_map(|(d, s)| {
            let nontrivial = d.iter().any(|s| mtl_words(s)[1..].iter().any(|w| matches!(w, W::Lit(t) if !plain_name(t))));
            Case { obs: vec![judge_mtl(&d, &s, ob::MNAMES | ob::OK).1], nontrivial, tag: "MTL names" }
        }),
        3 => (line_name(true), style(), style(), objdoc(ObjCfg { max: 4, w: [2, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0], ..Default::default() })).prop_map(|(name, s1, s2, pre)| {
            let mut d = pre;
            d.push(O::Usemtl(name.clone()));
            let obj = render(&obj_lines(&d), &s1);
            let mtl = render(&mtl_lines(&[M::New(name.clone())]), &s2);
            let nontrivial = !plain_name(&name);
            Case { obs: vec![Ob::Link { obj, mtl, name }], nontrivial, tag: "OBJ to MTL" }
        }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C12, C13

fn c12() -> BoxedStrategy<Case> {
    (objs(EVEN, 2, false, false), style(), prop_oneof![1 => Just(Vec::new()), 1 => style()], proptest::option::weighted(0.1, harm(&BAD_OBJ)))
        .prop_map(|(doc, s1, s2, h)| {
            let mut l = obj_lines(&doc);
            if let Some(h) = &h {
                do_harm(&mut l, h);
            }
            let (a, b) = (render(&l, &s1), render(&l, &s2));
            let nontrivial = a != b && !doc.is_empty();
            let tag = if h.is_some() { "damaged document" } else { size_tag(doc.len()) };
            if h.is_some() && !comparable(Fmt::Obj, &a, &b) {
                return Case { obs: vec![], nontrivial: false, tag: "damaged beyond comparison" };
            }
            Case { obs: vec![Ob::Same { fmt: Fmt::Obj, a, b, view: ob::ALL }], nontrivial, tag }
        })
        .boxed()
}
/// Damage can make a word a comment or part of a name; then the renderings are
/// not the same document any more.
pub fn comparable(fmt: Fmt, a: &str, b: &str) -> bool {
    let (x, y) = (refparse::expect(fmt, a), refparse::expect(fmt, b));
    x == y && x != Expect::Open
}
fn c13() -> BoxedStrategy<Case> {
    (mtls([4, 5, 4, 2, 1, 1, 6, 0], false, false), style(), prop_oneof![1 => Just(Vec::new()), 1 => style()], proptest::option::weighted(0.1, harm(&BAD_MTL)))
        .prop_map(|(doc, s1, s2, h)| {
            let mut l = mtl_lines(&doc);
            if let Some(h) = &h {
                do_harm(&mut l, h);
            }
            let (a, b) = (render(&l, &s1), render(&l, &s2));
            let nontrivial = a != b && doc.len() > 1;
            let tag = if h.is_some() { "damaged document" } else { size_tag(doc.len()) };
            if h.is_some() && !comparable(Fmt::Mtl, &a, &b) {
                return Case { obs: vec![], nontrivial: false, tag: "damaged beyond comparison" };
            }
            Case { obs: vec![Ob::Same { fmt: Fmt::Mtl, a, b, view: ob::ALL }], nontrivial, tag }
        })
        .boxed()
}

// ---------------------------------------------------------------- C14

pub fn parts(doc: &[M]) -> Vec<Vec<M>> {
    let mut v: Vec<Vec<M>> = Vec::new();
    for s in doc {
        if let M::New(_) = s {
            v.push(vec![]);
        }
        if let Some(l) = v.last_mut() {
            l.push(s.clone());
        }
    }
    v
}
fn c14() -> BoxedStrategy<Case> {
    let focus = [8, 5, 4, 2, 2, 2, 8, 0];
    let small = || mtldoc(MtlCfg { w: focus, max: 6, ..Default::default() });
    prop_oneof![
        4 => (mtls(focus, false, false), style()).prop_map(|(doc, st)| {
            let (text, o) = judge_mtl(&doc, &st, ob::MNAMES | ob::OK);
            let ps = parts(&doc);
            let nontrivial = ps.len() >= 2;
            // many materials: the reference reader alone
            let mut obs = vec![o];
            if ps.len() <= 64 {
                obs.push(Ob::Isolate { text, parts: ps.iter().map(|p| render(&mtl_lines(p), &[])).collect() });
            }
            Case { obs, nontrivial, tag: "against the materials alone" }
        }),
        3 => (mtls(focus, false, false), small(), any::<u16>(), style()).prop_map(|(doc, other, k, st)| {
            // another body for one material
            let mut ps = parts(&doc);
            let k = k as usize % ps.len();
            let n = ps.len();
            let body: Vec<M> = other.into_iter().filter(|s| !matches!(s, M::New(_))).collect();
            let a = render(&mtl_lines(&doc), &st);
            ps[k].truncate(1);
            ps[k].extend(body);
            let b = render(&mtl_lines(&ps.concat()), &st);
            Case { obs: vec![Ob::Others { a, b, k }], nontrivial: n >= 2, tag: "one material edited" }
        }),
        1 => (small(), vec(any::<u16>(), 0..3), style(), any::<u16>()).prop_map(|(doc, _, st, k)| {
            let body: Vec<M> = doc.iter().filter(|s| !matches!(s, M::New(_))).cloned().collect();
            let first = body.get(k as usize % body.len().max(1)).cloned().unwrap_or(M::Aat(true));
            let mut d = vec![first];
            if k % 3 > 0 {
                d.extend(doc);
            }
            let text = render(&mtl_lines(&d), &st);
            Case { obs: vec![Ob::NewMat { text }], nontrivial: true, tag: "before newmtl" }
        }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C17

pub const NOT_SWITCH: [&str; 56] = [
    "o", "of", "onn", "offf", "true", "false", "yes", "no", "1.0", "1.5", "-1.5", "on.", "off.", "on,", "ON/", "on/off", "onoff", "offon", "o n", "enable",
    "0n", "Ο\u{3bd}", "оn", "ｏｎ", "oﬀ", "oFf\u{0}", "on\u{a0}", "\u{feff}on", "\"on\"", "'off'", "n", "f", "ff", "oo", "no", "oon", "ooff", "onx", "xon", "o_n", "on-", "-on",
    "+on", "on1", "1on", "off0", "none", "null", "default", "t", "y", "TRUE", "oN\u{301}", "é", "∞", ".",
];
fn switch_word() -> BoxedStrategy<String> {
    let on = |mask: u8, on: bool| -> String {
        (if on { "on" } else { "off" })
            .chars()
            .enumerate()
            .map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
            .collect()
    };
    prop_oneof![
        5 => (0u8..8, any::<bool>()).prop_map(move |(m, b)| on(m, b)),
        3 => select(NOT_SWITCH.to_vec()).prop_map(String::from),
        1 => "[a-zA-Z]{1,4}",
        1 => "[!-~]{1,5}".prop_map(|s| s.replace('#', "x")),
        1 => (0u8..8, any::<bool>(), "[a-zA-Z0-9_.]{1,2}", any::<bool>()).prop_map(move |(m, b, x, pre)| if pre { format!("{x}{}", on(m, b)) } else { format!("{}{x}", on(m, b)) }),
    ]
    .boxed()
}
fn c17() -> BoxedStrategy<Case> {
    let fo = [1, 0, 0, 0, 3, 0, 0, 3, 2, 1, 0, 5, 1, 0, 0, 0, 0, 0, 0];
    let tag = |e: &Expect| match e {
        Expect::Err | Expect::NewMaterial => "not a switch value",
        Expect::Open => "unspecified",
        _ => "on or off",
    };
    prop_oneof![
        1 => (objdoc(ObjCfg { w: fo, max: 8, ..Default::default() }), select(vec!["s", "bevel", "c_interp", "d_interp"]), switch_word(), any::<u16>(), style()).prop_map(move |(d, k, w, at, st)| {
            let mut l = obj_lines(&d);
            let i = at as usize % (l.len() + 1);
            l.insert(i, vec![W::Kw(k), W::Lit(w)]);
            l.insert(i + 1, vec![W::Kw("f"), W::Lit("1".into()), W::Lit("2".into())]);
            let text = render(&l, &st);
            let e = refparse::expect(Fmt::Obj, &text);
            Case { obs: vec![Ob::Judge { fmt: Fmt::Obj, text, view: ob::GSET | ob::SMOOTH | ob::OK | ob::ERR }], nontrivial: e != Expect::Open, tag: tag(&e) }
        }),
        1 => (mtldoc(MtlCfg { max: 5, ..Default::default() }), select(vec!["map_aat", "-blendu", "-blendv", "-cc", "-clamp"]), 0usize..9, switch_word(), any::<u16>(), style(), any::<bool>()).prop_map(move |(d, k, mut kind, w, at, st, last)| {
            let mut l = mtl_lines(&d);
            let i = 1 + at as usize % l.len();
            let line = if k == "map_aat" {
                vec![W::Kw(k), W::Lit(w)]
            } else {
                if k == "-cc" && !map_has(kind, 3) {
                    kind = 8;
                }
                let map = W::Kw(crate::canon::MAP_KEYS[kind].0);
                if last {
                    vec![map, W::Lit("t.png".into()), W::Kw(k), W::Lit(w)]
                } else {
                    vec![map, W::Kw(k), W::Lit(w), W::Lit("t.png".into())]
                }
            };
            l.insert(i, line);
            let text = render(&l, &st);
            let e = refparse::expect(Fmt::Mtl, &text);
            Case { obs: vec![Ob::Judge { fmt: Fmt::Mtl, text, view: ob::MCOL | ob::MMAP | ob::OK | ob::ERR }], nontrivial: e != Expect::Open, tag: tag(&e) }
        }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C18, C19

fn c18() -> BoxedStrategy<Case> {
    let seps = || select(vec!["\n", "\n", "\r\n", "\r", "\n\n", "\n# joined\n"]);
    let fo = EVEN;
    prop_oneof![
        3 => (mtls([4, 5, 4, 1, 1, 1, 6, 0], false, false), mtls([4, 5, 4, 1, 1, 1, 6, 0], false, false), style(), style(), seps()).prop_map(|(x, y, s1, s2, sep)| {
            let nontrivial = x.len() >= 2 && y.len() >= 2;
            let (a, b) = (render(&mtl_lines(&x), &s1), render(&mtl_lines(&y), &s2));
            Case { obs: vec![Ob::Concat { fmt: Fmt::Mtl, a, b, sep: sep.into() }], nontrivial, tag: "MTL" }
        }),
        4 => (objs(fo, 0, false, false), objs(fo, 0, false, false), vec(word(false), 1..3), 0i64..9, style(), style(), seps()).prop_map(|(x, mut y, g, s, s1, s2, sep)| {
            let nontrivial = x.len() >= 2 && y.len() >= 2;
            y.insert(0, O::S(Sm::N(Int::of(s))));
            y.insert(0, O::G(g));
            let (a, b) = (render(&obj_lines(&x), &s1), render(&obj_lines(&y), &s2));
            Case { obs: vec![Ob::Concat { fmt: Fmt::Obj, a, b, sep: sep.into() }], nontrivial, tag: "OBJ" }
        }),
        2 => (objs(fo, 4, false, false), objs(fo, 0, false, false), style(), style(), seps()).prop_map(|(x, y, s1, s2, sep)| {
            let nontrivial = x.len() >= 2 && y.len() >= 2;
            let (a, b) = (render(&obj_lines(&x), &s1), render(&obj_lines(&y), &s2));
            Case { obs: vec![Ob::Prefix { a, b, sep: sep.into() }], nontrivial, tag: "OBJ, appended statements" }
        }),
    ]
    .boxed()
}

/// Merges streams in an order chosen by the bytes; each keeps its own order.
fn merge<T>(streams: Vec<Vec<T>>, order: &[u8]) -> Vec<T> {
    let mut s: Vec<std::collections::VecDeque<T>> = streams.into_iter().filter(|v| !v.is_empty()).map(Into::into).collect();
    let mut out = Vec::new();
    let mut i = 0;
    while !s.is_empty() {
        let k = *order.get(i % order.len().max(1)).unwrap_or(&0) as usize;
        let k = (k + i / order.len().max(1)) % s.len();
        i += 1;
        out.push(s[k].pop_front().unwrap());
        if s[k].is_empty() {
            s.remove(k);
        }
    }
    out
}
/// Data, libraries and ignored statements move; the rest keeps its order, and
/// so does each kind.
pub fn permute_obj(d: Vec<O>, ord: &[u8]) -> Vec<O> {
    let mut st: Vec<Vec<O>> = vec![vec![]; 7];
    for s in d {
        let k = match s {
            O::V(..) => 1,
            O::Vn(..) => 2,
            O::Vt(..) => 3,
            O::Mtllib(_) => 4,
            O::Maplib(_) => 5,
            O::Obj(_) => 6,
            _ => 0,
        };
        st[k].push(s);
    }
    merge(st, ord)
}
pub fn permute_mtl(d: &[M], ord: &[u8]) -> Vec<M> {
    let mut out = Vec::new();
    for p in parts(d) {
        let mut st: Vec<Vec<M>> = vec![vec![]; 22];
        for s in &p[1..] {
            let k = match s {
                M::New(_) => unreachable!(),
                M::Col(k, _) => *k,
                M::Sca(k, _) => 5 + k,
                M::D(..) => 9,
                M::Illum(_) => 10,
                M::Aat(_) => 11,
                M::Map(k, ..) => 12 + k,
            };
            st[k].push(s.clone());
        }
        out.push(p[0].clone());
        out.extend(merge(st, ord));
    }
    out
}
pub fn permute_options(d: Vec<M>, ord: &[u8]) -> Vec<M> {
    d.into_iter()
        .map(|s| match s {
            M::Map(k, al, args) => M::Map(k, al, merge(args.into_iter().map(|x| vec![x]).collect(), ord)),
            s => s,
        })
        .collect()
}
fn c19() -> BoxedStrategy<Case> {
    prop_oneof![
        4 => (objs([6, 4, 4, 0, 5, 2, 2, 4, 3, 2, 2, 3, 1, 3, 3, 1, 1, 3, 0], 0, false, false), vec(any::<u8>(), 1..60)).prop_map(|(d, ord)| {
            let a = render(&obj_lines(&d), &[]);
            let b = render(&obj_lines(&permute_obj(d, &ord)), &[]);
            Case { nontrivial: a != b, obs: vec![Ob::Same { fmt: Fmt::Obj, a, b, view: ob::ALL }], tag: "OBJ statements" }
        }),
        3 => (mtls([1, 5, 4, 2, 2, 2, 6, 0], false, false), vec(any::<u8>(), 1..60)).prop_map(|(d, ord)| {
            let a = render(&mtl_lines(&d), &[]);
            let b = render(&mtl_lines(&permute_mtl(&d, &ord)), &[]);
            Case { nontrivial: a != b, obs: vec![Ob::Same { fmt: Fmt::Mtl, a, b, view: ob::ALL }], tag: "MTL statements" }
        }),
        3 => (mtldoc(MtlCfg { w: [2, 1, 1, 0, 0, 0, 10, 0], max: 8, ..Default::default() }), vec(any::<u8>(), 1..20)).prop_map(|(d, ord)| {
            let a = render(&mtl_lines(&d), &[]);
            let b = render(&mtl_lines(&permute_options(d, &ord)), &[]);
            Case { nontrivial: a != b, obs: vec![Ob::Same { fmt: Fmt::Mtl, a, b, view: ob::ALL }], tag: "map options" }
        }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C20, C21

fn small_text() -> BoxedStrategy<(Fmt, String)> {
    let o = ObjCfg { max: 10, rel: 2, ..Default::default() };
    let m = MtlCfg { max: 8, ..Default::default() };
    prop_oneof![
        5 => objdoc(o).prop_map(|d| (Fmt::Obj, render(&obj_lines(&d), &[]))),
        5 => mtldoc(m).prop_map(|d| (Fmt::Mtl, render(&mtl_lines(&d), &[]))),
        1 => (objdoc(o), harm(&BAD_OBJ)).prop_map(|(d, h)| { let mut l = obj_lines(&d); do_harm(&mut l, &h); (Fmt::Obj, render(&l, &[])) }),
        1 => (mtldoc(m), harm(&BAD_MTL)).prop_map(|(d, h)| { let mut l = mtl_lines(&d); do_harm(&mut l, &h); (Fmt::Mtl, render(&l, &[])) }),
        1 => (soup(), any::<bool>()).prop_map(|(t, b)| (if b { Fmt::Obj } else { Fmt::Mtl }, t)),
        1 => (objs(EVEN, 1, true, true), style()).prop_map(|(d, s)| (Fmt::Obj, render(&obj_lines(&d), &s))),
        1 => (mtls([4, 5, 4, 1, 1, 1, 6, 0], true, true), style()).prop_map(|(d, s)| (Fmt::Mtl, render(&mtl_lines(&d), &s))),
    ]
    .boxed()
}
fn c20() -> BoxedStrategy<Case> {
    (
        vec((small_text(), prop_oneof![12 => Just(1u32), 3 => 2u32..20, 1 => select(vec![64u32, 128, 256, 1000, 1024])]), 0..6),
        small_text(),
        prop_oneof![2 => Just(0u8), 1 => Just(2u8), 1 => Just(4u8)],
        0u8..64,
    )
        .prop_map(|(h, (fmt, probe), threads, offset)| {
            let history: Vec<(Fmt, String, u32)> = h
                .into_iter()
                .map(|((f, t), k)| {
                    let k = k.min((200_000 / (t.len() as u32 + 50)).max(1));
                    (f, t, k)
                })
                .collect();
            let n: u32 = history.iter().map(|h| h.2).sum();
            let tag = match (n, threads) {
                (_, 1..) => "threads",
                (0, _) => "no history",
                (1..=8, _) => "short history",
                (9..=200, _) => "long history",
                _ => "very long history",
            };
            Case { obs: vec![Ob::Pure(Pure { history, fmt, probe, threads, offset })], nontrivial: n >= 2 || threads > 1, tag }
        })
        .boxed()
}
pub const FILES: [&str; 17] = [
    "cube.mtl", "a.png", "b.mpc", "sand.mps", "sphere", "a", "b", "c", "m1", "default", "lib1.mtl", "grp1", "a.jpg", "a.obj", "a.mod", "a.rfl", "a.tga",
];
fn c21() -> BoxedStrategy<Case> {
    let path = || select(vec!["cube.mtl", "./cube.mtl", "@DIR@/cube.mtl", "../cube.mtl", "/etc/passwd", "missing.mtl", "a.png", "@DIR@/a.png", "@DIR@", ".", "/", "http://localhost/a.mtl", "127.0.0.1:80", "$HOME/x.mtl", "~/x.mtl", "file:///etc/passwd", "/dev/null", "/proc/self/maps", "a b.png"]);
    let kw = select(vec![(Fmt::Obj, "mtllib"), (Fmt::Obj, "maplib"), (Fmt::Obj, "usemap"), (Fmt::Obj, "usemtl"), (Fmt::Obj, "shadow_obj"), (Fmt::Obj, "trace_obj"), (Fmt::Obj, "g"), (Fmt::Obj, "o"), (Fmt::Obj, "call"), (Fmt::Mtl, "newmtl"), (Fmt::Mtl, "map_Ka"), (Fmt::Mtl, "map_Kd"), (Fmt::Mtl, "map_Ks"), (Fmt::Mtl, "map_Ns"), (Fmt::Mtl, "map_d"), (Fmt::Mtl, "disp"), (Fmt::Mtl, "decal"), (Fmt::Mtl, "bump"), (Fmt::Mtl, "refl"), (Fmt::Mtl, "Ka spectral"), (Fmt::Mtl, "Ks spectral")]);
    let files = || FILES.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    prop_oneof![
        2 => small_text().prop_map(move |(fmt, text)| {
            let nontrivial = FILES.iter().any(|f| text.split_whitespace().any(|w| w == *f));
            Case { obs: vec![Ob::NoIo { fmt, text, files: files() }], nontrivial, tag: "documents" }
        }),
        3 => (kw, path(), small_text()).prop_map(move |((fmt, k), p, (f2, rest))| {
            let mut text = format!("{}{k} {p}\n", if fmt == Fmt::Mtl { "newmtl m\n" } else { "" });
            if f2 == fmt {
                text.push_str(&rest);
            }
            let nontrivial = !p.starts_with("missing");
            Case { obs: vec![Ob::NoIo { fmt, text, files: files() }], nontrivial, tag: "a path in a name" }
        }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- C22

pub const OBJ_UNITS: [&str; 44] = [
    "v {i}.25 -2 3\n", "v 1 2 3 4\n", "vn 0 {i} 1e-3\n", "vt 0.{i}\n", "vt 1 2 3\n", "vp 1\n", "f {i} 2 3\n", "f 1/2/3 {i}//4 5/6 7\n", "f -1 -1 -1\n",
    "f 1// 2/ 3\n", "l 1 {i}/2\n", "p {i} 2\n", "g grp{i}\n", "g a b\n", "g a{i} b{i}\n", "s {i}\n", "s off\n", "usemtl m{i}\n", "usemtl a b c\n", "usemap t{i}\n",
    "usemap off\n", "bevel on\n", "c_interp off\n", "d_interp ON\n", "lod 7\n", "mtllib l{i}.mtl x.mtl\n", "maplib q{i}\n", "shadow_obj s{i}\n", "trace_obj t\n",
    "o obj{i}\n", "# comment {i}\n", "\n", "   \t \n", "v\t1   2 3   # trailing\r\n", "\r", "#\n", "v -1.5e+10 .5 5.\n", "v {i} {i} {i}\n", "f {i}/{i}/{i} {i}/{i}/{i} {i}/{i}/{i}\n",
    "g default\n", "l 1 2 3 4 5 6 7 8\n", "p -1\n", "VN 1 2 3\n", "usemtl é{i}日\n",
];
pub const MTL_UNITS: [&str; 40] = [
    "newmtl m{i}\n", "newmtl same\n", "Ka 1 0.5 {i}\n", "Kd spectral f{i}.rfl 2\n", "Ks xyz 1\n", "Ke xyz 1 2 3\n", "Tf 1 1 1\n", "Ns {i}\n", "Ni 1.5\n", "Tr 0.{i}\n", "sharpness 60\n",
    "d 0.5\n", "d -halo 0.5\n", "illum 2\n", "map_aat on\n", "map_Ka a{i}.png\n", "map_Kd -blendu on -blendv off -cc on -clamp off b.png\n", "map_Ks -mm 0 1 -o 1 2 3 -s 1 -t 1 2 c{i}\n",
    "map_Ns -texres 512 n.png\n", "map_d -imfchan r d.png\n", "disp d.png\n", "map_disp d{i}.png\n", "decal e.png\n", "bump -bm 1.5 b.png\n", "refl -type sphere r.png\n", "# comment {i}\n", "\n",
    "  \t\n", "Kd\t1  1   1 # trailing\r\n", "\r", "#\n", "Kd 1e-3 .5 5.\n", "newmtl a b c {i}\n", "newmtl 1\n", "newmtl é{i}\n", "map_Kd {i}.png\n", "map_Kd a.png -s 1 1 1 -o 0 0 0\n",
    "KD 1 1 1\n", "Tr 1\n", "refl -type cube_top t{i}.png\n",
];
pub const OBJ_LINES: [(&str, &str, &str); 56] = [
    ("v 1 2 ", "7", "\n"), ("v 1 2 0.", "3", "\n"), ("v 1 2 3e", "0", "1\n"), ("v 1 2 0", "0", "\n"), ("f", " {i}", "\n"), ("f", " {i}/1/2", "\n"), ("f", " {i}//2", "\n"), ("l", " {i}/2", "\n"), ("l", " {i}", "\n"),
    ("p", " {i}", "\n"), ("g", " n{i}", "\n"), ("g", " same", "\n"), ("g ", "n", "\n"), ("usemtl ", "n", "\n"), ("usemtl x", "  y", "\n"), ("usemtl n", " ", "\n"), ("usemtl n", " ", "x\n"), ("usemtl n", "\t", "# c\n"), ("usemtl", " ", "n\n"), ("usemap ", "q", "\n"),
    ("mtllib", " a{i}.mtl", "\n"), ("maplib", " a{i}", "\n"), ("shadow_obj ", "s", "\n"), ("trace_obj ", "t ", "x\n"), ("# ", "c", "\n"), ("# ", "é", "\n"), ("v 1 2 3 # ", "# ", "\n"), ("v 1 2 3 ", " ", "\n"), ("", " ", "\n"), ("", "\t", "v 1 2 3\n"), ("v", " ", "1 2 3\n"),
    ("f 1", "/", "\n"), ("f 1 2", " /", "\n"), ("", "/", ""), ("v ", "-", ""), ("v ", "1.", ""), ("v ", "1e", ""), ("", "x", ""), ("", "v ", ""), ("", "1 ", ""), ("", "1", ""), ("", "f 1 ", ""), ("o ", "日", "\n"), ("usemap", "\t", "off\n"), ("v 1 2 3", "\\\n", ""),
    ("v", " 1", "\n"), ("vn", " 1", "\n"), ("vt", " 1", "\n"), ("s", " 1", "\n"), ("lod ", "0", "7\n"), ("s ", "0", "7\n"), ("usemtl a", "#", "\n"), ("usemtl a", " #", "\n"), ("g", " #", "\n"), ("bevel o", "n", "\n"), ("", "\u{212A}", ""),
];
pub const MTL_LINES: [(&str, &str, &str); 46] = [
    ("newmtl ", "n", "\n"), ("newmtl x", " y", "\n"), ("newmtl x", " ", "\n"), ("newmtl", " ", "x\n"), ("newmtl x", "\t", "# c\n"), ("newmtl x\nKd 1 1 ", "1", "\n"), ("newmtl x\nKd 1 1 0.", "1", "\n"), ("newmtl x\nKd 1 1 1e", "0", "\n"), ("newmtl x\nmap_Kd ", "f", "\n"), ("newmtl x\nmap_Kd ", "1", "f\n"), ("newmtl x\nmap_Kd ", "-", "f\n"), ("newmtl x\nmap_Kd ", "d", "\n"),
    ("newmtl x\nmap_Kd -s 1", "  ", " 1 a.png\n"), ("newmtl x\nmap_Kd", " -blendu on", " a.png\n"), ("newmtl x\nmap_Kd", " -o 1 {i} 2", " a\n"), ("newmtl x\nmap_Kd", " -mm 1 2", " a\n"), ("newmtl x\nmap_d", " -imfchan r", " a\n"), ("newmtl x\nrefl", " -type sphere", " a\n"), ("newmtl x\nbump", " -bm 1", " a\n"), ("newmtl x\nKd", " 1", "\n"), ("newmtl x\n# ", "c", "\n"), ("newmtl x\n# ", "é", "\n"), ("newmtl x\nmap_Kd", " f{i}", "\n"),
    ("newmtl x\nillum ", "0", "1\n"), ("newmtl x\nKa spectral ", "f", "\n"), ("newmtl x\nKa spectral", " f", "\n"), ("newmtl x\nKa xyz", " 1", "\n"), ("", "x", ""), ("", "newmtl ", ""), ("", "1 ", ""), ("", "-", ""), ("", "Kd ", ""), ("newmtl x\n", "Kd ", ""), ("newmtl x\n", "K", ""), ("newmtl x\n", "1", ""), ("newmtl x\n", " ", ""), ("newmtl x\nKd 1 1 1 ", " ", "# c\n"), ("newmtl x\nKd 1 1 1 # ", "#", "\n"),
    ("newmtl x\nNs ", "9", "\n"), ("newmtl x\nd -halo", " ", "1\n"), ("newmtl x\nd", " -halo", " 1\n"), ("newmtl x\nmap_Kd ", "日", "\n"), ("newmtl x\nmap_Kd a", "\t", "-s 1\n"), ("newmtl x\nmap_aat o", "n", "\n"), ("newmtl ", "\u{212A}", "\n"), ("newmtl x\nmap_Kd a.png", " -cc on", "\n"),
];
pub const TAILS: [&str; 6] = ["", "", "", "v 1 2 3\n", "bogus\n", "v 1 2\n"];

/// A sixteenth of what makes `bytes` of text.
pub fn cost_n(unit: &str, bytes: usize) -> usize {
    (bytes / 16 / unit.len().max(1)).max(16)
}
pub fn grow_n(unit: &str, four: usize) -> usize {
    (four / 4 / unit.len().max(1)).clamp(64, 8192)
}
fn units(all: &'static [&'static str]) -> BoxedStrategy<String> {
    prop_oneof![
        2 => select(all.to_vec()).prop_map(String::from),
        3 => vec(select(all.to_vec()), 2..5).prop_map(|v| v.concat()),
        1 => vec(select(all.to_vec()), 5..16).prop_map(|v| v.concat()),
    ]
    .boxed()
}
/// Each way to grow a text, alone.
pub fn families() -> Vec<(Fmt, String, String, String)> {
    let s = String::from;
    let mut v = Vec::new();
    v.extend(OBJ_UNITS.iter().map(|u| (Fmt::Obj, s(OBJ_HEAD), s(u), s(""))));
    v.extend(MTL_UNITS.iter().map(|u| (Fmt::Mtl, s(MTL_HEAD), s(u), s(""))));
    v.extend(OBJ_LINES.iter().map(|(h, u, t)| (Fmt::Obj, s(h), s(u), s(t))));
    v.extend(MTL_LINES.iter().map(|(h, u, t)| (Fmt::Mtl, s(h), s(u), s(t))));
    v
}
/// Each way to grow a text with two kinds of statements, by turns or one after
/// the other; lines ended otherwise; a text that ends in an error.
pub fn pair_families() -> Vec<(Fmt, String, String, String)> {
    let mut v = Vec::new();
    for (fmt, head, units, more) in [
        (Fmt::Obj, OBJ_HEAD, &OBJ_UNITS[..], &["f -{n} -{n} -1\n", "f -{n}/-{n}/-{n} -1\n", "l -{n}/-{n} -1\n", "p -{n}\n", "usemtl m000001\n", "g grp100000\n", "g grp100000 grp100001\n"][..]),
        (Fmt::Mtl, MTL_HEAD, &MTL_UNITS[..], &["newmtl m100000\n"][..]),
    ] {
        let mut put = |head: &str, unit: String, tail: &str| v.push((fmt, head.to_string(), unit, tail.to_string()));
        for a in units {
            put(&head.replace('\n', "\r"), a.replace('\n', "\r"), "");
            put(&head.replace('\n', "\r\n"), a.replace('\n', "\r\n"), "");
            put(head, a.to_string(), "bogus\n");
            put(head, a.to_string(), if fmt == Fmt::Obj { "v 1 2\n" } else { "Kd 1 1\n" });
        }
        let all: Vec<&str> = units.iter().chain(more).copied().collect();
        for (i, a) in all.iter().enumerate() {
            for b in &all[i + 1..] {
                put(head, format!("{a}{b}"), "");
                put(head, format!("{a}{}{b}", special::PHASE), "");
                put(head, format!("{b}{}{a}", special::PHASE), "");
            }
        }
    }
    v
}
const OBJ_HEAD: &str = "v 1 2 3\nvt 1 2\nvn 1 2 3\n";
const MTL_HEAD: &str = "newmtl first\n";
fn c22() -> BoxedStrategy<Case> {
    let family = prop_oneof![
        3 => (units(&OBJ_UNITS), select(TAILS.to_vec())).prop_map(move |(u, t)| (Fmt::Obj, OBJ_HEAD.to_string(), u, t.to_string(), "repeated OBJ statements")),
        3 => (units(&MTL_UNITS), select(vec!["", "", "Kd 1 1 1\n", "bogus\n", "Kd 1 1\n"])).prop_map(move |(u, t)| (Fmt::Mtl, MTL_HEAD.to_string(), u, t.to_string(), "repeated MTL statements")),
        2 => (select(OBJ_LINES.to_vec()), select(TAILS.to_vec())).prop_map(|((h, u, t), x)| (Fmt::Obj, h.to_string(), u.to_string(), format!("{t}{x}"), "one OBJ statement")),
        2 => select(MTL_LINES.to_vec()).prop_map(|(h, u, t)| (Fmt::Mtl, h.to_string(), u.to_string(), t.to_string(), "one MTL statement")),
        1 => (soup(), any::<bool>()).prop_map(|(u, o)| {
            let u = u.replace('{', "(") + "\n";
            if o { (Fmt::Obj, String::new(), u, String::new(), "repeated word soup") } else { (Fmt::Mtl, "newmtl a\n".into(), u, String::new(), "repeated word soup") }
        }),
    ];
    family
        .prop_map(|(fmt, head, unit, tail, tag)| {
            let n = grow_n(&unit, 30_000);
            Case { obs: vec![Ob::Alloc { fmt, head, unit, tail, n }], nontrivial: true, tag }
        })
        .boxed()
}
/// All growth families whose instructions are counted in the quick tier, and
/// random ones.
pub fn insn_strategy() -> BoxedStrategy<Case> {
    c22()
        .prop_map(|c| {
            let Ob::Alloc { fmt, head, unit, tail, .. } = c.obs.into_iter().next().unwrap() else { unreachable!() };
            let n = grow_n(&unit, 40_000);
            Case { obs: vec![Ob::Insn { fmt, head, unit, tail, n }], nontrivial: true, tag: "instructions" }
        })
        .boxed()
}

// ---------------------------------------------------------------- C23

fn c23() -> BoxedStrategy<Case> {
    let f = || prop_oneof![any::<u32>(), (0u32..20).prop_map(|x| (x as f32).to_bits()), select(vec![0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fc0_0001, 1, 0x7f7f_ffff])];
    let of = || proptest::option::of(f());
    let i = || prop_oneof![any::<i32>(), -5i32..20];
    let oi = || proptest::option::of(i());
    let s = || prop_oneof![Just(String::new()), "\\PC{0,12}"];
    prop_oneof![
        (f(), f(), f(), of()).prop_map(|(a, b, c, d)| Conv::Vertex(a, b, c, d)),
        (f(), f(), f()).prop_map(|(a, b, c)| Conv::Normal(a, b, c)),
        (f(), of(), of()).prop_map(|(a, b, c)| Conv::Texture(a, b, c)),
        (i(), oi(), oi()).prop_map(|(a, b, c)| Conv::FaceEl(a, b, c)),
        (i(), oi()).prop_map(|(a, b)| Conv::LineEl(a, b)),
        (vec((i(), oi(), oi()), 0..6), i()).prop_map(|(a, b)| Conv::Face(a, b)),
        vec((i(), oi()), 0..6).prop_map(Conv::Line),
        vec(i(), 0..6).prop_map(Conv::Point),
        (s(), any::<bool>(), any::<bool>(), any::<bool>(), any::<u8>(), proptest::option::of(s())).prop_map(|(a, b, c, d, e, g)| Conv::Group(a, b, c, d, e, g)),
        Just(Conv::Default),
    ]
    .prop_map(|c| {
        let tag = match &c {
            Conv::Vertex(..) => "Vertex",
            Conv::Normal(..) => "Normal",
            Conv::Texture(..) => "Texture",
            Conv::FaceEl(..) => "FaceElement",
            Conv::LineEl(..) => "LineElement",
            Conv::Face(..) => "Face",
            Conv::Line(_) => "Line",
            Conv::Point(_) => "Point",
            Conv::Group(..) => "Group",
            Conv::Default => "defaults",
        };
        Case { nontrivial: tag != "defaults", obs: vec![Ob::Conv(c)], tag }
    })
    .boxed()
}
