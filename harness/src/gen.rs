//! Generators. Everything random is drawn from proptest strategies, so failing
//! cases shrink and runs are a pure function of the seed.
use crate::ast::*;
use crate::canon::F;
use crate::refparse::{is_file_word, is_number};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

// ---------------------------------------------------------------- literals

/// The 32-bit float half way between `x` and the next one up is a 64-bit float;
/// print it exactly.
fn exact_decimal(mid: f64) -> String {
    let s = format!("{:.1080}", mid);
    let s = s.trim_end_matches('0');
    s.to_string()
}

/// Literals whose nearest float is known by construction: at, just above and
/// well within the rounding boundaries between two neighbouring floats.
fn boundary_num() -> BoxedStrategy<Num> {
    (
        prop_oneof![
            4 => 0x3000_0000u32..0x5000_0000,
            2 => 0u32..0x7f7f_ffff,
            1 => 0u32..0x0080_0010,
            1 => select(vec![0u32, 1, 2, 0x007f_ffff, 0x0080_0000, 0x3f80_0000, 0x3f7f_ffff, 0x4b80_0000, 0x4b7f_ffff, 0x7f7f_fffe]),
        ],
        0u8..6,
        0u8..3,
        0u8..3,
    )
        .prop_map(|(bits, kind, sign, form)| {
            let x = f32::from_bits(bits);
            let next = f32::from_bits(bits + 1);
            let mid = (x as f64 + next as f64) / 2.0;
            let (t, v) = match kind {
                0 => {
                    // tie: to the even mantissa
                    let v = if bits % 2 == 0 { x } else { next };
                    (exact_decimal(mid), v)
                }
                1 => (format!("{}000000000000001", pad_point(exact_decimal(mid))), next),
                3 if bits > 0 => (format!("{}000000000000001", pad_point(exact_decimal(x as f64))), x),
                2 | 3 => (exact_decimal(x as f64), x),
                4 => {
                    let q = (x as f64 + mid) / 2.0; // a quarter up
                    (exact_decimal(q), x)
                }
                _ => {
                    let q = (next as f64 + mid) / 2.0;
                    (exact_decimal(q), next)
                }
            };
            let t = match form {
                0 => t,
                1 => format!("{}{}", t, if t.ends_with('.') { "e0" } else { "E+00" }),
                _ => shift_point(&t),
            };
            finish(t, v, sign)
        })
        .boxed()
}
fn pad_point(s: String) -> String {
    if s.contains('.') {
        s
    } else {
        s + "."
    }
}
fn finish(t: String, v: f32, sign: u8) -> Num {
    match sign {
        0 => Num { t, v: F::of(v) },
        1 => Num { t: format!("-{t}"), v: F::of(-v) },
        _ => Num { t: format!("+{t}"), v: F::of(v) },
    }
}
/// The same value with the point moved to the right end and an exponent.
fn shift_point(t: &str) -> String {
    match t.split_once('.') {
        Some((a, b)) => {
            let digits = format!("{a}{b}");
            format!("{}e-{}", digits, b.len())
        }
        None => t.to_string(),
    }
}

fn parsed(t: String) -> Num {
    let v: f32 = t.parse().unwrap_or_else(|_| panic!("HARNESS: literal {t:?}"));
    Num { t, v: F::of(v) }
}

const SIGNS: [&str; 6] = ["", "", "", "-", "-", "+"];
/// Numbers of the sources under test and what lies around them.
fn dict_num() -> BoxedStrategy<Num> {
    let d = crate::dict::get();
    prop_oneof![
        3 => (sign(), select(d.ints.clone()), select(vec!["", "", ".", ".0", ".5", ".25", "e0", ".000001"])).prop_map(|(s, i, t)| parsed(format!("{s}{i}{t}"))),
        2 => (sign(), select(d.floats.clone())).prop_map(|(s, f)| parsed(format!("{s}{f}"))),
        1 => (sign(), select(d.floats.clone()), 0u8..3).prop_map(|(s, f, k)| {
            let x: f32 = f.parse().unwrap_or(1.0);
            let x = match k { 0 => x, 1 => f32::from_bits(x.to_bits().wrapping_add(1)), _ => f32::from_bits(x.to_bits().wrapping_sub(1)) };
            parsed(if x.is_finite() { format!("{s}{}", x.abs()) } else { "1".into() })
        }),
    ]
    .boxed()
}
fn dict_int() -> BoxedStrategy<i64> {
    select(crate::dict::get().ints.clone()).boxed()
}
fn dict_word() -> BoxedStrategy<String> {
    let w = crate::dict::get().words.clone();
    prop_oneof![
        4 => select(w.clone()),
        1 => (select(w.clone()), "[a-zA-Z0-9.]{1,3}").prop_map(|(a, b)| format!("{a}{b}")),
        1 => ("[a-zA-Z0-9.]{1,3}", select(w.clone())).prop_map(|(a, b)| format!("{a}{b}")),
        1 => ("[a-zA-Z0-9.]{1,3}", select(w.clone()), "[a-zA-Z0-9.]{1,3}").prop_map(|(a, b, c)| format!("{a}{b}{c}")),
        1 => (select(w.clone()), select(w)).prop_map(|(a, b)| format!("{a}{b}")),
        1 => (dict_int(), "[a-zA-Z.]{0,2}").prop_map(|(a, b)| format!("{b}{a}")),
    ]
    .prop_map(fix_word)
    .boxed()
}

fn sign() -> impl Strategy<Value = &'static str> {
    (0usize..6).prop_map(|i| SIGNS[i])
}

pub const BIG_INTS: [i64; 40] = [
    9, 10, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000,
    32767, 32768, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 1048576, 9999999, 10000000,
    16777215, 16777216, 16777217, 99999999, 100000000, 999999999, 1000000000, 2147483646, 2147483647,
];
pub const HUGE_INTS: [&str; 14] = [
    "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807",
    "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999",
    "12345678901234567890123", "340282346638528859811704183484516925440", "10000000000",
    "100000000000000000000000000000000000000000000000",
];

/// Common literals: what files contain.
pub fn plain_num() -> BoxedStrategy<Num> {
    prop_oneof![
        1 => dict_num(),
        3 => (sign(), 0u32..12).prop_map(|(s, i)| parsed(format!("{s}{i}"))),
        3 => (sign(), 0u32..2000, 0u32..1_000_000, 1usize..7).prop_map(|(s, a, b, w)| {
            let f = format!("{b:06}");
            parsed(format!("{s}{a}.{}", &f[..w.min(6)]))
        }),
        1 => (sign(), 0u32..10000).prop_map(|(s, b)| parsed(format!("{s}.{b}"))),
        1 => (sign(), 0u32..10000).prop_map(|(s, a)| parsed(format!("{s}{a}."))),
        1 => (sign(), 0u32..100, 0u32..1000, select(vec!["e", "E"]), select(vec!["", "+", "-"]), 0u32..20)
            .prop_map(|(s, a, b, e, es, x)| parsed(format!("{s}{a}.{b}{e}{es}{x}"))),
    ]
    .boxed()
}

/// Every literal form.
pub fn num() -> BoxedStrategy<Num> {
    let e = || {
        (select(vec!["e", "E"]), select(vec!["", "+", "-"]), prop_oneof![
            5 => (0u32..48).prop_map(|x| x.to_string()),
            1 => (0u32..48).prop_map(|x| format!("{x:03}")),
            1 => select(vec!["38", "39", "45", "46", "400", "4000", "99999", "2147483648", "00000000000000000001", "99999999999999999999"]).prop_map(String::from),
        ])
            .prop_map(|(e, s, x)| format!("{e}{s}{x}"))
    };
    let oe = || prop_oneof![2 => Just(String::new()), 3 => e()];
    prop_oneof![
        4 => plain_num(),
        1 => (sign(), select(BIG_INTS.to_vec())).prop_map(|(s, i)| parsed(format!("{s}{i}"))),
        1 => (sign(), select(HUGE_INTS.to_vec())).prop_map(|(s, i)| parsed(format!("{s}{i}"))),
        1 => Just(parsed("-2147483648".into())),
        1 => (sign(), "0{0,4}[0-9]{1,30}").prop_map(|(s, d)| parsed(format!("{s}{d}"))),
        2 => (sign(), "[0-9]{1,6}", e()).prop_map(|(s, d, e)| parsed(format!("{s}{d}{e}"))),
        2 => (sign(), "[0-9]{1,12}", "[0-9]{0,12}", oe()).prop_map(|(s, a, b, e)| parsed(format!("{s}{a}.{b}{e}"))),
        2 => (sign(), "[0-9]{1,12}", oe()).prop_map(|(s, b, e)| parsed(format!("{s}.{b}{e}"))),
        1 => (sign(), "[0-9]{20,80}", "[0-9]{0,80}", oe()).prop_map(|(s, a, b, e)| parsed(format!("{s}{a}.{b}{e}"))),
        1 => (sign(), "[0-9]", 200usize..900, oe()).prop_map(|(s, d, n, e)| parsed(format!("{s}0.{}{e}", d.repeat(n)))),
        2 => (0u32..0x7f80_0000, 0u8..3, 0u8..2).prop_map(|(b, sg, f)| {
            let x = f32::from_bits(b);
            let t = if f == 0 { format!("{x:?}") } else { format!("{x:e}") };
            finish(t, x, sg)
        }),
        3 => boundary_num(),
    ]
    .boxed()
}

pub fn nums(rich: bool) -> BoxedStrategy<Num> {
    if rich {
        num()
    } else {
        prop_oneof![8 => plain_num(), 1 => num()].boxed()
    }
}

/// A way to write a whole number.
pub fn int_style(v: i64, st: u8) -> Int {
    let (s, a) = if v < 0 { ("-", -v) } else { ("", v) };
    let t = match st % 16 {
        12 if v >= 0 => format!("+{a}"),
        13 => format!("{s}0{a}"),
        14 => format!("{s}0000{a}"),
        15 if v >= 0 => format!("+00000000000000000000{a}"),
        _ => format!("{s}{a}"),
    };
    Int { t, v }
}
fn pos_int() -> BoxedStrategy<Int> {
    (
        prop_oneof![
            8 => 1i64..30,
            2 => 1i64..400,
            1 => 1i64..100_000,
            1 => 1i64..=2147483647,
            2 => select(BIG_INTS.to_vec()),
            1 => dict_int().prop_map(|i| i.max(1)),
        ],
        any::<u8>(),
    )
        .prop_map(|(v, s)| int_style(v, s))
        .boxed()
}

// ---------------------------------------------------------------- names

pub const ODD_WORDS: [&str; 98] = [
    "1", "2", "0", "1.5", "-3", "+7", "1e5", "007", "1.", ".5", "-0", "100000000000", "1.50", "0x1F",
    "v", "vn", "vt", "vp", "f", "l", "p", "o", "g", "s", "usemtl", "mtllib", "newmtl", "off", "on", "ON",
    "bevel", "lod", "usemap", "maplib", "shadow_obj", "spectral", "xyz", "d", "Kd", "-o", "-s", "map_Kd",
    "vase", "floor", "group", "offset", "oname", "sphere", "dirt", "bumpy", "kapok", "nickel", "trunk",
    "./a.png", "../t/x.png", "/abs/path.mtl", "C:\\dir\\y.mtl", "3d.png", "001.png", "1.5.png", "1/2/3", "a//b",
    "tex-01.png", "-dash", "+plus", ".hidden", "été", "日本語", "\u{212A}elvin", "\u{17F}harp", "İx", "e\u{301}",
    "\u{1F600}", "a\u{a0}b", "a\u{b}b", "a\u{c}b", "\u{feff}bom", "\u{3000}", "a#b", "a##", "\"q\"", "'q'", "a,b;c",
    "%20", "default", "Default", "DEFAULT", "default2", "null", "(null)", "None", "a.b.c", "a|b", "a:b",
    "\u{1}ctl", "x\\y", "x\\", "\\",
];
fn ok_word(w: &str) -> bool {
    !w.is_empty() && !w.starts_with('#') && !w.contains([' ', '\t', '\r', '\n'])
}

/// A word that may stand as a group or library name.
pub fn word(odd: bool) -> BoxedStrategy<String> {
    let simple = prop_oneof![
        select(vec!["a", "b", "c", "A", "default", "grp1", "grp2", "cube.mtl", "Wall_01"]).prop_map(String::from),
        "[a-zA-Z_][a-zA-Z0-9_.-]{0,10}",
    ];
    if !odd {
        return prop_oneof![12 => simple, 1 => select(ODD_WORDS.to_vec()).prop_map(String::from), 1 => dict_word()].boxed();
    }
    prop_oneof![
        3 => simple,
        5 => select(ODD_WORDS.to_vec()).prop_map(String::from),
        2 => dict_word(),
        2 => "[!-~]{1,12}".prop_map(fix_word),
        1 => "\\PC{1,8}".prop_map(fix_word),
        1 => "[0-9./+-]{1,6}".prop_map(fix_word),
        1 => (select(ODD_WORDS.to_vec()), "[a-zA-Z0-9._]{1,4}").prop_map(|(a, b)| fix_word(format!("{a}{b}"))),
        1 => (select(vec!["x", "n0", "é", "日", "\u{1F600}"]), prop_oneof![2 => 20usize..70, 1 => 250usize..260, 1 => 1000usize..1100, 1 => 4090usize..4100])
            .prop_map(|(c, n)| c.repeat(n)),
    ]
    .boxed()
}
/// Make any text a word by construction.
fn fix_word(s: String) -> String {
    let mut t: String = s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\r' | '\n')).collect();
    if t.starts_with('#') {
        t.insert(0, 'n');
    }
    if t.is_empty() {
        t.push('n');
    }
    t
}
/// A name that is the rest of a line: one or several words.
pub fn line_name(odd: bool) -> BoxedStrategy<String> {
    prop_oneof![
        3 => word(odd),
        1 => (word(odd), vec((select(vec![" ", " ", "  ", "\t", " \t"]), word(odd)), 1..4)).prop_map(|(a, rest)| {
            let mut s = a;
            for (b, w) in rest {
                s.push_str(b);
                s.push_str(&w);
            }
            s
        }),
    ]
    .boxed()
}
/// A word that may stand as a file name in MTL.
pub fn file_word(odd: bool) -> BoxedStrategy<String> {
    prop_oneof![
        1 => select(vec!["a.png", "b.mpc", "sand.mps", "tex/wood.jpg", "sphere"]).prop_map(String::from),
        3 => word(odd),
    ]
    .prop_map(|w| if is_file_word(&w) { w } else if is_number(&w) { format!("{w}.png") } else { format!("f_{}", w.replace('#', "_")) })
    .boxed()
}

/// A union that leaves out what has no weight.
fn weighted<T: std::fmt::Debug + 'static>(v: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new_weighted(v.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

fn pool(w: BoxedStrategy<String>, max: usize) -> BoxedStrategy<Vec<String>> {
    (vec(w, 1..max), vec((any::<u8>(), 0u8..6), 0..4))
        .prop_map(|(mut p, derive)| {
            // near-collisions of names already in the pool
            for (i, how) in derive {
                let b = p[i as usize % p.len()].clone();
                let n = match how {
                    0 => b.to_uppercase(),
                    1 => b.to_lowercase(),
                    2 => format!("{b}2"),
                    3 => format!("x{b}"),
                    4 => b.chars().rev().collect(),
                    _ => {
                        let mut c: Vec<char> = b.chars().collect();
                        c.pop();
                        c.into_iter().collect()
                    }
                };
                // derived names of several words stay valid only as line names
                if !n.trim_matches([' ', '\t']).is_empty() && n.trim_matches([' ', '\t']) == n && !n.contains(" #") && !n.contains("\t#") && !n.starts_with('#') {
                    p.push(n);
                }
            }
            p
        })
        .boxed()
}

// ---------------------------------------------------------------- OBJ documents

#[derive(Clone, Debug)]
pub enum RIx {
    Abs(Int),
    /// counts back, modulo what is defined
    Rel(u32, u8),
}
#[derive(Clone, Debug)]
pub struct RFE(pub RIx, pub Option<RIx>, pub Option<RIx>, pub u8);
#[derive(Clone, Debug)]
pub enum RO {
    V(Num, Num, Num, Option<Num>),
    Vn(Num, Num, Num),
    Vt(Num, Option<Num>, Option<Num>),
    Vp(Num, Option<Num>, Option<Num>),
    F(Vec<RFE>),
    L(Vec<RFE>),
    P(Vec<RIx>),
    G(Vec<u16>),
    S(Sm),
    Usemtl(u16),
    Usemap(Option<u16>),
    Sw(SwK, bool),
    Lod(u8),
    Mtllib(Vec<u16>),
    Maplib(Vec<u16>),
    Shadow(u16),
    Trace(u16),
    Obj(u16),
    Bulk(u8, u32),
}
#[derive(Clone, Debug)]
pub struct RawObj {
    pub words: Vec<String>,
    pub lines: Vec<String>,
    pub sts: Vec<RO>,
}

#[derive(Clone, Copy)]
pub struct ObjCfg {
    /// weights: v vn vt vp f l p g s usemtl usemap sw lod mtllib maplib shadow trace o bulk
    pub w: [u32; 19],
    pub rel: u32,
    pub odd: bool,
    pub rich: bool,
    pub max: usize,
    /// largest repetition of a bulk statement
    pub bulk: u32,
}
pub const EVEN: [u32; 19] = [6, 3, 3, 1, 6, 3, 3, 5, 4, 4, 3, 5, 2, 2, 2, 1, 1, 1, 0];
impl Default for ObjCfg {
    fn default() -> Self {
        ObjCfg { w: EVEN, rel: 0, odd: false, rich: false, max: 24, bulk: 0 }
    }
}

fn rix(rel: u32) -> BoxedStrategy<RIx> {
    if rel == 0 {
        return pos_int().prop_map(RIx::Abs).boxed();
    }
    prop_oneof![
        10 - rel.min(9) => pos_int().prop_map(RIx::Abs),
        rel => (prop_oneof![4 => 0u32..4, 2 => 0u32..40, 1 => any::<u32>(), 1 => Just(u32::MAX)], any::<u8>()).prop_map(|(r, s)| RIx::Rel(r, s)),
    ]
    .boxed()
}
fn rfe(rel: u32) -> BoxedStrategy<RFE> {
    (rix(rel), proptest::option::of(rix(rel)), proptest::option::of(rix(rel)), prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)])
        .prop_map(|(a, b, c, t)| RFE(a, b, c, t))
        .boxed()
}
fn els<T: std::fmt::Debug + Clone + 'static>(e: BoxedStrategy<T>, mn: usize) -> BoxedStrategy<Vec<T>> {
    prop_oneof![
        12 => vec(e.clone(), mn..6),
        2 => vec(e.clone(), 6..20),
        1 => vec(e, 20..70),
    ]
    .boxed()
}

pub fn raw_obj(c: ObjCfg) -> BoxedStrategy<RawObj> {
    let n = || nums(c.rich);
    let on = || proptest::option::of(nums(c.rich));
    let sel = || 0u16..64;
    let sels = || prop_oneof![6 => vec(0u16..64, 1..3), 2 => vec(0u16..64, 2..8), 1 => vec(0u16..64, 8..40)];
    let w = c.w;
    let smooth = prop_oneof![
        4 => (0i64..5, any::<u8>()).prop_map(|(v, s)| Sm::N(int_style(v, s))),
        1 => (select(BIG_INTS.to_vec()), any::<u8>()).prop_map(|(v, s)| Sm::N(int_style(v, s))),
        1 => (dict_int(), any::<u8>()).prop_map(|(v, s)| Sm::N(int_style(v, s))),
        2 => any::<bool>().prop_map(Sm::Sw),
    ];
    let st: BoxedStrategy<RO> = weighted(vec![
        (w[0], (n(), n(), n(), on()).prop_map(|(a, b, c, d)| RO::V(a, b, c, d)).boxed()),
        (w[1], (n(), n(), n()).prop_map(|(a, b, c)| RO::Vn(a, b, c)).boxed()),
        (w[2], (n(), on(), on()).prop_map(|(a, b, c)| { let c = if b.is_some() { c } else { None }; RO::Vt(a, b, c) }).boxed()),
        (w[3], (n(), on(), on()).prop_map(|(a, b, c)| { let c = if b.is_some() { c } else { None }; RO::Vp(a, b, c) }).boxed()),
        (w[4], els(rfe(c.rel), 1).prop_map(RO::F).boxed()),
        (w[5], els(rfe(c.rel), 1).prop_map(RO::L).boxed()),
        (w[6], els(rix(c.rel), 1).prop_map(RO::P).boxed()),
        (w[7], sels().prop_map(RO::G).boxed()),
        (w[8], smooth.prop_map(RO::S).boxed()),
        (w[9], sel().prop_map(RO::Usemtl).boxed()),
        (w[10], proptest::option::weighted(0.8, sel()).prop_map(RO::Usemap).boxed()),
        (w[11], (select(vec![SwK::Bevel, SwK::CInterp, SwK::DInterp]), any::<bool>()).prop_map(|(a, b)| RO::Sw(a, b)).boxed()),
        (w[12], prop_oneof![0u8..=100, select(vec![0u8, 1, 99, 100])].prop_map(RO::Lod).boxed()),
        (w[13], sels().prop_map(RO::Mtllib).boxed()),
        (w[14], sels().prop_map(RO::Maplib).boxed()),
        (w[15], sel().prop_map(RO::Shadow).boxed()),
        (w[16], sel().prop_map(RO::Trace).boxed()),
        (w[17], sel().prop_map(RO::Obj).boxed()),
        (w[18], (0u8..16, bulk_n(c.bulk)).prop_map(|(k, n)| RO::Bulk(k, n)).boxed()),
    ]);
    let m = c.max;
    (
        pool(word(c.odd), 6),
        pool(line_name(c.odd), 6),
        prop_oneof![
            3 => vec(st.clone(), 1..6usize.min(m + 1)),
            5 => vec(st.clone(), 1..(m + 1)),
            1 => vec(st, m..(m * 4 + 1)),
        ],
    )
        .prop_map(|(words, lines, sts)| RawObj { words, lines, sts })
        .boxed()
}
fn bulk_n(max: u32) -> BoxedStrategy<u32> {
    let m = max.max(8);
    prop_oneof![
        6 => 1u32..40u32.min(m),
        3 => select(vec![63u32, 64, 65, 100, 127, 128, 129, 255, 256, 257, 258]).prop_map(move |x| x.min(m)),
        1 => 1u32..m,
        1 => dict_int().prop_map(move |x| (x as u32).clamp(1, m)),
        1 => select(vec![511u32, 512, 513, 1000, 1023, 1024, 1025, 4097]).prop_map(move |x| x.min(m)),
    ]
    .boxed()
}

/// Selectors to names, counts back to numbers, repetitions to statements.
/// Bounded so that the loaded result stays small.
pub fn build_obj(raw: &RawObj) -> Vec<O> {
    let wordp: Vec<String> = raw
        .words
        .iter()
        .map(|w| if ok_word(w) { w.clone() } else { fix_word(w.clone()) })
        .collect();
    let w = |i: &u16| wordp[*i as usize % wordp.len()].clone();
    let l = |i: &u16| raw.lines[*i as usize % raw.lines.len()].clone();
    let ws = |v: &Vec<u16>| v.iter().map(w).collect::<Vec<_>>();
    let (mut nv, mut nt, mut nn) = (0usize, 0usize, 0usize);
    let mut cur = 1usize;
    let mut cost = 0usize;
    let ix = |r: &RIx, count: usize| -> Int {
        match r {
            RIx::Abs(i) => i.clone(),
            RIx::Rel(..) if count == 0 => Int::of(1),
            RIx::Rel(r, s) => {
                let k = if *r == u32::MAX { count as i64 } else { 1 + (*r as usize % count) as i64 };
                int_style(-k, *s)
            }
        }
    };
    let mut out: Vec<O> = Vec::new();
    for s in &raw.sts {
        let o = match s {
            RO::V(a, b, c, d) => {
                nv += 1;
                O::V(a.clone(), b.clone(), c.clone(), d.clone())
            }
            RO::Vn(a, b, c) => {
                nn += 1;
                O::Vn(a.clone(), b.clone(), c.clone())
            }
            RO::Vt(a, b, c) => {
                nt += 1;
                O::Vt(a.clone(), b.clone(), c.clone())
            }
            RO::Vp(a, b, c) => O::Vp(a.clone(), b.clone(), c.clone()),
            RO::F(es) => O::F(
                es.iter()
                    .map(|e| FE {
                        v: ix(&e.0, nv),
                        t: e.1.as_ref().map(|x| ix(x, nt)),
                        n: e.2.as_ref().map(|x| ix(x, nn)),
                        trail: match (&e.1, &e.2) {
                            (None, None) => e.3.min(2),
                            (Some(_), None) => e.3.min(1),
                            _ => 0,
                        },
                    })
                    .collect(),
            ),
            RO::L(es) => O::L(
                es.iter()
                    .map(|e| LE {
                        v: ix(&e.0, nv),
                        t: e.1.as_ref().map(|x| ix(x, nt)),
                        trail: if e.1.is_none() { e.3.min(1) } else { 0 },
                    })
                    .collect(),
            ),
            RO::P(es) => O::P(es.iter().map(|e| ix(e, nv)).collect()),
            RO::G(v) => {
                cur = v.len();
                O::G(ws(v))
            }
            RO::S(x) => O::S(x.clone()),
            RO::Usemtl(i) => O::Usemtl(l(i)),
            RO::Usemap(i) => O::Usemap(i.as_ref().map(l).filter(|n| !n.eq_ignore_ascii_case("off"))),
            RO::Sw(k, b) => O::Sw(*k, *b),
            RO::Lod(x) => O::Lod(Int::of(*x as i64)),
            RO::Mtllib(v) => O::Mtllib(ws(v)),
            RO::Maplib(v) => O::Maplib(ws(v)),
            RO::Shadow(i) => O::Shadow(l(i)),
            RO::Trace(i) => O::Trace(l(i)),
            RO::Obj(i) => O::Obj(l(i)),
            RO::Bulk(k, n) => {
                let n = *n as usize;
                if cost + n * cur > 60_000 {
                    continue;
                }
                cost += n * cur;
                for i in 1..=n {
                    let j = i as i64;
                    match k % 16 {
                        0 => {
                            nv += 1;
                            out.push(O::V(Num::of(j), Num::of(-j), Num::of(j * 3), None))
                        }
                        1 => {
                            nv += 1;
                            out.push(O::V(Num::of(j), Num::of(j + 1), Num::of(0), Some(Num::of(j))))
                        }
                        2 => {
                            nn += 1;
                            out.push(O::Vn(Num::of(j), Num::of(-j), Num::of(j * 3)))
                        }
                        3 => {
                            nt += 1;
                            out.push(O::Vt(Num::of(j), Some(Num::of(-j)), None))
                        }
                        4 => out.push(O::F((0..3).map(|d| FE { v: Int::of(j + d), t: None, n: None, trail: 0 }).collect())),
                        5 => {
                            cur = 1;
                            out.push(O::G(vec![format!("bulk{i}")]));
                            out.push(O::P(vec![Int::of(j)]));
                        }
                        6 => out.push(O::Mtllib(vec![format!("lib{i}.mtl")])),
                        7 => out.push(O::Maplib(vec![format!("map{i}.map")])),
                        8 => {
                            out.push(O::S(Sm::N(Int::of(j))));
                            out.push(O::F(vec![FE { v: Int::of(j), t: Some(Int::of(j)), n: Some(Int::of(j)), trail: 0 }]));
                        }
                        9 => out.push(O::L(vec![LE { v: Int::of(j), t: None, trail: 0 }, LE { v: Int::of(j + 1), t: Some(Int::of(j)), trail: 0 }])),
                        10 => out.push(O::P(vec![Int::of(j)])),
                        11 => {
                            // one long face
                            out.push(O::F((1..=n as i64).map(|d| FE { v: Int::of(d), t: Some(Int::of(d + 1)), n: Some(Int::of(d + 2)), trail: 0 }).collect()));
                            break;
                        }
                        12 => {
                            out.push(O::L((1..=n as i64).map(|d| LE { v: Int::of(d), t: None, trail: 0 }).collect()));
                            break;
                        }
                        13 => {
                            out.push(O::P((1..=n as i64).map(Int::of).collect()));
                            break;
                        }
                        14 => {
                            let n = n.min(300);
                            cur = n;
                            out.push(O::G((1..=n).map(|d| format!("m{d}")).collect()));
                            break;
                        }
                        _ => {
                            out.push(O::Usemtl(format!("mat {i}")));
                            out.push(O::Obj(format!("{i}")));
                        }
                    }
                }
                continue;
            }
        };
        out.push(o);
    }
    out
}

// ---------------------------------------------------------------- MTL documents

#[derive(Clone, Debug)]
pub enum RM {
    New(u16),
    Col(usize, RCol),
    Sca(usize, Num),
    D(bool, Num),
    Illum(i64, u8),
    Aat(bool),
    Map(usize, bool, Vec<RMA>, u16, u8),
    Bulk(u8, u32),
}
#[derive(Clone, Debug)]
pub enum RCol {
    Rgb(Num, Num, Num),
    Spec(u16, Option<Num>),
    Xyz(Num, Option<Num>, Option<Num>),
}
#[derive(Clone, Debug)]
pub enum RMA {
    BlendU(bool),
    BlendV(bool),
    Cc(bool),
    Clamp(bool),
    Mm(Num, Num),
    O(T3),
    S(T3),
    T(T3),
    Texres(i64, u8),
    Imf(u8),
    Bm(Num),
    Type(u8),
}
#[derive(Clone, Debug)]
pub struct RawMtl {
    pub names: Vec<String>,
    pub files: Vec<String>,
    pub first: u16,
    pub sts: Vec<RM>,
}
#[derive(Clone, Copy)]
pub struct MtlCfg {
    /// new color scalar d illum aat map bulk
    pub w: [u32; 8],
    pub odd: bool,
    pub rich: bool,
    pub max: usize,
    pub bulk: u32,
}
impl Default for MtlCfg {
    fn default() -> Self {
        MtlCfg { w: [4, 5, 4, 1, 1, 1, 6, 0], odd: false, rich: false, max: 16, bulk: 0 }
    }
}
pub const TYPES: [&str; 9] = [
    "sphere", "cube_top", "cube_bottom", "cube_front", "cube_back", "cube_left", "cube_right", "Sphere", "other-type",
];
pub const CHANS: [&str; 8] = ["r", "g", "b", "m", "l", "z", "R", "alpha"];

fn t3(rich: bool) -> BoxedStrategy<T3> {
    (nums(rich), proptest::option::of(nums(rich)), proptest::option::of(nums(rich)))
        .prop_map(|(a, b, c)| {
            let c = if b.is_some() { c } else { None };
            (a, b, c)
        })
        .boxed()
}
pub fn raw_mtl(c: MtlCfg) -> BoxedStrategy<RawMtl> {
    let n = move || nums(c.rich);
    let on = move || proptest::option::of(nums(c.rich));
    let col = prop_oneof![
        2 => (n(), n(), n()).prop_map(|(a, b, c)| RCol::Rgb(a, b, c)),
        1 => (0u16..64, on()).prop_map(|(a, b)| RCol::Spec(a, b)),
        1 => (n(), on(), on()).prop_map(|(a, b, c)| { let c = if b.is_some() { c } else { None }; RCol::Xyz(a, b, c) }),
    ];
    let ma = prop_oneof![
        any::<bool>().prop_map(RMA::BlendU),
        any::<bool>().prop_map(RMA::BlendV),
        any::<bool>().prop_map(RMA::Cc),
        any::<bool>().prop_map(RMA::Clamp),
        (n(), n()).prop_map(|(a, b)| RMA::Mm(a, b)),
        t3(c.rich).prop_map(RMA::O),
        t3(c.rich).prop_map(RMA::S),
        t3(c.rich).prop_map(RMA::T),
        (prop_oneof![0i64..5000, select(BIG_INTS.to_vec()), dict_int()], any::<u8>()).prop_map(|(a, b)| RMA::Texres(a, b)),
        (0u8..8).prop_map(RMA::Imf),
        n().prop_map(RMA::Bm),
        (0u8..9).prop_map(RMA::Type),
    ];
    let w = c.w;
    let st: BoxedStrategy<RM> = weighted(vec![
        (w[0], (0u16..64).prop_map(RM::New).boxed()),
        (w[1], (0usize..5, col).prop_map(|(k, c)| RM::Col(k, c)).boxed()),
        (w[2], (0usize..4, n()).prop_map(|(k, x)| RM::Sca(k, x)).boxed()),
        (w[3], (any::<bool>(), n()).prop_map(|(h, x)| RM::D(h, x)).boxed()),
        (w[4], (prop_oneof![4 => 0i64..11, 1 => select(BIG_INTS.to_vec()), 1 => dict_int()], any::<u8>()).prop_map(|(a, b)| RM::Illum(a, b)).boxed()),
        (w[5], any::<bool>().prop_map(RM::Aat).boxed()),
        (w[6], (0usize..9, any::<bool>(), prop_oneof![3 => vec(ma.clone(), 0..4), 1 => vec(ma, 4..16)], 0u16..64, any::<u8>())
            .prop_map(|(k, a, o, f, p)| RM::Map(k, a, o, f, p)).boxed()),
        (w[7], (0u8..5, bulk_n(c.bulk)).prop_map(|(k, n)| RM::Bulk(k, n)).boxed()),
    ]);
    let m = c.max;
    (
        pool(line_name(c.odd), 6),
        pool(file_word(c.odd), 6),
        0u16..64,
        prop_oneof![
            3 => vec(st.clone(), 0..5usize.min(m + 1)),
            5 => vec(st.clone(), 0..(m + 1)),
            1 => vec(st, m..(m * 4 + 1)),
        ],
    )
        .prop_map(|(names, files, first, sts)| RawMtl { names, files, first, sts })
        .boxed()
}
pub fn build_mtl(raw: &RawMtl) -> Vec<M> {
    let nm = |i: u16| raw.names[i as usize % raw.names.len()].clone();
    let fl = |i: u16| {
        let f = &raw.files[i as usize % raw.files.len()];
        if is_file_word(f) {
            f.clone()
        } else {
            "derived.png".into()
        }
    };
    let mut out = vec![M::New(nm(raw.first))];
    let mut cost = 0;
    for s in &raw.sts {
        match s {
            RM::New(i) => out.push(M::New(nm(*i))),
            RM::Col(k, RCol::Rgb(a, b, c)) => out.push(M::Col(*k, Col::Rgb(a.clone(), b.clone(), c.clone()))),
            RM::Col(k, RCol::Spec(a, b)) => out.push(M::Col(*k, Col::Spec(fl(*a), b.clone()))),
            RM::Col(k, RCol::Xyz(a, b, c)) => out.push(M::Col(*k, Col::Xyz(a.clone(), b.clone(), c.clone()))),
            RM::Sca(k, x) => out.push(M::Sca(*k, x.clone())),
            RM::D(h, x) => out.push(M::D(*h, x.clone())),
            RM::Illum(v, st) => out.push(M::Illum(int_style(*v, *st))),
            RM::Aat(b) => out.push(M::Aat(*b)),
            RM::Map(k, alias, os, f, pos) => {
                let mut args: Vec<MA> = Vec::new();
                for o in os {
                    let a = match o {
                        RMA::BlendU(b) => MA::BlendU(*b),
                        RMA::BlendV(b) => MA::BlendV(*b),
                        RMA::Cc(b) => MA::Cc(*b),
                        RMA::Clamp(b) => MA::Clamp(*b),
                        RMA::Mm(a, b) => MA::Mm(a.clone(), b.clone()),
                        RMA::O(t) => MA::O(t.clone()),
                        RMA::S(t) => MA::S(t.clone()),
                        RMA::T(t) => MA::T(t.clone()),
                        RMA::Texres(v, s) => MA::Texres(int_style(*v, *s)),
                        RMA::Imf(i) => MA::Imf(CHANS[*i as usize % CHANS.len()].into()),
                        RMA::Bm(x) => MA::Bm(x.clone()),
                        RMA::Type(i) => MA::Type(TYPES[*i as usize % TYPES.len()].into()),
                    };
                    let i = ma_index(&a);
                    if map_has(*k, i) && args.iter().all(|x| ma_index(x) != i) {
                        args.push(a);
                    }
                }
                // mostly last, as in the specification
                let p = if *pos < 128 { args.len() } else { *pos as usize % (args.len() + 1) };
                args.insert(p, MA::File(fl(*f)));
                out.push(M::Map(*k, *alias, args));
            }
            RM::Bulk(k, n) => {
                if cost + *n > 20_000 {
                    continue;
                }
                cost += *n;
                for i in 1..=*n as i64 {
                    match k % 5 {
                        0 => out.push(M::New(format!("m{i}"))),
                        1 => {
                            out.push(M::New(format!("m {i}")));
                            out.push(M::Col((i % 5) as usize, Col::Rgb(Num::of(i), Num::of(i + 1), Num::of(i + 2))));
                            out.push(M::Sca((i % 4) as usize, Num::of(i)));
                        }
                        2 => out.push(M::Map((i % 9) as usize, false, vec![MA::File(format!("t{i}.png"))])),
                        3 => {
                            out.push(M::New(format!("{i}")));
                            out.push(M::Map(1, false, vec![MA::Texres(Int::of(i)), MA::File(format!("{i}.png"))]));
                        }
                        _ => out.push(M::Sca((i % 4) as usize, Num::of(i))),
                    }
                }
            }
        }
    }
    out
}

pub fn style() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(Vec::new()),
        4 => vec(any::<u8>(), 0..400),
        1 => (0u8..32, 0u8..32).prop_map(|(m, f)| { let mut v = vec![f; 200]; v[0] = m; v }),
    ]
    .boxed()
}

// ---------------------------------------------------------------- raw texts

pub const PIECES: [&str; 120] = [
    "v", "vn", "vt", "vp", "f", "l", "p", "o", "g", "s", "mtllib", "usemtl", "bevel", "c_interp", "d_interp",
    "lod", "shadow_obj", "trace_obj", "maplib", "usemap", "newmtl", "Ka", "Kd", "Ks", "Ke", "Tf", "Ns", "Tr",
    "Ni", "d", "illum", "sharpness", "map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "map_aat", "disp",
    "map_disp", "decal", "bump", "refl", "-blendu", "-blendv", "-cc", "-clamp", "-mm", "-o", "-s", "-t",
    "-texres", "-imfchan", "-bm", "-type", "-boost", "-halo", "spectral", "xyz", "on", "off", "1", "-1", "0",
    "1.5", "-.5", "5.", "1e5", "1e", ".", "-", "+", "e", "1.2.3", "--1", "1/2/3", "1//2", "1/2", "1/", "1//",
    "/", "//", "///", "1///2", "#", "# c", "\\", "\\\n", "\n", "\n", "\r\n", "\r", "\t", " ", "  ", "\u{212A}d",
    "\u{212A}a", "\u{17F}", "ſpectral", "newmt\u{2113}", "İllum", "map_\u{212A}d", "\u{a0}", "\u{feff}", "\0", "\u{b}", "\u{c}", "é", "日", "\u{1F600}",
    "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "a", "b.png", "\"", "16777217",
    "nan",
];

pub fn soup() -> BoxedStrategy<String> {
    (vec((select(PIECES.to_vec()), 0u8..8), 0..40))
        .prop_map(|v| {
            let mut s = String::new();
            for (p, sep) in v {
                s.push_str(p);
                match sep {
                    0..=4 => s.push(' '),
                    5 | 6 => s.push('\n'),
                    _ => {}
                }
            }
            s
        })
        .boxed()
}
pub fn runs() -> BoxedStrategy<String> {
    (
        vec((select(PIECES.to_vec()), 0u8..3, prop_oneof![6 => 1usize..4, 2 => 4usize..200, 1 => 200usize..5000]), 1..6),
        prop_oneof![9 => Just(1usize), 1 => 1usize..8],
    )
        .prop_map(|(v, rep)| {
            let mut s = String::new();
            for (p, sep, n) in v {
                for _ in 0..n {
                    s.push_str(p);
                    match sep {
                        0 => s.push(' '),
                        1 => {}
                        _ => s.push('\n'),
                    }
                }
            }
            let mut out = s.repeat(rep);
            if out.len() > 200_000 {
                let mut i = 200_000;
                while !out.is_char_boundary(i) {
                    i -= 1;
                }
                out.truncate(i);
            }
            out
        })
        .boxed()
}
pub fn any_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => vec(any::<char>(), 0..60).prop_map(|v| v.into_iter().collect()),
        1 => "\\PC{0,60}",
        1 => "[ -~\\n\\r\\t]{0,120}",
    ]
    .boxed()
}

#[derive(Clone, Debug)]
pub struct Edit {
    pub kind: u8,
    pub pos: u32,
    pub len: u8,
    pub piece: &'static str,
    pub ch: char,
}
pub fn edits(max: usize) -> BoxedStrategy<Vec<Edit>> {
    vec(
        (0u8..12, any::<u32>(), any::<u8>(), select(PIECES.to_vec()), prop_oneof![2 => select(vec!['/', '.', '-', '#', ' ', '\n', '0', 'e', 'K', '\u{212A}', '\\', '\t', ',']), 1 => any::<char>()])
            .prop_map(|(kind, pos, len, piece, ch)| Edit { kind, pos, len, piece, ch }),
        1..max,
    )
    .boxed()
}
/// Character-level and line-level damage.
pub fn apply(text: &str, es: &[Edit]) -> String {
    let mut s: Vec<char> = text.chars().collect();
    for e in es {
        let n = s.len().max(1);
        let p = (e.pos as usize % n).min(s.len());
        let q = (p + e.len as usize % 12 + 1).min(s.len());
        match e.kind {
            0 => {
                s.truncate(p);
            }
            1 => {
                if p < s.len() {
                    s.remove(p);
                }
            }
            2 => s.insert(p, e.ch),
            3 => {
                if p < s.len() {
                    s[p] = e.ch;
                }
            }
            4 => {
                let dup: Vec<char> = s[p..q].to_vec();
                for (i, c) in dup.into_iter().enumerate() {
                    s.insert(p + i, c);
                }
            }
            5 => {
                s.drain(p..q);
            }
            6 | 7 => {
                // insert a piece as its own word, at the next blank
                let at = s[p..].iter().position(|c| c.is_whitespace()).map(|i| p + i).unwrap_or(s.len());
                let ins: Vec<char> = format!(" {}", e.piece).chars().collect();
                for (i, c) in ins.into_iter().enumerate() {
                    s.insert(at + i, c);
                }
            }
            8 => {
                // replace the word at p
                let (a, b) = word_at(&s, p);
                s.splice(a..b, e.piece.chars());
            }
            9 => {
                // drop the word at p
                let (a, b) = word_at(&s, p);
                s.drain(a..b);
            }
            10 => {
                // join two lines
                if let Some(i) = s[p..].iter().position(|c| *c == '\n') {
                    s[p + i] = ' ';
                }
            }
            _ => {
                // break a line at a blank
                if let Some(i) = s[p..].iter().position(|c| *c == ' ') {
                    s[p + i] = '\n';
                }
            }
        }
    }
    s.into_iter().collect()
}
fn word_at(s: &[char], p: usize) -> (usize, usize) {
    let mut a = p.min(s.len());
    while a > 0 && !s[a - 1].is_whitespace() {
        a -= 1;
    }
    let mut b = p.min(s.len());
    while b < s.len() && !s[b].is_whitespace() {
        b += 1;
    }
    (a, b)
}
