//! More small inputs, all of them: every number of a grid in every argument
//! position, every size up to a bound, every character in every place of a
//! name, every casing of a keyword, every pair of values and settings.
use crate::ast::*;
use crate::ob::{self, Ob};
use crate::props::{Case, BAD_MTL, BAD_OBJ};
use crate::refparse::Fmt;
use Fmt::{Mtl, Obj};

type Cases = Box<dyn Iterator<Item = Case>>;

fn one(fmt: Fmt, text: String, view: u32, tag: &'static str) -> Case {
    Case { nontrivial: text.len() > 3, obs: vec![Ob::Judge { fmt, text, view }], tag }
}
fn same(fmt: Fmt, a: String, b: String, tag: &'static str) -> Case {
    Case { nontrivial: a != b, obs: vec![Ob::Same { fmt, a, b, view: ob::ALL }], tag }
}
const FULL: u32 = ob::ALL | ob::OK | ob::ERR;

/// Whole numbers: all small ones, those around powers of two and ten, those of
/// the sources.
fn ints(small: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (0..=small).collect();
    for k in 0..32 {
        v.extend([(1i64 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for k in 0..10 {
        let t = 10i64.pow(k);
        v.extend([t - 1, t, t + 1, 5 * t]);
    }
    v.extend(&crate::dict::get().ints);
    v.retain(|x| *x <= i32::MAX as i64);
    v.sort();
    v.dedup();
    v
}
fn numbers() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for i in ints(130) {
        for s in ["", "-", "+"] {
            v.push(format!("{s}{i}"));
        }
        v.push(format!("{i}.0"));
        v.push(format!("-{i}.5"));
    }
    for i in 0..=100 {
        v.push(format!("{}.{:02}", i / 100, i % 100));
        v.push(format!("-.{i:02}"));
    }
    for e in 0..=46 {
        v.push(format!("1e{e}"));
        v.push(format!("-2.5E-{e}"));
        v.push(format!(".7e+{e}"));
    }
    v.extend(["2147483648", "-2147483648", "-2147483649", "4294967296", "1e39", "-3.4028236e38", "1.17549435e-38", "007", "-0", "0.0", "-0.0", "+.5", "5.", "-5.", "33.333333", "66.6667"].map(String::from));
    v.extend(crate::dict::get().floats.iter().cloned());
    v
}
/// `X` stands for the number.
fn templates() -> Vec<(Fmt, String)> {
    let mut t: Vec<(Fmt, String)> = ["v X 1 2", "v 1 X 2", "v 1 2 X", "v 1 2 3 X", "v X 1 2 3", "v X X X", "vn X 1 2", "vn 1 X 2", "vn 1 2 X", "vt X", "vt X 1", "vt 1 X", "vt X 1 2", "vt 1 X 2", "vt 1 2 X", "vp X", "vp 1 X", "vp 1 2 X",
        "lod X", "s X\nf 1 2 3", "p X", "p 1 X 2", "f X 1 2", "f 1 2 X", "f 1/X 2 3", "f 1//X 2 3", "f 1/2/X 2 3", "f X/X/X 2 3", "l X 1", "l 1 X", "l 1/X 2", "l 1 2/X"]
        .iter().map(|s| (Obj, format!("{s}\n"))).collect();
    let mut m: Vec<String> = Vec::new();
    for k in ["Ka", "Kd", "Ks", "Ke", "Tf"] {
        for a in ["X 1 2", "1 X 2", "1 2 X", "xyz X", "xyz X 1", "xyz 1 X", "xyz 1 2 X", "spectral f.rfl X"] {
            m.push(format!("{k} {a}"));
        }
    }
    for k in ["Ns", "d", "d -halo", "Tr", "sharpness", "Ni", "illum"] {
        m.push(format!("{k} X"));
    }
    for k in MAP_KINDS {
        let mut o = vec!["-mm X 1", "-mm 1 X", "-mm X X", "-texres X"];
        for x in ["o", "s", "t"] {
            o.extend(match x {
                "o" => ["-o X", "-o 1 X", "-o 1 2 X"],
                "s" => ["-s X", "-s 1 X", "-s 1 2 X"],
                _ => ["-t X", "-t 1 X", "-t 1 2 X"],
            });
        }
        if k == "bump" {
            o.push("-bm X");
        }
        for o in o {
            m.push(format!("{k} {o} f.png"));
            m.push(format!("{k} f.png {o}"));
        }
    }
    t.extend(m.into_iter().map(|s| (Mtl, format!("newmtl a\n{s}\n"))));
    t
}
const MAP_KINDS: [&str; 10] = ["map_Ka", "map_Kd", "map_Ks", "map_Ns", "map_d", "disp", "map_disp", "decal", "bump", "refl"];

/// All ways to choose one of `n` things `k` times.
fn power(n: usize, k: u32) -> impl Iterator<Item = Vec<usize>> {
    (0..n.pow(k)).map(move |mut x| {
        (0..k)
            .map(|_| {
                let d = x % n;
                x /= n;
                d
            })
            .collect()
    })
}
fn pick(p: &[&str], ix: &[usize], sep: &str) -> String {
    ix.iter().map(|i| p[*i]).collect::<Vec<_>>().join(sep)
}
fn pick_s(p: &[String], ix: &[usize], sep: &str) -> String {
    ix.iter().map(|i| p[*i].as_str()).collect::<Vec<_>>().join(sep)
}
fn list(n: i64, f: impl Fn(i64) -> String) -> String {
    (1..=n).map(f).collect::<Vec<_>>().join(" ")
}
fn lines(n: i64, f: impl Fn(i64) -> String) -> String {
    (1..=n).map(|i| f(i) + "\n").collect()
}
/// Sizes: all small ones, then around powers of two and the numbers of the
/// sources.
fn sizes(small: i64, max: i64) -> Vec<i64> {
    let mut v: Vec<i64> = (1..=small).collect();
    v.extend(ints(0).into_iter().filter(|x| (1..=max).contains(x)));
    if small >= 300 {
        v.extend([65_535, 65_536, 65_537, 70_000]);
    }
    v.sort();
    v.dedup();
    v
}

/// Characters: the whole of the first blocks, samples of the rest.
fn chars(t: bool) -> Vec<char> {
    let hi = if t { 0xffff } else { 0x30ff };
    (0..=hi)
        .chain((0..0x110000).step_by(if t { 37 } else { 611 }))
        .chain([0xfeff, 0xfffd, 0xff0f, 0xff03, 0x1f600, 0x10ffff, 0xfb00, 0xff4f])
        .filter_map(char::from_u32)
        .filter(|c| !matches!(c, '\n' | '\r'))
        .collect()
}
const OBJ_NAMES: [&str; 7] = ["usemtl X", "g X\nf 1 2 3", "g y X\np 1", "usemap X", "mtllib X\nmaplib y X", "shadow_obj X\ntrace_obj X", "o X\nf 1 2 3"];
const MTL_NAMES: [&str; 7] = ["newmtl X", "newmtl a\nmap_Kd X", "newmtl a\nmap_Ns -clamp on X", "newmtl a\nKd spectral X 2", "newmtl a\nbump -imfchan X f.png", "newmtl a\nrefl -type X f.png", "newmtl a\ndisp X -s 1"];
fn named(x: &str) -> Vec<Case> {
    OBJ_NAMES
        .iter()
        .map(|t| one(Obj, t.replace('X', x) + "\nv 1 2 3", FULL & !ob::ERR, "every character of a name"))
        .chain(MTL_NAMES.iter().map(|t| one(Mtl, t.replace('X', x) + "\nNs 1", FULL & !ob::ERR, "every character of a name")))
        .collect()
}

const OBJ_KW: [(&str, &str); 22] = [
    ("v", "v 1 2 3"), ("vn", "vn 1 2 3"), ("vt", "vt 1"), ("vp", "vp 1"), ("f", "f 1 2 3"), ("l", "l 1 2"), ("p", "p 1"), ("g", "g a\nf 1 2 3"), ("s", "s 1\nf 1 2 3"), ("o", "o a"),
    ("usemtl", "usemtl a"), ("mtllib", "mtllib a"), ("usemap", "usemap a"), ("maplib", "maplib a"), ("bevel", "bevel on"), ("lod", "lod 5"), ("c_interp", "c_interp on"), ("d_interp", "d_interp on"),
    ("shadow_obj", "shadow_obj a"), ("trace_obj", "trace_obj a"), ("off", "bevel on\nbevel off"), ("off", "usemap a\nusemap off"),
];
const MTL_KW: [(&str, &str); 41] = [
    ("newmtl", "newmtl a"), ("ka", "Ka 1 2 3"), ("kd", "Kd 1 2 3"), ("ks", "Ks 1 2 3"), ("ke", "Ke 1 2 3"), ("tf", "Tf 1 2 3"), ("ns", "Ns 1"), ("d", "d 1"), ("tr", "Tr 1"), ("ni", "Ni 1"),
    ("sharpness", "sharpness 1"), ("illum", "illum 1"), ("map_aat", "map_aat on"), ("map_ka", "map_Ka x"), ("map_kd", "map_Kd x"), ("map_ks", "map_Ks x"), ("map_ns", "map_Ns x"), ("map_d", "map_d x"),
    ("disp", "disp x"), ("map_disp", "map_disp x"), ("decal", "decal x"), ("bump", "bump x"), ("refl", "refl x"), ("-halo", "d -halo 1"), ("spectral", "Kd spectral x 2"), ("xyz", "Kd xyz 1 2 3"),
    ("-blendu", "map_Ka -blendu on x"), ("-blendv", "map_Ka -blendv on x"), ("-cc", "map_Ka -cc on x"), ("-clamp", "map_Ka -clamp on x"), ("-mm", "map_Ka -mm 1 2 x"), ("-o", "map_Ka -o 1 2 3 x"),
    ("-s", "map_Ka -s 1 2 3 x"), ("-t", "map_Ka -t 1 2 3 x"), ("-texres", "map_Ka -texres 4 x"), ("-imfchan", "map_d -imfchan r x"), ("-bm", "bump -bm 2 x"), ("-type", "refl -type sphere x"),
    ("off", "map_aat off"), ("on", "map_Ka -cc on x"), ("off", "map_d -clamp off x"),
];
/// Every casing of every keyword, option and switch.
fn casings(fmt: Fmt, kws: &'static [(&'static str, &'static str)], head: &'static str) -> impl Iterator<Item = Case> {
    kws.iter().flat_map(move |(kw, st)| {
        let at = st.to_ascii_lowercase().rfind(kw).expect("HARNESS: keyword");
        let at = if st.to_ascii_lowercase().starts_with(kw) { 0 } else { at };
        (0..1usize << kw.len()).map(move |mask| {
            let other = format!("{}{}{}", &st[..at], case_by(kw, mask), &st[at + kw.len()..]);
            same(fmt, format!("{head}{st}\n"), format!("{head}{other}\n"), "every casing of a keyword")
        })
    })
}

/// Every blank run and every comment character at every gap of a statement.
fn layouts(fmt: Fmt, sts: &'static [&'static str], head: &'static str, t: bool) -> impl Iterator<Item = Case> {
    let cs = chars(t);
    sts.iter().flat_map(move |st| {
        let mut v = Vec::new();
        let plain = format!("{head}{st}\n{head}");
        let mut put = |text: String, tag| v.push(same(fmt, plain.clone(), text, tag));
        let words: Vec<&str> = st.split(' ').collect();
        for n in sizes(70, if t { 70_000 } else { 5_000 }) {
            let n = n as usize;
            for b in [" ", "\t"] {
                let run = b.repeat(n);
                put(format!("{head}{}\n{head}", words.join(&run)), "every run of blanks");
                put(format!("{head}{run}{st}{run}\n{head}"), "every run of blanks");
            }
            put(format!("{head}{}{st}{}{head}", "\n".repeat(n), "\r\n".repeat(n)), "every run of lines");
            put(format!("{head}{}{st}\n{head}", "# comment\n".repeat(n.min(2000))), "every run of lines");
            put(format!("{head}{st} #{}\n{head}", "c".repeat(n)), "every length of a comment");
        }
        for c in &cs {
            put(format!("{head}#{c}{st}\n{st} #x{c} {st}\n# {c}\n{head}"), "every character of a comment");
            put(format!("{head}{st}\t#{c}\n#{c}\n{head}#{st}{c}"), "every character of a comment");
        }
        v
    })
}

/// Every two statements after one another, laid out in odd ways.
fn laid_out_pairs(fmt: Fmt, sts: &'static [&'static str], head: &'static str) -> impl Iterator<Item = Case> {
    fn loud(st: &str) -> String {
        let k = st.find(' ').unwrap_or(st.len());
        format!("{}{}", st[..k].to_uppercase(), &st[k..])
    }
    let pairs = power(sts.len(), 2).flat_map(move |w| {
        let (a, b) = (sts[w[0]], sts[w[1]]);
        let plain = format!("{head}{a}\n{b}\n");
        [
            format!("{head}{a} # c:\\\n{b}"),
            format!("{head}{a} #\\\r\n{b} #\\"),
            format!("{head}{a}\n# x \\\n{b}\n#\\\n"),
            format!("{head}#\\\n{a}\t#x \\ \n{b}\t#\n"),
            format!("{head}{a}\r{b}\r"),
            format!("{head}{a}\r\n \t\r\n{b}\r\n"),
            format!("\n\n{head}{a}\n\n\n{b}\n\n\n"),
            format!("{head}  {a}  \n\t{b}\t"),
            format!("{head}{a}\n#{b}\n{b}\n#{a}"),
            format!("{head}{a} #{b}\n{b} #{a}\n"),
            format!("{head}# {a}\n{a} # {b}\n# {b}\n{b} # {a}"),
            format!("{head}#{b}\n#{a}\n{a}\n{b}"),
            format!("{head}{a} # \"\n{b} # \"\n"),
            format!("{head}{a} # '\n{b} # '\n"),
            format!("{head}{a} # /*\n{b} # */\n"),
            format!("{head}{a} ## {{\n{b} #}} #\n"),
            format!("{head}{}\n{b}\n", loud(a)),
            format!("{head}{a}\n{}\n", loud(b)),
            format!("{head}{}  #{}\n  {}", loud(a), loud(a), loud(b)),
        ]
        .map(|x| same(fmt, plain.clone(), x, "every two statements laid out"))
    });
    let words = sts.iter().flat_map(move |st| {
        crate::dict::get().words.iter().filter(|w| !w.contains(['\n', '\r'])).flat_map(move |w| {
            let plain = format!("{head}{st}\n{head}{st}\n");
            [format!("{head}{st} #{w}\n{head}#{w}\n{st}\n"), format!("{head}{st} # {w} x\n{head}{st} # x {w}\n# {w}\n")].map(|x| same(fmt, plain.clone(), x, "every known word in a comment"))
        })
    });
    pairs.chain(words)
}

/// Statements in full, for edits.
const OBJ_FULL: [&str; 36] = [
    "v 1 2 3", "v 1 2 3 4", "vn 1 2 3", "vt 1", "vt 1 2", "vt 1 2 3", "vp 1", "vp 1 2", "vp 1 2 3", "f 1 2 3", "f 1/2 2/3 3/4", "f 1/2/3 4/5/6 7/8/9", "f 1//2 3//4 5//6", "f -1 -1 -1", "l 1 2", "l 1/2 3/4", "p 1", "p 1 2", "g a", "g a b",
    "s 1", "s off", "usemtl m", "usemap t", "usemap off", "bevel on", "c_interp off", "d_interp on", "lod 5", "mtllib a", "mtllib a b", "maplib c", "shadow_obj s", "trace_obj t", "o x", "o x y",
];
const MTL_FULL: [&str; 42] = [
    "newmtl a", "newmtl a b", "Ka 1 2 3", "Kd 1 2 3", "Ks 1 2 3", "Ke 1 2 3", "Tf 1 2 3", "Ka spectral f", "Kd spectral f 2", "Ks xyz 1", "Ke xyz 1 2", "Tf xyz 1 2 3", "Ns 1", "d 1", "d -halo 1", "Tr 1", "sharpness 1", "Ni 1", "illum 1", "map_aat on",
    "map_Ka f.png", "map_Kd -blendu on f.png", "map_Ks -blendv off f.png", "map_Ka -cc on f.png", "map_Kd f.png -clamp on", "map_Ns -mm 1 2 f.png", "map_d -o 1 f.png", "disp -o 1 2 f.png", "decal -o 1 2 3 f.png", "bump -s 1 f.png", "refl -s 1 2 f.png",
    "map_disp -s 1 2 3 f.png", "map_Ka -t 1 f.png", "map_Ka -t 1 2 f.png", "map_Ka -t 1 2 3 f.png", "map_Kd -texres 4 f.png", "map_d -imfchan r f.png", "bump -bm 2 f.png", "refl -type sphere f.png", "bump f.png -bm 2 -imfchan g", "map_Ka -s 1 -o 2 -t 3 f.png", "map_Kd f.png",
];
const ODD: [&str; 24] = ["1", "-1", "0", "1.5", "x", "on", "off", "1/2", "1//2", "/", "//", "-s", "-halo", "-clamp on", "xyz", "spectral", "-", ".", "e", "\\", "\"", ",", ";", "99999999999"];
const ODD_NUMBERS: [&str; 60] = [
    "1,2", "1,", "0x10", "0b1", "0o7", "1_000", "NaN", "nan", "-nan", "inf", "-inf", "infinity", "Infinity", "1f", "1.0f", "1f32", "1.f", "1d", "1L", "1u", "1%", "½", "²", "١", "１", "Ⅷ", "一", "1e", "1e+", "1e-", "1.e", "e1", ".e1", "E", "+-1", "-+1", "--1", "++1", "1-", "1+", "1-2", "1+2", "1.2.3",
    "1..2", ".", "..", "+", "-", "+.", "-.", "-.e5", "1e5.5", "1e1e1", "1e 5", "(1)", "[1]", "'1'", "\"1\"", "1:2", "1;2",
];
const PATHS: [&str; 44] = [
    "cube.mtl", "./cube.mtl", "@DIR@/cube.mtl", "../cube.mtl", "/etc/passwd", "missing.mtl", "missing", "a.png", "./a.png", "@DIR@/a.png", "@DIR@", "@DIR@/", ".", "..", "/", "//", "http://localhost/a.mtl", "https://127.0.0.1/a.png", "ftp://localhost/a", "127.0.0.1:80", "localhost", "$HOME/x.mtl", "${HOME}", "~/x.mtl", "~",
    "file:///etc/passwd", "file://localhost/etc/passwd", "/dev/null", "/dev/stdin", "/proc/self/maps", "/proc/self/environ", "a b.png", "C:\\a.mtl", "\\\\host\\a", "a.png;ls", "`ls`", "$(ls)", "|ls", "!ls", "a.jpg", "a.tga", "a.rfl", "a.obj", "a.mod",
];

pub fn cases(id: &str, t: bool) -> Cases {
    let tt = t as usize;
    match id {
        "C01" => {
            let total = |text: String| Case { nontrivial: true, obs: vec![Ob::Total { text }], tag: "every character" };
            let shapes = ["X", "v X", "v 1X 2 3", "Xv 1 2 3", "f 1/X", "usemtl X", "g aX", "g X b", "s X", "bevel oX", "newmtl X", "newmtl a\nmap_Kd X", "newmtl a\nXd 1", "newmtl a\nKd 1 2 3X", "newmtl a\nmap_X x", "newmtl a\nmap_Kd -X x", "newmtl a\nd -halX 1", "#X", "v 1 2 3 #X", "lX", "shadow_obX a", "usemaX a", "cX_interp on"];
            let all = chars(t).into_iter().flat_map(move |c| shapes.map(|s| total(s.replace('X', &c.to_string()))));
            // long runs of everything
            const PLACES: [(&str, &str); 14] = [
                ("", ""), ("\n", "\n"), ("g a", "b\n"), ("usemtl a", "b\n"), ("mtllib a ", "b\n"), ("v 1 2 3", "\n"), ("v 1 2 ", "\n"), ("v 1 2 3 #", "\n"), ("f 1 2", "\n"), ("#", "\nv 1 2 3\n"),
                ("newmtl a", "\nNs 1\n"), ("newmtl a\nNs 1", "\n"), ("newmtl a\nmap_Kd a", "\n"), ("newmtl a\nKd 1 1 ", "\n"),
            ];
            let mut units: Vec<String> = Vec::new();
            for c in (0..128u8).map(char::from).chain(['\u{85}', '\u{a0}', '\u{212A}', 'é', '\u{feff}', '\u{1F600}']) {
                units.push(c.to_string());
                for x in [" ", "\n"] {
                    units.push(format!("{x}{c}"));
                    units.push(format!("{c}{x}"));
                }
            }
            let n = if t { 400_000 } else { 50_000 };
            let runs = PLACES.into_iter().flat_map(move |(h, e)| units.clone().into_iter().map(move |unit| (h.to_string(), unit, e.to_string(), n)));
            let more = crate::props::families().into_iter().map(move |(_, h, u, e)| (h, u.clone(), e, 10 * n / u.len().max(1)));
            let runs = runs.chain(more).map(|(head, unit, tail, n)| Case { nontrivial: true, obs: vec![Ob::Deep { head, unit, tail, n }], tag: "every long run" });
            Box::new(all.chain(runs))
        }
        "C02" => {
            let view = ob::ALL | ob::ERR;
            let head = |f: Fmt| if f == Obj { "v 9 9 9\n" } else { "newmtl q\nNs 1\n" };
            let put = move |f: Fmt, l: String, tag| {
                let h = head(f);
                [one(f, format!("{h}{l}\n{h}"), view, tag), one(f, format!("{h}{l}"), view, tag)]
            };
            let sts: Vec<(Fmt, String)> = OBJ_FULL.iter().map(|s| (Obj, s.to_string())).chain(MTL_FULL.iter().map(|s| (Mtl, s.to_string()))).collect();
            let all = sts.clone();
            let edits = sts.clone().into_iter().flat_map(move |(f, s)| {
                let w: Vec<&str> = s.split(' ').collect();
                let mut v: Vec<String> = Vec::new();
                for i in 0..=w.len() {
                    let (a, b) = (w[..i].join(" "), w[i..].join(" "));
                    v.push(a.clone());
                    v.push(b.clone());
                    v.push(format!("{a}\n{b}"));
                    v.push(format!("{a}{b}"));
                    v.push(format!("{a} # {b}"));
                    for x in ODD.iter().map(|x| x.to_string()).chain(w.iter().map(|x| x.to_string())) {
                        v.push(format!("{a} {x} {b}"));
                        v.push(format!("{a}{x} {b}"));
                        v.push(format!("{a} {x}{b}"));
                        if i < w.len() {
                            v.push(format!("{a} {x} {}", w[i + 1..].join(" ")));
                        }
                    }
                    for j in 0..w.len() {
                        let mut u = w.clone();
                        if i < u.len() {
                            u.swap(i, j);
                            v.push(u.join(" "));
                            u[i] = w[j];
                            v.push(u.join(" "));
                        }
                    }
                    if i < w.len() {
                        v.push([&w[..i], &w[i + 1..]].concat().join(" "));
                        for n in [2, 3, 7, 8, 9, 16, 64, 257] {
                            v.push(format!("{a} {} {}", vec![w[i]; n].join(" "), w[i + 1..].join(" ")));
                        }
                    }
                }
                v.into_iter().flat_map(move |l| put(f, l.trim_start().to_string(), "every edit of a statement")).collect::<Vec<_>>()
            });
            let joined = power(all.len(), 2).filter_map(move |w| {
                let ((f, a), (g, b)) = (&all[w[0]], &all[w[1]]);
                (f == g).then(|| put(*f, format!("{a} {b}"), "every two statements on a line"))
            }).flatten();
            let n = crate::dict::get();
            let odd: Vec<String> = ODD_NUMBERS.iter().map(|s| s.to_string()).chain(n.words.iter().filter(|w| !w.contains(['#', ' ', '\n', '\r', '\t'])).cloned()).collect();
            let numbers = templates().into_iter().flat_map(move |(f, s)| odd.iter().map(|x| one(f, s.replace('X', x), view, "every odd word in every position")).collect::<Vec<_>>());
            let glued = chars(t).into_iter().filter(|c| !matches!(c, ' ' | '\t')).flat_map(move |c| {
                [(Obj, "v 1X 2 3"), (Obj, "v 1 X2 3"), (Obj, "v 1 2 3X"), (Obj, "f 1X 2 3"), (Obj, "f 1/X2 3"), (Obj, "p 1 X"), (Obj, "s X1"), (Obj, "lod 1X"), (Obj, "X"), (Obj, "Xv 1 2 3"), (Obj, "vX 1 2 3"), (Obj, "v 1X2 3 4"), (Obj, "vt 1.X5"), (Obj, "vt 1eX5"), (Obj, "vt 1e5X"),
                 (Mtl, "Ns 1X"), (Mtl, "Kd 1 X2 3"), (Mtl, "XKd 1 2 3"), (Mtl, "KdX 1 2 3"), (Mtl, "illum X1"), (Mtl, "illum 1X"), (Mtl, "d -haloX 1"), (Mtl, "d X"), (Mtl, "map_Kd -s 1X f.png"), (Mtl, "map_Kd -mm 1 2X f.png"), (Mtl, "bump -bm X f.png"), (Mtl, "Ks xyzX 1"), (Mtl, "X")]
                    .into_iter()
                    .flat_map(|(f, x)| put(f, x.replace('X', &c.to_string()), "every character in a word"))
                    .collect::<Vec<_>>()
            });
            // one bad line among many good ones
            let far = sizes(40, if t { 70_000 } else { 5_000 }).into_iter().flat_map(move |n| {
                let n = n as usize;
                [(Obj, "v 1 2 3", "v 1 2"), (Obj, "f 1 2 3", "f 1 2 x"), (Obj, "g a", "s 1.5"), (Obj, "# c", "lod 101"), (Mtl, "Ns 1", "Ns"), (Mtl, "newmtl a", "Kd 1"), (Mtl, "map_Kd a.png", "illum 1.5"), (Mtl, "# c", "Kd 1 2 3 4")]
                    .into_iter()
                    .flat_map(|(f, g, b)| {
                        let (h, many) = (head(f), format!("{g}\n").repeat(n));
                        [one(f, format!("{h}{many}{b}\n"), view, "a bad line after many"), one(f, format!("{h}{b}\n{many}"), view, "a bad line before many"), one(f, format!("{h}{many}{b}\n{many}"), view, "a bad line between many")]
                    })
                    .collect::<Vec<_>>()
            });
            Box::new(edits.chain(joined).chain(numbers).chain(glued).chain(far))
        }
        "C18" => {
            const M: [&str; 14] = ["newmtl a", "newmtl b", "Ka 1 2 3", "Kd spectral f", "Ks xyz 1 2", "Ns 1", "d 1", "d -halo 2", "Tr 2", "illum 3", "map_aat on", "map_Kd -cc on x", "bump y -bm 3", "map_d # z"];
            const O: [&str; 27] = [
                "v 1 2 3", "v 1 2 3 4", "vn 1 2 3", "vt 1", "vt 1 2 3", "vp 1", "f 1 2 3", "f 1/2/3 4//5 6/7", "l 1 2/3", "p 1 2", "g a", "g b a", "g default", "s 3", "s off", "usemtl m", "usemap t", "usemap off", "bevel on", "lod 5", "c_interp on",
                "d_interp on", "mtllib a b", "maplib c", "shadow_obj s", "trace_obj t", "o x",
            ];
            let seps = ["\n", "\r\n", "\r"];
            let m = power(M.len(), 3 + tt as u32).flat_map(move |w| {
                (0..=w.len()).flat_map(|i| {
                    let (a, b) = (pick(&M, &w[..i], "\n"), pick(&M, &w[i..], "\n"));
                    seps.map(|sep| Case { nontrivial: !a.is_empty() && !b.is_empty(), obs: vec![Ob::Concat { fmt: Mtl, a: format!("newmtl 1\n{a}"), b: format!("newmtl 2\n{b}"), sep: sep.into() }], tag: "every statement on either side" })
                }).collect::<Vec<_>>()
            });
            let o = power(O.len(), 3).flat_map(move |w| {
                (0..=w.len()).flat_map(|i| {
                    let (a, b) = (pick(&O, &w[..i], "\n"), pick(&O, &w[i..], "\n"));
                    let nontrivial = !a.is_empty() && !b.is_empty();
                    seps.into_iter().flat_map(move |sep| [
                        Case { nontrivial, obs: vec![Ob::Concat { fmt: Obj, a: a.clone(), b: format!("g default\ns 0\n{b}"), sep: sep.into() }], tag: "every statement on either side" },
                        Case { nontrivial, obs: vec![Ob::Prefix { a: a.clone(), b: b.clone(), sep: sep.into() }], tag: "every statement appended" },
                    ])
                }).collect::<Vec<_>>()
            });
            let many = sizes(120, if t { 20_000 } else { 2_100 }).into_iter().flat_map(move |n| {
                let mut v = Vec::new();
                for u in ["v 1 2 {}", "vn 1 2 {}", "vt {}", "f {} 1 2", "l {} 1", "p {}", "g g{}\nf 1 2 3", "g a b\np {}", "s {}\nf 1 2 3", "mtllib l{}", "maplib l{}", "shadow_obj s{}", "g g{}\nusemtl m{}"] {
                    let a = lines(n, |i| u.replace("{}", &i.to_string()));
                    let b = lines(n / 2 + 1, |i| u.replace("{}", &(i + n).to_string()));
                    v.push(Case { nontrivial: true, obs: vec![Ob::Concat { fmt: Obj, a: a.clone(), b: format!("g default\ns 0\n{b}"), sep: "\n".into() }], tag: "every size of the parts" });
                    v.push(Case { nontrivial: true, obs: vec![Ob::Prefix { a, b, sep: "\n".into() }], tag: "every size of the parts" });
                }
                for u in ["newmtl m{}", "newmtl m\nNs {}", "newmtl m{}\nmap_Kd -s {} x", "newmtl a b\nillum {}"] {
                    let a = lines(n, |i| u.replace("{}", &i.to_string()));
                    let b = lines(n / 2 + 1, |i| u.replace("{}", &(i + n).to_string()));
                    v.push(Case { nontrivial: true, obs: vec![Ob::Concat { fmt: Mtl, a, b, sep: "\n".into() }], tag: "every size of the parts" });
                }
                v
            });
            Box::new(m.chain(o).chain(many))
        }
        "C19" => {
            // a statement moved over a distance
            let far = sizes(60, if t { 20_000 } else { 2_100 }).into_iter().flat_map(move |n| {
                let n = n as usize;
                let mut v = Vec::new();
                for d in ["v 1 2 3", "vn 1 2 3", "vt 1 2", "mtllib m", "maplib n", "o x"] {
                    for r in ["f 1 2 3\n", "g a b\nf 1 2 3\ng c\n", "s 3\n", "usemtl q\n", "l 1 2\np 3\n", "bevel on\nlod 4\n", "shadow_obj s\ntrace_obj t\n", "v 7 8 9\n", "vt 4\n", "mtllib k\n"] {
                        if r.split(' ').next() == d.split(' ').next() {
                            continue;
                        }
                        let many = r.repeat(n);
                        v.push(same(Obj, format!("{d}\n{many}"), format!("{many}{d}\n"), "every distance of a move"));
                        v.push(same(Obj, format!("{many}{d}\n{many}"), format!("{}{d}\n", r.repeat(2 * n)), "every distance of a move"));
                    }
                }
                v
            });
            // every order of three options and the name
            const OP: [&str; 12] = ["-blendu off", "-blendv off", "-clamp on", "-mm 1 2", "-o 1 2 3", "-s 3 4 5", "-t 4 5 6", "-texres 7", "-cc on", "-bm 2", "-imfchan r", "-type sphere"];
            let opts = power(OP.len(), 3).filter(|w| w[0] != w[1] && w[1] != w[2] && w[0] != w[2]).flat_map(move |w| {
                let kinds: Vec<&str> = MAP_KINDS.to_vec();
                let a: Vec<&str> = w.iter().map(|i| OP[*i]).collect();
                kinds.into_iter().flat_map(move |k| {
                    let base = format!("newmtl a\n{k} {} f.png", a.join(" "));
                    [format!("{k} {} {} {} f.png", a[2], a[1], a[0]), format!("{k} {} f.png {} {}", a[0], a[1], a[2]), format!("{k} f.png {} {} {}", a[1], a[2], a[0]), format!("{k} {} {} f.png {}", a[1], a[0], a[2])]
                        .map(|x| same(Mtl, base.clone(), format!("newmtl a\n{x}"), "every order of three options"))
                }).collect::<Vec<_>>()
            });
            Box::new(far.chain(opts))
        }
        "C21" => {
            let st: Vec<(Fmt, String)> = OBJ_NAMES.iter().map(|s| (Obj, s.to_string())).chain(["mtllib X", "maplib X", "trace_obj X", "call X", "call X 1 2", "csh X", "csh -X", "# X", "o X", "mtllib missing.mtl X", "usemtl inner\nmtllib X", "mtllib X\nusemtl inner\nf 1 2 3", "v 1 2 X", "f X"].iter().map(|s| (Obj, s.to_string())))
                .chain(MTL_NAMES.iter().map(|s| (Mtl, s.to_string())))
                .chain(MAP_KINDS.iter().flat_map(|k| [format!("newmtl m\n{k} X"), format!("newmtl m\n{k} -clamp on X"), format!("newmtl m\n{k} X -texres 64")]).chain(["Ka", "Kd", "Ks", "Ke", "Tf"].map(|k| format!("newmtl m\n{k} spectral X 1"))).chain(["X", "# X", "newmtl m\nrefl -type sphere X", "newmtl m\nbump -imfchan r X", "newmtl m\nNs X"].map(String::from)).map(|s| (Mtl, s)))
                .collect();
            let mut paths: Vec<String> = PATHS.iter().map(|s| s.to_string()).collect();
            paths.extend(crate::dict::get().words.iter().filter(|w| w.contains(['.', '/', '~', '$', ':', '%', '@']) && !w.contains(['\n', '\r', '\0'])).take(40).cloned());
            // every kind of statement, right and wrong
            let files: Vec<String> = crate::props::FILES.iter().map(|s| s.to_string()).collect();
            let kinds = crate::props::OBJ_UNITS.iter().chain(BAD_OBJ.iter()).map(|s| (Obj, s.to_string()))
                .chain(["s on", "s off", "s 7", "bevel on", "c_interp on", "d_interp off", "usemap off", "lod 101", "s maybe", "f -9", "f 0", "v 1e99 1 1"].map(|s| (Obj, s.to_string())))
                .chain(crate::props::MTL_UNITS.iter().chain(BAD_MTL.iter()).flat_map(|s| [(Mtl, s.to_string()), (Mtl, format!("newmtl m\n{s}"))]))
                .flat_map(|(f, s)| {
                    let s = s.replace("{i}", "1");
                    [(f, s.to_ascii_uppercase()), (f, s.to_ascii_lowercase()), (f, format!("{s}\n{s}\nbogus")), (f, s)]
                })
                .map(move |(fmt, s)| Case { nontrivial: true, obs: vec![Ob::NoIo { fmt, text: s + "\n", files: files.clone() }], tag: "every kind of statement" });
            Box::new(kinds.chain(st.into_iter().flat_map(move |(fmt, s)| {
                paths.iter().map(|p| Case {
                    nontrivial: !p.starts_with("missing"),
                    obs: vec![Ob::NoIo { fmt, text: s.replace('X', p) + "\n", files: crate::props::FILES.iter().map(|s| s.to_string()).collect() }],
                    tag: "every path in every name",
                }).collect::<Vec<_>>()
            })))
        }
        "C03" => {
            let n = numbers();
            Box::new(templates().into_iter().flat_map(move |(f, s)| {
                n.iter().map(|x| one(f, s.replace('X', x), FULL, "every number in every position")).collect::<Vec<_>>()
            }))
        }
        "C04" => {
            const G: [&str; 10] = ["0", "1", "-1", "0.5", "-0.0", "1e9", "1e-9", "2", "100", "1.0"];
            const S: [&str; 3] = ["0", "1", "0.5"];
            let view = ob::V | ob::VN | ob::VT | ob::OK;
            let tuples = [("v", 3), ("v", 4), ("vn", 3), ("vt", 1), ("vt", 2), ("vt", 3)]
                .into_iter()
                .flat_map(move |(k, n)| power(G.len(), n).map(move |w| one(Obj, format!("{k} {}\n{k} 1 2 3", pick(&G, &w, " ")), view, "every tuple of a grid")));
            let sts: Vec<String> = [("v", 3), ("v", 4), ("vn", 3), ("vt", 1), ("vt", 2), ("vt", 3)]
                .into_iter()
                .flat_map(|(k, n)| power(S.len(), n).map(move |w| format!("{k} {}", pick(&S, &w, " "))))
                .collect();
            let pairs = power(sts.len(), 2).map(move |w| one(Obj, pick_s(&sts, &w, "\n"), view, "every pair of data"));
            let many = sizes(300, if t { 140_000 } else { 17_000 }).into_iter().flat_map(move |n| {
                ["v 1 2 3", "v 1 2 3 4", "vn 1 2 3", "vt 1", "vt 1 2", "vt 1 2 3"]
                    .into_iter()
                    .flat_map(|s| [one(Obj, format!("{s}\n").repeat(n as usize), view, "every number of repeats"), one(Obj, lines(n, |i| s.replace('1', &i.to_string())), view, "every number of entries")])
                    .collect::<Vec<_>>()
            });
            Box::new(tuples.chain(pairs).chain(many))
        }
        "C05" => {
            let els: Vec<String> = elements(&["1", "2"], &["", "1", "2"], true);
            let small: Vec<String> = elements(&["1", "2", "3"], &[""], false);
            let les: Vec<String> = ["1", "2", "3"].iter().flat_map(|v| ["", "/1", "/2", "/"].map(|t| format!("{v}{t}"))).collect();
            let view = ob::ELEMS | ob::OK;
            let a = (1..=3).flat_map(move |k| {
                let els = els.clone();
                power(els.len(), k).map(move |w| one(Obj, format!("f {}", pick_s(&els, &w, " ")), view, "every short face"))
            });
            let b = (1..=7 + tt as u32).flat_map(move |k| {
                let s = small.clone();
                power(s.len(), k).flat_map(move |w| ["f", "l", "p"].map(|x| one(Obj, format!("{x} {}\n{x} 1", pick_s(&s, &w, " ")), view, "every short element list")))
            });
            let c = (1..=4).flat_map(move |k| {
                let s = les.clone();
                power(s.len(), k).map(move |w| one(Obj, format!("l {}", pick_s(&s, &w, " ")), view, "every short line"))
            });
            let many = sizes(300, if t { 140_000 } else { 17_000 }).into_iter().flat_map(move |n| {
                [
                    format!("f {}", list(n, |i| i.to_string())), format!("f {}", list(n, |i| format!("{i}/{i}/{i}"))), format!("f {}", list(n, |i| format!("{i}//{i}"))), format!("f {}", list(n, |_| "1".into())),
                    format!("l {}", list(n, |i| i.to_string())), format!("l {}", list(n, |i| format!("{i}/{i}"))), format!("l {}", list(n, |_| "1".into())), format!("p {}", list(n, |i| i.to_string())), format!("p {}", list(n, |_| "1".into())),
                    lines(n, |i| format!("f {i} {i} {i}")), lines(n, |_| "f 1 2 3".into()), lines(n, |i| format!("l {i} 2")), lines(n, |_| "l 1 2".into()), lines(n, |i| format!("p {i}")), lines(n, |_| "p 1".into()),
                ]
                .map(|x| one(Obj, x, view, "every number of elements"))
            });
            Box::new(a.chain(b).chain(c).chain(many))
        }
        "C06" => {
            let view = ob::ELEMS | ob::OK;
            let els = elements(&["1", "-1", "-3"], &["", "1", "-1", "-2"], false);
            let les: Vec<String> = ["1", "2", "-1", "-2", "-3"].iter().flat_map(|v| ["", "/1", "/-1", "/-2"].map(|t| format!("{v}{t}"))).collect();
            let ps: Vec<String> = ["1", "2", "3", "-1", "-2", "-3"].map(String::from).to_vec();
            let head = "v 1 1 1\nv 2 2 2\nv 3 3 3\nvt 1\nvt 2\nvn 1 1 1\nvn 2 2 2\n";
            let tail = "\nv 4 4 4\nvt 3\nvn 3 3 3\n";
            let mut v: Vec<Cases> = Vec::new();
            for (k, e, n) in [("f", els, 2 + tt as u32), ("l", les, 3), ("p", ps, 5)] {
                v.push(Box::new((1..=n).flat_map(move |n| {
                    let e = e.clone();
                    power(e.len(), n).map(move |w| {
                        let x = pick_s(&e, &w, " ");
                        one(Obj, format!("{head}{k} {x}{tail}{k} {x}"), view, "every short mix of signs")
                    })
                })));
            }
            // every distance
            v.push(Box::new(sizes(300, if t { 140_000 } else { 17_000 }).into_iter().flat_map(move |n| {
                let d = format!("{}{}{}", lines(n, |_| "v 1 2 3".into()), lines(n + 1, |_| "vt 1 2".into()), lines(n + 2, |_| "vn 1 2 3".into()));
                [1, 2, (n + 1) / 2, n - 1, n].into_iter().filter(|k| *k > 0 && *k <= n).map(|k| one(Obj, format!("{d}f -{k} -{k}/-{k} -{k}//-{k} 1/-{k}/1 -{k}/1/-{k}\nl -{k} -{k}/-{k}\np -{k} {k}"), view, "every distance")).collect::<Vec<_>>()
            })));
            Box::new(v.into_iter().flatten())
        }
        "C07" => {
            let view = ob::ELEMS | ob::GKEYS | ob::OK;
            let lists = name_lists(&["a", "b", "c"], 3);
            let l2 = lists.clone();
            let pairs = power(lists.len(), 2).map(move |w| {
                let (a, b) = (&lists[w[0]], &lists[w[1]]);
                one(Obj, format!("g {a}\nf 1 2 3\nl 1 2\np 1\ng {b}\nf 4 5 6\nl 4 5\np 4\ng {a}\nf 7 8 9\np 7\nl 7 8"), view, "every pair of group lists")
            });
            let short = name_lists(&["a", "b", "default"], 2);
            let four = power(short.len(), 4).map(move |w| {
                let mut s = String::new();
                for (i, x) in w.iter().enumerate() {
                    s += &format!("g {}\nf {i} 2 3\nl {i} 2\np {i}\n", short[*x]).replace(" 0", " 9");
                }
                one(Obj, s, view, "every history of four group lists")
            });
            let _ = l2;
            let many = sizes(300, if t { 20_000 } else { 2_100 }).into_iter().flat_map(move |n| {
                [
                    format!("g {}\nf 1 2 3\nl 1 2\np 1", list(n, |i| format!("g{i}"))), format!("g {}\nf 1 2 3\nl 1 2\np 1", list(n, |i| format!("g{}", i % 3))),
                    format!("{}f 1 2 3\nl 1 2\np 1", lines(n, |i| format!("g g{i}"))), lines(n, |i| format!("g g{i}\nf {i} 2 3")), lines(n, |i| format!("g g{} h\np {i}", i % 2)), lines(n, |i| format!("g g{}\nl {i} 1", i % 7)),
                    format!("g a b\n{}", lines(n, |i| format!("f {i} 1 2"))), format!("g a b\n{}", lines(n, |_| "p 1".into())), format!("g a b\n{}", lines(n, |_| "l 1 2".into())), format!("{}g b\nf 1 2 3", lines(n, |_| "g a\nf 3 4 5".into())),
                ]
                .map(|x| one(Obj, x, view, "every number of groups"))
            });
            Box::new(pairs.chain(four).chain(many))
        }
        "C08" => {
            let view = ob::GSET | ob::GKEYS | ob::OK;
            const SET: [&str; 14] = ["usemtl m", "usemtl n", "usemap t", "usemap u", "usemap off", "bevel on", "bevel off", "c_interp on", "c_interp off", "d_interp on", "d_interp off", "lod 0", "lod 7", "lod 100"];
            let lists: Vec<String> = ["a", "b", "a b", "default a", "b b"].map(String::from).to_vec();
            let n = lists.len();
            let three = power(n * SET.len(), 2).flat_map(move |w| {
                (0..n).map(|k| one(Obj, format!("g {}\n{}\ng {}\n{}\ng {}\nf 1 2 3", lists[w[0] % n], SET[w[0] / n], lists[w[1] % n], SET[w[1] / n], lists[k]), view, "every pair of settings")).collect::<Vec<_>>()
            });
            let sets = power(SET.len(), 4).map(move |w| one(Obj, format!("g a b\n{}", pick(&SET, &w, "\n")), view, "every four settings"));
            let lod = (0..=100).flat_map(move |a| (0..=100).map(move |b| one(Obj, format!("lod {a}\ng x\nlod {b}\ng x y"), view, "every pair of levels")));
            let many = sizes(200, 2_100).into_iter().flat_map(move |n| {
                [
                    format!("g {}\nusemtl m\nusemap t\nbevel on\nc_interp on\nd_interp on\nlod 9", list(n, |i| format!("g{i}"))), lines(n, |i| format!("g g{i}\nusemtl m{i}\nlod {}", i % 101)),
                    lines(n, |i| format!("usemtl m{i}\nusemap t{i}")), format!("usemtl m\nusemap t\nlod 5\nbevel on\n{}g default", lines(n, |i| format!("g g{i}"))),
                ]
                .map(|x| one(Obj, x, view, "every number of groups"))
            });
            Box::new(three.chain(sets).chain(lod).chain(many))
        }
        "C09" => {
            let view = ob::SMOOTH | ob::OK;
            let vals = ints(1100);
            let each = vals.into_iter().flat_map(|i| [i, -i]).map(move |i| one(Obj, format!("f 1 2 3\ns {i}\nf 4 5 6\ng b c\nf 7 8 9\ns off\nf 1 2 3\ns {i}\nf 3 4 5"), view, "every smoothing group"));
            const S: [&str; 9] = ["s 1", "s 2", "s 0", "s on", "s off", "s 33", "s 65536", "s 1", "s 255"];
            const K: [&str; 12] = ["", "g b", "g b c", "o x", "usemtl m", "usemap t", "v 1 2 3", "l 1 2", "p 1", "bevel on", "lod 3", "mtllib l\nmaplib k\nshadow_obj z\nvp 1"];
            let pairs = power(S.len(), 3).flat_map(move |w| K.map(|k| one(Obj, format!("{}\n{k}\nf 1 2 3\n{}\n{k}\nf 4 5 6\n{}\n{k}\nf 7 8 9", S[w[0]], S[w[1]], S[w[2]]), view, "every three smoothing groups")));
            let between = power(K.len(), 3).map(move |w| one(Obj, format!("s 4\n{}\nf 1 2 3\nf 1 2 3", pick(&K, &w, "\n")), view, "every statement between"));
            let many = sizes(300, 5_000).into_iter().flat_map(move |n| {
                [format!("s 5\n{}", lines(n, |i| format!("f {i} 2 3"))), lines(n, |i| format!("s {i}\nf 1 2 3")), format!("s 5\n{}f 1 2 3", lines(n, |i| format!("g g{i}"))), format!("{}f 1 2 3", lines(n, |i| format!("s {i}")))].map(|x| one(Obj, x, view, "every number of faces"))
            });
            Box::new(each.chain(pairs).chain(between).chain(many))
        }
        "C10" => {
            let view = ob::LIBS | ob::OK;
            let lists = name_lists(&["a", "b", "A"], 3);
            let l2 = lists.clone();
            let ml = power(lists.len(), 2).flat_map(move |w| {
                ["mtllib", "maplib"].map(|k| one(Obj, format!("{k} {}\nv 1 2 3\n{k} {}\nf 1 1 1\n{k} a", lists[w[0]], lists[w[1]]), view, "every pair of library lists"))
            });
            let obj = power(l2.len(), 2).flat_map(move |w| {
                ["shadow_obj", "trace_obj"].map(|k| one(Obj, format!("{k} {}\ng q\n{k} {}", l2[w[0]], l2[w[1]]), view, "every pair of companions"))
            });
            let many = sizes(300, if t { 17_000 } else { 2_100 }).into_iter().flat_map(move |n| {
                [
                    format!("mtllib {}", list(n, |i| format!("l{i}"))), format!("mtllib {}", list(n, |_| "l".into())), format!("maplib {}", list(n, |i| format!("l{i}"))), lines(n, |i| format!("mtllib l{i}")), lines(n, |_| "mtllib l m".into()),
                    lines(n, |i| format!("maplib l{i} k")), lines(n, |i| format!("shadow_obj s{i}\ntrace_obj t{i}")), format!("{}mtllib z", lines(n, |i| format!("o x{i}\nvp 1 {i}"))),
                ]
                .map(|x| one(Obj, x, view | ob::ALL, "every number of libraries"))
            });
            Box::new(ml.chain(obj).chain(many))
        }
        "C11" => {
            let single = chars(t).into_iter().filter(|c| !matches!(c, ' ' | '\t')).flat_map(|c| [format!("{c}"), format!("{c}b"), format!("b{c}"), format!("b{c}d"), format!("{c}{c}")].into_iter().flat_map(|x| named(&x)).collect::<Vec<_>>());
            let ascii: Vec<char> = (33u8..127).map(char::from).collect();
            let pairs = power(ascii.len(), 2).flat_map(move |w| {
                let (a, b) = (ascii[w[0]], ascii[w[1]]);
                let mut v = named(&format!("{a}{b}"));
                v.extend(named(&format!("x{a}{b}y")));
                v
            });
            let long = sizes(300, 70_000).into_iter().flat_map(|n| [named(&"n".repeat(n as usize)), named(&"é".repeat(n as usize))].concat());
            let dict = crate::dict::get().words.iter().flat_map(|w| {
                [w.clone(), format!("{w}2"), format!("x{w}"), format!("x{w}y"), w.to_uppercase(), format!("{w}{w}")].into_iter().flat_map(|x| named(&x)).collect::<Vec<_>>()
            });
            // inner blanks
            const B: [&str; 5] = [" ", "  ", "\t", " \t ", "          "];
            const P: [&str; 8] = ["a", "1", "-o", "#x", "x#", "/", "on", "é"];
            let inner = power(P.len(), 3).flat_map(move |w| {
                power(B.len(), 2).flat_map(move |b| {
                    let x = format!("{}{}{}{}{}", P[w[0]], B[b[0]], P[w[1]], B[b[1]], P[w[2]]);
                    [one(Obj, format!("usemtl {x}\nusemap {x}\nshadow_obj {x}\ntrace_obj {x}\no {x}\nf 1 2 3"), ob::ONAMES | ob::LIBS | ob::GSET | ob::OK, "every inner blank"), one(Mtl, format!("newmtl {x}\nNs 1"), ob::MNAMES | ob::OK, "every inner blank")]
                }).collect::<Vec<_>>()
            });
            Box::new(single.chain(pairs).chain(long).chain(dict).chain(inner))
        }
        "C12" => Box::new(
            casings(Obj, &OBJ_KW, "").chain(layouts(Obj, &["v 1 2 3", "f 1/2/3 4//5 6", "g a b", "usemtl m", "s off", "bevel on", "mtllib a b", "vt 1 2", "lod 5"], "v 9 9 9\n", t)).chain(laid_out_pairs(Obj, &OBJ_FULL, "v 9 9 9\n")),
        ),
        "C13" => Box::new(
            casings(Mtl, &MTL_KW, "newmtl q\n").chain(layouts(Mtl, &["newmtl a", "Kd 1 2 3", "Ks spectral a.rfl 2", "map_Kd -s 1 2 3 -cc on b.png", "bump c.png -bm 2", "Ns 5", "map_aat on", "d -halo 1"], "newmtl q\n", t)).chain(laid_out_pairs(Mtl, &MTL_FULL, "newmtl q\n")),
        ),
        "C14" => {
            let view = ob::ALL | ob::OK;
            const ST: [&str; 22] = ["Ka 1 2 3", "Kd 2 3 4", "Ks 4 5 6", "Ke 7 8 9", "Tf 1 1 1", "Ns 1", "Ni 2", "Tr 3", "sharpness 4", "d 5", "illum 6", "map_aat on", "map_Ka a", "map_Kd -cc on b", "map_Ks c", "map_Ns d1", "map_d e", "disp f", "decal g", "bump -bm 2 h", "refl -type sphere i", "d -halo 2"];
            const NM: [&str; 4] = ["a", "b", "A", "a b"];
            let leak = power(ST.len(), 2).flat_map(move |w| {
                power(NM.len(), 3).map(move |n| one(Mtl, format!("newmtl {}\n{}\nnewmtl {}\nnewmtl {}\n{}\n", NM[n[0]], ST[w[0]], NM[n[1]], NM[n[2]], ST[w[1]]), view, "every pair of statements over three materials")).collect::<Vec<_>>()
            });
            const AGAIN: [&str; 22] = ["Ka 9 9 9", "Kd spectral f", "Ks xyz 1", "Ke 0 0 0", "Tf xyz 1 2", "Ns 0", "Ni 0", "Tr 0", "sharpness 0", "d -halo 0", "illum 0", "map_aat off", "map_Ka z", "map_Kd -cc off z", "map_Ks z", "map_Ns z", "map_d z", "disp z", "decal z", "bump z", "refl z", "d 0"];
            let again = power(ST.len(), 3).map(move |w| one(Mtl, format!("newmtl a\n{}\n{}\n{}\nnewmtl b\n{}\n", ST[w[0]], AGAIN[w[1]], AGAIN[w[2]], AGAIN[w[0]]), view, "every three statements"));
            let many = sizes(300, if t { 70_000 } else { 5_000 }).into_iter().flat_map(move |n| {
                [
                    lines(n, |i| format!("newmtl m{i}")), lines(n, |_| "newmtl m".into()), lines(n, |i| format!("newmtl m{}\nNs {i}", i % 2)), lines(n, |i| format!("newmtl m{i}\nKd 1 2 {i}\nmap_d t{i}.png")), format!("newmtl a\n{}newmtl b", lines(n, |i| format!("Ns {i}"))),
                    lines(n, |i| format!("newmtl m\n{}", ST[i as usize % ST.len()])),
                ]
                .map(|x| one(Mtl, x, view, "every number of materials"))
            });
            Box::new(leak.chain(again).chain(many))
        }
        "C15" => {
            let view = ob::MCOL | ob::OK;
            const G: [&str; 9] = ["0", "1", "0.5", "-1", "2", "255", "1.0", "0.0", "1e3"];
            let mut v: Vec<Cases> = Vec::new();
            for k in ["Ka", "Kd", "Ks", "Ke", "Tf"] {
                v.push(Box::new(power(G.len(), 3).flat_map(move |w| {
                    let x = pick(&G, &w, " ");
                    let mut c = vec![one(Mtl, format!("newmtl a\n{k} {x}"), view, "every colour of a grid"), one(Mtl, format!("newmtl a\n{k} xyz {x}"), view, "every colour of a grid")];
                    if w[2] == 0 {
                        c.push(one(Mtl, format!("newmtl a\n{k} xyz {}", pick(&G, &w[..2], " ")), view, "every colour of a grid"));
                        c.push(one(Mtl, format!("newmtl a\n{k} spectral f.rfl {}\n{k} xyz {}", G[w[0]], G[w[1]]), view, "every colour of a grid"));
                    }
                    c
                })));
            }
            let st: Vec<String> = ["Ka", "Kd", "Ks", "Ke", "Tf"]
                .iter()
                .flat_map(|k| [format!("{k} 0 0 0"), format!("{k} 1 2 3"), format!("{k} 1 1 1"), format!("{k} spectral f"), format!("{k} spectral f 2"), format!("{k} xyz 4"), format!("{k} xyz 5 6"), format!("{k} xyz 7 8 9")])
                .chain(["Ns 0", "Ns 1000", "d 0", "d 1", "d 0.5", "d -halo 0", "d -halo 1", "Tr 0", "Tr 1", "Tr 0.5", "sharpness 60", "sharpness 0", "Ni 1", "Ni 1.5", "illum 0", "illum 2", "illum 10", "map_aat on", "map_aat off", "map_d x", "map_Kd y", "newmtl b"].map(String::from))
                .collect();
            let s2 = st.clone();
            v.push(Box::new(power(st.len(), 2).map(move |w| one(Mtl, format!("newmtl a\n{}", pick_s(&st, &w, "\n")), view, "every pair of statements"))));
            v.push(Box::new(power(s2.len(), 3).map(move |w| one(Mtl, format!("newmtl a\n{}", pick_s(&s2, &w, "\n")), view, "every three statements"))));
            v.push(Box::new(ints(1000).into_iter().map(move |i| one(Mtl, format!("newmtl a\nillum {i}\nNs {i}\nsharpness {i}"), view, "every whole number"))));
            Box::new(v.into_iter().flatten())
        }
        "C16" => {
            let view = ob::MMAP | ob::OK;
            const G: [&str; 8] = ["0", "1", "0.5", "-1", "2", "-2", "1.0", "0.0"];
            let mut v: Vec<Cases> = Vec::new();
            for k in MAP_KINDS {
                v.push(Box::new(["-o", "-s", "-t"].into_iter().flat_map(move |o| (1..=3).flat_map(move |n| power(G.len(), n).map(move |w| one(Mtl, format!("newmtl a\n{k} {o} {} f.png", pick(&G, &w, " ")), view, "every option value of a grid"))))));
                v.push(Box::new(power(G.len(), 2).map(move |w| one(Mtl, format!("newmtl a\n{k} -mm {} f.png", pick(&G, &w, " ")), view, "every option value of a grid"))));
                v.push(Box::new(sizes(299, i64::MAX).into_iter().map(move |i| one(Mtl, format!("newmtl a\n{k} -texres {i} f.png"), view, "every option value of a grid"))));
            }
            // repeated statements, in one material or two
            const A: [&str; 12] = ["x.png", "y.png -clamp on", "-blendu off x.png", "-mm 1 2 y.png", "-o 1 2 x.png", "-s 1 y.png", "-t 1 2 3 x.png", "-texres 5 x.png", "-cc on x.png", "-imfchan r x.png", "-bm 2 x.png", "-type sphere x.png"];
            let all: Vec<String> = MAP_KINDS.iter().flat_map(|k| A.iter().map(move |a| format!("{k} {a}"))).collect();
            v.push(Box::new(power(all.len(), 2).flat_map(move |w| ["\n", "\nnewmtl b\n"].map(|s| one(Mtl, format!("newmtl a\n{}", pick_s(&all, &w, s)), view, "every pair of maps")))));
            // option order and place: all sequences of different options
            const O: [&str; 11] = ["-blendu off", "-blendv on", "-clamp on", "-mm 1 2", "-o 1 2", "-s 3", "-t 4 5 6", "-texres 7", "-cc on", "-bm 2", "-type sphere"];
            v.push(Box::new(power(O.len(), 4).filter(|w| (0..4).all(|i| !w[..i].contains(&w[i]))).flat_map(move |w| {
                let kind = if w.contains(&10) || w.contains(&8) { "refl" } else { "bump" };
                let bad = w.contains(&9) && kind == "refl";
                [0, 2, 4].into_iter().filter(move |_| !bad).map(|at| one(Mtl, format!("newmtl a\n{kind} {} f.png {}", pick(&O, &w[..at], " "), pick(&O, &w[at..], " ")), view, "every four options")).collect::<Vec<_>>()
            })));
            Box::new(v.into_iter().flatten())
        }
        "C17" => {
            let view = FULL;
            let mut w: Vec<String> = ["true", "false", "yes", "no", "1", "0", "2", "-1", "1.0", "enable", "disabled", "default", "none", "null", "oon", "offf", "onoff", "ofon", "o", "n", "f", "of", "off.", "on,", "\"on\"", "on/off", "0n", "0ff"].map(String::from).to_vec();
            for c in chars(t) {
                if !matches!(c, ' ' | '\t') {
                    w.extend([format!("on{c}"), format!("{c}on"), format!("off{c}"), format!("{c}off"), format!("o{c}"), format!("{c}n"), format!("o{c}f"), format!("of{c}"), format!("{c}")]);
                }
            }
            w.extend(crate::dict::get().words.iter().cloned());
            Box::new(w.into_iter().flat_map(move |l| {
                let o = ["bevel", "c_interp", "d_interp", "s"].map(|k| one(Obj, format!("g a\n{k} {l}\nf 1 2 3"), view, "every word near a switch"));
                let m = ["map_aat X", "map_Kd -blendu X f.png", "map_Ks -blendv X f.png", "refl -cc X f.png", "map_d -clamp X f.png"].map(|k| one(Mtl, format!("newmtl a\n{}", k.replace('X', &l)), view, "every word near a switch"));
                o.into_iter().chain(m).collect::<Vec<_>>()
            }))
        }
        _ => Box::new(std::iter::empty()),
    }
}

fn elements(vs: &[&str], subs: &[&str], trailing: bool) -> Vec<String> {
    let mut r = Vec::new();
    for v in vs {
        for t in subs {
            for n in subs {
                r.push(match (t.is_empty(), n.is_empty()) {
                    (true, true) => v.to_string(),
                    (false, true) => format!("{v}/{t}"),
                    (_, false) => format!("{v}/{t}/{n}"),
                });
            }
        }
        if trailing {
            r.push(format!("{v}/"));
            r.push(format!("{v}//"));
            r.push(format!("{v}/1/"));
        }
    }
    r
}
/// All lists of up to `n` of the names, repeats included.
fn name_lists(names: &[&str], n: u32) -> Vec<String> {
    (1..=n).flat_map(|k| power(names.len(), k).map(|w| pick(names, &w, " ")).collect::<Vec<_>>()).collect()
}
