//! Coverage-guided search: inputs of the random strategies, varied further
//! wherever a variation reaches something new in the crate under test. The
//! obligations, and so the verdicts, are those of the random part.
use crate::ast::{mtl_lines, obj_lines, render, M, O};
use crate::cov::{self, Seen};
use crate::dict;
use crate::ob::{self, Ob};
use crate::props::{self, Case};
use crate::refparse::{self, Expect, Fmt, Ref};
use crate::run::{cut_text, judge, Report, Slot};
use crate::special::Pure;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::TestRunner;
use std::collections::HashSet;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// What is varied: texts, and the bytes which choose layout, order and the like.
#[derive(Clone, Debug)]
struct Input {
    texts: Vec<(Fmt, String)>,
    knobs: Vec<u8>,
    view: u32,
}
impl Input {
    fn size(&self) -> usize {
        self.texts.iter().map(|t| t.1.len()).sum()
    }
}

fn input(c: &Case, r: &mut Rng) -> Option<Input> {
    let knobs = (0..4 + r.below(24)).map(|_| r.next() as u8).collect();
    let mut view = 0;
    let texts = match c.obs.first()? {
        Ob::Judge { fmt, text, view: v } => {
            view = *v;
            vec![(*fmt, text.clone())]
        }
        Ob::Same { fmt, a, .. } => vec![(*fmt, a.clone())],
        Ob::Concat { fmt, a, b, .. } => vec![(*fmt, a.clone()), (*fmt, b.clone())],
        Ob::Prefix { a, b, .. } => vec![(Fmt::Obj, a.clone()), (Fmt::Obj, b.clone())],
        Ob::Isolate { text, .. } | Ob::NewMat { text } => vec![(Fmt::Mtl, text.clone())],
        Ob::Others { a, .. } => vec![(Fmt::Mtl, a.clone())],
        Ob::Total { text } => vec![(Fmt::Obj, text.clone())],
        Ob::NoIo { fmt, text, .. } => vec![(*fmt, text.clone())],
        Ob::Pure(p) => p.history.iter().map(|h| (h.0, h.1.clone())).chain([(p.fmt, p.probe.clone())]).collect(),
        _ => return None,
    };
    Some(Input { texts, knobs, view })
}

fn objs(t: &str) -> Option<Vec<O>> {
    match refparse::parse_obj(t) {
        Ref::Ok(d) => Some(d),
        _ => None,
    }
}
fn mtls(t: &str) -> Option<Vec<M>> {
    match refparse::parse_mtl(t) {
        Ref::Ok(d) => Some(d),
        _ => None,
    }
}
fn loads(fmt: Fmt, t: &str) -> bool {
    matches!(refparse::expect(fmt, t), Expect::Obj(_) | Expect::Mtl(_))
}
fn negative(d: &[O]) -> bool {
    d.iter().any(|s| match s {
        O::F(e) => e.iter().any(|x| x.v.v < 0 || x.t.as_ref().is_some_and(|i| i.v < 0) || x.n.as_ref().is_some_and(|i| i.v < 0)),
        O::L(e) => e.iter().any(|x| x.v.v < 0 || x.t.as_ref().is_some_and(|i| i.v < 0)),
        O::P(e) => e.iter().any(|x| x.v < 0),
        _ => false,
    })
}
const SEPS: [&str; 5] = ["\n", "\r\n", "\r", "\n\n", "\n# joined\n"];

/// The obligations of a property for an input; none where it says nothing.
fn make(id: &str, x: &Input) -> Vec<Ob> {
    let none = Vec::new;
    let Some((fmt, text)) = x.texts.first().cloned() else { return none() };
    let knob = |i: usize| x.knobs.get(i).copied().unwrap_or(0) as usize;
    match id {
        "C01" => vec![Ob::Total { text }],
        "C10" => {
            let Some(doc) = objs(&text) else { return none() };
            let rest: Vec<O> = doc.iter().filter(|s| !props::library(s)).cloned().collect();
            let b = render(&obj_lines(&rest), &[]);
            vec![Ob::Judge { fmt, text: text.clone(), view: ob::LIBS | ob::OK }, Ob::Same { fmt, a: text, b, view: props::NOT_LIBS }]
        }
        "C12" | "C13" => {
            let lines = match fmt {
                Fmt::Obj => objs(&text).map(|d| obj_lines(&d)),
                Fmt::Mtl => mtls(&text).map(|d| mtl_lines(&d)),
            };
            let Some(lines) = lines else { return none() };
            let b = render(&lines, &x.knobs);
            if !props::comparable(fmt, &text, &b) {
                return none();
            }
            vec![Ob::Same { fmt, a: text, b, view: ob::ALL }]
        }
        "C14" => {
            let Some(doc) = mtls(&text) else { return none() };
            if doc.is_empty() {
                return none();
            }
            if !matches!(doc[0], M::New(_)) {
                return vec![Ob::NewMat { text }];
            }
            let ps = props::parts(&doc);
            let mut v = vec![Ob::Judge { fmt, text: text.clone(), view: ob::MNAMES | ob::OK }];
            if ps.len() <= 64 {
                v.push(Ob::Isolate { text, parts: ps.iter().map(|p| render(&mtl_lines(p), &[])).collect() });
            }
            v
        }
        "C18" => {
            let Some((_, b)) = x.texts.get(1).cloned() else { return none() };
            let sep = SEPS[knob(0) % SEPS.len()].to_string();
            let ok = |a: &str, b: &str| loads(fmt, a) && loads(fmt, b) && loads(fmt, &format!("{a}{sep}{b}"));
            if !ok(&text, &b) {
                return none();
            }
            match fmt {
                Fmt::Mtl => vec![Ob::Concat { fmt, a: text, b, sep }],
                Fmt::Obj => {
                    let (Some(_), Some(db)) = (objs(&text), objs(&b)) else { return none() };
                    let mut v = vec![Ob::Prefix { a: text.clone(), b: b.clone(), sep: sep.clone() }];
                    if !negative(&db) {
                        let b = format!("g k{}\ns {}\n{b}", knob(1) % 3, knob(2) % 3);
                        if ok(&text, &b) {
                            v.push(Ob::Concat { fmt, a: text, b, sep });
                        }
                    }
                    v
                }
            }
        }
        "C19" => {
            let Some(b) = (match fmt {
                Fmt::Obj => objs(&text).filter(|d| !negative(d)).map(|d| render(&obj_lines(&props::permute_obj(d, &x.knobs)), &[])),
                Fmt::Mtl => mtls(&text).filter(|d| matches!(d.first(), Some(M::New(_)))).map(|d| {
                    let d = if knob(0) % 2 == 0 { props::permute_mtl(&d, &x.knobs) } else { props::permute_options(d, &x.knobs) };
                    render(&mtl_lines(&d), &[])
                }),
            }) else {
                return none();
            };
            if !loads(fmt, &text) {
                return none();
            }
            vec![Ob::Same { fmt, a: text, b, view: ob::ALL }]
        }
        "C20" => {
            let mut t = x.texts.clone();
            let (fmt, probe) = t.pop().expect("HARNESS: probe");
            let history = t
                .into_iter()
                .enumerate()
                .map(|(i, (f, t))| {
                    let k = if knob(i + 2) % 8 == 0 { 1 + knob(i + 3) as u32 } else { 1 };
                    let k = k.min((50_000 / (t.len() as u32 + 50)).max(1));
                    (f, t, k)
                })
                .collect();
            vec![Ob::Pure(Pure { history, fmt, probe, threads: if knob(0) % 16 == 0 { 2 } else { 0 }, offset: knob(1) as u8 % 64 })]
        }
        "C21" => vec![Ob::NoIo { fmt, text, files: props::FILES.iter().map(|s| s.to_string()).collect() }],
        _ => vec![Ob::Judge { fmt, text, view: x.view }],
    }
}
pub fn applies(id: &str) -> bool {
    !matches!(id, "C22" | "C23")
}

// ---------------------------------------------------------------- variations

const MAX_TEXT: usize = 700;
const MEDIUM_TEXT: usize = 6000;
const LONG_TEXT: usize = 200_000;

struct Pool {
    obj: Vec<String>,
    mtl: Vec<String>,
    words: Vec<String>,
}
impl Pool {
    fn lines(&self, f: Fmt) -> &[String] {
        match f {
            Fmt::Obj => &self.obj,
            Fmt::Mtl => &self.mtl,
        }
    }
}
const CHARS: [&str; 40] = [
    " ", "\t", "\n", "\r", "#", "/", "-", "+", ".", "0", "1", "9", "e", "E", "_", "\\", "\"", "'", ",", ":", ";", "a", "A", "z", "é", "ß", "\u{a0}", "\u{feff}", "\u{0}", "\u{b}", "\u{c}", "\u{85}",
    "\u{2028}", "(", "*", "%", "@", "\u{1f600}", "İ", "ﬀ",
];
const NUMS: [&str; 24] = [
    "0", "-0", "1", "-1", "2", "-2", "3", "4", "7", "8", "10", "16", "32", "64", "100", "255", "256", "1000", "65535", "65536", "0.5", "1e10", "-1.5e-7", "2147483647",
];

fn char_at(t: &str, mut i: usize) -> usize {
    i = i.min(t.len());
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// Where the words are.
fn words(t: &str) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut from = None;
    for (i, c) in t.char_indices() {
        match (c.is_ascii_whitespace() || c == '/', from) {
            (true, Some(f)) => {
                v.push((f, i));
                from = None;
            }
            (false, None) => from = Some(i),
            _ => {}
        }
    }
    v.extend(from.map(|f| (f, t.len())));
    v
}
fn line_list(t: &str) -> Vec<String> {
    t.split_inclusive('\n').map(|s| s.to_string()).collect()
}
fn ended(mut l: String) -> String {
    if !l.ends_with('\n') {
        l.push('\n');
    }
    l
}
struct Near<'a> {
    pairs: &'a [(u64, u64, u8)],
    texts: &'a [(Vec<u8>, Vec<u8>)],
}

fn number(r: &mut Rng, near: &Near) -> String {
    let d = dict::get();
    match r.below(6) {
        0 => (*r.pick(&NUMS)).into(),
        1 => r.pick(&d.ints).to_string(),
        2 => r.pick(&d.floats).clone(),
        3 if !near.pairs.is_empty() => {
            let p = r.pick(near.pairs);
            let v = if r.one_in(2) { p.0 } else { p.1 };
            let v = if p.2 == 4 { v as u32 as i32 as i64 } else { v as i64 };
            (v.wrapping_add(r.below(3) as i64 - 1)).to_string()
        }
        3 | 4 => (r.below(12) as i64 - 4).to_string(),
        _ => format!("{}.{}", r.below(40), r.below(100)),
    }
}
fn count(r: &mut Rng, near: &Near) -> usize {
    match r.below(8) {
        0 if !near.pairs.is_empty() => {
            let p = r.pick(near.pairs);
            let v = if r.one_in(2) { p.0 } else { p.1 };
            (v as usize).wrapping_add(r.below(3)).min(70_000)
        }
        0 | 1 => 1 + *r.pick(&dict::get().ints) as usize,
        2 => 1 << r.below(13),
        _ => 2 + r.below(12),
    }
}

/// One change; `None` when it does not apply.
fn vary_text(t: &str, f: Fmt, r: &mut Rng, pool: &Pool, near: &Near, max: usize) -> Option<String> {
    let kind = r.below(26);
    let out = match kind {
        // lines
        0..=9 => {
            let mut l = line_list(t);
            let n = l.len();
            match kind {
                0 | 1 => {
                    let i = r.below(n + 1);
                    if let Some(p) = i.checked_sub(1) {
                        l[p] = ended(std::mem::take(&mut l[p]));
                    }
                    l.insert(i, ended(r.pick(pool.lines(f)).clone()));
                }
                2 if n > 1 => {
                    l.remove(r.below(n));
                }
                3 if n > 1 => {
                    let x = l.remove(r.below(n));
                    l.insert(r.below(n), ended(x));
                }
                4 if n > 0 => {
                    let x = ended(l[r.below(n)].clone());
                    let i = r.below(n);
                    l.insert(i, x);
                }
                5 if n > 0 => {
                    let i = r.below(n);
                    let x = ended(l[i].clone());
                    let k = count(r, near).min(max / x.len().max(1));
                    l.insert(i, x.repeat(k));
                }
                6 if n > 1 => {
                    let (i, j) = (r.below(n), r.below(n));
                    l.swap(i, j);
                    l = l.into_iter().map(ended).collect();
                }
                7 if n > 2 => {
                    // a block again, elsewhere
                    let i = r.below(n);
                    let j = (i + 1 + r.below(4)).min(n);
                    let b: Vec<String> = l[i..j].iter().cloned().map(ended).collect();
                    let at = r.below(n);
                    l.splice(at..at, b);
                }
                8 if n > 1 => {
                    let k = r.below(n);
                    l.truncate(k.max(1));
                }
                _ if n > 0 => {
                    let i = r.below(n);
                    l[i] = ended(r.pick(pool.lines(f)).clone());
                }
                _ => return None,
            }
            l.concat()
        }
        // words
        10..=19 => {
            let w = words(t);
            if w.is_empty() {
                return None;
            }
            let (a, b) = *r.pick(&w);
            let old = &t[a..b];
            let num = refparse::is_number(old);
            let new: String = match kind {
                10 | 11 if num => number(r, near),
                10 | 11 => {
                    let (x, y) = *r.pick(&w);
                    t[x..y].to_string()
                }
                12 => r.pick(&pool.words).clone(),
                13 => r.pick(&dict::get().words).clone(),
                14 => match old.parse::<i64>() {
                    Ok(v) => v.wrapping_add(r.below(7) as i64 - 3).to_string(),
                    Err(_) => number(r, near),
                },
                15 => old.chars().map(|c| if r.one_in(2) { c } else if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                16 => {
                    let more = match r.below(3) {
                        0 => old.to_string(),
                        1 => number(r, near),
                        _ => r.pick(&pool.words).clone(),
                    };
                    format!("{old} {more}")
                }
                17 => String::new(),
                18 => {
                    let k = count(r, near).min(max / (old.len() + 1));
                    if r.one_in(2) {
                        format!("{old} ").repeat(k)
                    } else {
                        old.repeat(k)
                    }
                }
                _ => {
                    let mut s = old.to_string();
                    let i = char_at(&s, r.below(s.len() + 1));
                    s.insert_str(i, r.pick(&CHARS));
                    s
                }
            };
            format!("{}{}{}", &t[..a], new, &t[b..])
        }
        // operands of comparisons
        20..=22 => {
            if kind == 20 && !near.pairs.is_empty() {
                let (mut x, mut y, n) = *r.pick(near.pairs);
                if r.one_in(2) {
                    std::mem::swap(&mut x, &mut y);
                }
                let dec = |v: u64| if n == 4 { (v as u32 as i32).to_string() } else { (v as i64).to_string() };
                let w: Vec<(usize, usize)> = words(t).into_iter().filter(|(a, b)| t[*a..*b] == dec(x)).collect();
                if !w.is_empty() && r.one_in(2) {
                    let (a, b) = *r.pick(&w);
                    format!("{}{}{}", &t[..a], dec(y), &t[b..])
                } else {
                    replace(t, &x.to_le_bytes()[..n as usize], &y.to_le_bytes()[..n as usize], r)?
                }
            } else if !near.texts.is_empty() {
                let (x, y) = r.pick(near.texts).clone();
                let (x, y) = if r.one_in(2) { (y, x) } else { (x, y) };
                replace(t, &x, &y, r)?
            } else {
                return None;
            }
        }
        // characters
        23 => {
            let i = char_at(t, r.below(t.len() + 1));
            format!("{}{}{}", &t[..i], r.pick(&CHARS), &t[i..])
        }
        24 => {
            let i = char_at(t, r.below(t.len()));
            let n = t[i..].chars().next()?.len_utf8();
            let c = if r.one_in(2) { "" } else { r.pick(&CHARS) };
            format!("{}{c}{}", &t[..i], &t[i + n..])
        }
        _ => {
            // another line end, blank or none
            let v: Vec<usize> = t.bytes().enumerate().filter(|(_, c)| matches!(c, b' ' | b'\n' | b'\r' | b'\t')).map(|x| x.0).collect();
            if v.is_empty() {
                return None;
            }
            let i = *r.pick(&v);
            format!("{}{}{}", &t[..i], r.pick(&["\r\n", "\r", "\n\n", "  ", "\t", " \n", " # x\n", "\n\t", "\n#x\n"]), &t[i + 1..])
        }
    };
    (out.len() <= max && out != t).then_some(out)
}
fn replace(t: &str, x: &[u8], y: &[u8], r: &mut Rng) -> Option<String> {
    let b = t.as_bytes();
    if x.is_empty() || x.len() > b.len() {
        return None;
    }
    let at: Vec<usize> = (0..=b.len() - x.len()).filter(|i| b[*i..].starts_with(x) || (x.is_ascii() && b[*i..*i + x.len()].eq_ignore_ascii_case(x))).take(200).collect();
    if at.is_empty() {
        return None;
    }
    let i = *r.pick(&at);
    let mut o = b[..i].to_vec();
    o.extend(y);
    o.extend(&b[i + x.len()..]);
    String::from_utf8(o).ok()
}

fn vary(x: &Input, id: &str, r: &mut Rng, pool: &Pool, near: &Near, corpus: &[Input]) -> Input {
    let mut y = x.clone();
    let n = 1 + match r.below(8) {
        0..=3 => 0,
        4 | 5 => 1,
        6 => 2 + r.below(3),
        _ => r.below(10),
    };
    let max = match r.below(400) {
        0 => LONG_TEXT,
        1..=4 => MEDIUM_TEXT,
        _ => MAX_TEXT.max(x.size() + 20),
    };
    for _ in 0..n {
        if r.one_in(12) {
            let i = r.below(y.knobs.len());
            if let Some(k) = y.knobs.get_mut(i) {
                *k = r.next() as u8;
            }
            continue;
        }
        if r.one_in(30) && !corpus.is_empty() {
            // a part of another input
            let o = r.pick(corpus);
            let (i, j) = (r.below(y.texts.len()), r.below(o.texts.len()));
            if y.texts[i].0 == o.texts[j].0 {
                let (a, b) = (line_list(&y.texts[i].1), line_list(&o.texts[j].1));
                let (k, l) = (r.below(a.len() + 1), r.below(b.len() + 1));
                let t = a[..k].iter().cloned().map(ended).collect::<String>() + &b[l..].concat();
                if t.len() <= MAX_TEXT {
                    y.texts[i].1 = t;
                }
            }
            continue;
        }
        if id == "C20" && r.one_in(6) {
            match r.below(4) {
                0 if y.texts.len() > 1 => {
                    y.texts.remove(r.below(y.texts.len() - 1));
                }
                1 if y.texts.len() < 8 => {
                    let t = r.pick(&y.texts).clone();
                    y.texts.insert(0, t);
                }
                2 if !corpus.is_empty() && y.texts.len() < 8 => {
                    let o = r.pick(corpus);
                    let t = r.pick(&o.texts).clone();
                    y.texts.insert(0, t);
                }
                _ => {
                    let (i, j) = (r.below(y.texts.len()), r.below(y.texts.len()));
                    y.texts.swap(i, j);
                }
            }
            continue;
        }
        let i = r.below(y.texts.len());
        let (f, t) = &y.texts[i];
        if let Some(t) = vary_text(t, *f, r, pool, near, max) {
            y.texts[i].1 = t;
        }
    }
    y
}

// ---------------------------------------------------------------- the search

/// Removes lines, then words, from the texts of a failing input.
fn shrink(id: &str, mut x: Input, why: (Ob, String), steps: &mut u64, slot: &Slot, n: u64) -> (Ob, String) {
    let t0 = Instant::now();
    let mut best = why;
    let mut fails = |y: &Input| -> Option<(Ob, String)> {
        *steps += 1;
        let obs = make(id, y);
        slot.put(&obs, n);
        judge(&obs).err().map(|(k, w)| (obs[k].clone(), w))
    };
    for by_word in [false, true] {
        for i in 0..x.texts.len() {
            let split = |t: &str| -> Vec<String> {
                if by_word {
                    t.split_inclusive([' ', '\n', '/']).map(|s| s.to_string()).collect()
                } else {
                    line_list(t)
                }
            };
            let mut size = split(&x.texts[i].1).len();
            while size > 0 {
                let mut at = 0;
                loop {
                    let p = split(&x.texts[i].1);
                    if at >= p.len() || t0.elapsed() > Duration::from_secs(30) {
                        break;
                    }
                    let mut y = x.clone();
                    y.texts[i].1 = p[..at].concat() + &p[(at + size).min(p.len())..].concat();
                    if y.texts[i].1 == x.texts[i].1 {
                        break;
                    }
                    match fails(&y) {
                        Some(w) => {
                            best = w;
                            x = y;
                        }
                        None => at += size,
                    }
                }
                size /= 2;
            }
        }
    }
    let mut check = |o: &Ob| fails_one(o, slot, n);
    cut_text(best, t0, Duration::from_secs(60), &mut check)
}
fn fails_one(o: &Ob, slot: &Slot, n: u64) -> Option<String> {
    slot.put(std::slice::from_ref(o), n);
    judge(std::slice::from_ref(o)).err().map(|e| e.1)
}

pub fn worker(id: &str, runner: &mut TestRunner, seed: u64, execs: u64, limit: Duration, slot: &Slot) -> Report {
    let t0 = Instant::now();
    let mut rep = Report::default();
    let mut r = Rng(seed);
    let mut seen = Seen::new();
    let strat = props::strategy(id);
    let mut pool = Pool { obj: vec!["v 1 2 3\n".into()], mtl: vec!["newmtl a\n".into()], words: vec!["a".into()] };
    let mut corpus: Vec<Input> = Vec::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    // a first corpus, from the random part
    let first = match id {
        "C20" | "C21" => 60,
        _ => 400,
    };
    let mut queue: Vec<Input> = Vec::new();
    for i in 0..first {
        let c = strat.new_tree(runner).expect("HARNESS: strategy").current();
        let Some(x) = input(&c, &mut r) else { continue };
        if x.size() > MAX_TEXT {
            continue;
        }
        for (f, t) in &x.texts {
            let to = if *f == Fmt::Obj { &mut pool.obj } else { &mut pool.mtl };
            if to.len() < 1500 {
                to.extend(t.split(['\n', '\r']).filter(|l| !l.trim().is_empty() && l.len() < 200).map(|l| format!("{l}\n")));
            }
            if pool.words.len() < 1500 {
                pool.words.extend(t.split_whitespace().filter(|w| w.len() < 60).map(|w| w.to_string()));
            }
        }
        if id == "C01" && i % 2 == 0 {
            // both loaders read it; the pools know one format
            let mut y = x.clone();
            y.texts[0].0 = Fmt::Mtl;
            queue.push(y);
        } else {
            queue.push(x);
        }
    }
    let mut parent: Option<usize> = None;
    let mut near: (Vec<(u64, u64, u8)>, Vec<(Vec<u8>, Vec<u8>)>) = Default::default();
    let mut profile_kept = 0usize;
    while rep.cases < execs && t0.elapsed() < limit {
        let x = match queue.pop() {
            Some(x) => x,
            None if corpus.is_empty() => break,
            None => {
                // a handful of variations of one input, then another
                if parent.is_none() || rep.cases % 16 == 0 {
                    let n = corpus.len();
                    let mut k = n - 1;
                    for i in 0..3 {
                        let j = if r.one_in(2) { n - 1 - r.below(n.min(50)) } else { r.below(n) };
                        if i == 0 || corpus[j].size() < corpus[k].size() {
                            k = j;
                        }
                    }
                    parent = Some(k);
                    near = Default::default();
                    if r.one_in(2) {
                        let obs = make(id, &corpus[k]);
                        slot.put(&obs, rep.cases);
                        seen.reset();
                        cov::comparisons(true);
                        let _ = judge(&obs);
                        near = (cov::pairs(), cov::texts());
                        seen.gather();
                    }
                }
                vary(&corpus[parent.unwrap()], id, &mut r, &pool, &Near { pairs: &near.0, texts: &near.1 }, &corpus)
            }
        };
        rep.cases += 1;
        let obs = make(id, &x);
        if obs.is_empty() {
            slot.put(&[], rep.cases);
            *rep.tags.entry("guided, says nothing".into()).or_default() += 1;
            continue;
        }
        slot.put(&obs, rep.cases);
        let vac = ob::VACUOUS.load(Relaxed);
        seen.reset();
        cov::comparisons(rep.cases % 8 == 0);
        if let Err((k, why)) = judge(&obs) {
            rep.failure = Some(shrink(id, x, (obs[k].clone(), why), &mut rep.shrunk, slot, rep.cases));
            break;
        }
        let (new, counts, close) = seen.gather();
        if ob::VACUOUS.load(Relaxed) != vac {
            *rep.tags.entry("guided, says nothing".into()).or_default() += 1;
            continue;
        }
        let tag = if new > 0 {
            "guided, new branch"
        } else if counts > 0 {
            "guided, new number of times"
        } else if close > 0 && profile_kept < 4000 {
            profile_kept += 1;
            "guided, closer comparison"
        } else {
            "guided, nothing new"
        };
        *rep.tags.entry(tag.into()).or_default() += 1;
        if tag != "guided, nothing new" {
            hashes.insert(crate::run::hash_obs(&obs));
            if rep.samples.len() < 3 && new > 0 && rep.cases > first as u64 {
                rep.samples.push((tag.into(), ob::cut(&serde_json::to_string(&obs[0]).expect("HARNESS: json"), 700)));
            }
            corpus.push(x);
            parent = Some(corpus.len() - 1);
        }
    }
    rep.hashes = hashes.into_iter().collect();
    rep.loads = ob::LOADS.load(Relaxed);
    rep.loaded = ob::LOADED_OK.load(Relaxed);
    rep.edges = seen.edges as u64;
    rep
}
