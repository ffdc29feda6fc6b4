//! Literals of the sources under test: the numbers and words a change may make
//! special. They only choose inputs; no verdict depends on them.
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::OnceLock;

pub struct Dict {
    /// whole numbers that fit 32 bits, with their neighbours
    pub ints: Vec<i64>,
    /// decimal literals
    pub floats: Vec<String>,
    /// words without blanks
    pub words: Vec<String>,
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut raw = Raw::default();
        walk(Path::new("/repo/src"), &mut raw);
        let mut ints: BTreeSet<i64> = [0, 1, 2, 10].into();
        for i in &raw.ints {
            for d in -1..=1 {
                ints.insert((i + d).clamp(0, i32::MAX as i64));
            }
        }
        raw.floats.insert("0.5".into());
        let mut words: BTreeSet<String> = ["a".to_string()].into();
        for s in &raw.strings {
            for w in s.split(|c: char| c.is_whitespace()) {
                if !w.is_empty() && w.chars().count() <= 40 {
                    words.insert(w.into());
                }
            }
        }
        Dict { ints: ints.into_iter().collect(), floats: raw.floats.into_iter().collect(), words: words.into_iter().collect() }
    })
}

#[derive(Default)]
struct Raw {
    ints: BTreeSet<i64>,
    floats: BTreeSet<String>,
    strings: BTreeSet<String>,
}

fn walk(p: &Path, raw: &mut Raw) {
    let Ok(dir) = std::fs::read_dir(p) else { return };
    for e in dir.flatten() {
        let p = e.path();
        let name = e.file_name();
        if p.is_dir() {
            if name != "test" && name != "tests" {
                walk(&p, raw);
            }
        } else if p.extension().is_some_and(|x| x == "rs") && name != "test.rs" {
            if let Ok(s) = std::fs::read_to_string(&p) {
                scan(&s, raw);
            }
        }
    }
}

/// Literals of a source text, roughly: enough for choosing inputs.
fn scan(s: &str, raw: &mut Raw) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
            }
            '"' => {
                let raw_string = i > 0 && (c[i - 1] == 'r' || c[i - 1] == '#');
                let mut t = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' && !raw_string {
                        i += 1;
                        t.extend(escape(&c, &mut i));
                    } else {
                        t.push(c[i]);
                        i += 1;
                    }
                }
                i += 1;
                raw.strings.insert(t);
            }
            '\'' => {
                // a character, or a lifetime
                let mut j = i + 1;
                let ch = if c.get(j) == Some(&'\\') {
                    j += 1;
                    escape(&c, &mut j)
                } else {
                    j += 1;
                    c.get(j - 1).copied()
                };
                if c.get(j) == Some(&'\'') {
                    if let Some(ch) = ch {
                        raw.strings.insert(ch.to_string());
                    }
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let mut t = String::new();
                while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || (c[i] == '.' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit()))) {
                    t.push(c[i]);
                    i += 1;
                }
                number(&t, raw);
            }
            a if a.is_alphanumeric() || a == '_' => {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
            }
            _ => i += 1,
        }
    }
}

fn escape(c: &[char], i: &mut usize) -> Option<char> {
    let e = *c.get(*i)?;
    *i += 1;
    Some(match e {
        'n' => '\n',
        'r' => '\r',
        't' => '\t',
        '0' => '\0',
        'x' | 'u' => {
            let mut v = 0;
            let mut n = 0;
            while let Some(ch) = c.get(*i) {
                if *ch == '{' || *ch == '}' {
                    *i += 1;
                    if *ch == '}' {
                        break;
                    }
                    continue;
                }
                let Some(d) = ch.to_digit(16) else { break };
                if e == 'x' && n == 2 {
                    break;
                }
                v = v * 16 + d;
                n += 1;
                *i += 1;
            }
            char::from_u32(v)?
        }
        e => e,
    })
}

fn number(t: &str, raw: &mut Raw) {
    let t: String = t.chars().filter(|c| *c != '_').collect();
    let t = t.trim_end_matches(['u', 'i', 'f', 's', 'z', 'e']);
    let t = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "usi", "isi"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(t);
    let radix = |p: &str, r| t.strip_prefix(p).and_then(|d| i64::from_str_radix(d, r).ok());
    let v = radix("0x", 16).or_else(|| radix("0b", 2)).or_else(|| radix("0o", 8)).or_else(|| t.parse().ok());
    match v {
        Some(v) => {
            raw.ints.insert(v);
        }
        None => {
            if t.parse::<f64>().is_ok_and(|x| x.is_finite()) {
                raw.floats.insert(t.into());
            }
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn literals() {
        let mut r = Raw::default();
        scan(r#"fn f<'a>(x: &'a str) { x[1..32]; y(0xffu8, 1_000usize, 2.5f32, '\u{e9}', "a\tb c"); } // 77"#, &mut r);
        assert_eq!(r.ints.into_iter().collect::<Vec<_>>(), [1, 32, 255, 1000]);
        assert_eq!(r.floats.into_iter().collect::<Vec<_>>(), ["2.5"]);
        assert_eq!(r.strings.into_iter().collect::<Vec<_>>(), ["a\tb c", "é"]);
    }
}
