//! Literals of the sources under test, mixed into the generated inputs (the
//! dictionary of a fuzzer): a constant the code compares with is a value worth
//! trying. They only change how often valid inputs are drawn.
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Lits {
    /// Integers and their neighbours.
    pub ints: Vec<u64>,
    pub texts: Vec<String>,
    pub chars: Vec<char>,
}

pub fn lits() -> &'static Lits {
    static L: OnceLock<Lits> = OnceLock::new();
    L.get_or_init(|| {
        let mut l = Lits::default();
        for dir in dirs() {
            let mut files = vec![];
            walk(&dir.join("src"), &mut files);
            files.sort();
            for f in files {
                if let Ok(t) = std::fs::read_to_string(&f) {
                    scan(&t, &mut l);
                }
            }
        }
        l.ints.sort();
        l.ints.dedup();
        l.texts.sort();
        l.texts.dedup();
        l.chars.sort();
        l.chars.dedup();
        l
    })
}

/// Where this harness takes the crates from.
fn dirs() -> Vec<PathBuf> {
    include_str!("../Cargo.toml")
        .lines()
        .filter(|l| ["owned_subslice", "socket-io-protocol", "socket-io-client"].iter().any(|n| l.starts_with(n)))
        .filter_map(|l| l.split("path = \"").nth(1)?.split('"').next().map(PathBuf::from))
        .collect()
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(r) = std::fs::read_dir(d) else { return };
    for e in r.flatten() {
        let p = e.path();
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

/// The text without modules under #[cfg(test)] (they end at the next line that
/// is a lone brace).
fn without_tests(t: &str) -> String {
    let mut out = String::new();
    let mut skip = false;
    for l in t.lines() {
        if l.starts_with("#[cfg(test)]") {
            skip = true;
        }
        if !skip {
            out.push_str(l);
            out.push('\n');
        }
        if skip && l.starts_with('}') {
            skip = false;
        }
    }
    out
}

fn scan(t: &str, l: &mut Lits) {
    let t: Vec<char> = without_tests(t).chars().collect();
    let at = |i: usize| t.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut last: Option<(u64, usize)> = None;
    while i < t.len() {
        let c = t[i];
        if c == '/' && at(i + 1) == '/' {
            while i < t.len() && t[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && at(i + 1) == '*' {
            while i < t.len() && !(t[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '"' {
            let (s, n) = quoted(&t, i + 1, '"');
            // Formats and messages hold words; what codes compare with is short.
            if !s.is_empty() && s.len() <= 40 {
                l.texts.push(s);
            }
            i = n;
        } else if c == '\'' && (at(i + 1) == '\\' || at(i + 2) == '\'') {
            let (s, n) = quoted(&t, i + 1, '\'');
            l.chars.extend(s.chars());
            i = n;
        } else if c.is_ascii_digit() {
            let start = i;
            while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let w: String = t[start..i].iter().filter(|c| **c != '_').collect();
            if let Some(n) = number(&w) {
                let shift = last.take().filter(|(_, e)| t[*e..start].iter().collect::<String>().trim() == "<<");
                for k in [Some(n), shift.and_then(|(b, _)| b.checked_shl(n as u32))].into_iter().flatten() {
                    l.ints.extend([k.wrapping_sub(1), k, k.wrapping_add(1)]);
                }
                last = Some((n, i));
            }
        } else if c.is_alphabetic() || c == '_' {
            let start = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            let w: String = t[start..i].iter().collect();
            if matches!(w.as_str(), "r" | "br") && at(i) == '"' {
                let s = i + 1;
                i = s;
                while i < t.len() && t[i] != '"' {
                    i += 1;
                }
                l.texts.push(t[s..i].iter().collect());
                i += 1;
            } else if w == "b" && at(i) == '\'' {
                let (s, n) = quoted(&t, i + 1, '\'');
                l.chars.extend(s.chars());
                i = n;
            }
        } else {
            i += 1;
        }
    }
}

fn quoted(t: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut s = String::new();
    while i < t.len() && t[i] != end {
        if t[i] != '\\' {
            s.push(t[i]);
            i += 1;
            continue;
        }
        i += 2;
        match t.get(i - 1) {
            Some('n') => s.push('\n'),
            Some('r') => s.push('\r'),
            Some('t') => s.push('\t'),
            Some('0') => s.push('\0'),
            Some('x') => {
                let h: String = t[i..t.len().min(i + 2)].iter().collect();
                s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                i += 2;
            }
            Some('u') => {
                let h: String = t[i..].iter().take_while(|c| **c != '}').skip(1).collect();
                s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                i += h.len() + 2;
            }
            Some('\n') => {
                while t.get(i).map_or(false, |c| c.is_whitespace()) {
                    i += 1;
                }
            }
            Some(c) => s.push(*c),
            None => (),
        }
    }
    (s, i + 1)
}

fn number(w: &str) -> Option<u64> {
    let w = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"].iter().find_map(|s| w.strip_suffix(s)).unwrap_or(w);
    if let Some(h) = w.strip_prefix("0x") {
        u64::from_str_radix(h, 16).ok()
    } else if let Some(b) = w.strip_prefix("0b") {
        u64::from_str_radix(b, 2).ok()
    } else if let Some(o) = w.strip_prefix("0o") {
        u64::from_str_radix(o, 8).ok()
    } else {
        w.parse().ok()
    }
}
