//! The constants of the code under test.  What a program compares its input
//! with is often written in its text, so its numbers and texts are inputs
//! worth trying, next to the fixed ones.  Nothing is judged by them.

use std::sync::OnceLock;

pub struct Dict {
    pub ints: Vec<u64>,
    pub texts: Vec<Vec<u8>>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| {
        let mut d = Dict { ints: vec![], texts: vec![] };
        let repo = unsafe { (*std::ptr::addr_of!(crate::SCRIPT)).repo.clone() };
        for dir in ["sudo_pair/src", "sudo_plugin/src", "sudo_plugin-sys/src", "examples"] {
            walk(&std::path::Path::new(&repo).join(dir), &mut d);
        }
        d.ints.sort_unstable();
        d.ints.dedup();
        let mut seen = std::collections::HashSet::new();
        // (the harnesses' own place for no program)
        d.texts.retain(|t| seen.insert(t.clone()) && !t.starts_with(b"/scratch/nowhere"));
        d.ints.truncate(100);
        d.texts.truncate(400);
        d
    })
}

/// The numbers and their neighbours, up to a limit.
pub fn near(max: u64) -> Vec<u64> {
    let mut v: Vec<u64> = dict().ints.iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1)]).filter(|n| *n <= max).collect();
    v.sort_unstable();
    v.dedup();
    v
}

/// The texts one might be compared with, and some that invite it.
pub fn texts() -> &'static [Vec<u8>] {
    static T: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut t: Vec<Vec<u8>> = ["root", "admin", "test", "localhost", "/root", "/dev/tty", "/dev/null", "sudo", "on", "yes", "-1"].iter().map(|x| x.as_bytes().to_vec()).collect();
        let mut more: Vec<Vec<u8>> = dict().texts.iter().filter(|x| x.len() <= 40 && !t.contains(x)).cloned().collect();
        t.append(&mut more);
        t
    })
}

/// Texts and numbers alike, as texts.
pub fn words() -> &'static [Vec<u8>] {
    static T: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = texts().to_vec();
        for n in near(u64::MAX) {
            let n = n.to_string().into_bytes();
            if !t.contains(&n) {
                t.push(n);
            }
        }
        t
    })
}

fn walk(p: &std::path::Path, d: &mut Dict) {
    let mut all: Vec<_> = std::fs::read_dir(p).into_iter().flatten().flatten().map(|e| e.path()).collect();
    all.sort();
    for f in all {
        let name = f.file_name().unwrap_or_default().to_string_lossy().into_owned();
        if f.is_dir() {
            if !["bindings", "target", "tests", "benches"].contains(&name.as_str()) {
                walk(&f, d);
            }
        } else if name.ends_with(".rs") && name != "build.rs" {
            scan(&std::fs::read(&f).unwrap_or_default(), d);
        }
    }
}

#[derive(PartialEq)]
enum Tok {
    Num(u64),
    Text(Vec<u8>),
    Op(u8),
    Other,
}

fn scan(src: &[u8], d: &mut Dict) {
    // the unit tests' own constants are of no interest
    let cut = src.windows(17).position(|w| w == b"#[cfg(test)]\nmod ").unwrap_or(src.len());
    let toks = lex(&src[..cut]);
    for (i, t) in toks.iter().enumerate() {
        match t {
            Tok::Num(n) => {
                d.ints.push(*n);
                // 8 * 1024, 1 << 20
                if let (Some(Tok::Op(o)), Some(Tok::Num(m))) = (toks.get(i + 1), toks.get(i + 2)) {
                    match o {
                        b'*' => {
                            d.ints.push(n.saturating_mul(*m));
                            if let (Some(Tok::Op(b'*')), Some(Tok::Num(k))) = (toks.get(i + 3), toks.get(i + 4)) {
                                d.ints.push(n.saturating_mul(*m).saturating_mul(*k));
                            }
                        }
                        b'<' if *m < 64 => d.ints.push(n << m),
                        b'+' => d.ints.push(n.saturating_add(*m)),
                        b'-' => d.ints.push(n.saturating_sub(*m)),
                        _ => (),
                    }
                }
            }
            Tok::Text(t) => {
                let t = t.strip_suffix(b"\0").unwrap_or(t);
                if !t.is_empty() && t.len() <= 100 && !t.contains(&0) {
                    d.texts.push(t.to_vec());
                }
            }
            _ => (),
        }
    }
}

fn lex(s: &[u8]) -> Vec<Tok> {
    let mut o = vec![];
    let mut i = 0;
    let ident = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
    while i < s.len() {
        let c = s[i];
        let next = s.get(i + 1).copied().unwrap_or(0);
        if c == b'/' && next == b'/' {
            while i < s.len() && s[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && next == b'*' {
            i += 2;
            while i < s.len() && !s[i..].starts_with(b"*/") {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let (t, n) = text(&s[i + 1..], b'"');
            o.push(Tok::Text(t));
            i += 1 + n;
        } else if c == b'r' && (next == b'"' || next == b'#') || c == b'b' && next == b'r' {
            let mut j = i + if c == b'b' { 2 } else { 1 };
            let h = s[j..].iter().take_while(|c| **c == b'#').count();
            j += h;
            if s.get(j) == Some(&b'"') {
                let end = [&b"\""[..], &vec![b'#'; h]].concat();
                let n = s[j + 1..].windows(end.len()).position(|w| w == &end[..]).unwrap_or(0);
                o.push(Tok::Text(s[j + 1..j + 1 + n].to_vec()));
                i = j + 1 + n + end.len();
            } else {
                i += 1;
                while i < s.len() && ident(s[i]) {
                    i += 1;
                }
                o.push(Tok::Other);
            }
        } else if c == b'\'' {
            // a character or a lifetime
            if next == b'\\' || s.get(i + 2) == Some(&b'\'') {
                let (t, n) = text(&s[i + 1..], b'\'');
                if t.len() == 1 {
                    o.push(Tok::Num(t[0] as u64));
                }
                o.push(Tok::Text(t));
                i += 1 + n;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let j = i;
            while i < s.len() && ident(s[i]) {
                i += 1;
            }
            if let Some(n) = number(&s[j..i]) {
                o.push(Tok::Num(n));
            }
        } else if c == b'b' && (next == b'"' || next == b'\'') {
            i += 1;
        } else if ident(c) {
            while i < s.len() && ident(s[i]) {
                i += 1;
            }
            o.push(Tok::Other);
        } else {
            if !c.is_ascii_whitespace() {
                o.push(Tok::Op(c));
            }
            if c == b'<' && next == b'<' {
                i += 1;
            }
            i += 1;
        }
    }
    o
}

/// The text up to the closing quote, and what it takes.
fn text(s: &[u8], q: u8) -> (Vec<u8>, usize) {
    let mut t = vec![];
    let mut i = 0;
    while i < s.len() && s[i] != q {
        if s[i] == b'\\' {
            i += 1;
            match s.get(i) {
                Some(b'n') => t.push(b'\n'),
                Some(b'r') => t.push(b'\r'),
                Some(b't') => t.push(b'\t'),
                Some(b'0') => t.push(0),
                Some(b'x') => {
                    t.push(s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()).unwrap_or(0));
                    i += 2;
                }
                Some(b'\n') => {
                    while i + 1 < s.len() && s[i + 1].is_ascii_whitespace() {
                        i += 1;
                    }
                }
                Some(c) => t.push(*c),
                None => (),
            }
        } else {
            t.push(s[i]);
        }
        i += 1;
    }
    (t, i + 1)
}

fn number(s: &[u8]) -> Option<u64> {
    let t: String = std::str::from_utf8(s).ok()?.replace('_', "");
    let t = ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(&t).to_string();
    for (p, r) in [("0x", 16), ("0o", 8), ("0b", 2)] {
        if let Some(h) = t.strip_prefix(p) {
            return u64::from_str_radix(h, r).ok();
        }
    }
    t.parse().ok()
}
