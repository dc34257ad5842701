//! C14: option lists from sudo are decoded exactly.

use super::drv::*;
use super::util::*;

pub fn spec() -> Spec {
    Spec { id: "C14", needs: "b", harnesses, assumptions: &["a number written with a plus sign, minus zero for an unsigned type, and an empty list text may be read or rejected"] }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "words", what: "all pairs of entries over the alphabet k = v 0x80 up to the bound, looked up by every such word", bound: 0, run: words, expect: &["found", "absent"] },
        Harness { name: "lists", what: "lists of up to four entries from a varied pool", bound: 0, run: lists, expect: &["found", "absent", "null"] },
        Harness { name: "sizes", what: "lists of every length up to the bound and around powers of two, with long keys and values", bound: 0, run: sizes, expect: &["found", "absent"] },
        Harness { name: "bytes", what: "every byte in a key, in a value, and as the value's start and end", bound: 0, run: bytes, expect: &["found"] },
        Harness { name: "numbers", what: "all short texts over signs, digits and rubbish, read as every type", bound: 0, run: numbers, expect: &["value", "rejected"] },
        Harness { name: "limits", what: "numbers at and around the limits of every type, in several spellings", bound: 0, run: limits, expect: &["value", "rejected"] },
        Harness { name: "constants", what: "every text the code under test is written with as key, value and bare entry; every number as a value of every type and as a list's length", bound: 0, run: constants, expect: &["found", "absent", "value", "rejected"] },
        Harness { name: "listvalues", what: "all short lists over elements good and bad, read as every list type", bound: 0, run: listvalues, expect: &["value", "rejected"] },
        Harness { name: "many", what: "list values of sizes around every power of two, one element anywhere in them wrong or none, read as every list type", bound: 0, run: many, expect: &["value", "rejected"] },
        Harness { name: "texts", what: "booleans, strings and paths", bound: 0, run: texts, expect: &["value", "rejected"] },
        Harness { name: "edits", what: "values of all kinds with any one byte inserted, changed or gone anywhere, read as every type", bound: 0, run: edits, expect: &["value", "rejected"] },
        Harness { name: "addrs", what: "lists of network addresses", bound: 0, run: addrs, expect: &["value", "rejected"] },
    ]
}

/// The reference: last entry with the key wins.
fn lookup(l: &[Vec<u8>], key: &[u8]) -> Option<Vec<u8>> {
    let mut r = None;
    for e in l {
        let (k, v) = match e.iter().position(|c| *c == b'=') {
            Some(p) => (&e[..p], &e[p + 1..]),
            None => (&e[..], &e[..]),
        };
        if k == key {
            r = Some(v.to_vec());
        }
    }
    r
}

fn esc(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in b {
        match c {
            b'\n' => o.extend(b"\\n"),
            b'\\' => o.extend(b"\\\\"),
            c => o.push(*c),
        }
    }
    o
}

fn compare(cx: &mut Cx, m: &mut Map, l: &[Vec<u8>], key: &[u8]) -> Result<(), String> {
    let want = lookup(l, key);
    cx.outcome(if want.is_some() { "found" } else { "absent" });
    let got = m.get(1, key);
    match (&want, &got) {
        (None, Err(-3)) => {}
        (Some(v), Ok(g)) if esc(v) == *g => {}
        _ => return Err(format!("key {:?} of {:?}: got {:?}, not {:?}", s(key), l.iter().map(|e| s(e)).collect::<Vec<_>>(), got.map(|g| s(&g)), want.map(|v| s(&v)))),
    }
    if let Ok(k) = std::str::from_utf8(key) {
        let want = want.filter(|v| std::str::from_utf8(v).is_ok());
        let got = m.get(0, k.as_bytes());
        match (&want, &got) {
            (None, Err(-3)) => {}
            (Some(v), Ok(g)) if esc(v) == *g => {}
            _ => return Err(format!("text of key {:?}: got {:?}, not {:?}", s(key), got.map(|g| s(&g)), want.map(|v| s(&v)))),
        }
        // and typed
        let got = m.get(11, k.as_bytes());
        match (&want, &got) {
            (None, Err(-1..=-1)) | (None, Err(-2)) => {}
            (Some(v), Ok(g)) if esc(v) == *g => {}
            _ => return Err(format!("String at key {:?}: got {:?}, not {:?}", s(key), got.map(|g| s(&g)), want.map(|v| s(&v)))),
        }
    }
    Ok(())
}

fn all_words(alpha: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = vec![];
        for w in &last {
            for c in alpha {
                let mut x = w.clone();
                x.push(*c);
                next.push(x);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn words(cx: &mut Cx) -> Result<(), String> {
    let n = cx.qt(3, 4);
    let v = all_words(b"k=v\x80", n);
    let keys = all_words(b"k=v\x80", n.min(3));
    let a = v[cx.input(v.len())].clone();
    let b = if cx.flag() { None } else { Some(v[cx.input(v.len())].clone()) };
    let mut l = vec![a];
    l.extend(b);
    cx.describe(|| format!("{:?}", l.iter().map(|e| s(e)).collect::<Vec<_>>()));
    let mut m = Map::new(Some(&l));
    for k in &keys {
        compare(cx, &mut m, &l, k)?;
    }
    cx.count("lookups", keys.len() as u64);
    Ok(())
}

fn lists(cx: &mut Cx) -> Result<(), String> {
    let pool: Vec<&[u8]> = vec![b"", b"=", b"a", b"a=", b"=b", b"a=1", b"a=2", b"a=1=2", b"b=1", b"A=3", b"a =4", b" a=5", b"\xc3\xa9=\xc3\xbc", b"ab=6", b"a\n=7", b"a==", b"b"];
    let keys: Vec<&[u8]> = vec![b"", b"=", b"a", b"b", b"A", b"a ", b" a", b"\xc3\xa9", b"ab", b"a\n", b"a=1", b"1", b"a=", b"\xc3"];
    let n = cx.input(cx.qt(4, 5) + 1);
    if n == 0 {
        let null = cx.flag();
        let mut m = Map::new(if null { None } else { Some(&[]) });
        cx.outcome("null");
        for k in &keys {
            compare(cx, &mut m, &[], k)?;
        }
        return Ok(());
    }
    let l: Vec<Vec<u8>> = (0..n).map(|_| cx.pick(&pool).to_vec()).collect();
    cx.describe(|| format!("{:?}", l.iter().map(|e| s(e)).collect::<Vec<_>>()));
    let mut m = Map::new(Some(&l));
    for k in &keys {
        compare(cx, &mut m, &l, k)?;
    }
    cx.count("lookups", keys.len() as u64);
    Ok(())
}

fn sizes(cx: &mut Cx) -> Result<(), String> {
    let mut ns: Vec<usize> = (0..cx.qt(140, 600)).collect();
    ns.extend([255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65536]);
    let n = *cx.pick(&ns);
    let len = *cx.pick(&[0usize, 1, 100, 255, 256, 1023, 4096, 8191, 16000]);
    if n * len > 16 << 20 {
        return Ok(());
    }
    let dup = cx.flag();
    let mut l: Vec<Vec<u8>> = (0..n).map(|i| [format!("k{}=", i).as_bytes(), &pattern(len, i).iter().map(|b| b | 1).collect::<Vec<u8>>()[..]].concat()).collect();
    if dup {
        l.push(b"k0=again".to_vec());
        let mut long = vec![b'K'; len];
        long.extend(b"=v");
        l.push(long);
    }
    cx.describe(|| format!("{} entries of {} bytes{}", n, len, if dup { " and the first key again" } else { "" }));
    let mut m = Map::new(Some(&l));
    for k in [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] {
        compare(cx, &mut m, &l, format!("k{}", k).as_bytes())?;
    }
    compare(cx, &mut m, &l, &vec![b'K'; len])
}

fn bytes(cx: &mut Cx) -> Result<(), String> {
    let c = cx.input(255) as u8 + 1;
    let d = cx.input(255) as u8 + 1;
    let where_ = cx.input(4);
    let e: Vec<u8> = match where_ {
        0 => vec![b'k', c, b'x', b'=', d, b'v'],
        1 => vec![b'k', b'=', c, d],
        2 => vec![c, d],
        _ => vec![b'k', b'=', b'v', b' ', c, b' ', d],
    };
    let l = vec![b"before=1".to_vec(), e.clone(), b"zz=2".to_vec()];
    cx.describe(|| s(&e));
    let mut m = Map::new(Some(&l));
    let k: Vec<u8> = e.iter().take_while(|c| **c != b'=').cloned().collect();
    for k in [&k[..], b"k", b"before", b"zz"] {
        compare(cx, &mut m, &l, k)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ typed

/// Signedness and width of the integer types, by number.
fn int_of(ty: u32) -> Option<(bool, u32)> {
    Some(match ty {
        3 | 13 => (true, 8),
        4 | 14 | 22 => (false, 8),
        5 | 15 => (true, 16),
        6 | 16 => (false, 16),
        7 | 17 | 23 => (true, 32),
        8 | 18 => (false, 32),
        9 | 19 => (true, 64),
        10 | 20 => (false, 64),
        _ => return None,
    })
}

#[derive(Debug, Clone, PartialEq)]
enum Want {
    Val(String),
    No,
    Either(String),
}

pub fn int(signed: bool, bits: u32, t: &[u8]) -> Option<(i128, bool)> {
    // (value, may also be rejected)
    let (neg, plus, d) = match t.first() {
        Some(b'-') => (true, false, &t[1..]),
        Some(b'+') => (false, true, &t[1..]),
        _ => (false, false, t),
    };
    if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
        return None;
    }
    let z = d.iter().position(|c| *c != b'0').unwrap_or(d.len());
    let d = &d[z..];
    if d.len() > 25 {
        return None;
    }
    let v: i128 = if d.is_empty() { 0 } else { std::str::from_utf8(d).unwrap().parse().unwrap() };
    let v = if neg { -v } else { v };
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    if v < lo || v > hi {
        return None;
    }
    Some((v, plus || (neg && !signed)))
}

fn want_int(ty: u32, t: &[u8]) -> Want {
    let (sg, b) = int_of(ty).unwrap();
    match int(sg, b, t) {
        None => Want::No,
        Some((v, false)) => Want::Val(v.to_string()),
        Some((v, true)) => Want::Either(v.to_string()),
    }
}

fn want_list(ty: u32, t: &[u8]) -> Want {
    let mut out: Vec<i128> = vec![];
    let mut either = false;
    if t.is_empty() {
        return Want::Either("[]".into());
    }
    let (sg, b) = int_of(ty).unwrap();
    for e in t.split(|c| *c == b',') {
        match int(sg, b, e) {
            None => return Want::No,
            Some((v, e)) => {
                either |= e;
                out.push(v)
            }
        }
    }
    if ty >= 22 {
        out.sort();
        out.dedup();
    }
    let x = format!("[{}]", out.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(";"));
    if either { Want::Either(x) } else { Want::Val(x) }
}

fn judge(cx: &mut Cx, ty: u32, t: &[u8], want: Want, got: Result<Vec<u8>, i64>) -> Result<(), String> {
    if let Err(e) = got {
        if !(-2..=-1).contains(&e) && e != -5 {
            return Err(format!("reading {:?} as type {} panicked", s(t), ty));
        }
    }
    let g = got.ok().map(|g| String::from_utf8_lossy(&g).into_owned());
    let ok = match &want {
        Want::Val(v) => g.as_ref() == Some(v),
        Want::No => g.is_none(),
        Want::Either(v) => g.is_none() || g.as_ref() == Some(v),
    };
    cx.outcome(if g.is_some() { "value" } else { "rejected" });
    check(ok, || format!("{:?} read as {} gave {:?}, not {:?}", s(t), TYPES[ty as usize], g, want))
}

const TYPES: [&str; 25] = [
    "text", "bytes", "bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "String", "PathBuf", "Vec<i8>", "Vec<u8>", "Vec<i16>", "Vec<u16>", "Vec<i32>", "Vec<u32>", "Vec<i64>", "Vec<u64>", "Vec<PathBuf>", "HashSet<u8>", "HashSet<i32>", "Vec<NetAddr>",
];

fn as_all_ints(cx: &mut Cx, t: &[u8]) -> Result<(), String> {
    let mut e = b"key=".to_vec();
    e.extend(t);
    let mut m = Map::new(Some(&[b"kez=5".to_vec(), e]));
    for ty in 3..=10 {
        let g = m.get(ty, b"key");
        judge(cx, ty, t, want_int(ty, t), g)?;
    }
    for ty in (13..=20).chain(22..=23) {
        let g = m.get(ty, b"key");
        judge(cx, ty, t, want_list(ty, t), g)?;
    }
    // missing
    for ty in 2..=24 {
        let g = m.get(ty, b"ke");
        check(matches!(g, Err(-1) | Err(-2) | Err(-5)), || format!("an absent key was read as {:?}", g))?;
    }
    Ok(())
}

fn numbers(cx: &mut Cx) -> Result<(), String> {
    const ALPHA: &[u8] = b"0159-+ x.\x80";
    let n = cx.input(cx.qt(5, 6));
    let t: Vec<u8> = (0..n).map(|_| *cx.pick(ALPHA)).collect();
    cx.describe(|| s(&t));
    as_all_ints(cx, &t)
}

fn limits(cx: &mut Cx) -> Result<(), String> {
    let mut base: Vec<i128> = vec![];
    for b in [7u32, 8, 15, 16, 31, 32, 63, 64] {
        for d in -2..=2i128 {
            base.push((1i128 << b) + d);
            base.push(-(1i128 << b) + d);
        }
    }
    base.extend([0, 10, 99, 100, 1 << 65, -(1 << 65), 1 << 80]);
    let v = *cx.pick(&base);
    let t = match cx.input(10) {
        0 => v.to_string(),
        1 => format!("+{}", v),
        2 => format!(" {}", v),
        3 => format!("{} ", v),
        4 => if v < 0 { format!("-0{}", -v) } else { format!("0{}", v) },
        5 => if v < 0 { format!("-{:040}", -v) } else { format!("{:040}", v) },
        6 => format!("{}.0", v),
        7 => format!("{:#x}", v),
        8 => format!("{}e0", v),
        _ => format!("{}\n", v),
    };
    cx.describe(|| t.clone());
    as_all_ints(cx, t.as_bytes())
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    let texts = crate::dict::texts();
    match cx.input(4) {
        0 | 1 => {
            let t = cx.pick(texts);
            let given = [&t[..], b"=v"].concat();
            let twice = [&t[..], b"=", t].concat();
            let as_value = [b"key=", &t[..]].concat();
            cx.describe(|| s(t));
            let mut bare = t.clone();
            if let Some(p) = t.iter().position(|c| *c == b'=') {
                bare.truncate(p);
            }
            for l in [vec![t.clone()], vec![given.clone()], vec![as_value.clone()], vec![given, t.clone(), as_value.clone()], vec![t.clone(), twice], vec![b"key=1".to_vec(), as_value.clone(), b"k=2".to_vec()]] {
                let mut m = Map::new(Some(&l));
                for k in [&t[..], &bare, b"key", b"k", b"v"] {
                    compare(cx, &mut m, &l, k)?;
                }
            }
            let mut m = Map::new(Some(&[as_value]));
            let g = m.get(2, b"key");
            judge(cx, 2, t, match &t[..] { b"true" => Want::Val("true".into()), b"false" => Want::Val("false".into()), _ => Want::No }, g)?;
            for ty in [11, 12] {
                let g = m.get(ty, b"key");
                let want = match std::str::from_utf8(t) {
                    Ok(x) => Want::Val(x.replace('\\', "\\\\").replace('\n', "\\n")),
                    Err(_) => Want::No,
                };
                judge(cx, ty, t, want, g)?;
            }
            as_all_ints(cx, t)
        }
        2 => {
            let n = *cx.pick(&crate::dict::near(u64::MAX));
            let t = match cx.input(3) {
                0 => n.to_string(),
                1 => format!("-{}", n),
                _ => format!("{}", n as u128 * 2),
            };
            cx.describe(|| t.clone());
            as_all_ints(cx, t.as_bytes())
        }
        _ => {
            let n = *cx.pick(&crate::dict::near(1 << 16)) as usize;
            cx.describe(|| format!("{} entries", n));
            let l: Vec<Vec<u8>> = (0..n).map(|i| format!("k{}={}", i, i + 1).into_bytes()).collect();
            let mut m = Map::new(Some(&l));
            for k in [0, 1, n / 2, n.saturating_sub(1), n] {
                compare(cx, &mut m, &l, format!("k{}", k).as_bytes())?;
            }
            Ok(())
        }
    }
}

fn listvalues(cx: &mut Cx) -> Result<(), String> {
    const EL: [&[u8]; 12] = [b"1", b"0", b"255", b"256", b"-1", b"", b" 2", b"x", b"65536", b"4294967295", b"4294967296", b"\xff"];
    const SEP: [&[u8]; 5] = [b",", b", ", b";", b" ", b"|"];
    let n = 1 + cx.input(cx.qt(3, 4));
    let sep = *cx.pick(&SEP);
    let mut t = vec![];
    for i in 0..n {
        if i > 0 {
            t.extend(sep);
        }
        t.extend(*cx.pick(&EL));
    }
    cx.describe(|| s(&t));
    as_all_ints(cx, &t)?;
    let mut e = b"key=".to_vec();
    e.extend(&t);
    let mut m = Map::new(Some(&[e]));
    let g = m.get(21, b"key");
    let want = match std::str::from_utf8(&t) {
        Err(_) => Want::No,
        Ok("") => Want::Either("[]".into()),
        Ok(x) => Want::Val(format!("[{}]", x.split(',').collect::<Vec<_>>().join(";"))),
    };
    if t.is_empty() {
        return Ok(());
    }
    judge(cx, 21, &t, want, g)
}

fn many(cx: &mut Cx) -> Result<(), String> {
    let mut ns = vec![3usize, 10, 100, 1000];
    for k in 2..=cx.qt(12, 16) {
        ns.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let n = *cx.pick(&ns);
    let bad: &[u8] = *cx.pick(&[&b""[..], b"x", b" 1", b"300", b"-1", b"99999999999999999999", b"\xff", b"5"]);
    let at = *cx.pick(&[0, n / 2, n - 2, n - 1]);
    let mut t = vec![];
    for i in 0..n {
        if i > 0 {
            t.push(b',');
        }
        if i == at { t.extend(bad) } else { t.extend((i % 128).to_string().bytes()) }
    }
    cx.describe(|| format!("{} elements, element {} {:?}", n, at, s(bad)));
    let mut m = Map::new(Some(&[[b"key=", &t[..]].concat()]));
    for ty in (13..=20).chain(22..=23) {
        judge(cx, ty, &t, want_list(ty, &t), m.get(ty, b"key"))?;
    }
    let want = match std::str::from_utf8(&t) {
        Err(_) => Want::No,
        Ok(x) => Want::Val(format!("[{}]", x.replace(',', ";"))),
    };
    judge(cx, 21, &t, want, m.get(21, b"key"))?;
    // the same count of addresses
    let a: Vec<String> = (0..n).map(|i| if i == at && bad != b"5" { "10.0.0.1".into() } else { format!("10.0.{}.{}/255.0.0.0", i / 256 % 256, i % 256) }).collect();
    let a = a.join(" ");
    let mut m = Map::new(Some(&[format!("key={}", a).into_bytes()]));
    judge(cx, 24, a.as_bytes(), match want_addrs(&a) { None => Want::No, Some(v) => Want::Val(v) }, m.get(24, b"key"))
}

fn texts(cx: &mut Cx) -> Result<(), String> {
    const V: [&[u8]; 22] = [
        b"true", b"false", b"", b"True", b"FALSE", b"t", b"1", b"0", b"yes", b"no", b"on", b" true", b"true ", b"true\n", b"truefalse", b"tru", b"/bin/a b", b"\xff", b"true\xff", b"\xc3\xa9", b"a=b", b"key",
    ];
    let bare = cx.flag();
    let t = *cx.pick(&V);
    if bare && t.contains(&b'=') {
        return Ok(());
    }
    let mut e = b"key=".to_vec();
    e.extend(t);
    let (l, key): (Vec<Vec<u8>>, &[u8]) = if bare { (vec![t.to_vec()], t) } else { (vec![e], b"key") };
    if std::str::from_utf8(key).is_err() {
        return Ok(());
    }
    cx.describe(|| format!("{} bare {}", s(t), bare));
    let mut m = Map::new(Some(&l));
    let g = m.get(2, key);
    judge(cx, 2, t, match t { b"true" => Want::Val("true".into()), b"false" => Want::Val("false".into()), _ => Want::No }, g)?;
    for ty in [11, 12] {
        let g = m.get(ty, key);
        let want = match std::str::from_utf8(t) {
            Ok(x) => Want::Val(x.replace('\\', "\\\\").replace('\n', "\\n")),
            Err(_) => Want::No,
        };
        judge(cx, ty, t, want, g)?;
    }
    Ok(())
}

fn addrs(cx: &mut Cx) -> Result<(), String> {
    const EL: [&str; 16] = [
        "10.0.0.1/255.0.0.0", "::1/ffff::", "fe80::1/ffff:ffff:ffff:ffff::", "0.0.0.0/0.0.0.0", "10.0.0.1", "/", "10.0.0.1/", "/255.0.0.0", "10.0.0.1/8", "10.0.0.256/255.0.0.0", "10.0.0.1/255.0.0.0/1", "", "x", "10.0.0.1 /255.0.0.0", "::g/::", "10.0.0.1/255.0.0.0,10.0.0.2/255.0.0.0",
    ];
    let n = 1 + cx.input(3);
    let mut t = String::new();
    for i in 0..n {
        if i > 0 {
            t.push(' ');
        }
        t.push_str(*cx.pick(&EL));
    }
    cx.describe(|| t.clone());
    let mut m = Map::new(Some(&[format!("key={}", t).into_bytes()]));
    let g = m.get(24, b"key");
    let w = want_addrs(&t);
    let w = match w {
        _ if t.is_empty() => Want::Either("[]".into()),
        None => Want::No,
        Some(v) => Want::Val(v),
    };
    judge(cx, 24, t.as_bytes(), w, g)
}

fn edits(cx: &mut Cx) -> Result<(), String> {
    const BASE: [&str; 12] = ["true", "false", "12", "-12", "255", "65535", "1,2", "7,-8,9", "/a,/b", "10.0.0.1/255.0.0.0", "::1/ffff::", "10.0.0.1/255.0.0.0 ::1/ffff::"];
    let mut t = cx.pick(&BASE).as_bytes().to_vec();
    let at = cx.input(t.len() + 1);
    let op = cx.input(3);
    if op > 0 && at == t.len() {
        return Ok(());
    }
    match op {
        0 => t.insert(at, 1 + cx.input(255) as u8),
        1 => t[at] = 1 + cx.input(255) as u8,
        _ => {
            t.remove(at);
        }
    }
    cx.describe(|| s(&t));
    as_all_ints(cx, &t)?;
    let mut m = Map::new(Some(&[[b"key=", &t[..]].concat()]));
    let txt = std::str::from_utf8(&t).ok();
    judge(cx, 2, &t, match &t[..] { b"true" => Want::Val("true".into()), b"false" => Want::Val("false".into()), _ => Want::No }, m.get(2, b"key"))?;
    for ty in [11, 12] {
        judge(cx, ty, &t, txt.map_or(Want::No, |x| Want::Val(x.replace('\\', "\\\\").replace('\n', "\\n"))), m.get(ty, b"key"))?;
    }
    judge(cx, 24, &t, txt.and_then(want_addrs).map_or(Want::No, Want::Val), m.get(24, b"key"))
}

pub fn want_addrs(t: &str) -> Option<String> {
    let mut out = vec![];
    for e in t.split(' ') {
        let p: Vec<&str> = e.split('/').collect();
        if p.len() != 2 {
            return None;
        }
        let a: std::net::IpAddr = p[0].parse().ok()?;
        let k: std::net::IpAddr = p[1].parse().ok()?;
        out.push(format!("{}/{}", a, k));
    }
    Some(format!("[{}]", out.join(";")))
}
