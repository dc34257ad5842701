//! C12: each callback reaches its own method with the exact data.

use super::drv::*;
use super::util::*;

pub fn spec() -> Spec {
    Spec {
        id: "C12",
        needs: "b",
        harnesses,
        assumptions: &[ONE, "plugins written with the library's macro (the probes in /verif/probe) stand for all such plugins", "buffers up to 1 MiB (quick) or 16 MiB; sudo's own are at most 64 KiB"],
    }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "sequences", what: "all sequences of callbacks under all 32 hints, for a plugin that honours them and one that ignores them", bound: 0, run: sequences, expect: &["reached", "withheld"] },
        Harness { name: "hints", what: "every notation of each stream's hint", bound: 0, run: hints, expect: &["reached", "withheld"] },
        Harness { name: "defaults", what: "a plugin that defines only one stream's method and leaves all else as the library has it, under all 32 hints", bound: 0, run: defaults, expect: &["reached", "withheld"] },
        Harness { name: "lengths", what: "buffer lengths around every power of two, on every stream", bound: 0, run: lengths, expect: &["reached"] },
        Harness { name: "bytes", what: "all short buffers over all bytes", bound: 0, run: bytes, expect: &["reached"] },
        Harness { name: "constants", what: "every number the code under test is written with as a length, a size and a verbosity, every text as a buffer, for every stream and kind of method", bound: 0, run: constants, expect: &["reached"] },
        Harness { name: "winsize", what: "all pairs of boundary sizes", bound: 0, run: winsizes, expect: &["reached"] },
        Harness { name: "versions", what: "every verbosity of a version display, with and without a command", bound: 0, run: versions, expect: &["reached"] },
        Harness { name: "long", what: "sessions of more than 65536 callbacks of one kind, and of all kinds in turn", bound: 0, run: long, expect: &["reached"] },
    ]
}

fn open_ok(k: usize, si: &SessIn) -> Result<(), String> {
    let r = open_at(plugin(k), si);
    check(r == 1, || format!("open returned {}", r))?;
    let c = calls();
    check(c.len() == 1 && c[0].method == OPEN && c[0].plugin == k as u32, || format!("open made the calls {}", show(&c)))
}

/// Exactly this call was made (or none).
fn exactly(k: usize, want: Option<(u32, &[u8], i64, i64)>, tag: i64) -> Result<(), String> {
    let c = take();
    match want {
        None => check(c.is_empty(), || format!("the plugin was called: {}", show(&c))),
        Some((m, data, a, b)) => {
            check(c.len() == 1, || format!("{} calls: {}", c.len(), show(&c)))?;
            let r = &c[0];
            check(r.plugin == k as u32 && r.method == m, || format!("{} of plugin {} was called for {}", METHODS[r.method as usize], r.plugin, METHODS[m as usize]))?;
            if m == WINSIZE {
                check(r.a == a && r.b == b, || format!("told ({}, {}), not ({}, {})", r.a, r.b, a, b))
            } else {
                check(r.data == data, || format!("got {} bytes {:?}, not {} bytes {:?}", r.data.len(), s(&r.data), data.len(), s(data)))?;
                check(r.a == tag, || "with another session's environment".into())
            }
        }
    }
}

fn sequences(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let bits = cx.input(32);
    let mut si = SessIn::usual();
    set_hints(&mut si, bits);
    si.options.set("tag", "77");
    open_ok(k, &si)?;
    let n = cx.qt(3, 5);
    let mut d = String::new();
    let mut res = Ok(());
    for i in 0..n {
        let c = cx.input(6);
        if c < 5 {
            let st = STREAMS[c];
            let b = pattern(17 + 13 * i, i + 1);
            let r = log_at(plugin(k), st, &b);
            let on = k == 1 || bits >> c & 1 == 1;
            d.push_str(&format!("{:?} ", st));
            cx.outcome(if on { "reached" } else { "withheld" });
            res = check(r == 1, || format!("{:?} returned {}", st, r)).and_then(|_| exactly(k, if on { Some((method_of(st), &b, 0, 0)) } else { None }, 77));
        } else {
            let r = winsize_at(plugin(k), 10 + i as u32, 90 + i as u32);
            d.push_str("winsize ");
            res = check(r == 1, || format!("resize returned {}", r)).and_then(|_| exactly(k, Some((WINSIZE, &[], 10 + i as i64, 90 + i as i64)), 77));
        }
        if res.is_err() {
            break;
        }
    }
    cx.describe(|| format!("{} hints {:05b}: {}", NAMES[k], bits, d));
    res
}

fn hints(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let c = cx.input(5);
    let st = STREAMS[c];
    let mut si = SessIn::usual();
    // the others the other way round
    let others = cx.flag();
    for h in STREAMS {
        si.command_info.set(hint_of(h), if others { "true" } else { "false" });
    }
    const V: [Option<&[u8]>; 9] = [None, Some(b"true"), Some(b"false"), Some(b""), Some(b"True"), Some(b"1"), Some(b"true "), Some(b"\xff"), Some(b"falsetrue")];
    let v: Option<&[u8]> = *cx.pick(&V);
    si.command_info.del(hint_of(st));
    if let Some(v) = v {
        si.command_info.set(hint_of(st), v);
    }
    open_ok(k, &si)?;
    let on = k == 1 || v == Some(b"true");
    cx.describe(|| format!("{} {:?} hint {:?} others {}", NAMES[k], st, v.map(s), others));
    cx.outcome(if on { "reached" } else { "withheld" });
    let b = pattern(9, 4);
    let r = log_at(plugin(k), st, &b);
    check(r == 1, || format!("{:?} returned {}", st, r))?;
    exactly(k, if on { Some((method_of(st), &b, 0, 0)) } else { None }, -1)?;
    for o in STREAMS {
        if o == st {
            continue;
        }
        let on = k == 1 || others;
        let r = log_at(plugin(k), o, &b);
        check(r == 1, || format!("{:?} returned {}", o, r))?;
        exactly(k, if on { Some((method_of(o), &b, 0, 0)) } else { None }, -1)?;
    }
    Ok(())
}

/// What a plugin leaves out is accepted, and the hints are honoured.
fn defaults(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let bits = cx.input(32);
    let mut si = SessIn::usual();
    set_hints(&mut si, bits);
    open_ok(2, &si)?;
    let n = cx.qt(2, 3);
    let mut d = String::new();
    for i in 0..n {
        let c = cx.input(6);
        if c == 5 {
            let r = winsize_at(plugin(2), 10, 20);
            d.push_str("winsize ");
            check(r == 1, || format!("a resize returned {}", r))?;
            exactly(2, None, -1)?;
            continue;
        }
        let st = STREAMS[c];
        let b = pattern(11 + i, i + 2);
        let r = log_at(plugin(2), st, &b);
        d.push_str(&format!("{:?} ", st));
        let on = st == Stream::TtyOut && bits >> c & 1 == 1;
        cx.outcome(if on { "reached" } else { "withheld" });
        check(r == 1, || format!("{:?} returned {}", st, r))?;
        let got = take();
        check(got.len() == on as usize && got.iter().all(|r| r.plugin == 2 && r.method == 4 && r.data == b), || format!("{:?} with hints {:05b}: the calls {}", st, bits, show(&got)))?;
    }
    cx.describe(|| format!("hints {:05b}: {}", bits, d));
    Ok(())
}

fn reach(cx: &mut Cx, k: usize, st: Stream, b: &[u8]) -> Result<(), String> {
    cx.outcome("reached");
    let r = log_at(plugin(k), st, b);
    check(r == 1, || format!("{:?} returned {}", st, r))?;
    exactly(k, Some((method_of(st), b, 0, 0)), -1)
}

fn lengths(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let st = STREAMS[cx.input(5)];
    let mut v: Vec<usize> = vec![];
    for e in 0..=cx.qt(20, 24) {
        let p = 1usize << e;
        v.extend([p - 1, p, p + 1]);
    }
    v.sort();
    v.dedup();
    let n = *cx.pick(&v);
    let salt = cx.input(2);
    let mut si = SessIn::usual();
    set_hints(&mut si, 31);
    open_ok(k, &si)?;
    cx.describe(|| format!("{} {:?} {} bytes", NAMES[k], st, n));
    let b = if salt == 0 { pattern(n, 3) } else { vec![0u8; n] };
    reach(cx, k, st, &b)?;
    // and again, so that nothing is kept from the first
    let b2 = pattern(n.min(100), 5);
    reach(cx, k, st, &b2)
}

fn bytes(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let st = STREAMS[cx.input(5)];
    let hi = cx.input(256) as u8;
    let mut si = SessIn::usual();
    set_hints(&mut si, 31);
    open_ok(k, &si)?;
    cx.describe(|| format!("{} {:?} first byte {:#x}", NAMES[k], st, hi));
    reach(cx, k, st, &[hi])?;
    for lo in 0..=255u8 {
        reach(cx, k, st, &[hi, lo])?;
    }
    cx.count("buffers", 257);
    Ok(())
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let mut si = SessIn::usual();
    set_hints(&mut si, 31);
    let c = cx.input(7);
    if c < 5 {
        let st = STREAMS[c];
        let sizes = crate::dict::near(1 << 20);
        let texts = crate::dict::texts();
        let i = cx.input(sizes.len() + texts.len());
        open_ok(k, &si)?;
        if i < sizes.len() {
            let n = sizes[i] as usize;
            cx.describe(|| format!("{} {:?} {} bytes", NAMES[k], st, n));
            reach(cx, k, st, &pattern(n, 3))?;
            return reach(cx, k, st, &vec![b'a'; n]);
        }
        let t = &texts[i - sizes.len()];
        cx.describe(|| format!("{} {:?} {:?}", NAMES[k], st, s(t)));
        for b in [&t[..], &[&t[..], b"\n"].concat(), &[b"x", &t[..]].concat(), t] {
            reach(cx, k, st, b)?;
        }
        return Ok(());
    }
    let v = crate::dict::near(u32::MAX as u64);
    if c == 5 {
        let (a, b) = (*cx.pick(&v) as u32, *cx.pick(&v) as u32);
        open_ok(k, &si)?;
        cx.describe(|| format!("{} {}x{}", NAMES[k], a, b));
        cx.outcome("reached");
        let r = winsize_at(plugin(k), a, b);
        check(r == 1, || format!("resize returned {}", r))?;
        return exactly(k, Some((WINSIZE, &[], a as i64, b as i64)), -1);
    }
    si.options.set("tag", "78");
    let a = *cx.pick(&v) as i32;
    let r = open_at(plugin(k), &si);
    check(r == 1, || format!("open returned {}", r))?;
    take();
    cx.describe(|| format!("{} verbosity {}", NAMES[k], a));
    cx.outcome("reached");
    let r = version_at(plugin(k), a);
    check(r == 1, || format!("show_version returned {}", r))?;
    let c = take();
    check(c.len() == 1 && c[0].method == VERSION && c[0].plugin == k as u32 && c[0].b == 78 && c[0].a == (a != 0) as i64, || format!("show_version({}) made the calls {}", a, show(&c)))
}

fn winsizes(cx: &mut Cx) -> Result<(), String> {
    start(false);
    const V: [u32; 16] = [0, 1, 24, 80, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let k = cx.input(2);
    let bits = *cx.pick(&[0usize, 31]);
    let mut si = SessIn::usual();
    set_hints(&mut si, bits);
    open_ok(k, &si)?;
    let (l, c) = (*cx.pick(&V), *cx.pick(&V));
    cx.describe(|| format!("{} hints {} {}x{}", NAMES[k], bits, l, c));
    cx.outcome("reached");
    let r = winsize_at(plugin(k), l, c);
    check(r == 1, || format!("resize returned {}", r))?;
    exactly(k, Some((WINSIZE, &[], l as i64, c as i64)), -1)
}

fn versions(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let mut si = SessIn::usual();
    set_hints(&mut si, *cx.pick(&[0usize, 31]));
    si.options.set("tag", "78");
    let bare = cx.flag();
    if bare {
        si.command_info.del("command");
    }
    let r = open_at(plugin(k), &si);
    check(r == 1, || format!("open returned {}", r))?;
    take();
    const V: [i32; 8] = [0, 1, 2, -1, 256, 65536, i32::MIN, i32::MAX];
    let (a, b) = (*cx.pick(&V), *cx.pick(&V));
    cx.describe(|| format!("{} {} verbosities {} {}", NAMES[k], if bare { "without a command" } else { "with one" }, a, b));
    cx.outcome("reached");
    for v in [a, b] {
        let r = version_at(plugin(k), v);
        check(r == 1, || format!("show_version returned {}", r))?;
        let c = take();
        check(c.len() == 1 && c[0].method == VERSION && c[0].plugin == k as u32 && c[0].b == 78, || format!("show_version made the calls {}", show(&c)))?;
        check(c[0].a == (v != 0) as i64, || format!("show_version({}) told the plugin {}", v, if c[0].a != 0 { "verbose" } else { "terse" }))?;
    }
    Ok(())
}

fn long(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    // one kind, all in turn, or all but the hints of every second withheld
    let kind = cx.input(8);
    let bits = if kind == 7 { 0b10101 } else { 31 };
    let n = 70_000 * cx.qt(1, 4);
    let mut si = SessIn::usual();
    set_hints(&mut si, bits);
    cx.describe(|| format!("{} kind {} {} callbacks", NAMES[k], kind, n));
    cx.outcome("reached");
    open_ok(k, &si)?;
    for i in 0..n {
        let c = if kind < 6 { kind } else { i * 5 % 6 };
        let at = |e: String| format!("callback {}: {}", i, e);
        if c == 5 {
            let r = winsize_at(plugin(k), i as u32, (n - i) as u32);
            check(r == 1, || format!("resize {} returned {}", i, r))?;
            exactly(k, Some((WINSIZE, &[], i as i64, (n - i) as i64)), -1).map_err(at)?;
        } else {
            let st = STREAMS[c];
            let b = pattern(1 + i % 9, i);
            let r = log_at(plugin(k), st, &b);
            check(r == 1, || format!("{:?} {} returned {}", st, i, r))?;
            let on = k == 1 || bits >> c & 1 == 1;
            exactly(k, if on { Some((method_of(st), &b, 0, 0)) } else { None }, -1).map_err(at)?;
        }
        w().evs.clear();
        fresh_limits();
    }
    close_at(plugin(k), 0, 0);
    Ok(())
}
