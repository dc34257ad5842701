//! C17: text printed through sudo appears literally and completely.

use super::drv::*;
use super::util::*;
use crate::abi::*;

pub fn spec() -> Spec {
    Spec {
        id: "C17",
        needs: "pb",
        harnesses,
        assumptions: &[ONE, ENV, "sudo's printf prints some or none of its text from the front and returns how much, or nothing and a negative number", "of a text with a NUL, what precedes it may appear before the error"],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "texts", what: "all texts over an alphabet of odd pieces, through every way to print, at both levels", bound: 0, run: texts, expect: &["printed", "refused"] },
        Harness { name: "bytes", what: "all single bytes and all pairs of bytes, through every way to print", bound: 0, run: bytes, expect: &["printed", "refused"] },
        Harness { name: "lengths", what: "texts of every length up to the bound, and around every power of two", bound: 0, run: lengths, expect: &["printed"] },
        Harness { name: "constants", what: "every text the code under test is written with, and texts of every length it is, through every way to print", bound: 0, run: constants, expect: &["printed"] },
        Harness { name: "histories", what: "all sequences of prints", bound: 0, run: histories, expect: &["printed", "refused"] },
        Harness { name: "failures", what: "sequences of prints while any calls of sudo's printf fail", bound: if t { 3 } else { 2 }, run: failures, expect: &["printed", "failed"] },
        Harness { name: "shorts", what: "every way to print while sudo's printf takes only a part each time, or fails", bound: if t { 6 } else { 4 }, run: shorts, expect: &["printed", "failed"] },
        Harness { name: "absent", what: "every way to print without a printf", bound: 0, run: absent, expect: &["absent"] },
        Harness { name: "prompt", what: "the invoking user's prompt without, with an unusable and with a terminal, over all short templates", bound: 0, run: prompt, expect: &["printf", "terminal"] },
        Harness { name: "prompt-fails", what: "the prompt while writes to the terminal and calls of printf fail", bound: 3, run: prompt_fails, expect: &["printf", "terminal"] },
        Harness { name: "refusals", what: "messages about malformed facts and options that hold odd text", bound: 0, run: refusals, expect: &["reported"] },
    ]
}

const WAYS: usize = 6;
const WAY: [&str; 6] = ["write", "write_all", "write_line", "write_error", "write!", "flush"];

/// The text that is to appear: with the optional empty line, if any.
fn full(k: usize, how: u32, b: &[u8]) -> Vec<u8> {
    match how {
        0 | 1 => b.to_vec(),
        2 => [NAMES[k].as_bytes(), b": ", b, b"\n"].concat(),
        3 => [NAMES[k].as_bytes(), b": ", String::from_utf8_lossy(b).as_bytes(), b"\n"].concat(),
        4 => String::from_utf8_lossy(b).into_owned().into_bytes(),
        _ => vec![],
    }
}

fn prefix(got: &[u8], want: &[u8]) -> bool {
    want.starts_with(got)
}

/// Prints, and judges what appeared.
fn one(cx: &mut Cx, k: usize, error: bool, how: u32, b: &[u8]) -> Result<(), String> {
    let wd = w();
    wd.printed.clear();
    let before = wd.printf_calls;
    let r = print(error, how, b);
    // sudo's printf may fail, or take nothing at all of a text
    let failed = wd.printf_calls - before > wd.printed.len() || (!b.is_empty() && wd.printed.iter().any(|p| p.text.is_empty()));
    let f = || format!("{} of {:?} ({}, {})", WAY[how as usize], s(b), if error { "error" } else { "info" }, NAMES[k]);
    check(r != -4, || format!("{} panicked", f()))?;
    check(wd.printed.iter().all(|p| !p.bad), || format!("{} made printf interpret its text", f()))?;
    let want = full(k, how, b);
    let got = printed(if error { CONV_ERROR } else { CONV_INFO });
    let all: usize = wd.printed.iter().map(|p| p.text.len()).sum();
    check(all == got.len(), || format!("{} appeared at the wrong level", f()))?;
    let g: &[u8] = if how == 3 && got.first() == Some(&b'\n') { &got[1..] } else { &got };
    if how == 5 {
        cx.outcome("printed");
        return check(r == 0 && got.is_empty(), || "flush printed or failed".into());
    }
    let nul = b.contains(&0);
    if nul || failed {
        cx.outcome(if failed { "failed" } else { "refused" });
        check(prefix(g, &want), || format!("{} left {:?}", f(), s(&got)))?;
        if how == 0 && r >= 0 {
            return check(r as usize == got.len() && (r > 0 || failed), || format!("{} claims {} bytes of {}", f(), r, got.len()));
        }
        if g == &want[..] && !nul {
            // made up for
            return Ok(());
        }
        return check(r == -1, || format!("{} left {:?} and returned {}", f(), s(&got), r));
    }
    cx.outcome("printed");
    if how == 0 {
        check(r >= 0 && (r > 0 || b.is_empty()), || format!("{} returned {}", f(), r))?;
        return check(got.len() == r as usize && prefix(&got, b), || format!("{} shows {:?} and claims {} bytes", f(), s(&got), r));
    }
    check(r == 0, || format!("{} failed", f()))?;
    check(g == &want[..], || format!("{} shows {:?}", f(), s(&got)))
}

fn live(k: usize) -> Result<(), String> {
    start(false);
    let r = open_at(plugin(k), &SessIn::usual());
    w().printed.clear();
    check(r == 1, || format!("open returned {}", r))
}

const ALPHA: [&[u8]; 16] = [b"%", b"s", b"n", b"d", b"$", b"*", b"1", b".", b"l", b"\n", b"\\", b"\xff", b"\xc3\xa9", b"\0", b" ", b"{}"];

fn texts(cx: &mut Cx) -> Result<(), String> {
    let k = cx.input(2);
    let error = cx.flag();
    let how = cx.input(WAYS) as u32;
    let n = cx.qt(3, 4);
    let t = word(cx, &ALPHA, n);
    cx.describe(|| format!("{} {} {} {:?}", NAMES[k], if error { "error" } else { "info" }, WAY[how as usize], s(&t)));
    live(k)?;
    one(cx, k, error, how, &t)
}

fn bytes(cx: &mut Cx) -> Result<(), String> {
    let k = cx.input(2);
    let error = cx.flag();
    let how = cx.input(WAYS - 1) as u32;
    let a = cx.input(256) as u8;
    cx.describe(|| format!("{} {} {} byte {:#x}", NAMES[k], if error { "error" } else { "info" }, WAY[how as usize], a));
    live(k)?;
    one(cx, k, error, how, &[a])?;
    for b in 0..=255u8 {
        let wd = w();
        wd.evs.clear();
        wd.steps = 0;
        wd.printf_calls = 0;
        cx.count("texts", 1);
        one(cx, k, error, how, &[a, b])?;
    }
    Ok(())
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    let k = cx.input(2);
    let error = cx.flag();
    let how = cx.input(WAYS - 1) as u32;
    let (texts, sizes) = (crate::dict::texts(), crate::dict::near(1 << 16));
    let i = cx.input(texts.len() + sizes.len());
    let all = if i < texts.len() {
        let t = &texts[i];
        vec![t.clone(), [&t[..], b"\n"].concat(), [b"x", &t[..]].concat(), t.clone()]
    } else {
        let n = sizes[i - texts.len()] as usize;
        vec![odd(n, n), vec![b'a'; n]]
    };
    cx.describe(|| format!("{} {} {} {} bytes from {:?}", NAMES[k], if error { "error" } else { "info" }, WAY[how as usize], all[0].len(), s(&all[0][..all[0].len().min(40)])));
    live(k)?;
    for t in &all {
        let wd = w();
        wd.evs.clear();
        wd.steps = 0;
        wd.printf_calls = 0;
        one(cx, k, error, how, t)?;
    }
    Ok(())
}

fn odd(n: usize, salt: usize) -> Vec<u8> {
    const P: &[u8] = b"%s %n%d\n100% {} \\x %%p%5$s *";
    (0..n).map(|i| P[(i + salt) % P.len()]).collect()
}

fn lengths(cx: &mut Cx) -> Result<(), String> {
    let k = cx.input(2);
    let error = cx.flag();
    let how = cx.input(WAYS - 1) as u32;
    let big = cx.flag();
    let n = if big {
        let p = 1usize << (8 + cx.input(cx.qt(9, 14)));
        p - 1 + cx.input(3)
    } else {
        cx.input(cx.qt(300, 1200))
    };
    cx.describe(|| format!("{} {} {} {} bytes", NAMES[k], if error { "error" } else { "info" }, WAY[how as usize], n));
    live(k)?;
    one(cx, k, error, how, &odd(n, n))
}

const SMALL: [&[u8]; 5] = [b"plain", b"%s%n", b"", b"a\0b", b"x\n%"];

fn sequence(cx: &mut Cx, n: usize) -> Result<(), String> {
    let k = cx.input(2);
    live(k)?;
    let mut d = String::new();
    let mut res = Ok(());
    for _ in 0..n {
        let error = cx.flag();
        let how = cx.input(WAYS - 1) as u32;
        let t = *cx.pick(&SMALL);
        d.push_str(&format!("{}/{} {:?}; ", WAY[how as usize], if error { "error" } else { "info" }, s(t)));
        res = one(cx, k, error, how, t);
        if res.is_err() {
            break;
        }
    }
    cx.describe(|| format!("{}: {}", NAMES[k], d));
    res
}

fn histories(cx: &mut Cx) -> Result<(), String> {
    sequence(cx, 3)
}

fn failures(cx: &mut Cx) -> Result<(), String> {
    w().printf_menu = true;
    sequence(cx, 2)
}

fn shorts(cx: &mut Cx) -> Result<(), String> {
    let k = cx.input(2);
    let error = cx.flag();
    let how = cx.input(WAYS - 1) as u32;
    let t = *cx.pick(&[&b"ab"[..], b"plain", b"%s%n%d", b"x\n%\n", b"a\xffb\xc3\xa9", b"a\0b"]);
    cx.describe(|| format!("{}/{} {:?}", WAY[how as usize], if error { "error" } else { "info" }, s(t)));
    live(k)?;
    w().printf_menu = true;
    w().printf_short = true;
    one(cx, k, error, how, t)
}

fn absent(cx: &mut Cx) -> Result<(), String> {
    let k = cx.input(2);
    let error = cx.flag();
    let how = cx.input(WAYS) as u32;
    let t = word(cx, &ALPHA, 2);
    cx.describe(|| format!("{} {} {:?} without printf", NAMES[k], WAY[how as usize], s(&t)));
    cx.outcome("absent");
    start(false);
    let mut si = SessIn::usual();
    si.printf = false;
    let r = open_at(plugin(k), &si);
    check(r == 1, || format!("open returned {}", r))?;
    let r = print(error, how, &t);
    check(r != -4, || "panicked".into())?;
    check(w().printed.is_empty(), || "printed without a printf".into())?;
    if how != 5 && !full(k, how, &t).is_empty() {
        check(r == -1, || format!("claimed success ({})", r))?;
    }
    // and then one with a printf
    close_at(plugin(k), 0, 0);
    live(k)?;
    one(cx, k, error, 1, b"again %s")
}

fn tty(cx: &mut Cx, si: &mut SessIn) -> usize {
    let k = cx.input(4);
    match k {
        0 => {
            si.user_info.del("tty");
        }
        1 => {
            si.user_info.set("tty", "");
        }
        2 => {
            si.user_info.set("tty", format!("{}/nowhere/tty", w().scratch));
        }
        _ => {
            std::fs::write(String::from_utf8(w().tty.clone()).unwrap(), b"").unwrap();
            si.user_info.set("tty", w().tty.clone());
        }
    }
    k
}

const TTY: [&str; 4] = ["no terminal", "an empty terminal", "a terminal that cannot be opened", "a terminal"];

fn prompt(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let k = tty(cx, &mut si);
    const P: [&[u8]; 12] = [b"%%", b"s", b"n", b"%u", b"%U", b"\n", b"\xff", b"d", b"$", b"*", b"%", b"{}"];
    let n = cx.qt(3, 4);
    let t = word(cx, &P, n);
    if cx.flag() {
        si.user_info.set("user", "%s%n%p 100%");
    }
    set_tpl(false, Some(&t));
    set_tpl(true, Some(PTPL));
    cx.describe(|| format!("{}, template {:?}", TTY[k], s(&t)));
    answer(b"y");
    let r = open(&si);
    let want = expand(&t, &|c| directive(&si, b"", c));
    shown(cx, k, &want, false)?;
    check(r == 1, || format!("open returned {}", r))
}

fn shown(cx: &mut Cx, k: usize, want: &[u8], faults: bool) -> Result<(), String> {
    let wd = w();
    check(wd.printed.iter().all(|p| !p.bad), || "printf interpreted the prompt".into())?;
    check(printed(CONV_INFO).is_empty(), || "the prompt appeared as information".into())?;
    let got = printed(CONV_ERROR);
    cx.outcome(if k == 3 { "terminal" } else { "printf" });
    if faults {
        check(got == want || prefix(&got, want), || format!("{:?} appeared for {:?}", s(&got), s(want)))
    } else if k == 3 {
        check(got.is_empty() && wd.tty_bytes == want, || format!("the terminal shows {:?} and printf {:?}, not {:?}", s(&wd.tty_bytes), s(&got), s(want)))
    } else {
        check(got == want, || format!("printf shows {:?} and not {:?}", s(&got), s(want)))
    }
}

fn menu_tty(_: &World, op: &Op, v: &mut Vec<Fault>) {
    use libc::*;
    if op.cls == Cls::Tty {
        if is_write(op) {
            for e in [EIO, EAGAIN, EINTR] {
                v.push(Fault::Err(e));
            }
            if op.len > 1 {
                v.push(Fault::Short(1));
            }
        } else if op.name.starts_with("open") {
            for e in [EACCES, EMFILE, ENXIO] {
                v.push(Fault::Err(e));
            }
        }
    }
}

fn prompt_fails(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let k = tty(cx, &mut si);
    let t: &[u8] = *cx.pick(&[&b"%%s%%n %u\n"[..], b"plain", b"a\0b%%n", b""]);
    let pf = cx.flag();
    si.printf = pf;
    set_tpl(false, Some(t));
    set_tpl(true, Some(PTPL));
    cx.describe(|| format!("{}, template {:?}, {} printf", TTY[k], s(t), if pf { "with" } else { "without" }));
    answer(b"y");
    let wd = w();
    wd.printf_menu = true;
    wd.printf_short = true;
    wd.menu = Some(menu_tty);
    let r = open(&si);
    wd.menu = None;
    let want = expand(t, &|c| directive(&si, b"", c));
    shown(cx, k, &want, true)?;
    // a terminal that took all of it needs no printf, one that failed does
    let f = wd.faults_taken.iter().filter(|(_, f)| !matches!(f, Fault::Short(_)) && !matches!(f, Fault::Err(libc::EINTR))).count();
    let f = f + wd.printf_calls - wd.printed.len() + wd.printed.iter().filter(|p| p.text.is_empty()).count();
    if f == 0 && pf && !want.contains(&0) {
        let got = printed(CONV_ERROR);
        if k == 3 {
            check(wd.tty_bytes == want || got == want, || format!("the terminal shows {:?} and printf {:?}", s(&wd.tty_bytes), s(&got)))?;
        } else if wd.printf_calls == wd.printed.len() {
            check(got == want, || format!("printf shows {:?} and not {:?}", s(&got), s(&want)))?;
        }
    }
    check(r == 1, || format!("open returned {}: the prompt that could not be shown decided the session", r))
}

fn refusals(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let t = word(cx, &[b"%s", b"%n", b"%", b"\n", b"{}", b"x"], cx.qt(2, 3));
    let which = cx.input(4);
    let k = if which == 3 { 3 } else { cx.input(3) };
    let mut si = SessIn::usual();
    match which {
        0 => si.user_info.set("uid", &t),
        1 => si.user_info.set("groups", &t),
        2 => si.user_info.set("pid", [b"1", &t[..]].concat()),
        _ => si.options.set("socket_uid", [&t[..], b"x"].concat()),
    };
    if which != 3 && t.is_empty() {
        si.user_info.set("ppid", "");
    }
    cx.describe(|| format!("plugin {} fact {} holds {:?}", k, which, s(&t)));
    cx.outcome("reported");
    let r = if k == 3 { open(&si) } else { open_at(plugin(k), &si) };
    check(w().printed.iter().all(|p| !p.bad), || "printf interpreted a message".into())?;
    check(printed(CONV_INFO).is_empty(), || "an error was reported as information".into())?;
    if which == 3 {
        return Ok(());
    }
    check(r == -1, || format!("open returned {}", r))?;
    let p = printed(CONV_ERROR);
    check(p.ends_with(b"\n") && p.windows(2).any(|x| x == b": "), || format!("reported {:?}", s(&p)))
}
