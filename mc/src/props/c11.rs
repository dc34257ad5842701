//! C11: plugin errors and panics fail closed at the C boundary.

use super::drv::*;
use super::util::*;
use crate::abi::*;

pub fn spec() -> Spec {
    Spec {
        id: "C11",
        needs: "b",
        harnesses,
        assumptions: &[ONE, "plugins written with the library's macro (the probes in /verif/probe) stand for all such plugins", "a message containing NUL cannot be printed and need not be", "built with panic=unwind, as the repository builds"],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "methods", what: "every outcome of every method: success, each error status with each chain of causes, each kind of panic", bound: 0, run: methods, expect: &["ok", "error", "panic"] },
        Harness { name: "lifecycle", what: "close, show_version and drop that panic, then a fresh session", bound: 0, run: lifecycle, expect: &["ok", "panic"] },
        Harness { name: "printf", what: "each outcome while any calls of sudo's printf fail or it is absent", bound: if t { 3 } else { 2 }, run: printf, expect: &["error", "ok"] },
        Harness { name: "library", what: "errors of the library itself, turned into the plugin's", bound: 0, run: library, expect: &["refused", "mapped"] },
        Harness { name: "plain", what: "a plugin with the library's own error type", bound: 0, run: plain, expect: &["ok", "error", "panic"] },
        Harness { name: "deep", what: "errors with long chains of causes, at every method", bound: 0, run: deep, expect: &["error", "panic"] },
        Harness { name: "long", what: "more than 65536 failures and panics of one method in one session", bound: 0, run: long, expect: &["error", "panic"] },
        Harness { name: "pairs", what: "two outcomes in a row, on any two methods", bound: 0, run: pairs, expect: &["ok", "error", "panic"] },
    ]
}

const KINDS: [u64; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];

/// (class, what open is to return, what a log callback is to return)
fn expected(kind: u64, status: u64, causes: u64) -> (&'static str, i32, i32) {
    let o = [1, 0, -1, -2][status as usize & 3];
    let l = *[1, 0, -1].get(status as usize).unwrap_or(&-1);
    match kind {
        0 => ("ok", 1, 1),
        1 => ("error", o, l),
        // only the last of the causes panics when displayed
        7 if causes == 0 => ("error", o, l),
        _ => ("panic", -1, 0),
    }
}

/// Runs one callback, returns what it returned.
fn call(t: *mut IoPlugin, si: &SessIn, m: u32) -> i32 {
    match m {
        OPEN => open_at(t, si),
        3 => log_at(t, Stream::TtyIn, b"abc"),
        4 => log_at(t, Stream::TtyOut, b"abc"),
        5 => log_at(t, Stream::Stdin, b"abc"),
        6 => log_at(t, Stream::Stdout, b"abc"),
        7 => log_at(t, Stream::Stderr, b"abc"),
        _ => winsize_at(t, 24, 80),
    }
}

const CALLS: [u32; 7] = [0, 3, 4, 5, 6, 7, 8];

struct Out {
    kind: u64,
    status: u64,
    causes: u64,
    text: u64,
}

fn outcome(cx: &mut Cx, m: u32, small: bool) -> Out {
    let kind = KINDS[cx.input(KINDS.len())];
    let err = matches!(kind, 1 | 6 | 7 | 8);
    let status = if err { cx.input(if m == OPEN { 4 } else { 3 }) as u64 } else { 0 };
    let n = cx.qt(5, 12);
    let causes = if err { cx.input(if small { 3 } else { n }) as u64 } else { 0 };
    let text = if kind == 1 && !small { cx.input(7) as u64 } else { 0 };
    Out { kind, status, causes, text }
}

fn judge(k: usize, m: u32, o: &Out, r: i32, exact: bool) -> Result<(), String> {
    let (cl, wo, wl) = expected(o.kind, o.status, o.causes);
    let want = if m == OPEN { wo } else { wl };
    check(r == want, || format!("{} returned {}, not {}", METHODS[m as usize], r, want))?;
    if exact && o.text != 2 {
        match cl {
            "ok" => check(w().printed.is_empty(), || "printed though nothing failed".into())?,
            "error" => check_reported(NAMES[k], &(0..=o.causes).map(|i| text(o.text, i)).collect::<Vec<_>>())?,
            // the reporting of an error that cannot be displayed is cut short
            _ => {}
        }
    }
    Ok(())
}

fn all_hints(si: &mut SessIn) {
    for h in HINTS {
        si.command_info.set(h, "true");
    }
}

fn methods(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let m = CALLS[cx.input(7)];
    let o = outcome(cx, m, false);
    let mut si = SessIn::usual();
    all_hints(&mut si);
    cx.describe(|| format!("{} {} kind {} status {} causes {} text {}", NAMES[k], METHODS[m as usize], o.kind, o.status, o.causes, o.text));
    cx.outcome(expected(o.kind, o.status, o.causes).0);
    let t = plugin(k);
    if m != OPEN {
        let r = open_at(t, &si);
        check(r == 1, || format!("open returned {}", r))?;
    }
    w().printed.clear();
    drv().code[m as usize] = code(o.kind, o.status, o.causes, o.text);
    let r = call(t, &si, m);
    judge(k, m, &o, r, true)?;
    // the process is still whole: the next session works
    drv().code = [0; 10];
    close_at(t, 0, 0);
    let r = open_at(t, &si);
    check(r == 1, || format!("the next open returned {}", r))?;
    let r = log_at(t, Stream::TtyOut, b"x");
    check(r == 1, || format!("the next session's output got {}", r))?;
    close_at(t, 0, 0);
    Ok(())
}

fn pairs(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let mut si = SessIn::usual();
    all_hints(&mut si);
    let t = plugin(k);
    let r = open_at(t, &si);
    check(r == 1, || format!("open returned {}", r))?;
    let n = cx.qt(2, 2);
    let mut d = String::new();
    let mut res = Ok(());
    for _ in 0..n {
        let m = CALLS[1 + cx.input(6)];
        let o = outcome(cx, m, true);
        d.push_str(&format!("{} kind {} status {} causes {}; ", METHODS[m as usize], o.kind, o.status, o.causes));
        w().printed.clear();
        drv().code[m as usize] = code(o.kind, o.status, o.causes, 0);
        let r = call(t, &si, m);
        drv().code = [0; 10];
        cx.outcome(expected(o.kind, o.status, o.causes).0);
        res = judge(k, m, &o, r, true);
        if res.is_err() {
            break;
        }
    }
    cx.describe(|| d);
    res
}

fn lifecycle(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let m = *cx.pick(&[CLOSE, VERSION, DROP, 100]);
    let kind = *cx.pick(&[0u64, 2, 3, 4, 5, 9]);
    let si = SessIn::usual();
    let t = plugin(k);
    cx.describe(|| format!("{} method {} kind {}", NAMES[k], m, kind));
    cx.outcome(if kind == 0 { "ok" } else { "panic" });
    let r = open_at(t, &si);
    check(r == 1, || format!("open returned {}", r))?;
    let mi = if m == 100 { DROP } else { m };
    drv().code[mi as usize] = kind;
    match m {
        VERSION => {
            let v = cx.input(2) as i32;
            let r = version_at(t, v);
            let want = if kind == 0 { 1 } else { -1 };
            check(r == want, || format!("show_version returned {}, not {}", r, want))?;
            close_at(t, 0, 0);
        }
        CLOSE => close_at(t, 3, 4),
        DROP => close_at(t, 3, 4),
        // dropped by the next open
        _ => {
            let r = open_at(t, &si);
            check(r == 1 || (kind != 0 && r == -1), || format!("the next open returned {}", r))?;
        }
    }
    drv().code = [0; 10];
    close_at(t, 0, 0);
    take();
    let r = open_at(t, &si);
    check(r == 1, || format!("the next open returned {}", r))?;
    let r = log_at(t, Stream::TtyOut, b"x");
    check(r == 1, || format!("the next session's output got {}", r))?;
    close_at(t, 1, 2);
    let ms: Vec<u32> = take().iter().map(|r| r.method).collect();
    check(ms == [OPEN, 4, CLOSE, DROP], || format!("the next session made the calls {:?}", ms))
}

fn printf(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let m = CALLS[cx.input(7)];
    let o = Out { kind: *cx.pick(&[0, 1, 2]), status: cx.input(3) as u64, causes: cx.input(3) as u64, text: 0 };
    let absent = cx.flag();
    let mut si = SessIn::usual();
    si.printf = !absent;
    all_hints(&mut si);
    let t = plugin(k);
    if m != OPEN {
        let r = open_at(t, &si);
        check(r == 1, || format!("open returned {}", r))?;
    }
    w().printed.clear();
    drv().code[m as usize] = code(o.kind, o.status, o.causes, 0);
    w().printf_menu = true;
    let r = call(t, &si, m);
    w().printf_menu = false;
    let failed = w().printf_calls as usize != w().printed.len();
    cx.describe(|| format!("{} {} kind {} status {} causes {} printf absent {} failing {}", NAMES[k], METHODS[m as usize], o.kind, o.status, o.causes, absent, failed));
    let (cl, _, _) = expected(o.kind, o.status, o.causes);
    cx.outcome(cl);
    judge(k, m, &o, r, !absent && !failed)
}

fn library(cx: &mut Cx) -> Result<(), String> {
    let (so, sl) = (cx.input(4) as u8, cx.input(3) as u8);
    start_from(false, so, sl);
    let k = cx.input(3);
    let mut si = SessIn::usual();
    si.printf = !cx.flag();
    let what = cx.input(8);
    let names: Vec<String> = match what {
        0 => {
            si.version = mkversion(1, 8);
            vec!["1.8".into(), "1.9".into()]
        }
        1 => {
            si.version = 0;
            vec!["0.0".into(), "1.9".into()]
        }
        2 => {
            si.settings.del("plugin_dir");
            vec!["plugin_dir".into()]
        }
        3 => {
            si.settings.del("progname");
            vec!["progname".into()]
        }
        4 => {
            si.user_info.del("uid");
            vec!["uid".into()]
        }
        5 => {
            si.user_info.set("uid", "x y");
            vec!["uid".into(), "x y".into()]
        }
        6 => {
            si.user_info.set("groups", "1,2,%s");
            vec!["groups".into(), "1,2,%s".into()]
        }
        _ => {
            si.user_info.set("cwd", b"\xff");
            vec!["cwd".into()]
        }
    };
    let t = plugin(k);
    let r = open_at(t, &si);
    let want = if k == 2 { -1 } else { [1, 0, -1, -2][so as usize] };
    cx.describe(|| format!("{} mistake {} statuses {} {}", NAMES[k], what, so, sl));
    cx.outcome(if want == -1 { "refused" } else { "mapped" });
    check(r == want, || format!("open returned {}, not {}", r, want))?;
    check(take().is_empty(), || "plugin code ran".into())?;
    if si.printf {
        let g = printed(CONV_ERROR);
        let g: &[u8] = if g.first() == Some(&b'\n') { &g[1..] } else { &g };
        let gs = String::from_utf8_lossy(g).into_owned();
        check(gs.starts_with(&format!("{}: ", NAMES[k])) && gs.ends_with('\n') && gs.matches('\n').count() == 1, || format!("reported {:?}", gs))?;
        for n in names {
            check(gs.contains(&n), || format!("the message {:?} does not name {:?}", gs, n))?;
        }
        check(w().printed.iter().all(|p| !p.bad && p.ty == CONV_ERROR), || "not printed properly".into())?;
    }
    // callbacks after the refusal are refused, without a crash
    for st in STREAMS {
        let r = log_at(t, st, b"x");
        check(r == 0, || format!("{:?} after a refused open returned {}", st, r))?;
    }
    let r = winsize_at(t, 1, 2);
    check(r == 0, || format!("resize after a refused open returned {}", r))?;
    close_at(t, 0, 0);
    check(take().is_empty(), || "plugin code ran".into())
}

fn plain(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let at_open = cx.flag();
    let o = cx.input(4) as u64;
    let mut si = SessIn::usual();
    all_hints(&mut si);
    let t = plugin(2);
    cx.describe(|| format!("at open {} outcome {}", at_open, o));
    cx.outcome(["ok", "error", "error", "panic"][o as usize]);
    let r;
    if at_open {
        drv().code[0] = o;
        r = open_at(t, &si);
        check(r == if o == 0 { 1 } else { -1 }, || format!("open returned {}", r))?;
    } else {
        let r0 = open_at(t, &si);
        check(r0 == 1, || format!("open returned {}", r0))?;
        drv().code[4] = o;
        r = log_at(t, Stream::TtyOut, b"x");
        check(r == if o == 0 { 1 } else { 0 }, || format!("log_ttyout returned {}", r))?;
        // the methods it does not have accept
        for st in [Stream::TtyIn, Stream::Stdin, Stream::Stdout, Stream::Stderr] {
            let r = log_at(t, st, b"x");
            check(r == 1, || format!("{:?} returned {}", st, r))?;
        }
        let r = winsize_at(t, 3, 4);
        check(r == 1, || format!("resize returned {}", r))?;
    }
    if matches!(o, 1) {
        check_reported("plain", &["other".to_string()])?;
    }
    if !at_open {
        w().printed.clear();
        let r = version_at(t, cx.input(2) as i32);
        check(r == 1, || format!("show_version returned {}", r))?;
        let p = String::from_utf8_lossy(&printed(CONV_INFO)).into_owned();
        check(p.contains("plain") && p.contains("1.2.3-c"), || format!("show_version printed {:?}", p))?;
    }
    close_at(t, 0, 0);
    let r = version_at(t, 0);
    check(r == -1, || format!("show_version without a session returned {}", r))
}

fn deep(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let m = CALLS[cx.input(7)];
    let kind = *cx.pick(&[1u64, 7]);
    let causes = *cx.pick(&[15u64, 16, 31, 32, 63, 64, 99, 100, 127, 128, 254, 255]);
    let status = cx.input(if m == OPEN { 4 } else { 3 }) as u64;
    let o = Out { kind, status, causes, text: cx.input(2) as u64 };
    let mut si = SessIn::usual();
    all_hints(&mut si);
    cx.describe(|| format!("{} {} kind {} status {} causes {}", NAMES[k], METHODS[m as usize], kind, status, causes));
    cx.outcome(expected(kind, status, causes).0);
    if m != OPEN {
        let r = open_at(plugin(k), &si);
        check(r == 1, || format!("open returned {}", r))?;
    }
    w().printed.clear();
    drv().code[m as usize] = code(kind, status, causes, o.text);
    let r = call(plugin(k), &si, m);
    judge(k, m, &o, r, true)
}

fn long(cx: &mut Cx) -> Result<(), String> {
    start(false);
    let k = cx.input(2);
    let m = CALLS[1 + cx.input(6)];
    let kind = *cx.pick(&[1u64, 2]);
    let status = if kind == 1 { cx.input(3) as u64 } else { 0 };
    let o = Out { kind, status, causes: 1, text: 0 };
    let n = if kind == 1 { 70_000 } else { 7_000 };
    let mut si = SessIn::usual();
    all_hints(&mut si);
    cx.describe(|| format!("{} {} kind {} status {} {} times", NAMES[k], METHODS[m as usize], kind, status, n));
    cx.outcome(expected(kind, status, 1).0);
    let r = open_at(plugin(k), &si);
    check(r == 1, || format!("open returned {}", r))?;
    for i in 0..n {
        w().printed.clear();
        w().evs.clear();
        fresh_limits();
        drv().code[m as usize] = code(kind, status, 1, 0);
        let r = call(plugin(k), &si, m);
        take();
        judge(k, m, &o, r, true).map_err(|e| format!("time {}: {}", i, e))?;
    }
    drv().code = [0; 10];
    let r = call(plugin(k), &si, m);
    check(r == 1, || format!("a success after all of them returned {}", r))
}
