//! C19: the example plugin denies every command.
#![allow(static_mut_refs)]

use super::util::*;
use crate::abi::*;
use crate::wraps;
use libc::c_char;

pub fn spec() -> Spec {
    Spec {
        id: "C19",
        needs: "d",
        harnesses,
        assumptions: &[ONE, "before API 1.17 sudo passes check no error-string pointer: what is found in its place points into an inaccessible page", "which of the refusals (0 or a negative number) check returns is not judged"],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "histories", what: "all histories of open, check, show_version and close up to the bound", bound: 0, run: histories, expect: &["refused", "told", "error string", "none"] },
        Harness { name: "versions", what: "every minor version of the first majors, every major with boundary minors", bound: 0, run: versions, expect: &["told", "error string", "none"] },
        Harness { name: "printf", what: "histories while any calls of printf fail", bound: if t { 3 } else { 2 }, run: printf, expect: &["refused", "error string"] },
        Harness { name: "arguments", what: "all short argument lists, empty and null lists", bound: 0, run: arguments, expect: &["refused"] },
        Harness { name: "constants", what: "every text and number the code under test is written with, wherever sudo tells the plugin something", bound: 0, run: constants, expect: &["refused", "told", "error string"] },
        Harness { name: "long", what: "more than 65536 commands put to one plugin, opened once or anew each time", bound: 0, run: long, expect: &["refused", "told"] },
    ]
}

fn table() -> *mut ApprovalPlugin {
    deny_sym("deny_everything") as *mut ApprovalPlugin
}

/// An address whose use is a crash.
fn poison() -> *mut *const c_char {
    static mut P: *mut libc::c_void = std::ptr::null_mut();
    unsafe {
        if P.is_null() {
            P = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        }
        (P as *mut u8).add(64) as *mut *const c_char
    }
}

struct Lists {
    st: Arr,
    ui: Arr,
    ci: Arr,
    av: Arr,
    ev: Arr,
    nulls: bool,
    n: i32,
}

impl Lists {
    fn usual() -> Lists {
        let si = SessIn::usual();
        Lists::of(&si)
    }
    fn of(si: &SessIn) -> Lists {
        Lists { st: arr(&si.settings.0), ui: arr(&si.user_info.0), ci: arr(&si.command_info.0), av: arr(&si.argv), ev: arr(&si.env.0), nulls: false, n: si.argv.len() as i32 }
    }
    fn p(&self, a: &Arr) -> Strs {
        if self.nulls { std::ptr::null() } else { a.p.as_ptr() }
    }
}

fn open(l: &Lists, v: u32, pf: bool) -> Result<(), String> {
    let wd = w();
    let mut es: *const c_char = std::ptr::null();
    let f = unsafe { (*table()).open.ok_or("no open")? };
    wd.active = true;
    wd.total_steps += 1;
    let e = if v >= mkversion(1, 15) { &mut es as *mut _ } else { poison() };
    let r = unsafe { f(v, Some(wraps::sudo_conv), if pf { Some(wraps::sudo_printf) } else { None }, l.p(&l.st), l.p(&l.ui), l.n, l.p(&l.av), l.p(&l.ev), std::ptr::null(), e) };
    wd.active = false;
    wd.leave(&Op::new("open", Cls::None).arg(v as u64), r as i64, 0, false);
    check(r == 1, || format!("open returned {}", r))
}

/// One command put to the plugin; `v` and `pf` as of the last open.
fn ask(cx: &mut Cx, l: &Lists, v: Option<u32>, pf: bool) -> Result<(), String> {
    let wd = w();
    wd.printed.clear();
    let calls = wd.printf_calls;
    let new = v.is_some_and(|v| v >= mkversion(1, 17));
    static SENTINEL: [u8; 1] = [0];
    let sent = SENTINEL.as_ptr() as *const c_char;
    let mut es: *const c_char = sent;
    let f = unsafe { (*table()).check.ok_or("no check")? };
    wd.active = true;
    wd.total_steps += 1;
    let r = unsafe { f(l.p(&l.ci), l.p(&l.av), l.p(&l.ev), if new { &mut es } else { poison() }) };
    wd.active = false;
    wd.leave(&Op::new("check", Cls::None).arg(new as u64), r as i64, 0, false);
    cx.outcome("refused");
    check(r == 0 || r == -1 || r == -2, || format!("check returned {}", r))?;
    check(wd.printed.iter().all(|p| !p.bad), || "printf was given a format its arguments do not fit".into())?;
    let failed = wd.printf_calls - calls > wd.printed.len();
    if pf && v.is_some() {
        let t: Vec<u8> = wd.printed.iter().flat_map(|p| p.text.clone()).collect();
        check(failed || t.iter().any(|c| c.is_ascii_alphanumeric()), || format!("the user was told {:?}", s(&t)))?;
        cx.outcome("told");
    }
    if new {
        if es != sent {
            let e = unsafe { wraps::cstr(es) };
            check(!es.is_null() && e.iter().any(|c| c.is_ascii_alphanumeric()), || format!("the error string is {:?}", s(&e)))?;
            cx.outcome("error string");
        } else {
            check(!pf, || "sudo's error string was not set".into())?;
        }
    } else {
        cx.outcome("none");
    }
    Ok(())
}

fn version(verbose: i32) -> Result<(), String> {
    let wd = w();
    if let Some(f) = unsafe { (*table()).show_version } {
        wd.printed.clear();
        wd.active = true;
        wd.total_steps += 1;
        let r = unsafe { f(verbose) };
        wd.active = false;
        wd.leave(&Op::new("show_version", Cls::None), r as i64, 0, false);
        check(wd.printed.iter().all(|p| !p.bad), || "printf was given a format its arguments do not fit".into())?;
    }
    Ok(())
}

fn close() {
    let wd = w();
    if let Some(f) = unsafe { (*table()).close } {
        wd.active = true;
        unsafe { f() };
        wd.active = false;
    }
}

const V: [(u32, u32); 6] = [(1, 17), (1, 16), (0, 0), (1, 15), (2, 0), (65535, 65535)];

fn history(cx: &mut Cx, n: usize) -> Result<(), String> {
    let l = Lists::usual();
    let mut st: (Option<u32>, bool) = (None, false);
    let mut d = String::new();
    let mut res = Ok(());
    for _ in 0..n {
        let o = cx.input(2 * V.len() + 4);
        res = if o < 2 * V.len() {
            let (a, b) = V[o / 2];
            let pf = o % 2 == 0;
            d.push_str(&format!("open({}.{}{}) ", a, b, if pf { "" } else { ", no printf" }));
            st = (Some(mkversion(a, b)), pf);
            open(&l, mkversion(a, b), pf)
        } else {
            match o - 2 * V.len() {
                0 => {
                    d.push_str("check ");
                    ask(cx, &l, st.0, st.1)
                }
                1 => {
                    d.push_str("close ");
                    close();
                    Ok(())
                }
                o => {
                    d.push_str("version ");
                    version(o as i32 - 2)
                }
            }
        };
        if res.is_err() {
            break;
        }
    }
    // every history ends with a command
    if res.is_ok() {
        d.push_str("check");
        res = ask(cx, &l, st.0, st.1);
    }
    cx.describe(|| d.clone());
    res
}

fn histories(cx: &mut Cx) -> Result<(), String> {
    history(cx, cx.qt(4, 5))
}

fn printf(cx: &mut Cx) -> Result<(), String> {
    w().printf_menu = true;
    history(cx, 3)
}

const MINORS: [u32; 13] = [0, 1, 2, 9, 14, 15, 16, 17, 18, 255, 256, 32768, 65535];

fn versions(cx: &mut Cx) -> Result<(), String> {
    let pf = cx.flag();
    let l = Lists::usual();
    let block = cx.input(256) as u32;
    let sel = cx.input(cx.qt(4, 8) + MINORS.len()) as u32;
    cx.describe(|| format!("block {} of {}", block, sel));
    for i in block * 256..(block + 1) * 256 {
        let v = if (sel as usize) < MINORS.len() { mkversion(i, MINORS[sel as usize]) } else { mkversion(sel - MINORS.len() as u32, i) };
        let wd = w();
        wd.evs.clear();
        wd.printf_calls = 0;
        wd.steps = 0;
        cx.count("versions", 1);
        let say = |m| format!("version {}.{}: {}", v >> 16, v & 0xffff, m);
        open(&l, v, pf).map_err(say)?;
        ask(cx, &l, Some(v), pf).map_err(say)?;
    }
    Ok(())
}

fn arguments(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    const A: [&[u8]; 5] = [b"", b"sudo", b"%s%n", b"\xff", b"-x"];
    let n = cx.input(4);
    si.argv = (0..n).map(|_| cx.pick(&A).to_vec()).collect();
    match cx.input(3) {
        1 => {
            si.settings.0.clear();
            si.user_info.0.clear();
            si.command_info.0.clear();
            si.env.0.clear();
        }
        2 => {
            si.command_info.set("command", "%n");
            si.command_info.set("runas_uid", "1000");
            si.user_info.set("uid", "0");
        }
        _ => {}
    }
    let mut l = Lists::of(&si);
    l.nulls = cx.flag();
    let v = if cx.flag() { mkversion(1, 17) } else { mkversion(1, 15) };
    let pf = cx.flag();
    cx.describe(|| format!("{:?} {}", si.argv.iter().map(|a| s(a)).collect::<Vec<_>>(), if l.nulls { "null lists" } else { "" }));
    open(&l, v, pf)?;
    ask(cx, &l, Some(v), pf)?;
    ask(cx, &l, Some(v), pf)
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    let mut v = if cx.flag() { mkversion(1, 17) } else { mkversion(1, 15) };
    let pf = cx.flag();
    let place = cx.input(super::c15::keys() + 6);
    let d;
    if place < super::c15::keys() {
        let (l, k) = super::c15::key(place);
        let t = cx.pick(crate::dict::words());
        [&mut si.settings, &mut si.user_info, &mut si.command_info][l].set(k, t);
        d = format!("{}={}", k, s(t));
    } else if place < super::c15::keys() + 5 {
        let t = cx.pick(crate::dict::texts());
        match place - super::c15::keys() {
            0 => si.argv = vec![t.clone()],
            1 => si.argv.push(t.clone()),
            2 => si.env.0.push([&t[..], b"=1"].concat()),
            3 => si.command_info.0.push([&t[..], b"=true"].concat()),
            _ => si.settings.0.push([&t[..], b"=true"].concat()),
        }
        d = format!("place {} {}", place - super::c15::keys(), s(t));
    } else {
        let n = *cx.pick(&crate::dict::near(u32::MAX as u64)) as u32;
        v = match cx.input(3) {
            0 => n,
            1 => mkversion(1, n & 0xffff),
            _ => mkversion(n & 0xffff, 17),
        };
        d = format!("version {:#x}", v);
    }
    cx.describe(|| d.clone());
    let l = Lists::of(&si);
    open(&l, v, pf)?;
    ask(cx, &l, Some(v), pf)?;
    ask(cx, &l, Some(v), pf)
}

fn long(cx: &mut Cx) -> Result<(), String> {
    let l = Lists::usual();
    let (a, b) = V[cx.input(V.len())];
    let pf = cx.flag();
    let anew = cx.flag();
    cx.describe(|| format!("{}.{} printf {} anew {}", a, b, pf, anew));
    let v = mkversion(a, b);
    open(&l, v, pf)?;
    for i in 0..70_000 {
        if anew && i > 0 {
            close();
            open(&l, v, pf)?;
        }
        ask(cx, &l, Some(v), pf).map_err(|e| format!("command {}: {}", i, e))?;
        w().evs.clear();
        fresh_limits();
    }
    Ok(())
}
