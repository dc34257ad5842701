//! C21: exported plugin tables match sudo's C interface slot by slot.

use super::drv::*;
use super::util::*;
use crate::abi::*;
use std::ffi::CStr;

pub fn spec() -> Spec {
    Spec {
        id: "C21",
        needs: "pbd",
        harnesses,
        assumptions: &[
            "the C interface is written down once more here, from sudo's own header (API 1.17)",
            "of the bindings for other processors the order, the kinds and the signatures of the members are compared, compiled for this one",
        ],
    }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "members", what: "every member of every structure in every set of bindings: place, size and signature", bound: 0, run: members, expect: &["same"] },
        Harness { name: "constants", what: "every constant in every set of bindings", bound: 0, run: constants, expect: &["same"] },
        Harness { name: "slots", what: "every slot of every kind of plugin, called where the C structure has it", bound: 0, run: slots, expect: &["called", "empty"] },
        Harness { name: "reached", what: "every two callbacks, called where the C structure has them, of the pair plugin and of the probes: what answers is what the name says", bound: 0, run: reached, expect: &["pair", "probe"] },
        Harness { name: "tables", what: "the tables the plugins export", bound: 0, run: tables, expect: &["same"] },
    ]
}

const CONV: &str = "F(i,p,p,p)i";
const PRINTF: &str = "F(i,p,...)i";
const HOOK: &str = "F(i,F(p)i)v";

/// struct, its members in order with "i" for a 4-byte integer, "p" for a
/// pointer and F(...)r for a function pointer
fn structs() -> Vec<(&'static str, Vec<(&'static str, String)>)> {
    let head = format!("i,{},{}", CONV, PRINTF);
    let f = |s: &str| s.to_string();
    let log = "F(p,i,p)i";
    let submit = format!("F({},p,p,i,p,p,p,p)i", head);
    vec![
        (
            "policy_plugin",
            vec![
                ("type_", f("i")),
                ("version", f("i")),
                ("open", format!("F({},p,p,p,p,p)i", head)),
                ("close", f("F(i,i)v")),
                ("show_version", f("F(i)i")),
                ("check_policy", f("F(i,p,p,p,p,p,p)i")),
                ("list", f("F(i,p,i,p,p)i")),
                ("validate", f("F(p)i")),
                ("invalidate", f("F(i)v")),
                ("init_session", f("F(p,p,p)i")),
                ("register_hooks", f(HOOK)),
                ("deregister_hooks", f(HOOK)),
                ("event_alloc", f("F()p")),
            ],
        ),
        (
            "io_plugin",
            vec![
                ("type_", f("i")),
                ("version", f("i")),
                ("open", format!("F({},p,p,p,i,p,p,p,p)i", head)),
                ("close", f("F(i,i)v")),
                ("show_version", f("F(i)i")),
                ("log_ttyin", f(log)),
                ("log_ttyout", f(log)),
                ("log_stdin", f(log)),
                ("log_stdout", f(log)),
                ("log_stderr", f(log)),
                ("register_hooks", f(HOOK)),
                ("deregister_hooks", f(HOOK)),
                ("change_winsize", f("F(i,i,p)i")),
                ("log_suspend", f("F(i,p)i")),
                ("event_alloc", f("F()p")),
            ],
        ),
        (
            "audit_plugin",
            vec![
                ("type_", f("i")),
                ("version", f("i")),
                ("open", submit.clone()),
                ("close", f("F(i,i)v")),
                ("accept", f("F(p,i,p,p,p,p)i")),
                ("reject", f("F(p,i,p,p,p)i")),
                ("error", f("F(p,i,p,p,p)i")),
                ("show_version", f("F(i)i")),
                ("register_hooks", f(HOOK)),
                ("deregister_hooks", f(HOOK)),
                ("event_alloc", f("F()p")),
            ],
        ),
        (
            "approval_plugin",
            vec![
                ("type_", f("i")),
                ("version", f("i")),
                ("open", submit),
                ("close", f("F()v")),
                ("check", f("F(p,p,p,p)i")),
                ("show_version", f("F(i)i")),
            ],
        ),
        ("sudo_conv_message", vec![("msg_type", f("i")), ("timeout", f("i")), ("msg", f("p"))]),
        ("sudo_conv_reply", vec![("reply", f("p"))]),
        ("sudo_conv_callback", vec![("version", f("i")), ("closure", f("p")), ("on_suspend", f("F(i,p)i")), ("on_resume", f("F(i,p)i"))]),
        ("sudo_hook", vec![("hook_version", f("i")), ("hook_type", f("i")), ("hook_fn", f("F()i")), ("closure", f("p"))]),
        (
            "sudo_plugin_event",
            vec![
                ("set", f("F(p,i,i,F(i,i,p)v,p)i")),
                ("add", f("F(p,p)i")),
                ("del", f("F(p)i")),
                ("pending", f("F(p,i,p)i")),
                ("fd", f("F(p)i")),
                ("setbase", f("F(p,p)v")),
                ("loopbreak", f("F(p)v")),
                ("free", f("F(p)v")),
            ],
        ),
        ("sudoers_group_plugin", vec![("version", f("i")), ("init", format!("F(i,{},p)i", PRINTF)), ("cleanup", f("F()v")), ("query", f("F(p,p,p)i"))]),
    ]
}

/// (offset, size) of each, and the size of all, as a C compiler for this
/// processor lays them out.
fn lay(m: &[(&'static str, String)]) -> (Vec<(usize, usize)>, usize) {
    let mut o = 0;
    let mut v = vec![];
    let mut al = 4;
    for (_, k) in m {
        let n = if k == "i" { 4 } else { 8 };
        al = al.max(n);
        o = (o + n - 1) / n * n;
        v.push((o, n));
        o += n;
    }
    (v, (o + al - 1) / al * al)
}

/// Splits at top level.
fn split(t: &str) -> Vec<&str> {
    let (mut d, mut from, mut v) = (0i32, 0, vec![]);
    let b = t.as_bytes();
    for i in 0..b.len() {
        match b[i] {
            b'(' | b'<' | b'[' => d += 1,
            b'>' if i > 0 && b[i - 1] == b'-' => {}
            b')' | b'>' | b']' => d -= 1,
            b',' if d == 0 => {
                v.push(t[from..i].trim());
                from = i + 1;
            }
            _ => {}
        }
    }
    if !t[from..].trim().is_empty() {
        v.push(t[from..].trim());
    }
    v
}

/// The shape of a Rust type; "?" where it is none of these.
fn shape(t: &str) -> String {
    let t = t.trim();
    if let Some(i) = t.strip_prefix("core::option::Option<").and_then(|x| x.strip_suffix('>')) {
        return shape(i);
    }
    if t == "i32" || t == "u32" {
        return "i".into();
    }
    if t.starts_with('*') || t.starts_with('&') {
        return "p".into();
    }
    if let Some(at) = t.find("fn(") {
        if t.contains("extern \"C\"") || !t[..at].contains("extern") && at == 0 {
            let body = &t[at + 3..];
            let mut d = 1;
            for (i, c) in body.char_indices() {
                match c {
                    '(' => d += 1,
                    ')' => d -= 1,
                    _ => {}
                }
                if d == 0 {
                    let args: Vec<String> = split(&body[..i]).iter().map(|a| if a.starts_with("...") { "...".into() } else { shape(a) }).collect();
                    let ret = body[i + 1..].trim();
                    let r = match ret.strip_prefix("->") {
                        None => "v".to_string(),
                        Some(r) if r.trim() == "()" => "v".into(),
                        Some(r) => shape(r),
                    };
                    return format!("F({}){}", args.join(","), r);
                }
            }
        }
    }
    "?".into()
}

/// "?" stands for anything; sizes are compared as well.
fn fits(got: &str, want: &str) -> bool {
    if got == want || got == "?" {
        return true;
    }
    let f = |s: &str| -> Option<(Vec<String>, String)> {
        let b = s.strip_prefix("F(")?;
        let e = b.rfind(')')?;
        Some((split(&b[..e]).iter().map(|x| x.to_string()).collect(), b[e + 1..].to_string()))
    };
    match (f(got), f(want)) {
        (Some((a, r)), Some((b, q))) => a.len() == b.len() && (r == q || r == "?") && a.iter().zip(&b).all(|(x, y)| fits(x, y)),
        _ => false,
    }
}

const ARCH: [&str; 4] = ["used", "x86_64", "aarch64", "x86"];

fn text(k: u32) -> String {
    unsafe { CStr::from_ptr((api().text)(k)).to_string_lossy().into_owned() }
}

fn members(cx: &mut Cx) -> Result<(), String> {
    let a = *cx.pick(&ARCH);
    let st = structs();
    let (name, m) = &st[cx.input(st.len())];
    let i = cx.input(m.len() + 1);
    let (off, size) = lay(m);
    let t = text(0);
    let pre = format!("{}|{}|", a, name);
    let mine: Vec<Vec<&str>> = t.lines().filter_map(|l| l.strip_prefix(&pre)).map(|l| l.splitn(4, '|').collect()).collect();
    cx.outcome("same");
    if i == m.len() {
        cx.describe(|| format!("{} {}", a, name));
        let got = mine.iter().find(|l| l[0] == "size").ok_or("no size")?[1];
        w().leave(&Op::new("size", Cls::None).arg(size as u64), 0, 0, false);
        return check(got == size.to_string(), || format!("{} is {} bytes and not {}", name, got, size));
    }
    let (f, want) = &m[i];
    cx.describe(|| format!("{} {}.{}", a, name, f));
    let l = mine.iter().find(|l| l[0] == *f && l.len() == 4).ok_or_else(|| format!("no member {}.{}", name, f))?;
    w().leave(&Op::new("member", Cls::None).arg((i as u64) << 16 | off[i].0 as u64), 0, 0, false);
    w().total_steps += 1;
    check(l[1] == off[i].0.to_string(), || format!("{}.{} is at {} and not at {}", name, f, l[1], off[i].0))?;
    check(l[2] == off[i].1.to_string(), || format!("{}.{} is {} bytes and not {}", name, f, l[2], off[i].1))?;
    let got = shape(l[3]);
    cx.count(if got.contains('?') { "unread types" } else { "types" }, 1);
    check(fits(&got, want), || format!("{}.{} is {} and not {} ({})", name, f, got, want, l[3]))
}

const C: &[(&str, i64)] = &[
    ("SUDO_API_VERSION_MAJOR", 1),
    ("SUDO_API_VERSION_MINOR", 17),
    ("SUDO_CONV_PROMPT_ECHO_OFF", 1),
    ("SUDO_CONV_PROMPT_ECHO_ON", 2),
    ("SUDO_CONV_ERROR_MSG", 3),
    ("SUDO_CONV_INFO_MSG", 4),
    ("SUDO_CONV_PROMPT_MASK", 5),
    ("SUDO_CONV_PROMPT_ECHO_OK", 0x1000),
    ("SUDO_CONV_PREFER_TTY", 0x2000),
    ("SUDO_CONV_REPL_MAX", 1023),
    ("SUDO_CONV_CALLBACK_VERSION_MAJOR", 1),
    ("SUDO_CONV_CALLBACK_VERSION_MINOR", 0),
    ("SUDO_HOOK_VERSION_MAJOR", 1),
    ("SUDO_HOOK_VERSION_MINOR", 0),
    ("SUDO_HOOK_RET_ERROR", -1),
    ("SUDO_HOOK_RET_NEXT", 0),
    ("SUDO_HOOK_RET_STOP", 1),
    ("SUDO_HOOK_SETENV", 1),
    ("SUDO_HOOK_UNSETENV", 2),
    ("SUDO_HOOK_PUTENV", 3),
    ("SUDO_HOOK_GETENV", 4),
    ("SUDO_PLUGIN_EV_TIMEOUT", 1),
    ("SUDO_PLUGIN_EV_READ", 2),
    ("SUDO_PLUGIN_EV_WRITE", 4),
    ("SUDO_PLUGIN_EV_PERSIST", 8),
    ("SUDO_PLUGIN_EV_SIGNAL", 16),
    ("SUDO_POLICY_PLUGIN", 1),
    ("SUDO_IO_PLUGIN", 2),
    ("SUDO_PLUGIN_NO_STATUS", 0),
    ("SUDO_PLUGIN_WAIT_STATUS", 1),
    ("SUDO_PLUGIN_EXEC_ERROR", 2),
    ("SUDO_PLUGIN_SUDO_ERROR", 3),
    ("SUDO_AUDIT_PLUGIN", 3),
    ("SUDO_APPROVAL_PLUGIN", 4),
    ("GROUP_API_VERSION_MAJOR", 1),
    ("GROUP_API_VERSION_MINOR", 0),
];

fn constants(cx: &mut Cx) -> Result<(), String> {
    let a = *cx.pick(&ARCH);
    let i = cx.input(C.len() + 1);
    let (n, v) = if i < C.len() { C[i] } else { ("SUDO_API_VERSION", mkversion(1, 17) as i64) };
    cx.outcome("same");
    cx.describe(|| format!("{} {}", a, n));
    if i == C.len() && a != "used" {
        return Ok(());
    }
    let t = text(1);
    let pre = format!("{}|{}|", a, n);
    let got = t.lines().find_map(|l| l.strip_prefix(&pre)).ok_or_else(|| format!("no constant {}", n))?;
    w().leave(&Op::new("constant", Cls::None).arg(i as u64), v, 0, false);
    w().total_steps += 1;
    check(got == v.to_string(), || format!("{} is {} and not {}", n, got, v))
}

fn slots(cx: &mut Cx) -> Result<(), String> {
    let st = structs();
    let kind = cx.input(4);
    let (name, m) = &st[kind];
    let (off, size) = lay(m);
    let marked = cx.flag();
    let i = cx.input(m.len());
    let f = m[i].0;
    cx.describe(|| format!("{} {}.{}", if marked { "marked" } else { "empty" }, name, f));
    let p = unsafe { (api().table)(kind as u32 + 1, marked) };
    let _ = size;
    w().leave(&Op::new("slot", Cls::None).arg((kind as u64) << 32 | off[i].0 as u64), marked as i64, 0, false);
    w().total_steps += 1;
    unsafe {
        if i == 0 {
            let t = *(p as *const u32);
            return check(t == kind as u32 + 1, || format!("the type of {} is {}", name, t));
        }
        if i == 1 {
            let v = *(p.add(4) as *const u32);
            return check(v == mkversion(1, 17), || format!("the version of {} is {:#x}", name, v));
        }
        let q = *(p.add(off[i].0) as *const usize);
        if marked {
            cx.outcome("called");
            check(q != 0, || format!("{}.{} holds nothing", name, f))?;
            let g: unsafe extern "C" fn() -> i32 = std::mem::transmute(q);
            let want = (kind as i32 + 1) * 100 + i as i32 - 2;
            let got = g();
            check(got == want, || format!("sudo would call slot {} for {}.{}", got, name, f))
        } else {
            cx.outcome("empty");
            check(q == 0, || format!("{}.{} of an empty plugin holds something", name, f))
        }
    }
}

/// Members a table must have, and must not have.
fn tables(cx: &mut Cx) -> Result<(), String> {
    let st = structs();
    const IO: &[&str] = &["open", "close", "show_version", "log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr", "change_winsize"];
    let k = cx.input(5);
    let (name, p, kind, set): (&str, *const u8, usize, &[&str]) = match k {
        0 => ("sudo_pair", pair() as *const u8, 1, IO),
        1 | 2 | 3 => (["probe_a", "probe_b", "probe_c"][k - 1], plugin(k - 1) as *const u8, 1, IO),
        _ => ("deny_everything", deny_sym("deny_everything") as *const u8, 3, &["open", "check", "show_version"]),
    };
    let (_, m) = &st[kind];
    let i = cx.input(m.len());
    let (off, _) = lay(m);
    cx.describe(|| format!("{}.{}", name, m[i].0));
    cx.outcome("same");
    w().leave(&Op::new("table", Cls::None).arg((k as u64) << 32 | off[i].0 as u64), 0, 0, false);
    w().total_steps += 1;
    unsafe {
        match i {
            0 => {
                let t = *(p as *const u32);
                check(t == kind as u32 + 1, || format!("the type is {}", t))
            }
            1 => {
                let v = *(p.add(4) as *const u32);
                check(v == mkversion(1, 17), || format!("the version is {:#x}", v))
            }
            _ => {
                let q = *(p.add(off[i].0) as *const usize);
                check((q != 0) == set.contains(&m[i].0), || format!("{}.{} is {}", name, m[i].0, if q == 0 { "empty" } else { "not empty" }))
            }
        }
    }
}

/// What a callback does shows which one it is.
fn reached(cx: &mut Cx) -> Result<(), String> {
    const F: [&str; 8] = ["log_ttyin", "log_ttyout", "log_stdin", "log_stdout", "log_stderr", "change_winsize", "show_version", "close"];
    let k = cx.input(3);
    let seq = [cx.input(8), cx.input(7)];
    // close comes last
    if seq[0] == 7 && seq[1] != 0 {
        return Ok(());
    }
    cx.describe(|| format!("{} then {} of {}", F[seq[0]], F[seq[1]], if k == 2 { "sudo_pair" } else { NAMES[k] }));
    let mut si = SessIn::usual();
    set_hints(&mut si, 31);
    let t = if k == 2 { pair() } else { plugin(k) };
    let mut shown = vec![];
    if k == 2 {
        cx.outcome("pair");
        usual_templates();
        shown = pair_up(&si)?;
    } else {
        cx.outcome("probe");
        start(false);
        let r = open_at(t, &si);
        check(r == 1, || format!("open returned {}", r))?;
    }
    for (i, f) in seq.into_iter().enumerate() {
        take();
        let before = printed(CONV_INFO).len();
        let b = format!("what {} says {}", F[f], i);
        let r = match f {
            0 => log_at(t, Stream::TtyIn, b.as_bytes()),
            1 => log_at(t, Stream::TtyOut, b.as_bytes()),
            2 => log_at(t, Stream::Stdin, b.as_bytes()),
            3 => log_at(t, Stream::Stdout, b.as_bytes()),
            4 => log_at(t, Stream::Stderr, b.as_bytes()),
            5 => winsize_at(t, 31, 97),
            6 => version_at(t, 1),
            _ => {
                close_at(t, 3, 4);
                1
            }
        };
        if k < 2 {
            let m = [3, 4, 5, 6, 7, WINSIZE, VERSION, CLOSE][f];
            let c = calls();
            check(r == 1 && c.len() == 1 && c[0].method == m, || format!("{} made the calls {} and returned {}", F[f], show(&c), r))?;
        } else {
            check(r == (f != 2) as i32, || format!("{} returned {}", F[f], r))?;
            match f {
                1 | 3 | 4 => shown.extend(b.as_bytes()),
                5 => shown.extend(b"\x1b[8;31;97t"),
                _ => (),
            }
            let got = to_peer(0);
            check(got == shown, || format!("after {} the pair has {:?} and not {:?}", F[f], s(&got), s(&shown)))?;
            let told = printed(CONV_INFO).len() > before;
            check(told == (f == 6), || format!("{} {} the user", F[f], if told { "informs" } else { "does not inform" }))?;
        }
        if f == 7 {
            break;
        }
    }
    Ok(())
}
