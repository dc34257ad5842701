//! C29: asking for the version.

use super::util::*;

pub fn spec() -> Spec {
    Spec {
        id: "C29",
        needs: "ps",
        harnesses,
        assumptions: &[ENV, ONE, "the plugin's version is the one its Cargo.toml gives; sudo asks for it by an open without a command, then show_version, then perhaps close"],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "anywhere", what: "callers, options, hints and places of all kinds, with failing system calls", bound: if t { 3 } else { 2 }, run: anywhere, expect: &["shown"] },
        Harness { name: "constants", what: "every text and number the code under test is written with, wherever nothing may depend on it", bound: 0, run: constants, expect: &["shown"] },
        Harness { name: "printing", what: "each piece of the text failing to print or cut short", bound: 2, run: printing, expect: &["printed", "cannot print"] },
        Harness { name: "histories", what: "every history of version displays and sessions up to the bound", bound: 0, run: histories, expect: &["done"] },
    ]
}

pub fn version() -> String {
    let p = format!("{}/sudo_pair/Cargo.toml", unsafe { crate::SCRIPT.repo.clone() });
    let t = std::fs::read_to_string(&p).unwrap_or_default();
    let mut on = false;
    for l in t.lines() {
        if l.trim_start().starts_with('[') {
            on = l.trim() == "[package]";
        }
        let mut kv = l.splitn(2, '=');
        if on && kv.next().map_or(false, |k| k.trim() == "version") {
            if let Some(v) = kv.next() {
                return v.split('#').next().unwrap().trim().trim_matches(|c| c == '\'' || c == '"').to_string();
            }
        }
    }
    eprintln!("mc: no version in {}", p);
    std::process::exit(2)
}

/// Exactly one line naming plugin and version, and nothing else.
fn one_line() -> Result<(), String> {
    let wd = w();
    let text: Vec<u8> = printed(4);
    let other: Vec<u8> = wd.printed.iter().filter(|p| p.ty != 4).flat_map(|p| p.text.clone()).collect();
    check(other.is_empty(), || format!("printed {:?} other than as information", s(&other)))?;
    check(text.last() == Some(&b'\n'), || format!("printed {:?}, not ending its line", s(&text)))?;
    let lines: Vec<&[u8]> = text.split(|c| *c == b'\n').filter(|l| !l.is_empty()).collect();
    check(lines.len() == 1, || format!("printed {:?}, not one line", s(&text)))?;
    let w: Vec<&[u8]> = lines[0].split(|c| matches!(c, b' ' | b'\t' | b':' | b',' | b'(' | b')')).collect();
    let v = version();
    check(w.contains(&&b"sudo_pair"[..]) && (w.contains(&v.as_bytes()) || w.contains(&format!("v{}", v).as_bytes())), || format!("printed {:?}, while this is sudo_pair {}", s(&text), v))
}

fn bare(si: &mut SessIn) {
    si.command_info = Kv::default();
    si.argv = vec![];
}

fn only_version() -> Result<(), String> {
    let wd = w();
    check(wd.bound.is_empty() && wd.waited == 0 && wd.accepted.is_empty(), || "asking for the version began a session".into())?;
    check(wd.tty_bytes.is_empty(), || format!("wrote {:?} to the terminal", s(&wd.tty_bytes)))
}

fn anything(wd: &World, op: &Op, v: &mut Vec<Fault>) {
    menu_protocol(wd, op, v);
}

fn anywhere(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let mut si = SessIn::usual();
    bare(&mut si);
    let caller = cx.input(4);
    match caller {
        0 => (),
        1 => {
            si.user_info.set("uid", "0").set("euid", "0");
        }
        2 => {
            si.options.set("gids_exempted", "20");
        }
        _ => {
            si.settings.set("runas_user", "bob").set("runas_group", "ops");
        }
    }
    let hints = *cx.pick(&[0usize, 31]);
    if hints != 0 {
        set_hints(&mut si, hints);
    }
    let place = cx.input(4);
    let d = s(&w().dir);
    match place {
        0 => (),
        1 => {
            si.options.set("socket_dir", "/nonexistent/dir");
        }
        2 => {
            use std::os::unix::fs::PermissionsExt;
            let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o777));
            dir_dirty();
        }
        _ => {
            std::fs::write(format!("{}/1000.4242.sock", d), b"mine").unwrap();
            dir_dirty();
        }
    }
    if cx.flag() {
        si.user_info.set("tty", w().tty.clone());
    }
    si.null_options = cx.flag();
    si.null_env = cx.flag();
    let verbose = *cx.pick(&[1, 0]);
    let before = list_dir(d.as_bytes());
    w().menu = Some(anything);
    let r = open(&si);
    let opened = w().printed.len();
    let v = version_at(pair(), verbose);
    w().menu = None;
    cx.describe(|| format!("caller {} place {} verbose {} faults [{}]: open {} version {} printed {:?}", caller, place, verbose, show_faults(), r, v, s(&printed(4))));
    cx.outcome("shown");
    check(r == 1, || format!("open without a command returned {}", r))?;
    check(opened == 0, || "open printed something".into())?;
    check(v == 1, || format!("show_version returned {}", v))?;
    one_line()?;
    only_version()?;
    check(list_dir(d.as_bytes()) == before, || "the socket directory changed".into())?;
    // no session came of it
    let l = log(*cx.pick(&STREAMS), b"x");
    check(l == 0 || l == -99, || format!("output was accepted without a session ({})", l))?;
    let z = winsize(1, 2);
    check(z == 0, || format!("a resize was accepted without a session ({})", z))?;
    close();
    only_version()
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let mut si = SessIn::usual();
    let (what, _env) = match super::c01::plant(cx, &mut si) {
        Some(p) => p,
        None => return Ok(()),
    };
    bare(&mut si);
    let verbose = *cx.pick(&[1, 0]);
    let before = list_dir(&w().dir.clone());
    let r = open(&si);
    let v = version_at(pair(), verbose);
    cx.describe(|| format!("verbose {} {}: open {} version {} printed {:?}", verbose, what, r, v, s(&printed(4))));
    cx.outcome("shown");
    check(r == 1, || format!("open without a command returned {}", r))?;
    check(v == 1, || format!("show_version returned {}", v))?;
    one_line()?;
    only_version()?;
    check(list_dir(&w().dir.clone()) == before, || "the socket directory changed".into())?;
    close();
    only_version()
}

fn printing(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    bare(&mut si);
    si.printf = !cx.flag();
    let wd = w();
    let r = open(&si);
    wd.printf_menu = true;
    wd.printf_short = true;
    let v = version_at(pair(), 1);
    wd.printf_menu = false;
    let failed = wd.ch.devs > 0;
    cx.describe(|| format!("printf {} version {} printed {:?}", si.printf, v, s(&printed(4))));
    check(r == 1, || format!("open returned {}", r))?;
    check(v == 1, || format!("show_version returned {}", v))?;
    only_version()?;
    if si.printf && !failed {
        cx.outcome("printed");
        one_line()?;
    } else {
        cx.outcome("cannot print");
    }
    close();
    Ok(())
}

fn histories(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let n = cx.qt(4, 5);
    let mut hist = vec![];
    // a version display's environment, a session's
    let mut env = false;
    let mut live = false;
    for _ in 0..n {
        let mut si = SessIn::usual();
        match cx.input(5) {
            0 => break,
            1 => {
                // sudo opens once, or again after closing
                if env || live {
                    close();
                }
                bare(&mut si);
                let k = w().accepted.len();
                let r = open(&si);
                hist.push("open -V");
                check(r == 1 && w().accepted.len() == k, || format!("{:?}: open without a command returned {}", hist, r))?;
                env = true;
                live = false;
            }
            2 | 3 if env || live => continue,
            x @ (2 | 3) => {
                let yes = x == 2;
                hist.push(if yes { "session" } else { "declined" });
                answer(if yes { b"y" } else { b"n" });
                let k = w().accepted.len();
                let r = open(&si);
                check(w().accepted.len() == k + 1, || format!("{:?}: nobody was asked about the session", hist))?;
                check(proceeds(r) == yes, || format!("{:?}: the session's open returned {}", hist, r))?;
                live = yes;
                env = yes;
            }
            _ => {
                hist.push("version");
                let from = w().printed.len();
                let r = version_at(pair(), 1);
                let text: Vec<u8> = w().printed[from..].iter().flat_map(|p| p.text.clone()).collect();
                if env {
                    check(r == 1 && text.iter().filter(|c| **c == b'\n').count() == 1, || format!("{:?}: returned {} and printed {:?}", hist, r, s(&text)))?;
                }
            }
        }
        // what is accepted afterwards
        let l = log(Stream::TtyOut, b"out");
        check((l == 1) == live, || format!("{:?}: output afterwards returned {}", hist, l))?;
    }
    cx.describe(|| format!("{:?}", hist));
    cx.outcome("done");
    Ok(())
}
