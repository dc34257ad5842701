//! C03: changing the user and naming a group is refused at once.

use super::c01::{decide, Facts};
use super::util::*;

pub fn spec() -> Spec {
    Spec { id: "C03", needs: "p", harnesses, assumptions: &[ENV, ONE, "sudo passes -g's argument under runas_group exactly when -g was given"] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "spelling", what: "every spelling of the -u and -g arguments up to the bound, in every kind of change", bound: 0, run: spelling, expect: &["refused at once", "paired", "exempt"] },
        Harness { name: "constants", what: "every text and number the code under test is written with, wherever nothing may depend on it", bound: 0, run: constants, expect: &["refused at once"] },
        Harness { name: "exemptions", what: "every combination of exemptions with both changes and -g", bound: 0, run: exemptions, expect: &["refused at once", "paired", "exempt"] },
        Harness { name: "held", what: "every kind of change, with the command's groups and the invoking user's in every relation to the ids", bound: 0, run: held, expect: &["refused at once", "paired", "exempt"] },
        Harness { name: "order", what: "the key anywhere among the settings, next to look-alikes, with and without faults", bound: if t { 2 } else { 1 }, run: order, expect: &["refused at once"] },
    ]
}

fn no_tpl() {
    set_tpl(false, None);
    set_tpl(true, None);
}

/// (changes user, changes effective group), and the keys for it
fn kinds(cx: &mut Cx, si: &mut SessIn, f: &mut Facts) {
    f.runas_euid = *cx.pick(&[0, 1000, 2000]);
    f.runas_egid = *cx.pick(&[0, 1000, 30]);
    f.cmd_groups = vec![0];
    // the effective ids are what counts; sudo may leave them out
    if cx.flag() {
        si.command_info.set("runas_uid", f.runas_euid.to_string()).set("runas_gid", f.runas_egid.to_string());
    } else {
        si.command_info.set("runas_uid", "777").set("runas_gid", "777").set("runas_euid", f.runas_euid.to_string()).set("runas_egid", f.runas_egid.to_string());
    }
}

fn spelling(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    kinds(cx, &mut si, &mut f);
    let texts: &[&[u8]] = &[b"wheel", b"#0", b"0", b"-1", b"\xff", b"\xc3", b"a\x80b", b"=", b"a=b", b" ", b"%s", b"\n", b"true", b"\xf0\x9f\x92\xa9"];
    let g: Option<Vec<u8>> = match cx.input(3) {
        0 => None,
        1 => Some(cx.pick(texts).to_vec()),
        _ => {
            let n = cx.qt(2, 3);
            let w = word(cx, &[b"a", b"#", b"0", b"\xff", b"\x80", b"\xc3\xa9", b"=", b" "], n);
            // an empty argument is not judged: sudo itself rejects it
            Some(if w.is_empty() { b"x".to_vec() } else { w })
        }
    };
    let u: Option<Vec<u8>> = match cx.input(3) {
        0 => None,
        1 => Some(b"someone".to_vec()),
        _ => Some(cx.pick(texts).to_vec()),
    };
    if let Some(g) = &g {
        si.settings.set("runas_group", g);
    }
    if let Some(u) = &u {
        si.settings.set("runas_user", u);
    }
    f.minus_g = g.is_some();
    let ans: &[u8] = if cx.thorough { *cx.pick(&[&b"y"[..], b"n"]) } else { b"y" };
    cx.describe(|| format!("-u {:?} -g {:?} {:?}", u.as_ref().map(|x| s(x)), g.as_ref().map(|x| s(x)), f));
    decide(cx, &si, &f, ans)
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    f.minus_g = true;
    si.settings.set("runas_group", "wheel");
    let odd = cx.input(4);
    if odd == 0 {
        let t = cx.pick(crate::dict::words()).clone();
        // the argument itself
        si.settings.set("runas_group", &t);
        if cx.flag() {
            si.settings.set("runas_user", &t);
        }
        cx.describe(|| format!("-g {}", s(&t)));
        return decide(cx, &si, &f, b"y");
    }
    if odd == 1 {
        // the ids
        let n = *cx.pick(&crate::dict::near(u32::MAX as u64));
        let (u, g) = *cx.pick(&[(n, 0), (2000, n), (n, n)]);
        if u == 1000 || g == 1000 {
            return Ok(());
        }
        f.runas_euid = u as u32;
        f.runas_egid = g as u32;
        f.cmd_groups = vec![0];
        si.command_info.set("runas_uid", u.to_string()).set("runas_gid", g.to_string());
        cx.describe(|| format!("target {} {}", u, g));
        return decide(cx, &si, &f, b"y");
    }
    if odd == 2 {
        f.runas_euid = 2000;
        f.runas_egid = 30;
        f.cmd_groups = vec![0];
        si.command_info.set("runas_uid", "2000").set("runas_gid", "30");
    }
    let (what, _env) = match super::c01::plant(cx, &mut si) {
        Some(p) => p,
        None => return Ok(()),
    };
    cx.describe(|| format!("both changes with {}", what));
    decide(cx, &si, &f, b"y")
}

fn exemptions(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    kinds(cx, &mut si, &mut f);
    let root = cx.flag();
    f.approval_cmd = cx.flag();
    f.out_hints = !cx.flag();
    let ex = cx.flag();
    let un = cx.flag();
    if root {
        f.euid = 1000;
        si.user_info.set("euid", "1000");
    }
    if f.approval_cmd {
        si.command_info.set("command", "/usr/bin/sudo_approve");
    }
    if !f.out_hints {
        for k in ["iolog_ttyout", "iolog_stdout", "iolog_stderr"] {
            si.command_info.set(k, "false");
        }
    }
    if ex {
        f.exempted = vec![5, 20];
        si.options.set("gids_exempted", "5,20");
    }
    if un {
        f.enforced = vec![99];
        si.options.set("gids_enforced", "99");
    }
    match cx.input(3) {
        0 => (),
        1 => {
            f.minus_g = true;
            si.settings.set("runas_group", "wheel");
        }
        _ => {
            f.minus_g = true;
            si.settings.set("runas_group", b"\xff\xfe");
        }
    }
    if cx.flag() {
        si.settings.set("runas_user", "someone");
    }
    let ans: &[u8] = *cx.pick(&[&b"y"[..], b"n"]);
    cx.describe(|| format!("{:?} answer {}", f, s(ans)));
    decide(cx, &si, &f, ans)
}

/// Which groups anyone holds does not matter.
fn held(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    kinds(cx, &mut si, &mut f);
    f.minus_g = !cx.flag();
    if f.minus_g {
        si.settings.set("runas_group", *cx.pick(&["wheel", "#30", "#0"]));
    }
    let lists: Vec<Vec<u32>> = vec![vec![0], vec![30], vec![1000], vec![0, 30], vec![1000, 20], vec![0, 1000, 20, 30], (0..40).collect(), (20..52).chain([1000]).collect(), (100..165).collect()];
    f.cmd_groups = cx.pick(&lists).clone();
    let join = |v: &[u32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    si.command_info.set("runas_groups", join(&f.cmd_groups));
    if cx.flag() {
        f.groups = cx.pick(&lists[1..]).clone();
        si.user_info.set("groups", join(&f.groups));
    }
    let ans: &[u8] = *cx.pick(&[&b"y"[..], b"n"]);
    cx.describe(|| format!("{:?} answer {}", f, s(ans)));
    decide(cx, &si, &f, ans)
}

fn order(cx: &mut Cx) -> Result<(), String> {
    no_tpl();
    let mut si = SessIn::usual();
    let tty = cx.flag();
    if tty {
        let _ = std::fs::write(std::str::from_utf8(&w().tty).unwrap(), b"");
        si.user_info.set("tty", w().tty.clone());
    }
    let like: &[&[u8]] = &[b"runas_groups=1", b"runas_grou=1", b"Runas_group=1", b"runas_user=runas_group", b"prompt=runas_group=x", b"set_home=true", b"login_shell=true", b"preserve_groups=false"];
    let a = cx.input(like.len());
    let b = cx.input(like.len());
    si.settings.0.push(like[a].to_vec());
    let at = cx.input(si.settings.0.len() + 1);
    let g: &[u8] = *cx.pick(&[&b"runas_group=wheel"[..], b"runas_group=w\xffl", b"runas_group=a=b"]);
    si.settings.0.insert(at, g.to_vec());
    si.settings.0.push(like[b].to_vec());
    let mut f = Facts::usual();
    f.minus_g = true;
    w().menu = Some(menu_protocol);
    answer(b"y");
    let r = open(&si);
    w().menu = None;
    cx.describe(|| format!("{:?} faults [{}]", si.settings.0.iter().map(|x| s(x)).collect::<Vec<_>>(), show_faults()));
    hung()?;
    cx.outcome("refused at once");
    check(!proceeds(r), || format!("a session changing both user and group went on: open returned {}", r))?;
    no_socket()
}
