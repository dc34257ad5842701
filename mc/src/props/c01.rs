//! C01: only the documented exemptions let a session run without a pair.

use super::util::*;
use std::os::unix::ffi::OsStrExt;

pub fn spec() -> Spec {
    Spec { id: "C01", needs: "p", harnesses, assumptions: &[ENV, ONE, "sudo's front end gives consistent group facts (runas_groups without preserve_groups, or the reverse)"] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    let _ = t;
    vec![
        Harness { name: "identity", what: "who becomes whom, with which groups, against which enforced and exempted lists", bound: 0, run: identity, expect: &["exempt", "paired", "refused at once"] },
        Harness { name: "numbers", what: "every pair of ids around the limits of every integer type, in every place two ids are compared", bound: 0, run: numbers, expect: &["exempt: root", "exempt: self", "exempt: exempted group", "exempt: unenforced", "paired"] },
        Harness { name: "hints", what: "all 32 combinations of logging hints and spellings of each", bound: 0, run: hints, expect: &["exempt", "paired"] },
        Harness { name: "command", what: "command paths and approval command paths, arbitrary bytes", bound: 0, run: command, expect: &["exempt", "paired"] },
        Harness { name: "links", what: "commands that are links to the approval command, and the reverse", bound: 0, run: links, expect: &["exempt: approval command", "paired"] },
        Harness { name: "lists", what: "all texts of the enforced and exempted lists up to the bound", bound: 0, run: lists, expect: &["exempt", "paired"] },
        Harness { name: "many", what: "group lists of every size up to the bound and around powers of two, the one group that decides anywhere in them, or nowhere", bound: 0, run: many, expect: &["exempt", "paired"] },
        Harness { name: "others", what: "every other documented key with every notation, in every kind of session: nothing else decides", bound: 0, run: others, expect: &["exempt", "paired", "refused at once", "malformed"] },
        Harness { name: "pairs", what: "every two further facts of a paired session, in every notation", bound: 0, run: pairs, expect: &["paired"] },
        Harness { name: "constants", what: "every number and text the code under test is written with, and words that invite it, wherever nothing may depend on them", bound: 0, run: constants, expect: &["exempt", "paired"] },
        Harness { name: "defaults", what: "options absent, list absent, every other option absent or odd", bound: 0, run: defaults, expect: &["exempt", "paired"] },
    ]
}

/// The facts the decision may depend on.
#[derive(Clone, Debug)]
pub struct Facts {
    pub uid: u32,
    pub euid: u32,
    pub gid: u32,
    pub runas_euid: u32,
    pub runas_egid: u32,
    pub groups: Vec<u32>,
    pub cmd_groups: Vec<u32>, // without the effective group
    pub approval_cmd: bool,
    pub out_hints: bool,
    pub enforced: Vec<u32>,
    pub exempted: Vec<u32>,
    pub minus_g: bool,
}

impl Facts {
    pub fn usual() -> Facts {
        Facts {
            uid: 1000,
            euid: 0,
            gid: 1000,
            runas_euid: 0,
            runas_egid: 0,
            groups: vec![1000, 20],
            cmd_groups: vec![0],
            approval_cmd: false,
            out_hints: true,
            enforced: vec![0],
            exempted: vec![],
            minus_g: false,
        }
    }
    /// The documentation's list, written once more.
    pub fn exempt(&self) -> Option<&'static str> {
        let mut held: BTreeSet<u32> = self.cmd_groups.iter().copied().collect();
        held.insert(self.runas_egid);
        if self.uid == self.euid {
            Some("root")
        } else if self.uid == self.runas_euid && self.gid == self.runas_egid {
            Some("self")
        } else if self.approval_cmd {
            Some("approval command")
        } else if !self.out_hints {
            Some("no output logging")
        } else if self.groups.iter().any(|g| self.exempted.contains(g)) {
            Some("exempted group")
        } else if !held.iter().any(|g| self.enforced.contains(g)) {
            Some("unenforced")
        } else {
            None
        }
    }
    pub fn changes_user(&self) -> bool {
        self.uid != self.runas_euid
    }
    /// No user/group combination, and it is known whose approval to ask.
    pub fn can_ask(&self) -> bool {
        if self.changes_user() { !self.minus_g } else { self.minus_g }
    }
}

/// Opens and compares with the model; a pair is there and answers `ans`.
pub fn decide(cx: &mut Cx, si: &SessIn, f: &Facts, ans: &[u8]) -> Result<(), String> {
    answer(ans);
    let r = open(si);
    hung()?;
    match f.exempt() {
        Some(why) => {
            cx.outcome(&format!("exempt: {}", why));
            check(r == 1, || format!("exempt session ({}) not let through: open returned {}", why, r))?;
            untouched().map_err(|e| format!("exempt session ({}): {}", why, e))
        }
        None if !f.can_ask() => {
            cx.outcome("refused at once");
            check(!proceeds(r), || format!("session that needs a pair went on unasked: open returned {}", r))?;
            no_socket()
        }
        None => {
            cx.outcome("paired");
            let yes = ans == b"y";
            check(proceeds(r) == yes, || format!("session that needs a pair, answer {:?}: open returned {}", s(ans), r))?;
            check(w().accepted.len() == 1 && w().peers.len() == 1, || format!("session that needs a pair: open returned {} without asking one", r))
        }
    }
}

fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn identity(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    f.uid = *cx.pick(&[1000, 0, 500]);
    f.euid = *cx.pick(&[0, 500]);
    f.gid = *cx.pick(&[1000, 0]);
    // (runas_uid, runas_euid given?)
    let (ru, re) = *cx.pick(&[(0, None), (1000, None), (2000, None), (1000, Some(0)), (0, Some(1000)), (2000, Some(1000))]);
    f.runas_euid = re.unwrap_or(ru);
    let (rg, rge) = *cx.pick(&[(0, None), (1000, None), (30, None), (1000, Some(0)), (0, Some(1000)), (0, Some(30))]);
    f.runas_egid = rge.unwrap_or(rg);
    f.groups = cx.pick(&[vec![1000], vec![0], vec![1000, 30], vec![7, 40, 1000]]).clone();
    let rgs: Option<Vec<u32>> = cx.pick(&[Some(vec![0]), Some(vec![1000]), Some(vec![30, 40]), Some(vec![5, 0]), None]).clone();
    let (et, ev) = cx.pick(&[(None, vec![0]), (Some("30"), vec![30]), (Some("7,40"), vec![7, 40]), (Some("0,30,1000"), vec![0, 30, 1000])]).clone();
    let (xt, xv) = cx.pick(&[(None, vec![]), (Some("30"), vec![30]), (Some("0,40"), vec![0, 40])]).clone();
    f.enforced = ev;
    f.exempted = xv;
    f.minus_g = cx.flag();
    let thorough = cx.thorough;
    let ans: &[u8] = if thorough && cx.flag() { b"y" } else { b"n" };
    if thorough {
        f.out_hints = !cx.flag();
        f.approval_cmd = cx.flag();
    }

    si.user_info.set("uid", f.uid.to_string()).set("euid", f.euid.to_string()).set("gid", f.gid.to_string()).set("groups", join(&f.groups));
    si.command_info.set("runas_uid", ru.to_string()).set("runas_gid", rg.to_string());
    if let Some(e) = re {
        si.command_info.set("runas_euid", e.to_string());
    }
    if let Some(e) = rge {
        si.command_info.set("runas_egid", e.to_string());
    }
    match &rgs {
        Some(v) => {
            si.command_info.set("runas_groups", join(v));
            f.cmd_groups = v.clone();
        }
        None => {
            si.command_info.del("runas_groups").set("preserve_groups", "true");
            si.settings.set("preserve_groups", "true");
            f.cmd_groups = f.groups.clone();
        }
    }
    if let Some(t) = et {
        si.options.set("gids_enforced", t);
    }
    if let Some(t) = xt {
        si.options.set("gids_exempted", t);
    }
    if f.minus_g {
        si.settings.set("runas_group", "grp");
    }
    if f.changes_user() {
        si.settings.set("runas_user", "someone");
    }
    if !f.out_hints {
        for k in ["iolog_ttyout", "iolog_stdout", "iolog_stderr"] {
            si.command_info.set(k, "false");
        }
    }
    if f.approval_cmd {
        si.command_info.set("command", "/usr/bin/sudo_approve");
    }
    cx.describe(|| format!("{:?} answer {}", f, s(ans)));
    decide(cx, &si, &f, ans)
}

/// Ids that some narrower or signed type would confuse.
const IDS: [u32; 19] = [0, 1, 5, 127, 128, 255, 256, 261, 32767, 32768, 65535, 65536, 65541, 16777221, 2147483647, 2147483648, 2147483653, 4294967291, 4294967294];

fn numbers(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    let a = *cx.pick(&IDS);
    let b = *cx.pick(&IDS);
    f.euid = 77;
    f.runas_euid = 2000;
    f.groups = vec![3];
    f.cmd_groups = vec![7];
    f.runas_egid = 8;
    f.enforced = vec![8];
    let place = cx.input(7);
    match place {
        0 => (f.uid, f.euid) = (a, b),
        1 => {
            (f.uid, f.runas_euid) = (a, b);
            f.runas_egid = f.gid;
            f.enforced = vec![f.gid];
        }
        2 => {
            f.runas_euid = f.uid;
            (f.gid, f.runas_egid) = (a, b);
            f.enforced = vec![b];
            f.minus_g = true;
        }
        3 => {
            f.groups = vec![3, a];
            f.exempted = vec![b];
        }
        4 => {
            f.cmd_groups = vec![a, 7];
            f.enforced = vec![b];
        }
        5 => {
            f.runas_egid = a;
            f.enforced = vec![b];
        }
        // the groups are kept
        _ => {
            f.groups = vec![3, a];
            f.cmd_groups = f.groups.clone();
            f.enforced = vec![b];
        }
    }
    si.user_info.set("uid", f.uid.to_string()).set("euid", f.euid.to_string()).set("gid", f.gid.to_string()).set("groups", join(&f.groups));
    si.command_info.set("runas_uid", f.runas_euid.to_string()).set("runas_gid", f.runas_egid.to_string());
    if place == 6 {
        si.command_info.del("runas_groups").set("preserve_groups", "true");
        si.settings.set("preserve_groups", "true");
    } else {
        si.command_info.set("runas_groups", join(&f.cmd_groups));
    }
    si.options.set("gids_enforced", join(&f.enforced));
    if !f.exempted.is_empty() {
        si.options.set("gids_exempted", join(&f.exempted));
    }
    if f.minus_g {
        si.settings.set("runas_group", "grp");
    }
    if f.changes_user() {
        si.settings.set("runas_user", "someone");
    }
    let ans: &[u8] = *cx.pick(&[&b"n"[..], b"y"]);
    cx.describe(|| format!("{:?} answer {}", f, s(ans)));
    decide(cx, &si, &f, ans)
}

fn hints(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    f.out_hints = false;
    let mut d = String::new();
    // absent, true, false, not a boolean
    for (k, out) in [("iolog_ttyout", true), ("iolog_stdout", true), ("iolog_stderr", true), ("iolog_stdin", false), ("iolog_ttyin", false)] {
        si.command_info.del(k);
        let v = if out { *cx.pick(&[None, Some("true"), Some("false"), Some("yes")]) } else { *cx.pick(&[None, Some("true"), Some("false")]) };
        if let Some(v) = v {
            si.command_info.set(k, v);
        }
        d += &format!("{}={:?} ", k, v);
        f.out_hints |= out && v == Some("true");
    }
    let ans: &[u8] = *cx.pick(&[&b"n"[..], b"y"]);
    let other = cx.input(4);
    match other {
        1 => {
            si.command_info.set("iolog_compress", "true");
        }
        2 => {
            si.command_info.set("iolog_path", "/var/log/x").set("iolog_user", "root");
        }
        3 => {
            si.settings.set("login_shell", "true").set("noninteractive", "true");
        }
        _ => {}
    }
    cx.describe(|| format!("{}other={}", d, other));
    decide(cx, &si, &f, ans)
}

fn command(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let f0 = Facts::usual();
    let mut si = SessIn::usual();
    let bins: &[Option<&[u8]>] = &[Some(b"/usr/bin/sudo_approve"), None, Some(b"/opt/ap\xffprove"), Some(b"/usr/local/bin/ok"), Some(b"/")];
    let bin = *cx.pick(bins);
    match bin {
        Some(b) => si.options.set("binary_path", b),
        None => si.options.del("binary_path"),
    };
    // an unreadable option value counts as absent
    let eff: &[u8] = match bin {
        Some(b) if std::str::from_utf8(b).is_ok() => b,
        _ => b"/usr/bin/sudo_approve",
    };
    let cmds: &[&[u8]] = &[
        b"/bin/cat", b"/usr/bin/sudo_approve", b"/usr/local/bin/ok", b"/usr/bin/sudo_approve2", b"/usr/bin/sudo_approv", b"/usr/bin",
        b"sudo_approve", b"/tmp/usr/bin/sudo_approve", b"/usr/bin/sudo_approve/x", b"/usr/bin/SUDO_APPROVE", b"/bin/c\xffat", b"\xff",
        b"/usr/bin/sudo_approve\xff", b"/usr/bin/sudo_\xc3\xa9", b"/usr/bin/../bin/sudo_approve", b"/", b" ", b"/usr/bin/sudo_approve ",
        b"/opt/ap\xffprove", b"\x80/usr/bin/sudo_approve", b"//usr/bin/sudo_approve",
    ];
    let cmd: Vec<u8> = if cx.flag() {
        let mut v = b"/bin/".to_vec();
        let n = cx.qt(2, 3);
        v.extend(word(cx, &[b"a", b"\xff", b"/", b"=", b".", b"\xc3", b"\xa9", b"%"], n));
        v
    } else {
        cx.pick(cmds).to_vec()
    };
    si.command_info.set("command", &cmd);
    let rot = cx.input(3);
    si.command_info.0.rotate_left(rot * 2);
    // argv[0] is what the user typed; it does not identify the command
    let argv0: &[u8] = *cx.pick(&[&b"cat"[..], b"sudo_approve", b"/usr/bin/sudo_approve", b"c\xff"]);
    si.argv[0] = argv0.to_vec();
    let ans: &[u8] = *cx.pick(&[&b"n"[..], b"y"]);
    cx.describe(|| format!("command={} binary_path={:?} argv0={}", s(&cmd), bin.map(s), s(argv0)));
    use std::os::unix::ffi::OsStrExt;
    let p = |b: &[u8]| std::path::PathBuf::from(std::ffi::OsStr::from_bytes(b));
    let mut f = f0;
    f.approval_cmd = cmd == eff;
    if p(&cmd) == p(eff) && cmd != eff {
        // another spelling of the same path: both readings are fair
        cx.outcome("unjudged spelling");
        answer(b"n");
        let r = open(&si);
        return check(r == 1 && w().bound.is_empty() || r < 0, || format!("open returned {}", r));
    }
    decide(cx, &si, &f, ans)
}

/// Whoever may make a link to the approval command must not thereby choose
/// what runs unapproved.
fn links(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let d = format!("{}/links", w().scratch);
    let at = |n: &str| format!("{}/links/{}", w().scratch, n);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir(at("")).unwrap();
    std::fs::create_dir(at("dir")).unwrap();
    std::fs::write(at("dir/approve"), b"#!/bin/sh\n").unwrap();
    std::os::unix::fs::symlink(at("dir/approve"), at("soft")).unwrap();
    std::os::unix::fs::symlink("soft", at("softer")).unwrap();
    std::fs::hard_link(at("dir/approve"), at("hard")).unwrap();
    std::fs::write(at("copy"), b"#!/bin/sh\n").unwrap();
    std::os::unix::fs::symlink("dir", at("dir2")).unwrap();
    const N: [&str; 7] = ["dir/approve", "soft", "softer", "hard", "copy", "dir2/approve", "gone"];
    let (a, b) = (*cx.pick(&N), *cx.pick(&N));
    let mut si = SessIn::usual();
    let mut f = Facts::usual();
    si.options.set("binary_path", at(a));
    si.command_info.set("command", at(b));
    f.approval_cmd = a == b;
    let ans: &[u8] = *cx.pick(&[&b"n"[..], b"y"]);
    cx.describe(|| format!("binary_path is {}, command is {}; answer {}", a, b, s(ans)));
    let r = decide(cx, &si, &f, ans);
    let _ = std::fs::remove_dir_all(&d);
    r
}

fn parse_list(t: &[u8]) -> Option<Vec<u32>> {
    let t = std::str::from_utf8(t).ok()?;
    let mut v = vec![];
    for e in t.split(',') {
        // what a decimal 32-bit number is, spelled out
        let d = e.strip_prefix('+').unwrap_or(e);
        if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let n = d.bytes().try_fold(0u64, |a, c| {
            let x = a * 10 + (c - b'0') as u64;
            if x <= u32::MAX as u64 { Some(x) } else { None }
        })?;
        v.push(n as u32);
    }
    Some(v)
}

fn lists(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    let n = cx.qt(4, 5);
    let which = cx.input(4);
    f.groups = vec![1000, 12];
    f.cmd_groups = vec![2, 21];
    f.runas_egid = 1;
    si.user_info.set("groups", "1000,12");
    si.command_info.set("runas_groups", "2,21").set("runas_gid", "1");
    let t = word(cx, &[b"1", b"2", b",", b"0", b"+", b"-", b" ", b"\xff", b"4294967295", b"4294967298"], n);
    match which {
        0 => {
            si.options.set("gids_enforced", &t);
            f.enforced = parse_list(&t).unwrap_or(vec![0]);
        }
        1 => {
            si.options.set("gids_enforced", "1");
            si.options.set("gids_exempted", &t);
            f.enforced = vec![1];
            f.exempted = parse_list(&t).unwrap_or_default();
        }
        2 => {
            // given twice: the last counts
            si.options.0.push(b"gids_enforced=7".to_vec());
            let mut e = b"gids_enforced=".to_vec();
            e.extend(&t);
            si.options.0.push(e);
            f.enforced = parse_list(&t).unwrap_or(vec![0]);
            f.runas_egid = 0;
            si.command_info.set("runas_gid", "0");
        }
        _ => {
            // the user's own groups come from the same kind of list
            si.options.set("gids_enforced", "1").set("gids_exempted", "12,0");
            f.enforced = vec![1];
            f.exempted = vec![12, 0];
            si.user_info.set("groups", &t);
            match parse_list(&t) {
                Some(g) => f.groups = g,
                None => {
                    cx.describe(|| format!("user groups={}", s(&t)));
                    cx.outcome("malformed groups");
                    answer(b"y");
                    let r = open(&si);
                    check(!proceeds(r), || format!("malformed user groups accepted: open returned {}", r))?;
                    return no_socket();
                }
            }
        }
    }
    cx.describe(|| format!("list {} = {}", which, s(&t)));
    decide(cx, &si, &f, b"n")
}

/// Sizes up to 65537 (sudo knows users in up to 65536 groups).
fn counts(upto: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..upto).collect();
    for k in 0..=16 {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([10, 100, 1000, 10_000]);
    v.retain(|n| *n > 0);
    v.sort();
    v.dedup();
    v
}

fn many(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    let which = cx.input(6);
    let n = *cx.pick(&counts(cx.qt(20, 300)));
    let at = match cx.input(7) {
        0 => Some(0),
        1 => Some(n - 1),
        2 => Some(n / 2),
        3 => Some(n.saturating_sub(2)),
        4 => Some(n / 2 + n / 4),
        5 => Some(1.min(n - 1)),
        _ => None,
    };
    // descending, ascending or neither; the deciding group is 5
    let order = cx.input(3);
    let mut l: Vec<u32> = (0..n as u32).map(|i| match order { 0 => 100_000 + i, 1 => 4_000_000_000 - i, _ => 100_000 + i.wrapping_mul(2_654_435_761) % 1_000_000_000 }).collect();
    if let Some(k) = at {
        l[k] = 5;
    }
    f.groups = vec![1000];
    f.cmd_groups = vec![7];
    f.runas_egid = 8;
    f.enforced = vec![7];
    match which {
        // who is enforced
        0 => {
            f.cmd_groups = l.clone();
            f.enforced = vec![5];
        }
        1 => {
            f.cmd_groups = vec![5];
            f.enforced = l.clone();
        }
        2 => {
            f.runas_egid = 5;
            f.enforced = l.clone();
        }
        // who is exempted
        3 => {
            f.groups = l.clone();
            f.exempted = vec![5];
        }
        4 => {
            f.groups = vec![5, 1000];
            f.exempted = l.clone();
        }
        // long lists all around
        _ => {
            f.cmd_groups = (0..n as u32).map(|i| 2_000_000_000 + i).chain([5]).collect();
            f.enforced = l.clone();
            f.groups = (0..n as u32).map(|i| 3_000_000_000 + i).collect();
            f.exempted = (0..n as u32).map(|i| 5 + 2 * i).collect();
        }
    }
    si.user_info.set("groups", join(&f.groups));
    si.command_info.set("runas_groups", join(&f.cmd_groups)).set("runas_gid", f.runas_egid.to_string());
    si.options.set("gids_enforced", join(&f.enforced));
    if !f.exempted.is_empty() {
        si.options.set("gids_exempted", join(&f.exempted));
    }
    cx.describe(|| format!("list {} of {} groups, the deciding one at {:?}, order {}", which, n, at, order));
    // (the model's own lookup, but not quadratic)
    let held: BTreeSet<u32> = f.cmd_groups.iter().copied().chain([f.runas_egid]).collect();
    let enf = f.enforced.iter().any(|g| held.contains(g));
    let mine: BTreeSet<u32> = f.groups.iter().copied().collect();
    let exm = f.exempted.iter().any(|g| mine.contains(g));
    f.enforced = if enf { vec![5] } else { vec![] };
    f.cmd_groups = vec![5];
    f.groups = vec![6];
    f.exempted = if exm { vec![6] } else { vec![] };
    decide(cx, &si, &f, b"n")
}

/// The keys the decision may depend on.
pub fn decides(l: usize, k: &str) -> bool {
    match l {
        0 => k == "runas_group",
        1 => matches!(k, "uid" | "euid" | "gid" | "groups"),
        _ => matches!(k, "command" | "iolog_ttyout" | "iolog_stdout" | "iolog_stderr") || k.starts_with("runas_"),
    }
}

fn deviate(si: &mut SessIn, d: &super::c15::Deviation) {
    let kv = [&mut si.settings, &mut si.user_info, &mut si.command_info].into_iter().nth(d.list).unwrap();
    match d.value {
        Some(v) => kv.set(d.key, v),
        None => kv.del(d.key),
    };
}

/// Sessions of every kind.
pub fn kind(base: usize, f: &mut Facts, si: &mut SessIn) {
    match base {
        0 => (),
        1 => {
            // by group
            f.runas_euid = 1000;
            f.minus_g = true;
            si.command_info.set("runas_uid", "1000");
            si.settings.set("runas_group", "root");
        }
        2 => {
            // both
            f.minus_g = true;
            si.settings.set("runas_group", "root");
        }
        3 => {
            // only one of the groups is enforced, only an effective one
            f.cmd_groups = vec![30, 40];
            f.runas_egid = 50;
            f.enforced = vec![50];
            si.command_info.set("runas_groups", "30,40").set("runas_gid", "51").set("runas_egid", "50");
            si.options.set("gids_enforced", "50");
        }
        4 => {
            // nothing enforced but the user's own group
            f.cmd_groups = vec![30, 40];
            f.runas_egid = 50;
            f.enforced = vec![20];
            si.command_info.set("runas_groups", "30,40").set("runas_gid", "50");
            si.options.set("gids_enforced", "20");
        }
        5 => {
            f.uid = 0;
            si.user_info.set("uid", "0");
        }
        6 => {
            f.runas_euid = 1000;
            f.runas_egid = 1000;
            si.command_info.set("runas_uid", "1000").set("runas_gid", "1000");
        }
        7 => {
            f.approval_cmd = true;
            si.command_info.set("command", "/usr/bin/sudo_approve");
        }
        8 => {
            f.out_hints = false;
            for k in ["iolog_ttyout", "iolog_stdout", "iolog_stderr"] {
                si.command_info.set(k, "false");
            }
        }
        _ => {
            f.exempted = vec![20];
            si.options.set("gids_exempted", "20");
        }
    }
}

/// Which no other key may turn into another kind.
fn others(cx: &mut Cx) -> Result<(), String> {
    use super::c15::*;
    set_tpl(false, None);
    set_tpl(true, None);
    let d = deviation(cx.input(deviations()));
    if decides(d.list, d.key) {
        return Ok(());
    }
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    let base = cx.input(10);
    kind(base, &mut f, &mut si);
    deviate(&mut si, &d);
    let mut more = String::new();
    if cx.thorough {
        let e = deviation(cx.input(deviations()));
        if decides(e.list, e.key) || e.fatal {
            return Ok(());
        }
        deviate(&mut si, &e);
        more = format!(" {}={:?}", e.key, e.value.map(s));
    }
    let ans: &[u8] = if cx.thorough { b"n" } else { *cx.pick(&[&b"n"[..], b"y"]) };
    cx.describe(|| format!("session {} with list {}: {}={:?}{} answer {}", base, d.list, d.key, d.value.map(s), more, s(ans)));
    if d.fatal {
        cx.outcome("malformed");
        answer(b"n");
        let r = open(&si);
        hung()?;
        // (a path that is not UTF-8 need not be refused)
        if d.odd_path && r == 1 {
            check(f.exempt().is_some(), || format!("open returned {}", r))?;
        } else {
            check(!proceeds(r), || format!("a mandatory fact was wrong, but open returned {}", r))?;
        }
        return if d.odd_path { Ok(()) } else { no_socket() };
    }
    decide(cx, &si, &f, ans)
}

/// Sudo's own environment, until dropped.
pub struct Env(String, Option<std::ffi::OsString>);
impl Drop for Env {
    fn drop(&mut self) {
        match &self.1 {
            Some(w) => std::env::set_var(&self.0, w),
            None => std::env::remove_var(&self.0),
        }
    }
}

/// A constant of the code put where nothing may depend on it: what was put
/// there, or nothing if it does not fit.
pub fn plant(cx: &mut Cx, si: &mut SessIn) -> Option<(String, Option<Env>)> {
    let words = crate::dict::words();
    let keys = super::c15::keys();
    let place = cx.input(keys + 14);
    let v = cx.pick(words).clone();
    let mut env = None;
    if place < keys {
        let (l, k) = super::c15::key(place);
        if decides(l, k) || !super::c15::takes(place, &v) {
            return None;
        }
        [&mut si.settings, &mut si.user_info, &mut si.command_info][l].set(k, &v);
        return Some((format!("{}={}", k, s(&v)), None));
    }
    let what = match place - keys {
        0 => {
            si.env.0.push([&v[..], b"=1"].concat());
            "set in the user's environment"
        }
        1 => {
            si.env.0.push([&v[..], b"="].concat());
            "empty in the user's environment"
        }
        n @ 2..=3 => {
            // no option of the documented ones
            if v.contains(&b'=') || v.contains(&b' ') || super::c30::KEYS.iter().any(|k| k.as_bytes() == &v[..]) {
                return None;
            }
            si.options.0.push(if n == 2 { v.clone() } else { [&v[..], b"=1000,20"].concat() });
            "an option"
        }
        4 => {
            si.argv = vec![v.clone()];
            "argv[0]"
        }
        5 => {
            si.argv.push(v.clone());
            "an argument"
        }
        6 => {
            set_tpl(false, Some(&v));
            set_tpl(true, Some(&v));
            "the templates"
        }
        // sudo's own environment is the user's, too
        n @ 7..=8 => {
            if !v.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                return None;
            }
            let name = s(&v);
            env = Some(Env(name.clone(), std::env::var_os(&name)));
            std::env::set_var(&name, if n == 7 { "1" } else { "" });
            "in sudo's environment"
        }
        // a file or directory of this name
        n @ 9..=11 => {
            if !v.starts_with(b"/") || v == b"/" || v.windows(2).any(|x| x == b"..") || w().scratch.as_bytes().starts_with(&v) {
                return None;
            }
            let wd = w();
            let at = format!("{}/conjured", wd.scratch);
            let _ = std::fs::remove_file(&at);
            let _ = std::fs::remove_dir(&at);
            if n == 11 {
                std::fs::create_dir(&at).unwrap();
            } else {
                std::fs::write(&at, if n == 9 { &b"1\n"[..] } else { b"" }).unwrap();
            }
            wd.remap.push((v.clone(), at.into_bytes()));
            "there, in the filesystem"
        }
        12 => {
            si.argv.truncate(1);
            si.argv.push(v.clone());
            "the only argument"
        }
        _ => {
            // (what is at the place of a socket is not ignored)
            if v.contains(&b'/') || v.ends_with(b".sock") || v.is_empty() || v[0] == b'.' && v.len() < 3 {
                return None;
            }
            let mut at = w().dir.clone();
            at.push(b'/');
            at.extend(&v);
            std::fs::write(std::ffi::OsStr::from_bytes(&at), b"1\n").unwrap();
            dir_dirty();
            "there, next to the socket"
        }
    };
    Some((format!("{} {}", s(&v), what), env))
}

fn pairs(cx: &mut Cx) -> Result<(), String> {
    use super::c15::*;
    set_tpl(false, None);
    set_tpl(true, None);
    let n = deviations();
    let i = cx.input(n);
    let d = deviation(i);
    if decides(d.list, d.key) || d.fatal {
        return Ok(());
    }
    let j = i + 1 + cx.input(n - i);
    if j == n {
        return Ok(());
    }
    let e = deviation(j);
    if decides(e.list, e.key) || e.fatal || (e.list, e.key) == (d.list, d.key) {
        return Ok(());
    }
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    kind(if cx.thorough { cx.input(10) } else { 0 }, &mut f, &mut si);
    deviate(&mut si, &d);
    deviate(&mut si, &e);
    cx.describe(|| format!("{}={:?} {}={:?}", d.key, d.value.map(s), e.key, e.value.map(s)));
    decide(cx, &si, &f, b"n")
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    let base = *cx.pick(&[0usize, 1, 4, 5, 6, 8]);
    kind(base, &mut f, &mut si);
    let (what, _env) = match plant(cx, &mut si) {
        Some(p) => p,
        None => return Ok(()),
    };
    cx.describe(|| format!("session {} with {}", base, what));
    decide(cx, &si, &f, b"n")
}

fn defaults(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut f = Facts::usual();
    let mut si = SessIn::usual();
    let wd = w();
    wd.remap = vec![(b"/var/run/sudo_pair".to_vec(), wd.dir.clone()), (b"/etc/sudo_pair.prompt.user".to_vec(), wd.user_tpl.clone()), (b"/etc/sudo_pair.prompt.pair".to_vec(), wd.pair_tpl.clone())];
    match cx.input(3) {
        0 => si.options = Kv::default(),
        1 => {
            si.null_options = true;
        }
        _ => {
            si.options = Kv::default();
            for k in [&b"gids_enforced2=1000"[..], b"gids_exempted", b"xgids_exempted=1000", b"GIDS_EXEMPTED=1000", b"=1000", b"binary_path ="] {
                if cx.flag() {
                    si.options.0.push(k.to_vec());
                }
            }
        }
    }
    si.null_env = cx.flag();
    let (g, eg) = *cx.pick(&[(0u32, "0"), (1000, "1000"), (5, "5")]);
    f.runas_egid = g;
    f.cmd_groups = vec![g];
    si.command_info.set("runas_gid", eg).set("runas_groups", eg);
    match cx.input(3) {
        0 => (),
        1 => {
            f.runas_euid = 2000;
            si.command_info.set("runas_uid", "2000");
        }
        _ => {
            // absent target facts: the ids sudo itself runs as
            si.command_info.del("runas_uid").del("runas_gid");
            f.runas_euid = 0;
            f.runas_egid = 0;
        }
    }
    f.approval_cmd = cx.flag();
    if f.approval_cmd {
        si.command_info.set("command", "/usr/bin/sudo_approve");
    }
    let ans: &[u8] = *cx.pick(&[&b"n"[..], b"y"]);
    cx.describe(|| format!("{:?} options {:?}", f, si.options.0.iter().map(|x| s(x)).collect::<Vec<_>>()));
    decide(cx, &si, &f, ans)
}
