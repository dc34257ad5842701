//! C18: the approval script.

use super::util::*;
use crate::script::*;

pub fn spec() -> Spec {
    Spec {
        id: "C18",
        needs: "s",
        harnesses,
        assumptions: &[
            "the script runs under the sandbox's bash, coreutils and getent; sudo, socat, stty and clear are stand-ins that record how they are run; sockets live in a scratch directory shown to the script as /var/run/sudo_pair; a user id of 0 is simulated for an unprivileged process",
            "SUDO_UID, when set, is a decimal number, as sudo sets it",
        ],
    }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "states", what: "caller, SUDO_UID, owner, group and mode of the socket in all combinations", bound: 0, run: states, expect: &["self", "connects", "as owner", "as group", "stops", "no socket"] },
        Harness { name: "arguments", what: "every pair, and every number, of well and badly formed arguments", bound: 0, run: arguments, expect: &["malformed", "well formed"] },
        Harness { name: "numbers", what: "sessions and callers of all sizes of uid and pid", bound: 0, run: numbers, expect: &["self", "another's"] },
        Harness { name: "environment", what: "variables in the environment change nothing", bound: 0, run: environment, expect: &["unchanged"] },
        Harness { name: "spelled", what: "any name the script uses, in the environment with another value, changes nothing", bound: 0, run: spelled, expect: &["unchanged"] },
        Harness { name: "failures", what: "the socket vanishes at each instant; each command fails", bound: 0, run: failures, expect: &["vanished", "failed"] },
    ]
}

const DIRS: [&[u8]; 2] = [b"/var/run/sudo_pair/", b"/run/sudo_pair/"];

/// `<digits>.<digits>.sock` directly in the directory
fn session_of(p: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let n = p.strip_suffix(b".sock")?;
    let mut it = n.split(|c| *c == b'.');
    let (u, p) = (it.next()?, it.next()?);
    let num = |x: &[u8]| !x.is_empty() && (x.iter().all(|c| c.is_ascii_digit()) || x[0] == b'-' && x.len() > 1 && x[1..].iter().all(|c| c.is_ascii_digit()));
    if it.next().is_some() || !num(u) || !num(p) { None } else { Some((u.to_vec(), p.to_vec())) }
}

fn value(b: &[u8]) -> Option<i128> {
    std::str::from_utf8(b).ok()?.parse().ok()
}

fn args_text(c: &Call) -> String {
    c.args.iter().map(|a| format!("{:?}", s(a))).collect::<Vec<_>>().join(" ")
}

/// What holds in every case.  `ruid`: whom the caller really is.
fn always(c: &Call, r: &Ran, ruid: Option<u64>) -> Result<Did, String> {
    let ctx = |m: String| format!("sudo_approve {} as {} (original uid {:?}): {}", args_text(c), c.who.uid, ruid, m);
    for t in &r.touched {
        check(session_of(t).is_some(), || ctx(format!("touched {:?}", s(t))))?;
    }
    let d = did(r);
    match &d {
        Did::Bad(m) => return Err(ctx(m.clone())),
        Did::Connect(p) => {
            let n = DIRS.iter().find_map(|d| p.strip_prefix(*d));
            let (u, _) = match n.and_then(session_of) {
                Some(x) => x,
                None => return Err(ctx(format!("connected to {:?}", s(p)))),
            };
            if let Some(ruid) = ruid {
                check(value(&u) != Some(ruid as i128), || ctx(format!("connected to his own session {:?}", s(p))))?;
            }
        }
        Did::Sudo { user, group, argv } => {
            check(user.is_some() || group.is_some(), || ctx("ran sudo as root, not as the socket's owner or group".into()))?;
            check(argv.first() == Some(&script_path()), || ctx(format!("ran {:?} through sudo", argv.first().map(|a| s(a)))))?;
            check(argv[1..].iter().map(|a| value(a)).eq(c.args.iter().map(|a| value(a))) || argv[1..] == c.args[..], || ctx(format!("passed other arguments: {:?}", argv.iter().map(|a| s(a)).collect::<Vec<_>>())))?;
        }
        Did::Nothing => (),
    }
    Ok(d)
}

/// The kernel's rule for write access to an inode.
fn may_write(c: &Cred, uid: u32, gid: u32, mode: u32) -> bool {
    if c.uid == 0 {
        true
    } else if c.uid == uid {
        mode & 0o200 != 0
    } else if c.gid == gid || c.groups.contains(&gid) {
        mode & 0o020 != 0
    } else {
        mode & 0o002 != 0
    }
}

fn sock(u: &str, p: &str) -> String {
    format!("{}.{}.sock", u, p)
}

/// The documented decision; names that no account has allow stopping.
fn decide(c: &Call, uid: u64, ruid: u64, so: Option<(u32, u32, u32)>, d: &Did) -> Result<&'static str, String> {
    let want = sock(&s(&c.args[0]), &s(&c.args[1]));
    let ctx = |m: &str| Err(format!("sudo_approve {} as {} for original uid {}, socket {:?}: {}, but it did {:?}", args_text(c), c.who.uid, ruid, so, m, d));
    let (ou, og, mode) = match so {
        None => return if *d == Did::Nothing { Ok("no socket") } else { ctx("no such socket") },
        Some(x) => x,
    };
    if uid == ruid {
        return if *d == Did::Nothing { Ok("self") } else { ctx("his own session") };
    }
    let (un, gn) = (user_name(ou), group_name(og));
    let anonymous = un.is_none() || gn.is_none();
    if anonymous && *d == Did::Nothing {
        return Ok("stops");
    }
    if may_write(&c.who, ou, og, mode) {
        return match d {
            Did::Connect(p) if DIRS.iter().any(|x| [x, want.as_bytes()].concat() == *p) => Ok("connects"),
            _ => ctx("it is writable"),
        };
    }
    let as_owner = matches!(d, Did::Sudo { user, group: None, .. } if names(user, ou, un));
    let as_group = matches!(d, Did::Sudo { user: None, group, .. } if names(group, og, gn));
    match (mode & 0o200 != 0, mode & 0o020 != 0) {
        (false, false) => if *d == Did::Nothing { Ok("stops") } else { ctx("neither owner nor group may write") },
        (o, g) => {
            if o && as_owner {
                Ok("as owner")
            } else if g && as_group {
                Ok("as group")
            } else {
                ctx("has to go through sudo")
            }
        }
    }
}

fn fresh() {
    let _ = std::fs::remove_file(format!("{}/x", s(&w().dir)));
    dir_dirty();
}

const CALLERS: [u32; 4] = [2000, 1000, 2100, 0];

fn caller(cx: &mut Cx) -> (Cred, bool) {
    let u = *cx.pick(&CALLERS);
    let in_group = u != 0 && cx.flag();
    (Cred { uid: u, gid: u, groups: if in_group { vec![u, 30] } else { vec![u] } }, in_group)
}

/// SUDO_UID and what it makes of the caller
fn origin(cx: &mut Cx, who: &Cred, n: usize) -> (Option<&'static str>, u64) {
    match cx.input(n) {
        0 => (Some("2100"), 2100),
        1 => (Some("1000"), 1000),
        2 => (None, who.uid as u64),
        3 => (Some(""), who.uid as u64),
        4 => (Some("0"), 0),
        _ => (Some("4294967294"), 4294967294),
    }
}

fn states(cx: &mut Cx) -> Result<(), String> {
    fresh();
    let (who, _) = caller(cx);
    let n = cx.qt(5, 6);
    let (su, ruid) = origin(cx, &who, n);
    let so = if cx.flag() {
        None
    } else {
        let owners: &[u32] = if cx.thorough { &[2000, 0, 1000, 2200, 4999] } else { &[2000, 1000, 4999] };
        let groups: &[u32] = if cx.thorough { &[30, 0, 1000, 4999] } else { &[30, 4999] };
        let modes: &[u32] = if cx.thorough {
            &[0o200, 0o020, 0, 0o220, 0o002, 0o700, 0o770, 0o444, 0o555, 0o600, 0o060, 0o640, 0o755, 0o100, 0o010, 0o001, 0o400, 0o040, 0o4755, 0o2020, 0o1200, 0o7000, 0o2000, 0o4010]
        } else {
            &[0o200, 0o020, 0, 0o002, 0o770, 0o555, 0o060, 0o2555]
        };
        Some((*cx.pick(owners), *cx.pick(groups), *cx.pick(modes)))
    };
    if let Some((u, g, m)) = so {
        make_socket("1000.4242.sock", u, g, m);
    }
    // the caller's own session is there, too
    make_socket("2000.4242.sock", 2000, 30, 0o777);
    let mut c = Call::new(who, &[b"1000", b"4242"]);
    if let Some(v) = su {
        c = c.env("SUDO_UID", v.as_bytes());
    }
    let r = run(&c);
    let d = always(&c, &r, Some(ruid))?;
    cx.describe(|| format!("caller {} groups {:?} SUDO_UID {:?} socket {:?}: {:?}", c.who.uid, c.who.groups, su, so, d));
    let o = decide(&c, 1000, ruid, so, &d)?;
    cx.outcome(o);
    check(r.touched.iter().all(|t| t == b"1000.4242.sock"), || format!("touched {:?}", r.touched.iter().map(|t| s(t)).collect::<Vec<_>>()))
}

const WORDS: [&[u8]; 40] = [
    b"01750",
    b"07777",
    b"1000",
    b"4242",
    b"0",
    b"EUID[$(evil)]",
    b"$(evil)",
    b"`evil`",
    b"1000;evil",
    b"1000\nevil",
    b"1000 evil",
    b"|evil",
    b"&&evil",
    b"BASHPID[`evil`]+1",
    b"1000+PATH[$(evil)]",
    b"../evil",
    b"/tmp/evil",
    b"1000/../1000",
    b"1000.4242.sock",
    b"",
    b" ",
    b"-n",
    b"--",
    b"-u",
    b"*",
    b"?",
    b"~",
    b"uid",
    b"ruid",
    b"PATH",
    b"HOME=x",
    b"1e3",
    b"-1",
    b"1000\n",
    b"\xff",
    b"999+1",
    b"DISPLAY",
    b"EUID",
    b"UID",
    b"SUDO_UID",
];
const MORE: [&[u8]; 17] = [
    b"1000\t",
    b"$((1000))",
    b"${HOME}",
    b"1,evil",
    b"(1000)",
    b"{1000,4242}",
    b"!evil",
    b"'evil'",
    b"\"evil\"",
    b"\\evil",
    b"1000#evil",
    b"1000||evil",
    b"socket_path[$(evil)]",
    b"uid=2000",
    b"BASH_ENV",
    b".",
    b"1000]",
];

fn canonical(a: &[u8]) -> bool {
    a == b"0" || !a.is_empty() && a[0] != b'0' && a.len() <= 18 && a.iter().all(|c| c.is_ascii_digit())
}

/// Nothing but blanks, digits and a sign: other ways to write a number.
fn numberlike(a: &[u8]) -> bool {
    a.iter().any(|c| c.is_ascii_digit()) && a.iter().all(|c| c.is_ascii_digit() || b" \t\n+-xX#abcdefABCDEF".contains(c))
}

fn arguments(cx: &mut Cx) -> Result<(), String> {
    fresh();
    let mut words: Vec<&[u8]> = WORDS.to_vec();
    if cx.thorough {
        words.extend(MORE);
    }
    let n = cx.input(4);
    let n = [2, 1, 0, 3][n];
    let mut args: Vec<&[u8]> = vec![];
    if n == 3 {
        // one word where there should be none, or in the place of one
        args = vec![b"1000", b"4242"];
        let k = cx.input(3);
        args.insert(k, *cx.pick(&words));
    } else {
        for _ in 0..n {
            args.push(*cx.pick(&words));
        }
    }
    let how = cx.input(cx.qt(2, 3));
    // writable, as he was connected through sudo; or only through sudo
    let (who, env) = match how {
        0 => (Cred::new(2000, 2000), Some(&b"2100"[..])),
        1 => (Cred::new(2100, 2100), None),
        _ => (Cred::root(), Some(&b"2100"[..])),
    };
    make_socket("1000.4242.sock", 2000, 30, 0o200);
    // sudo passes this one on by default
    let mut c = Call::new(who, &args).env("DISPLAY", b"EUID[$(evil)]");
    if let Some(v) = env {
        c = c.env("SUDO_UID", v);
    }
    let r = run(&c);
    let d = always(&c, &r, Some(2100))?;
    cx.describe(|| format!("arguments {}: {:?}", args_text(&c), d));
    let ok = args.len() == 2 && args.iter().all(|a| canonical(a));
    if ok {
        cx.outcome("well formed");
        let so = if args[0] == b"1000" && args[1] == b"4242" { Some((2000, 30, 0o200)) } else { None };
        let uid = s(args[0]).parse().unwrap();
        decide(&c, uid, 2100, so, &d)?;
        let want = sock(&s(args[0]), &s(args[1]));
        return check(r.touched.iter().all(|t| *t == want.as_bytes()), || format!("touched {:?}, not {}", r.touched.iter().map(|t| s(t)).collect::<Vec<_>>(), want));
    }
    cx.outcome("malformed");
    // a number spelled otherwise may stand for the number, in decimal
    let plain = |a: &[u8]| value(s(a).trim().as_bytes()).map_or(a.to_vec(), |v| v.to_string().into_bytes());
    if args.len() == 2 && args.iter().all(|a| numberlike(a)) {
        let named = [plain(args[0]), plain(args[1])];
        let so = |a: &[u8], b: &[u8]| [a, b".", b, b".sock"].concat();
        let may = [so(args[0], args[1]), so(&named[0], &named[1])];
        return check(r.touched.iter().all(|t| may.contains(t)), || format!("sudo_approve {} touched {:?}", args_text(&c), r.touched.iter().map(|t| s(t)).collect::<Vec<_>>()));
    }
    check(d == Did::Nothing, || format!("sudo_approve {} did {:?}", args_text(&c), d))?;
    let literal = if args.len() == 2 { [args[0], b".", args[1], b".sock"].concat() } else { vec![] };
    check(r.touched.iter().all(|t| *t == literal), || format!("sudo_approve {} touched {:?}", args_text(&c), r.touched.iter().map(|t| s(t)).collect::<Vec<_>>()))
}

const NUMS: [&str; 14] = ["1000", "0", "1", "9", "10", "100", "99", "65534", "65536", "2147483647", "2147483648", "4294967294", "999999999999", "9223372036854775807"];
const WRAPS: [&str; 6] = ["18446744073709552616", "18446744073709551615", "9223372036854775808", "36893488147419104232", "18446744073709551616", "99999999999999999999999999999999"];

fn numbers(cx: &mut Cx) -> Result<(), String> {
    fresh();
    let mut all = NUMS.to_vec();
    all.extend(WRAPS);
    let u = *cx.pick(&all);
    let p = *cx.pick(&["4242", "1", "0", "4194304", "2147483647", "18446744073709555858"]);
    let ruids = ["2100", "1000", "0", "1", "100", "10", "65534", "4294967294"];
    let ru = *cx.pick(&ruids);
    // every session anybody might reach by mistake
    for x in NUMS.iter().take(13) {
        if *x == u || *x == ru || ["1000", "0"].contains(x) {
            for q in ["4242", p] {
                make_socket(&sock(x, q), 2000, 30, 0o200);
            }
        }
    }
    if cx.flag() {
        // and the caller's own name as a prefix or suffix of theirs
        make_socket(&sock(&format!("{}0", ru), p), 2000, 30, 0o200);
    }
    let c = Call::new(Cred::new(2000, 2000), &[u.as_bytes(), p.as_bytes()]).env("SUDO_UID", ru.as_bytes());
    let r = run(&c);
    let d = always(&c, &r, ru.parse().ok())?;
    cx.describe(|| format!("session {}.{} by original uid {}: {:?}", u, p, ru, d));
    cx.outcome(if u == ru { "self" } else { "another's" });
    if canonical(u.as_bytes()) && canonical(p.as_bytes()) {
        let there = std::path::Path::new(&format!("{}/{}", s(&w().dir), sock(u, p))).exists();
        decide(&c, u.parse().unwrap(), ru.parse().unwrap(), if there { Some((2000, 30, 0o200)) } else { None }, &d)?;
        let want = sock(u, p);
        check(r.touched.iter().all(|t| *t == want.as_bytes()), || format!("touched {:?}, not {}", r.touched.iter().map(|t| s(t)).collect::<Vec<_>>(), want))?;
    }
    Ok(())
}

const VARS: [(&str, &[u8]); 44] = [
    ("TRACE", b"1"),
    ("TRACE", b"0"),
    ("TRACE", b"$(evil)"),
    ("uid", b"2000"),
    ("pid", b"1"),
    ("ruid", b"2100"),
    ("ruid", b"EUID[$(evil)]"),
    ("socket", b"/var/run/sudo_pair/2000.1.sock"),
    ("socket_path", b"/tmp"),
    ("socket_uid", b"0"),
    ("socket_gid", b"0"),
    ("socket_user", b"root"),
    ("socket_group", b"root"),
    ("socket_mode", b"777"),
    ("SUDO_SOCKET_PATH", b"/tmp"),
    ("SUDO_USER", b"carol"),
    ("SUDO_GID", b"2100"),
    ("SUDO_COMMAND", b"/usr/bin/sudo_approve 1000 4242"),
    ("SUDO_ASKPASS", b"evil"),
    ("POSIXLY_CORRECT", b"1"),
    ("LC_ALL", b"C"),
    ("LC_ALL", b"tr_TR.UTF-8"),
    ("LANG", b"xx"),
    ("IFS", b"0123456789"),
    ("CDPATH", b"/tmp"),
    ("OLDPWD", b"/tmp"),
    ("PWD", b"/nonexistent"),
    ("HOME", b"/nonexistent"),
    ("USER", b"root"),
    ("LOGNAME", b"root"),
    ("arg", b"x"),
    ("1", b"2000"),
    ("_", b"/tmp/evil"),
    ("SHLVL", b"999999"),
    ("GETOPT_COMPATIBLE", b"1"),
    ("QUOTING_STYLE", b"shell"),
    ("BLOCK_SIZE", b"1"),
    ("TZ", b"/tmp/evil"),
    ("COLUMNS", b"1"),
    ("SHELL", b"evil"),
    ("EDITOR", b"evil"),
    ("FUNCNEST", b"1000"),
    ("TERM", b""),
    ("REPLY", b"y"),
];

/// Every name the script uses, were it to take one from the environment;
/// what sudo, bash and the stand-ins themselves go by is left out.
fn used() -> Vec<String> {
    let text = String::from_utf8_lossy(&std::fs::read(String::from_utf8_lossy(&script_path()).as_ref()).unwrap_or_default()).into_owned();
    let mut names: Vec<String> = vec![];
    for line in text.lines().filter(|l| !l.trim_start().starts_with('#')) {
        for n in line.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
            let ours = ["PATH", "SUDO_UID", "IFS", "EUID", "UID", "PPID", "TRACE", "BASHOPTS", "SHELLOPTS"].contains(&n) || ["BASH", "LD_", "MC_", "LC_"].iter().any(|p| n.starts_with(p));
            if !n.is_empty() && !n.as_bytes()[0].is_ascii_digit() && !ours && !names.iter().any(|x| x == n) {
                names.push(n.into());
            }
        }
    }
    names
}

fn spelled(cx: &mut Cx) -> Result<(), String> {
    fresh();
    let names = used();
    let name = cx.pick(&names).clone();
    let values: [&[u8]; 10] = [b"/tmp", b"1000", b"x[$(evil)]", b"777", b"0", b"2100", b"$(evil)", b"evil", b"", b"/var/run/sudo_pair/2000.1.sock"];
    let v = *cx.pick(&values[..cx.qt(4, 10)]);
    with_variable(cx, &[(&name, v)])
}

fn environment(cx: &mut Cx) -> Result<(), String> {
    fresh();
    let k = cx.input(VARS.len());
    let second = if cx.thorough { cx.input(VARS.len() + 1) } else { 0 };
    if second != 0 && second - 1 <= k {
        return Ok(());
    }
    let mut vars = vec![VARS[k]];
    if second > 0 {
        vars.push(VARS[second - 1]);
    }
    with_variable(cx, &vars)
}

fn with_variable(cx: &mut Cx, vars: &[(&str, &[u8])]) -> Result<(), String> {
    let st = cx.input(6);
    let (who, su, so): (Cred, Option<&[u8]>, Option<(u32, u32, u32)>) = match st {
        0 => (Cred::new(2000, 2000), Some(b"2100"), Some((2000, 30, 0o200))),
        1 => (Cred::new(2100, 2100), None, Some((2000, 30, 0o200))),
        2 => (Cred::new(2100, 2100), None, Some((2000, 30, 0o020))),
        3 => (Cred::new(2000, 2000), Some(b"1000"), Some((2000, 30, 0o200))),
        4 => (Cred::new(1000, 1000), None, Some((2000, 30, 0o200))),
        _ => (Cred::new(2100, 2100), None, None),
    };
    if let Some((u, g, m)) = so {
        make_socket("1000.4242.sock", u, g, m);
    }
    make_socket("2000.1.sock", 2000, 30, 0o777);
    let ruid = su.map_or(who.uid as u64, |v| s(v).parse().unwrap());
    let mut c = Call::new(who, &[b"1000", b"4242"]);
    if let Some(v) = su {
        c = c.env("SUDO_UID", v);
    }
    for (k, v) in vars {
        c = c.env(k, v);
    }
    let r = run(&c);
    let vars = c.env.iter().map(|(k, v)| format!("{}={:?}", s(k), s(v))).collect::<Vec<_>>().join(" ");
    cx.describe(|| format!("{} in state {}: {:?}", vars, st, did(&r)));
    let d = always(&c, &r, Some(ruid)).map_err(|e| format!("with {}: {}", vars, e))?;
    decide(&c, 1000, ruid, so, &d).map_err(|e| format!("with {}: {}", vars, e))?;
    cx.outcome("unchanged");
    check(r.touched.iter().all(|t| t == b"1000.4242.sock"), || format!("with {}: touched {:?}", vars, r.touched.iter().map(|t| s(t)).collect::<Vec<_>>()))
}

fn failures(cx: &mut Cx) -> Result<(), String> {
    fresh();
    let (who, _) = caller(cx);
    let (su, ruid) = origin(cx, &who, 3);
    let so = (*cx.pick(&[2000u32, 1000]), 30, *cx.pick(&[0o200u32, 0o020, 0o220]));
    make_socket("1000.4242.sock", so.0, so.1, so.2);
    let mut c = Call::new(who, &[b"1000", b"4242"]);
    if let Some(v) = su {
        c = c.env("SUDO_UID", v.as_bytes());
    }
    let what = cx.input(2);
    if what == 0 {
        let k = cx.input(8);
        let for_good = cx.flag();
        c.vanish = format!("{}{}", k, if for_good { "+" } else { "" });
    } else {
        c.fail = cx.pick(&["socat", "sudo", "stty", "clear", "socat,sudo,stty,clear"]).to_string();
    }
    let r = run(&c);
    let d = always(&c, &r, Some(ruid))?;
    cx.describe(|| format!("caller {} SUDO_UID {:?} socket {:?} vanish {:?} failing {:?}: {:?}", c.who.uid, su, so, c.vanish, c.fail, d));
    cx.outcome(if what == 0 { "vanished" } else { "failed" });
    check(ruid != 1000 || d == Did::Nothing, || format!("his own session, but {:?}", d))?;
    if let Did::Connect(_) = d {
        check(may_write(&c.who, so.0, so.1, so.2), || "connects to a socket that is not writable".into())?;
    }
    if let Did::Sudo { user, group, .. } = &d {
        let o = so.2 & 0o200 != 0 && group.is_none() && names(user, so.0, user_name(so.0));
        let g = so.2 & 0o020 != 0 && user.is_none() && names(group, so.1, group_name(so.1));
        check(o || g, || format!("socket {:?} but {:?}", so, d))?;
    }
    Ok(())
}
