//! C15: session facts are taken from the right keys, or the session is
//! refused.

use super::drv::*;
use super::util::*;
use crate::abi::*;
use std::collections::BTreeMap;

pub fn spec() -> Spec {
    Spec {
        id: "C15",
        needs: "pb",
        harnesses,
        assumptions: &[
            ONE,
            "not judged: numbers written with a plus sign; runas_gids() when both runas_groups and preserve_groups are given; facts whose paths are not UTF-8 may be refused or counted as absent instead of kept",
        ],
    }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "fields", what: "every documented key of every list with every notation, alone", bound: 0, run: fields, expect: &["served", "refused", "no command"] },
        Harness { name: "constants", what: "every text and number the code under test is written with as each key's value, as a key of each list, in the command line and the environment", bound: 0, run: constants, expect: &["served", "refused"] },
        Harness { name: "pairs", what: "every two deviations from a usual session", bound: 0, run: pairs, expect: &["served", "refused", "no command"] },
        Harness { name: "plugin", what: "the pair plugin itself, with every notation of every mandatory fact", bound: 0, run: plugin_too, expect: &["served", "refused"] },
        Harness { name: "strays", what: "every key where it does not belong, and every misspelt key", bound: 0, run: strays, expect: &["served"] },
        Harness { name: "numbers", what: "all short texts over the characters of numbers, in every number", bound: 0, run: numbers, expect: &["served", "refused"] },
        Harness { name: "order", what: "rotations and reversals of the lists, with other entries around", bound: 0, run: order, expect: &["served"] },
        Harness { name: "after", what: "a session after another one", bound: 0, run: after, expect: &["served", "refused", "no command"] },
        Harness { name: "cmdline", what: "command lines over a small alphabet", bound: 0, run: cmdline, expect: &["served"] },
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Str,
    Path,
    Raw,
    Bool(bool),
    /// signed?, bits
    Num(bool, u32),
    Octal,
    List(bool, u32),
    Nets,
}
use K::*;

/// 0 settings, 1 user_info, 2 command_info
type Field = (usize, &'static str, &'static str, K, Option<&'static str>, bool);

/// (list, documented key, field, notation, default when it is no Option,
/// mandatory)
const F: &[Field] = &[
    (0, "plugin_dir", "plugin_dir", Str, None, true),
    (0, "plugin_path", "plugin_path", Str, None, true),
    (0, "progname", "progname", Str, None, true),
    (0, "bsdauth_type", "bsd_auth_type", Str, None, false),
    (0, "closefrom", "close_from", Num(false, 64), None, false),
    (0, "debug_flags", "debug_flags", Str, None, false),
    (0, "debug_level", "debug_level", Num(false, 64), None, false),
    (0, "ignore_ticket", "ignore_ticket", Bool(false), None, false),
    (0, "implied_shell", "implied_shell", Bool(false), None, false),
    (0, "login_class", "login_class", Str, None, false),
    (0, "login_shell", "login_shell", Bool(false), None, false),
    (0, "max_groups", "max_groups", Num(false, 64), None, false),
    (0, "network_addrs", "network_addrs", Nets, Some("[]"), false),
    (0, "noninteractive", "noninteractive", Bool(false), None, false),
    (0, "preserve_environment", "preserve_environment", Bool(false), None, false),
    (0, "preserve_groups", "preserve_groups", Bool(false), None, false),
    (0, "prompt", "prompt", Str, None, false),
    (0, "remote_host", "remote_host", Str, None, false),
    (0, "run_shell", "run_shell", Bool(false), None, false),
    (0, "runas_group", "runas_group", Str, None, false),
    (0, "runas_user", "runas_user", Str, None, false),
    (0, "selinux_role", "selinux_role", Str, None, false),
    (0, "selinux_type", "selinux_type", Str, None, false),
    (0, "set_home", "set_home", Bool(false), None, false),
    (0, "sudoedit", "sudoedit", Bool(false), None, false),
    (0, "timeout", "timeout", Str, None, false),
    (1, "cwd", "cwd", Path, None, true),
    (1, "egid", "egid", Num(false, 32), None, true),
    (1, "euid", "euid", Num(false, 32), None, true),
    (1, "gid", "gid", Num(false, 32), None, true),
    (1, "groups", "groups", List(false, 32), None, true),
    (1, "host", "host", Str, None, true),
    (1, "pgid", "pgid", Num(true, 32), None, true),
    (1, "pid", "pid", Num(true, 32), None, true),
    (1, "ppid", "ppid", Num(true, 32), None, true),
    (1, "uid", "uid", Num(false, 32), None, true),
    (1, "user", "user", Str, None, true),
    (1, "cols", "cols", Num(false, 64), Some("80"), false),
    (1, "lines", "lines", Num(false, 64), Some("24"), false),
    (1, "sid", "sid", Num(true, 32), Some("0"), false),
    (1, "tcpgid", "tcpgid", Num(true, 32), Some("-1"), false),
    (1, "tty", "tty", Path, None, false),
    (1, "umask", "umask", Str, None, false),
    (2, "chroot", "chroot", Str, None, false),
    (2, "closefrom", "close_from", Num(false, 64), None, false),
    (2, "command", "command", Raw, Some(""), false),
    (2, "cwd", "cwd", Raw, None, false),
    (2, "exec_background", "exec_background", Bool(false), None, false),
    (2, "execfd", "exec_fd", Num(false, 64), None, false),
    (2, "iolog_compress", "iolog_compress", Bool(false), None, false),
    (2, "iolog_group", "iolog_group", Str, None, false),
    (2, "iolog_mode", "iolog_mode", Str, None, false),
    (2, "iolog_path", "iolog_path", Str, None, false),
    (2, "iolog_stdin", "iolog_stdin", Bool(false), None, false),
    (2, "iolog_stdout", "iolog_stdout", Bool(false), None, false),
    (2, "iolog_stderr", "iolog_stderr", Bool(false), None, false),
    (2, "iolog_ttyin", "iolog_ttyin", Bool(false), None, false),
    (2, "iolog_ttyout", "iolog_ttyout", Bool(false), None, false),
    (2, "iolog_user", "iolog_user", Str, None, false),
    (2, "login_class", "login_class", Str, None, false),
    (2, "nice", "nice", Num(true, 64), None, false),
    (2, "noexec", "noexec", Bool(false), None, false),
    (2, "preserve_fds", "preserve_fds", List(true, 32), Some("[]"), false),
    (2, "preserve_groups", "preserve_groups", Bool(false), None, false),
    (2, "runas_gid", "runas_gid", Num(false, 32), Some("!"), false),
    (2, "runas_uid", "runas_uid", Num(false, 32), Some("!"), false),
    (2, "runas_egid", "runas_egid", Num(false, 32), Some("!"), false),
    (2, "runas_euid", "runas_euid", Num(false, 32), Some("!"), false),
    (2, "runas_groups", "runas_groups", List(false, 32), None, false),
    (2, "selinux_role", "selinux_role", Str, None, false),
    (2, "selinux_type", "selinux_type", Str, None, false),
    (2, "set_utmp", "set_utmp", Bool(false), None, false),
    (2, "sudoedit", "sudoedit", Bool(false), None, false),
    (2, "sudoedit_checkdir", "sudoedit_checkdir", Bool(true), None, false),
    (2, "sudoedit_follow", "sudoedit_follow", Bool(false), None, false),
    (2, "timeout", "timeout", Num(false, 64), None, false),
    (2, "umask", "umask", Octal, Some("4095"), false),
    (2, "umask_override", "umask_override", Bool(false), Some("-"), false),
    (2, "use_pty", "use_pty", Bool(false), None, false),
    (2, "utmp_user", "utmp_user", Str, None, false),
];
const LISTS: [&str; 3] = ["settings", "user_info", "command_info"];

fn esc(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in b {
        match c {
            b'\n' => o.extend(b"\\n"),
            b'\\' => o.extend(b"\\\\"),
            c => o.push(*c),
        }
    }
    o
}

/// A decimal integer of the kind, as sudo writes them.
fn number(b: &[u8], signed: bool, bits: u32) -> Option<String> {
    let (neg, d) = match b.strip_prefix(b"-") {
        Some(d) => (true, d),
        None => (false, b),
    };
    if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let v = d.iter().fold(0i128, |a, c| if a > 1 << 100 { a } else { a * 10 + (c - b'0') as i128 });
    let v = if neg { -v } else { v };
    let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
    if neg && !signed {
        // "-0" says nothing anyone writes
        return None;
    }
    if v < lo || v > hi { None } else { Some(v.to_string()) }
}

/// What the field shows for this value: None if the value is malformed.
fn parse(k: K, b: &[u8]) -> Option<Vec<u8>> {
    let utf8 = std::str::from_utf8(b).is_ok();
    match k {
        Str | Path => {
            if utf8 {
                Some(esc(b))
            } else {
                None
            }
        }
        Raw => Some(esc(b)),
        Bool(_) => match b {
            b"true" | b"false" => Some(b.to_vec()),
            _ => None,
        },
        Num(s, n) => number(b, s, n).map(|x| x.into_bytes()),
        Octal => {
            if b.is_empty() || !b.iter().all(|c| (b'0'..=b'7').contains(c)) {
                return None;
            }
            let v = b.iter().fold(0u128, |a, c| if a > 1 << 100 { a } else { a * 8 + (c - b'0') as u128 });
            if v > u32::MAX as u128 { None } else { Some(v.to_string().into_bytes()) }
        }
        List(s, n) => {
            let v: Option<Vec<String>> = b.split(|c| *c == b',').map(|e| number(e, s, n)).collect();
            v.map(|v| format!("[{}]", v.join(";")).into_bytes())
        }
        Nets => {
            let mut o = vec![];
            for e in std::str::from_utf8(b).ok()?.split(' ') {
                let (a, m) = e.split_once('/')?;
                let a: std::net::IpAddr = a.parse().ok()?;
                let m: std::net::IpAddr = m.parse().ok()?;
                o.push(format!("{}/{}", a, m));
            }
            Some(format!("[{}]", o.join(";")).into_bytes())
        }
    }
}

/// Values worth trying; the first ones are well-formed.
fn values(k: K) -> &'static [&'static [u8]] {
    match k {
        Str => &[b"x", b"", b"a b=c", b"k%s\\\n", b"\xc3\xa9", b"true", b"\xff", b"a\xc3"],
        Path => &[b"/x y", b"", b"/a=b", b"x/y", b"../z", b"/\xc3\xa9", b"\xff", b"/a\xff/b"],
        Raw => &[b"/x", b"", b"/a=b \n", b"\xff", b"/a\xff/b"],
        Bool(_) => &[b"true", b"false", b"", b"True", b"1", b"0", b"yes", b"true ", b"truex", b"\xff"],
        Num(false, 32) => &[b"7", b"0", b"4294967295", b"007", b"", b"4294967296", b"-1", b"x", b"1x", b" 1", b"1,2", b"0x1", b"\xff"],
        Num(false, _) => &[b"7", b"0", b"18446744073709551615", b"007", b"", b"18446744073709551616", b"-1", b"x", b"1x", b" 1", b"1.0", b"0x1", b"\xff"],
        Num(true, _) => &[b"7", b"0", b"2147483647", b"-1", b"-2147483648", b"-20", b"", b"2147483648", b"-2147483649", b"x", b"1x", b"-", b"\xff"],
        Octal => &[b"022", b"0022", b"77", b"0", b"777", b"", b"8", b"09", b"-1", b"x", b"0o22", b"77777777777777777777777", b"\xff"],
        List(..) => &[b"7", b"7,8", b"8,7", b"0,2147483647", b"1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20", b"7,7", b"", b",", b"7,", b",7", b"7 8", b"7,x", b"7,99999999999", b"\xff"],
        Nets => &[
            b"192.168.1.2/255.255.255.0",
            b"10.0.0.1/255.0.0.0 fe80::1/ffff:ffff:ffff:ffff::",
            b"::1/ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff 127.0.0.1/255.0.0.0 192.168.1.2/255.255.255.0",
            b"",
            b" ",
            b"1.2.3.4",
            b"1.2.3.4/",
            b"/1.2.3.4",
            b"/",
            b"1.2.3.4/24",
            b"1.2.3.4/255.0.0.0 ",
            b"x/y",
            b"1.2.3.4/255.0.0.0,1.2.3.5/255.0.0.0",
            b"1.2.3.4/255.0.0.0/1",
            b"\xff",
        ],
    }
}

#[derive(Clone, Default)]
struct Facts {
    /// (list, key) -> value
    v: BTreeMap<(usize, &'static str), Vec<u8>>,
}

/// Mandatory facts only, all different; the command.
fn minimal() -> Facts {
    let mut f = Facts::default();
    for (l, k, v) in [
        (0, "plugin_dir", "/lib/p"),
        (0, "plugin_path", "/lib/p/q.so"),
        (0, "progname", "sudo"),
        (1, "cwd", "/home/u"),
        (1, "egid", "101"),
        (1, "euid", "102"),
        (1, "gid", "103"),
        (1, "groups", "104,105"),
        (1, "host", "h"),
        (1, "pgid", "106"),
        (1, "pid", "107"),
        (1, "ppid", "108"),
        (1, "uid", "109"),
        (1, "user", "u"),
        (2, "command", "/bin/c"),
    ] {
        f.v.insert((l, k), v.as_bytes().to_vec());
    }
    f
}

/// Every field present and well-formed, all different.
fn full() -> Facts {
    let mut f = Facts::default();
    for (i, x) in F.iter().enumerate() {
        let n = 1000 + i;
        let v = match x.3 {
            Str => format!("s{}", n),
            Path | Raw => format!("/p{}", n),
            Bool(d) => (!d).to_string(),
            Num(..) => n.to_string(),
            Octal => "27".into(),
            List(..) => format!("{},{}", n, n + 1000),
            Nets => "10.1.2.3/255.0.0.0".into(),
        };
        f.v.insert((x.0, x.1), v.into_bytes());
    }
    f.v.remove(&(2, "preserve_groups"));
    f
}

impl Facts {
    fn sess(&self) -> SessIn {
        let mut si = SessIn::usual();
        for l in [&mut si.settings, &mut si.user_info, &mut si.command_info] {
            l.0.clear();
        }
        for ((l, k), v) in &self.v {
            let kv = [&mut si.settings, &mut si.user_info, &mut si.command_info];
            let mut e = k.as_bytes().to_vec();
            e.push(b'=');
            e.extend(v);
            kv.into_iter().nth(*l).unwrap().0.push(e);
        }
        si.settings.0.push(b"mark=m-s".to_vec());
        si.user_info.0.push(b"mark=m-u".to_vec());
        si.command_info.0.push(b"mark=m-c".to_vec());
        si.env.0.push(b"mark=m-e".to_vec());
        si.options.0.push(b"mark=m-o".to_vec());
        si
    }

    fn get(&self, l: usize, k: &str) -> Option<&Vec<u8>> {
        self.v.iter().find(|((a, b), _)| *a == l && *b == k).map(|x| x.1)
    }

    /// 0 served, 1 no command, 2 refused
    fn fate(&self) -> (bool, bool) {
        let bad = F.iter().any(|f| f.5 && self.get(f.0, f.1).and_then(|v| parse(f.3, v)).is_none());
        let none = self.get(2, "command").map_or(true, |v| v.is_empty());
        (bad, none)
    }

    /// "list.field" -> texts it may show as
    fn want(&self) -> Vec<(String, Vec<Vec<u8>>)> {
        let mut o: Vec<(String, Vec<Vec<u8>>)> = vec![];
        let wd = w();
        let (egid, euid) = (wd.egid.unwrap_or(0).to_string(), wd.euid.unwrap_or(0).to_string());
        let num = |k: &str| self.get(2, k).and_then(|v| parse(Num(false, 32), v));
        let gid = num("runas_gid").unwrap_or(egid.into_bytes());
        let uid = num("runas_uid").unwrap_or(euid.into_bytes());
        let mut regid = vec![];
        for f in F {
            let given = self.get(f.0, f.1);
            let p = given.and_then(|v| parse(f.3, v));
            let plain = f.5 || f.4.is_some_and(|d| d != "-") || (matches!(f.3, Bool(_)) && f.4.is_none());
            let def: Vec<u8> = match (f.1, f.3, f.4) {
                ("runas_gid" | "runas_egid", ..) => gid.clone(),
                ("runas_uid" | "runas_euid", ..) => uid.clone(),
                (_, _, Some(d)) => d.as_bytes().to_vec(),
                (_, Bool(d), None) => d.to_string().into_bytes(),
                _ => b"-".to_vec(),
            };
            let shown = match p {
                Some(p) if plain => p,
                Some(p) => [b"+", &p[..]].concat(),
                None => def.clone(),
            };
            if f.1 == "runas_egid" {
                regid = shown.clone();
            }
            let mut ok = vec![shown];
            if f.3 == Path && given.is_some_and(|v| std::str::from_utf8(v).is_err()) {
                ok.push([if plain { &b""[..] } else { b"+" }, &esc(given.unwrap())].concat());
            }
            if f.1 == "tty" && given.is_some_and(|v| v.is_empty()) {
                ok.push(b"-".to_vec());
            }
            o.push((format!("{}.{}", LISTS[f.0], f.2), ok));
        }
        let cwd = match self.get(2, "cwd") {
            Some(c) => esc(c),
            None => self.get(1, "cwd").map(|c| esc(c)).unwrap_or_default(),
        };
        o.push(("cwd()".into(), vec![cwd]));
        let pg = self.get(2, "preserve_groups").is_some_and(|v| v == b"true");
        let rg = self.get(2, "runas_groups").and_then(|v| parse(List(false, 32), v));
        if !(pg && rg.is_some()) {
            let l = rg.or_else(|| self.get(1, "groups").and_then(|v| parse(List(false, 32), v))).unwrap_or(b"[]".to_vec());
            let l = String::from_utf8(l).unwrap();
            let mut v: Vec<u32> = l.trim_matches(|c| c == '[' || c == ']').split(';').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            v.push(String::from_utf8(regid).unwrap().parse().unwrap());
            v.sort();
            v.dedup();
            o.push(("runas_gids()".into(), vec![format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(";")).into_bytes()]));
        }
        o
    }
}

fn lines(d: &[u8]) -> BTreeMap<&[u8], &[u8]> {
    d.split(|c| *c == b'\n').filter(|l| !l.is_empty()).filter_map(|l| l.iter().position(|c| *c == b'=').map(|i| (&l[..i], &l[i + 1..]))).collect()
}

/// Opens the session and compares all it shows with what it was given.
fn one(cx: &mut Cx, k: usize, f: &Facts, si: &SessIn) -> Result<(), String> {
    take();
    let (bad, none) = f.fate();
    let r = open_at(plugin(k), si);
    let recs = take();
    let ran = recs.iter().any(|r| r.method != DROP);
    let res = if bad || none {
        cx.outcome(if bad { "refused" } else { "no command" });
        let odd = F.iter().any(|x| x.3 == Path && f.get(x.0, x.1).is_some_and(|v| std::str::from_utf8(v).is_err()));
        if odd && bad && !none && r == 1 && ran {
            Ok(())
        } else if bad && none {
            check((r == -1 || r == 1) && !ran, || format!("open returned {} and made the calls {}", r, show(&recs)))
        } else if bad {
            check(r == -1 && !ran, || format!("a mandatory fact was wrong, but open returned {} and made the calls {}", r, show(&recs)))
        } else {
            check(r == 1 && !ran, || format!("there was no command, but open returned {} and made the calls {}", r, show(&recs)))
        }
    } else {
        cx.outcome("served");
        served(k, f, si, r, &recs)
    };
    close_at(plugin(k), 0, 0);
    res
}

fn served(k: usize, f: &Facts, si: &SessIn, r: i32, recs: &[Rec]) -> Result<(), String> {
    check(r == 1, || format!("open returned {}; it said {:?}", r, s(&printed(CONV_ERROR))))?;
    check(recs.len() == 1 && recs[0].method == OPEN, || format!("open made the calls {}", show(recs)))?;
    let d = lines(&recs[0].data);
    for (n, ok) in f.want() {
        let got = d.get(n.as_bytes()).ok_or_else(|| format!("no field {}", n))?;
        check(ok.iter().any(|o| &o[..] == *got), || format!("{} is {:?} and not {:?}", n, s(got), s(&ok[0])))?;
    }
    let mut cl = b"[".to_vec();
    for (i, a) in si.argv.iter().enumerate() {
        if i > 0 {
            cl.push(b';');
        }
        cl.extend(esc(a));
    }
    cl.push(b']');
    let vers: &[u8] = b"9.8.7";
    let fixed: [(&str, &[u8]); 9] = [
        ("plugin_name", NAMES[k].as_bytes()),
        ("plugin_version", vers),
        ("api_version", b"1.17"),
        ("cmdline", &cl),
        ("settings.raw[mark]", b"+m-s"),
        ("user_info.raw[mark]", b"+m-u"),
        ("command_info.raw[mark]", b"+m-c"),
        ("user_env[mark]", b"+m-e"),
        ("plugin_options[mark]", b"+m-o"),
    ];
    for (n, v) in fixed {
        let got = d.get(n.as_bytes()).copied().unwrap_or(b"(nothing)");
        check(got == v, || format!("{} is {:?} and not {:?}", n, s(got), s(v)))?;
    }
    Ok(())
}

fn ids() {
    let wd = w();
    wd.egid = Some(2345);
    wd.euid = Some(1234);
}

/// Every deviation from a usual session, for other properties: (list, key,
/// value or absent, mandatory, is the value well-formed UTF-8 and so on).
pub struct Deviation {
    pub list: usize,
    pub key: &'static str,
    pub value: Option<&'static [u8]>,
    pub fatal: bool,
    pub odd_path: bool,
}
pub fn deviations() -> usize {
    total()
}
pub fn deviation(i: usize) -> Deviation {
    let (f, v) = dev(i);
    let fatal = f.5 && v.is_none_or(|v| parse(f.3, v).is_none());
    Deviation { list: f.0, key: f.1, value: v, fatal, odd_path: fatal && f.3 == Path && v.is_some() }
}

/// The i-th documented key, and whether a value is one it takes.
pub fn key(i: usize) -> (usize, &'static str) {
    (F[i].0, F[i].1)
}
pub fn keys() -> usize {
    F.len()
}
pub fn takes(i: usize, v: &[u8]) -> bool {
    !F[i].5 || parse(F[i].3, v).is_some()
}

fn total() -> usize {
    F.iter().map(|f| values(f.3).len() + 1).sum()
}
/// The i-th deviation.
fn dev(i: usize) -> (&'static Field, Option<&'static [u8]>) {
    let mut i = i;
    for f in F {
        let n = values(f.3).len() + 1;
        if i < n {
            return (f, if i == 0 { None } else { Some(values(f.3)[i - 1]) });
        }
        i -= n;
    }
    unreachable!()
}
fn apply(f: &mut Facts, d: (&'static Field, Option<&'static [u8]>)) {
    match d.1 {
        None => f.v.remove(&(d.0.0, d.0.1)),
        Some(v) => f.v.insert((d.0.0, d.0.1), v.to_vec()),
    };
}
fn say(d: (&'static Field, Option<&'static [u8]>)) -> String {
    format!("{}: {}{}", LISTS[d.0.0], d.0.1, d.1.map_or(" absent".into(), |v| format!("={}", s(v))))
}
fn base(i: usize) -> Facts {
    if i == 0 { minimal() } else { full() }
}

fn fields(cx: &mut Cx) -> Result<(), String> {
    start(true);
    let k = cx.input(2);
    let b = cx.input(2);
    let d = dev(cx.input(total()));
    let idsel = cx.input(3);
    if idsel > 0 {
        ids();
        if idsel == 2 {
            w().egid = Some(u32::MAX - 1);
        }
    }
    let mut f = base(b);
    apply(&mut f, d);
    cx.describe(|| format!("{} {} session, {}", NAMES[k], ["minimal", "full"][b], say(d)));
    let si = f.sess();
    one(cx, k, &f, &si)
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    start(true);
    let k = cx.input(2);
    let b = cx.input(2);
    let mut f = base(b);
    let place = cx.input(F.len() + 5);
    let t: &'static [u8] = cx.pick(crate::dict::words());
    let mut stray: Option<(usize, Vec<u8>)> = None;
    let mut argv = None;
    if place < F.len() {
        let d = (&F[place], Some(t));
        if known(d) || F[place].1 == "nice" && parse(Num(true, 64), t).is_none() && parse(Num(false, 64), t).is_some() {
            // (a nice value beyond any is not judged)
            return Ok(());
        }
        if t.contains(&b'+') && matches!(F[place].3, Num(..) | Octal | List(..)) {
            // nobody writes a number with a plus
            return Ok(());
        }
        apply(&mut f, d);
        cx.describe(|| format!("{} {} session, {}", NAMES[k], ["minimal", "full"][b], say(d)));
    } else if place < F.len() + 3 {
        let l = place - F.len();
        if t.contains(&b'=') || t == b"mark" || F.iter().any(|f| f.0 == l && f.1.as_bytes() == t) {
            return Ok(());
        }
        let v: &[u8] = cx.pick(&[&b"=true"[..], b"=7", b""]);
        stray = Some((l, [t, v].concat()));
        cx.describe(|| format!("{} {} session, {} also says {:?}", NAMES[k], ["minimal", "full"][b], LISTS[l], s(&stray.as_ref().unwrap().1)));
    } else {
        if t == b"mark" {
            return Ok(());
        }
        argv = Some(if place == F.len() + 3 { vec![t.to_vec()] } else { vec![b"cat".to_vec(), t.to_vec(), t.to_vec()] });
        cx.describe(|| format!("{} {} session, argument {:?}", NAMES[k], ["minimal", "full"][b], s(t)));
    }
    let mut si = f.sess();
    if let Some((l, e)) = stray {
        [&mut si.settings, &mut si.user_info, &mut si.command_info][l].0.push(e);
    }
    if let Some(a) = argv {
        si.env.0.push([t, b"=1"].concat());
        si.argv = a;
    }
    one(cx, k, &f, &si)
}

/// What the library refuses, the pair plugin refuses, too.
fn plugin_too(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let d = deviation(cx.input(deviations()));
    let exempt = cx.input(EXEMPTIONS + 1);
    if !d.fatal || d.odd_path {
        if exempt == 0 {
            cx.outcome("served");
        }
        return Ok(());
    }
    let mut si = SessIn::usual();
    let why = if exempt > 0 { make_exempt(exempt - 1, &mut si) } else { "none" };
    let kv = [&mut si.settings, &mut si.user_info, &mut si.command_info].into_iter().nth(d.list).unwrap();
    match d.value {
        Some(v) => kv.set(d.key, v),
        None => kv.del(d.key),
    };
    let full = cx.flag();
    if !full {
        si.options = Kv::default();
        si.argv.clear();
    }
    answer(b"y");
    cx.describe(|| format!("{}: {}={:?}, exemption {}", LISTS[d.list], d.key, d.value.map(s), why));
    cx.outcome("refused");
    let r = open(&si);
    check(r == -1, || format!("a mandatory fact was wrong, but open returned {}", r))?;
    check(!printed(CONV_ERROR).is_empty(), || "refused without a word".into())?;
    no_socket()
}

fn known(d: (&'static Field, Option<&'static [u8]>)) -> bool {
    d.0.1 == "nice" && d.1.is_some_and(|v| v.len() > 1 && v[0] == b'-')
}

fn pairs(cx: &mut Cx) -> Result<(), String> {
    start(true);
    ids();
    let b = cx.input(2);
    let i = cx.input(total());
    let k = i % 2;
    let d = dev(i);
    if known(d) {
        return Ok(());
    }
    for j in i + 1..total() {
        let e = dev(j);
        if known(e) || (e.0.0, e.0.1) == (d.0.0, d.0.1) {
            continue;
        }
        let mut f = base(b);
        apply(&mut f, d);
        apply(&mut f, e);
        let si = f.sess();
        let wd = w();
        wd.evs.clear();
        wd.printed.clear();
        wd.steps = 0;
        cx.count("sessions", 1);
        one(cx, k, &f, &si).map_err(|m| format!("{} session, {}, {}: {}", ["minimal", "full"][b], say(d), say(e), m))?;
    }
    Ok(())
}

/// Spellings that are no documented key.
fn misspelt(k: &str, n: usize) -> Option<String> {
    let v = match n {
        0 => k.to_uppercase(),
        1 => format!("{}x", k),
        2 => k[..k.len() - 1].to_string(),
        3 => k.replace('_', "-"),
        4 => k.replace('_', ""),
        5 => format!(" {}", k),
        6 => format!("{} ", k),
        7 => format!("x{}", k),
        8 => match k {
            "closefrom" => "close_from".into(),
            "bsdauth_type" => "bsd_auth_type".into(),
            "execfd" => "exec_fd".into(),
            "runas_uid" => "runas_user".into(),
            _ => format!("_{}", k),
        },
        _ => k.split('_').next_back().unwrap().to_string(),
    };
    if v == k || v.is_empty() { None } else { Some(v) }
}

/// A well-formed value the sessions do not use.
fn stray_value(k: K) -> &'static str {
    match k {
        Str => "stray",
        Path | Raw => "/stray",
        Bool(d) => if d { "false" } else { "true" },
        Num(..) => "31337",
        Octal => "31",
        List(..) => "31337,31338",
        Nets => "9.9.9.9/9.9.9.9",
    }
}

fn strays(cx: &mut Cx) -> Result<(), String> {
    start(true);
    ids();
    let k = cx.input(2);
    let b = cx.input(2);
    let f = &F[cx.input(F.len())];
    let first = cx.flag();
    let facts = {
        let mut x = base(b);
        // absent where it belongs, if it can be
        if cx.flag() {
            if f.5 || f.1 == "command" {
                return Ok(());
            }
            x.v.remove(&(f.0, f.1));
        }
        x
    };
    let how = cx.input(16);
    let (list, key) = if how < 6 {
        // elsewhere
        let l = how;
        if l == 5 {
            (f.0, format!("{}{}", f.1, "\u{e9}"))
        } else {
            if l == f.0 || F.iter().any(|g| g.0 == l && g.1 == f.1) {
                return Ok(());
            }
            (l, f.1.to_string())
        }
    } else {
        match misspelt(f.1, how - 6) {
            Some(m) if !F.iter().any(|g| g.0 == f.0 && g.1 == m) => (f.0, m),
            _ => return Ok(()),
        }
    };
    let mut si = facts.sess();
    // the probes are not to withhold anything
    let e = format!("{}={}", key, stray_value(f.3)).into_bytes();
    let l = [&mut si.settings, &mut si.user_info, &mut si.command_info, &mut si.env, &mut si.options].into_iter().nth(list).unwrap();
    if first {
        l.0.insert(0, e);
    } else {
        l.0.push(e);
    }
    cx.describe(|| format!("{} {} session with {} in {}", NAMES[k], ["minimal", "full"][b], key, ["settings", "user_info", "command_info", "user_env", "plugin_options"][list]));
    one(cx, k, &facts, &si)
}

fn numbers(cx: &mut Cx) -> Result<(), String> {
    start(true);
    ids();
    let nums: Vec<&'static Field> = F.iter().filter(|f| matches!(f.3, Num(..) | Octal | List(..))).collect();
    let f = nums[cx.input(nums.len())];
    const A: [u8; 8] = [b'0', b'7', b'9', b'-', b',', b' ', b'x', b'1'];
    let n = cx.qt(3, 4);
    let head = cx.input(9);
    let mut t: Vec<u8> = vec![];
    cx.describe(|| format!("{}: {}=...", LISTS[f.0], f.1));
    // all texts of up to n characters that start with the head
    fn go(cx: &mut Cx, f: &'static Field, t: &mut Vec<u8>, n: usize) -> Result<(), String> {
        if !(f.1 == "nice" && t.first() == Some(&b'-') && t.len() > 1) {
            let mut x = full();
            x.v.insert((f.0, f.1), t.clone());
            let si = x.sess();
            let wd = w();
            wd.evs.clear();
            wd.printed.clear();
            wd.steps = 0;
            cx.count("texts", 1);
            one(cx, 0, &x, &si).map_err(|m| format!("{}={:?}: {}", f.1, s(t), m))?;
        }
        if t.len() < n {
            for c in A {
                t.push(c);
                go(cx, f, t, n)?;
                t.pop();
            }
        }
        Ok(())
    }
    if head == 8 {
        return go(cx, f, &mut t, 0);
    }
    t.push(A[head]);
    go(cx, f, &mut t, n)
}

fn order(cx: &mut Cx) -> Result<(), String> {
    start(true);
    ids();
    let k = cx.input(2);
    let b = cx.input(2);
    let rev = cx.flag();
    let rot = cx.input(48);
    let junk = cx.input(5);
    let f = base(b);
    let mut si = f.sess();
    for l in [&mut si.settings, &mut si.user_info, &mut si.command_info] {
        if rev {
            l.0.reverse();
        }
        let n = l.0.len();
        l.0.rotate_left(rot % n);
        let j: &[u8] = match junk {
            0 => continue,
            1 => b"nothing",
            2 => b"",
            3 => b"=",
            _ => b"\xff\xfe=\xff",
        };
        let at = rot % (n + 1);
        l.0.insert(at, j.to_vec());
    }
    cx.describe(|| format!("{} {} session, rotated by {}{}, junk {}", NAMES[k], ["minimal", "full"][b], rot, if rev { ", reversed" } else { "" }, junk));
    one(cx, k, &f, &si)
}

fn after(cx: &mut Cx) -> Result<(), String> {
    start(true);
    ids();
    let k = cx.input(2);
    let mut d = String::new();
    let mut res = Ok(());
    for _ in 0..cx.qt(3, 4) {
        let c = cx.input(8);
        let mut f = base(c & 1);
        match c >> 1 {
            1 => {
                f.v.remove(&(2, "command"));
            }
            2 => {
                f.v.remove(&(1, "uid"));
            }
            3 => {
                for x in F.iter().filter(|x| !x.5 && x.1 != "command") {
                    if f.v.contains_key(&(x.0, x.1)) {
                        f.v.insert((x.0, x.1), b"\xff".to_vec());
                    }
                }
                f.v.insert((2, "cwd"), b"/other".to_vec());
            }
            _ => {}
        }
        d.push_str(&format!("{} ", ["minimal", "full", "minimal without command", "full without command", "minimal without uid", "full without uid", "minimal with cwd", "full but malformed"][c]));
        let si = f.sess();
        res = one(cx, k, &f, &si);
        if res.is_err() {
            break;
        }
    }
    cx.describe(|| format!("{}: {}", NAMES[k], d));
    res
}

fn cmdline(cx: &mut Cx) -> Result<(), String> {
    start(true);
    const A: [&[u8]; 7] = [b"", b"cat", b"-x", b"a b", b"%s=\\\n", b"\xff\xfe", "\u{e9}".as_bytes()];
    let n = cx.input(cx.qt(4, 6));
    let f = minimal();
    let mut si = f.sess();
    si.argv = (0..n).map(|_| cx.pick(&A).to_vec()).collect();
    cx.describe(|| format!("command line {:?}", si.argv.iter().map(|a| s(a)).collect::<Vec<_>>()));
    one(cx, 0, &f, &si)
}
