//! C30: the options of the Plugin line.

use super::util::*;

pub fn spec() -> Spec {
    Spec {
        id: "C30",
        needs: "p",
        harnesses,
        assumptions: &[ENV, ONE, "sudo splits the Plugin line into words and passes them unchanged; the documented default places are shown in the scratch directory"],
    }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "given", what: "every set of options given, for sessions of all kinds", bound: 0, run: given, expect: &["exempt", "approved", "declined"] },
        Harness { name: "order", what: "every order of the options, among words that are none", bound: 0, run: order, expect: &["exempt", "approved", "declined"] },
        Harness { name: "values", what: "each option with each of its values", bound: 0, run: values, expect: &["exempt", "approved", "declined"] },
        Harness { name: "constants", what: "every text the code under test is written with as a word that is no option, alone and among options", bound: 0, run: constants, expect: &["exempt", "approved", "declined"] },
        Harness { name: "next", what: "each history of configurations, one session after another", bound: 0, run: next, expect: &["exempt", "approved", "declined"] },
    ]
}

pub const KEYS: [&str; 6] = ["binary_path", "user_prompt_path", "pair_prompt_path", "socket_dir", "gids_enforced", "gids_exempted"];

/// The configuration in force.
struct Conf {
    bin: Vec<u8>,
    user: Vec<u8>,
    pair: Vec<u8>,
    dir: Vec<u8>,
    enforced: Vec<u32>,
    exempted: Vec<u32>,
}

fn at(p: &str) -> Vec<u8> {
    format!("{}/{}", w().scratch, p).into_bytes()
}

fn tpl(p: &[u8]) -> Vec<u8> {
    let mut v = b"{".to_vec();
    v.extend(p.rsplit(|c| *c == b'/').next().unwrap());
    v.extend(b"} %B|%b|%p\n");
    v
}

fn path(p: &[u8]) -> std::path::PathBuf {
    use std::os::unix::ffi::OsStrExt;
    std::path::PathBuf::from(std::ffi::OsStr::from_bytes(p))
}

fn put(p: &[u8]) {
    let _ = std::fs::write(path(p), tpl(p));
}

fn mkdir(p: &[u8]) {
    use std::os::unix::fs::PermissionsExt;
    let _ = std::fs::remove_dir_all(path(p));
    std::fs::create_dir(path(p)).unwrap();
    std::fs::set_permissions(path(p), std::fs::Permissions::from_mode(0o755)).unwrap();
}

/// What is in force by default, and where it is shown.
fn defaults() -> Conf {
    let wd = w();
    let c = Conf {
        bin: b"/usr/bin/sudo_approve".to_vec(),
        user: at("def.user"),
        pair: at("def.pair"),
        dir: at("def.run"),
        enforced: vec![0],
        exempted: vec![],
    };
    wd.remap = vec![
        (b"/var/run/sudo_pair".to_vec(), c.dir.clone()),
        (b"/run/sudo_pair".to_vec(), c.dir.clone()),
        (b"/etc/sudo_pair.prompt.user".to_vec(), c.user.clone()),
        (b"/etc/sudo_pair.prompt.pair".to_vec(), c.pair.clone()),
    ];
    put(&c.user);
    put(&c.pair);
    mkdir(&c.dir);
    c
}

fn gids(l: &[u32]) -> Vec<u8> {
    l.iter().map(|g| g.to_string()).collect::<Vec<_>>().join(",").into_bytes()
}

/// Gives option `k` the value `v` (`gids` for the lists).
fn give(c: &mut Conf, k: usize, v: &[u8], l: &[u32]) {
    match k {
        0 => c.bin = v.to_vec(),
        1 => c.user = v.to_vec(),
        2 => c.pair = v.to_vec(),
        3 => c.dir = v.to_vec(),
        4 => c.enforced = l.to_vec(),
        _ => c.exempted = l.to_vec(),
    }
}

fn other(k: usize) -> (Vec<u8>, Vec<u32>) {
    match k {
        0 => (b"/opt/bin/approve".to_vec(), vec![]),
        1 => (at("cfg.user"), vec![]),
        2 => (at("cfg.pair"), vec![]),
        3 => (at("cfg.run"), vec![]),
        4 => (gids(&[7, 5]), vec![7, 5]),
        _ => (gids(&[20, 33]), vec![20, 33]),
    }
}

fn others() {
    put(&at("cfg.user"));
    put(&at("cfg.pair"));
    mkdir(&at("cfg.run"));
}

fn word(k: usize, v: &[u8]) -> Vec<u8> {
    let mut e = KEYS[k].as_bytes().to_vec();
    e.push(b'=');
    e.extend(v);
    e
}

fn clean() {
    for d in ["def.run", "cfg.run"] {
        let _ = std::fs::remove_dir_all(path(&at(d)));
    }
}

/// A session of one of several kinds, judged by `c`.
fn session(cx: &mut Cx, si: &mut SessIn, c: &Conf, small: bool) -> Result<(), String> {
    let cmds: &[&[u8]] = if small { &[b"/bin/cat"] } else { &[b"/bin/cat", b"/usr/bin/sudo_approve", b"/opt/bin/approve"] };
    let cmd: Vec<u8> = if small && cx.flag() { c.bin.clone() } else { cx.pick(cmds).to_vec() };
    si.command_info.set("command", &cmd);
    let groups: &[u32] = *cx.pick(&[&[1000u32][..], &[1000, 20], &[1000, 0]]);
    si.user_info.set("groups", gids(groups));
    let target: u32 = *cx.pick(&[0, 5]);
    si.command_info.set("runas_gid", target.to_string()).set("runas_groups", target.to_string());
    let exempt = cmd == c.bin || groups.iter().any(|g| c.exempted.contains(g)) || !c.enforced.contains(&target);
    let yes = if exempt { true } else { cx.flag() };
    let wd = w();
    wd.plan = Plan::default();
    let (b, a, p) = (wd.bound.len(), wd.peers.len(), wd.printed.len());
    if !exempt {
        answer(if yes { b"y" } else { b"n" });
    }
    let r = open(si);
    let shown: Vec<u8> = wd.printed[p..].iter().flat_map(|x| x.text.clone()).collect();
    cx.describe(|| format!("options {:?}, command {} groups {:?} target group {}: open {} bound {:?} shown {:?}", si.options.0.iter().map(|x| s(x)).collect::<Vec<_>>(), s(&cmd), groups, target, r, wd.bound[b..].iter().map(|x| s(x)).collect::<Vec<_>>(), s(&shown)));
    check(wd.escapes.is_empty(), || format!("{:?} is no configured place", wd.escapes))?;
    if exempt {
        cx.outcome("exempt");
        check(r == 1, || format!("exempt, but open returned {}", r))?;
        check(wd.bound.len() == b && wd.peers.len() == a, || "exempt, but somebody was asked".into())?;
        return check(shown.is_empty(), || format!("exempt, but printed {:?}", s(&shown)));
    }
    cx.outcome(if yes { "approved" } else { "declined" });
    let mut sock = c.dir.clone();
    if sock.last() != Some(&b'/') {
        sock.push(b'/');
    }
    sock.extend(b"1000.4242.sock");
    check(wd.bound.len() == b + 1 && wd.bound[b] == sock, || format!("the socket is {:?}, not {}", wd.bound[b..].iter().map(|x| s(x)).collect::<Vec<_>>(), s(&sock)))?;
    check(wd.peers.len() == a + 1, || "nobody was asked".into())?;
    check((r == 1) == yes && proceeds(r) == yes, || format!("answered {}, but open returned {}", yes, r))?;
    let val = |d: u8| -> Option<Vec<u8>> {
        Some(match d {
            b'B' => c.bin.clone(),
            b'b' => c.bin.rsplit(|x| *x == b'/').next().unwrap().to_vec(),
            b'p' => b"4242".to_vec(),
            b'u' => b"1000".to_vec(),
            b'U' => b"user".to_vec(),
            b'h' => b"host".to_vec(),
            b'd' => b"/home/user".to_vec(),
            b'C' => b"sudo cat /etc/motd".to_vec(),
            _ => return None,
        })
    };
    let text = |p: &[u8], def: &[u8]| expand(&std::fs::read(path(p)).unwrap_or(def.to_vec()), &val);
    let want = text(&c.user, DEF_USER);
    check(shown.starts_with(&want), || format!("the user was shown {:?}, not {:?}", s(&shown), s(&want)))?;
    let got = to_peer(a);
    let want = text(&c.pair, DEF_PAIR);
    check(got.starts_with(&want), || format!("the pair was shown {:?}, not {:?}", s(&got), s(&want)))
}

fn given(cx: &mut Cx) -> Result<(), String> {
    let mut c = defaults();
    others();
    let mut si = SessIn::usual();
    si.options = Kv::default();
    for k in 0..KEYS.len() {
        if cx.flag() {
            let (v, l) = other(k);
            si.options.0.push(word(k, &v));
            give(&mut c, k, &v, &l);
        }
    }
    if si.options.0.is_empty() {
        si.null_options = cx.flag();
    }
    let r = session(cx, &mut si, &c, false);
    clean();
    r
}

fn order(cx: &mut Cx) -> Result<(), String> {
    const NONE: [&[u8]; 12] = [b"", b"binary", b"Binary_path=/bin/cat", b"user_prompt=/etc/motd", b"pair_prompt_path2=/etc/motd", b" socket_dir=/tmp", b"socketdir=/tmp", b"gids_enforce=99", b"gids-exempted=1000", b"=20", b"gid_exempted=1000", b"exempt=true"];
    let mut c = defaults();
    others();
    let mut si = SessIn::usual();
    si.options = Kv::default();
    let mut left: Vec<usize> = (0..KEYS.len()).collect();
    let none = cx.input(NONE.len() + 1);
    let place = if none > 0 { cx.input(2) } else { 2 };
    if place == 0 {
        si.options.0.push(NONE[none - 1].to_vec());
    }
    // each order without a stray word, one and its reverse with one
    let rev = if none > 0 { cx.flag() } else { false };
    while !left.is_empty() {
        let i = if none > 0 {
            if rev { left.len() - 1 } else { 0 }
        } else {
            cx.input(left.len())
        };
        let k = left.remove(i);
        let (v, l) = other(k);
        si.options.0.push(word(k, &v));
        give(&mut c, k, &v, &l);
    }
    if place == 1 {
        si.options.0.push(NONE[none - 1].to_vec());
    }
    let r = session(cx, &mut si, &c, true);
    clean();
    r
}

fn values(cx: &mut Cx) -> Result<(), String> {
    let mut c = defaults();
    others();
    let mut si = SessIn::usual();
    si.options = Kv::default();
    let k = cx.input(KEYS.len());
    let odd: Vec<Vec<u8>> = vec![b"a=b".to_vec(), b"with space".to_vec(), b"%u%%".to_vec(), "\u{fc}\u{1f511}".into(), b"x".repeat(60), b".hidden".to_vec(), b"-n".to_vec(), b"tab\there".to_vec(), b"v1.2.sh".to_vec(), b"trail ".to_vec(), b" lead".to_vec()];
    let (v, l): (Vec<u8>, Vec<u32>) = match k {
        0 => {
            let o = cx.pick(&odd).clone();
            let mut p = cx.pick(&[&b"/opt/"[..], b"/", b"/usr/bin/sudo_approve/", b""]).to_vec();
            p.extend(o);
            (p, vec![])
        }
        1 | 2 => {
            let mut p = at("");
            p.extend(cx.pick(&odd).clone());
            match cx.input(2) {
                0 => put(&p),
                // absent: the minimal default is printed
                _ => {
                    let _ = std::fs::remove_file(path(&p));
                }
            }
            (p, vec![])
        }
        3 => {
            let mut p = at("run/");
            p.extend(cx.pick(&odd).clone());
            mkdir(&p);
            dir_dirty();
            if cx.flag() {
                p.push(b'/');
            }
            (p, vec![])
        }
        _ => {
            let ls: [&[u32]; 10] = [&[0], &[5], &[20], &[1000], &[0, 5], &[5, 20, 1000], &[99], &[99, 0, 98], &[4294967295, 5], &[20, 20]];
            let l = *cx.pick(&ls);
            (gids(l), l.to_vec())
        }
    };
    si.options.0.push(word(k, &v));
    give(&mut c, k, &v, &l);
    let r = session(cx, &mut si, &c, true);
    if k == 1 || k == 2 {
        let _ = std::fs::remove_file(path(&v));
    }
    clean();
    r
}

/// Words that are no option, from the code under test itself.
fn constants(cx: &mut Cx) -> Result<(), String> {
    let mut c = defaults();
    others();
    let mut si = SessIn::usual();
    si.options = Kv::default();
    let t = cx.pick(crate::dict::texts()).clone();
    let key: Vec<u8> = t.iter().take_while(|c| **c != b'=').cloned().collect();
    if t.iter().any(|c| c.is_ascii_whitespace()) || KEYS.iter().any(|k| k.as_bytes() == &key[..]) {
        clean();
        return Ok(());
    }
    let stray = match cx.input(3) {
        0 => t.clone(),
        1 => [&t[..], b"=", &at("cfg.run")].concat(),
        _ => [&t[..], b"=1000,20"].concat(),
    };
    let given = cx.flag();
    if cx.flag() {
        si.options.0.push(stray.clone());
    }
    for k in 0..KEYS.len() {
        if given {
            let (v, l) = other(k);
            si.options.0.push(word(k, &v));
            give(&mut c, k, &v, &l);
        }
    }
    si.options.0.push(stray);
    let r = session(cx, &mut si, &c, true);
    clean();
    r
}

fn next(cx: &mut Cx) -> Result<(), String> {
    let n = cx.qt(2, 3);
    let _ = defaults();
    others();
    for i in 0..n {
        let mut c = defaults();
        let mut si = SessIn::usual();
        si.options = Kv::default();
        // nothing, everything, or one of them given
        let g = cx.input(KEYS.len() + 2);
        for k in 0..KEYS.len() {
            if g == 1 || g == k + 2 {
                let (v, l) = other(k);
                si.options.0.push(word(k, &v));
                give(&mut c, k, &v, &l);
            }
        }
        if let Err(e) = session(cx, &mut si, &c, true) {
            clean();
            return Err(format!("session {}: {}", i + 1, e));
        }
        close();
    }
    clean();
    Ok(())
}
