//! C31: the record in the system log.

use super::util::*;

pub fn spec() -> Spec {
    Spec {
        id: "C31",
        needs: "ps",
        harnesses,
        assumptions: &[ENV, ONE, "a system logger that keeps up receives datagrams at /dev/log (a socket of the harness, shown there); only records of level informational or more severe are compiled in"],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "outcomes", what: "sessions of all kinds, targets and commands, with every answer", bound: 0, run: outcomes, expect: &["exempt", "approved", "declined", "user and group"] },
        Harness { name: "failures", what: "failures and interruptions of system calls", bound: if t { 3 } else { 2 }, run: failures, expect: &["approved", "refused"] },
        Harness { name: "errnos", what: "every system call failing with every error number", bound: 1, run: errnos, expect: &["approved", "refused"] },
        Harness { name: "contents", what: "what is shown to and typed by the pair, and the environment", bound: 0, run: contents, expect: &["kept out"] },
        Harness { name: "sizes", what: "commands and arguments of all lengths", bound: 0, run: sizes, expect: &["exempt", "approved", "declined"] },
        Harness { name: "ends", what: "every way a command can end: exit codes, signals, errors of its execution", bound: 0, run: ends, expect: &["exempt", "approved"] },
        Harness { name: "constants", what: "every text the code under test is written with as command, argument, directory and host", bound: 0, run: constants, expect: &["exempt", "approved", "declined"] },
        Harness { name: "histories", what: "every history of sessions up to the bound", bound: 0, run: histories, expect: &["done"] },
    ]
}

struct Rec {
    pri: u32,
    text: Vec<u8>,
}

fn has(b: &[u8], x: &[u8]) -> bool {
    !x.is_empty() && b.windows(x.len()).any(|y| y == x)
}

impl Rec {
    /// The message without the facts attached.
    fn says(&self, word: &str) -> bool {
        let head = self.text.split(|c| *c == b',').next().unwrap();
        has(&head.to_ascii_lowercase(), word.as_bytes())
    }
}

static mut QUEUE: Vec<Vec<u8>> = vec![];
static mut LOGFD: i32 = -1;

/// A logger that keeps up: it takes each message as it comes.
#[allow(static_mut_refs)]
fn take(_: &mut World, _: &Op) {
    let mut b = vec![];
    unsafe {
        loop {
            let mut n: libc::c_int = 0;
            if libc::ioctl(LOGFD, libc::FIONREAD, &mut n) != 0 {
                return;
            }
            b.resize(n as usize + 1, 0);
            let n = libc::recv(LOGFD, b.as_mut_ptr() as *mut _, b.len(), libc::MSG_DONTWAIT);
            if n < 0 {
                return;
            }
            QUEUE.push(b[..n as usize].to_vec());
        }
    }
}

#[allow(static_mut_refs)]
fn logger() -> i32 {
    let fd = with_syslog();
    unsafe {
        LOGFD = fd;
        QUEUE.clear();
    }
    w().hook = Some(|w, op| {
        if op.cls == Cls::Syslog {
            take(w, op)
        }
    });
    fd
}

#[allow(static_mut_refs)]
fn records(fd: i32) -> Result<Vec<Rec>, String> {
    let mut v = vec![];
    take(w(), &Op::new("", Cls::None));
    let _ = fd;
    for d in unsafe { std::mem::take(&mut QUEUE) } {
        let end = d.iter().position(|c| *c == b'>');
        let pri = end.filter(|_| d[0] == b'<').and_then(|e| std::str::from_utf8(&d[1..e]).ok()).and_then(|p| p.parse::<u32>().ok());
        match pri {
            Some(pri) => v.push(Rec { pri, text: d[end.unwrap() + 1..].to_vec() }),
            None => return Err(format!("the logger was sent {:?}", s(&d))),
        }
    }
    Ok(v)
}

/// Each record says whose session it is.
fn whose(rs: &[Rec], facts: &[&[u8]]) -> Result<(), String> {
    for r in rs {
        check(r.pri >> 3 == 4, || format!("a record has priority {}, not of the authorization facility: {:?}", r.pri, s(&r.text)))?;
        for f in facts {
            check(has(&r.text, f), || format!("a record does not name {:?}: {:?}", s(f), s(&r.text)))?;
        }
        check(has(&r.text, b"sudo_pair") && has(&r.text, crate::props::c29::version().as_bytes()), || format!("a record does not name this plugin and its version: {:?}", s(&r.text)))?;
    }
    Ok(())
}

fn show(rs: &[Rec]) -> String {
    rs.iter().map(|r| format!("<{}>{}", r.pri, s(r.text.split(|c| *c == b',').next().unwrap()))).collect::<Vec<_>>().join("; ")
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Out {
    Exempt,
    Approved,
    Declined,
    UserAndGroup,
    /// nobody could be asked or heard
    Failed,
}

fn outcome(rs: &[Rec], o: Out) -> Result<(), String> {
    let n = |w: &str| rs.iter().filter(|r| r.says(w)).count();
    let bad = |what: &str| format!("{} ({:?}): {}", what, o, show(rs));
    let ex = rs.iter().filter(|r| r.says("exempt")).count();
    let rq = rs.iter().filter(|r| r.says("pair session required")).count();
    check((ex > 0) == (o == Out::Exempt), || bad("the record is wrong about the exemption"))?;
    check((rq > 0) == (o != Out::Exempt), || bad("the record is wrong about whether a pair is required"))?;
    check((n("approved") > 0) == (o == Out::Approved), || bad("the record is wrong about the approval"))?;
    check((n("started") > 0) == (o == Out::Approved), || bad("the record is wrong about the session's start"))?;
    check((n("declined") > 0) == (o == Out::Declined), || bad("the record is wrong about the pair's declining"))?;
    let severe = rs.iter().filter(|r| r.pri & 7 <= 4).count();
    match o {
        Out::Declined | Out::UserAndGroup => check(severe > 0, || bad("the refusal is no warning")),
        Out::Exempt | Out::Approved => check(severe == 0, || bad("warns of nothing")),
        Out::Failed => Ok(()),
    }
}

fn name(o: Out) -> &'static str {
    match o {
        Out::Exempt => "exempt",
        Out::Approved => "approved",
        Out::Declined => "declined",
        Out::UserAndGroup => "user and group",
        Out::Failed => "failed",
    }
}

/// The end of a session is in the record if its beginning was.
fn ended(fd: i32, o: Out, facts: &[&[u8]]) -> Result<(), String> {
    ended_with(fd, o, facts, 0, 0)
}

fn ended_with(fd: i32, o: Out, facts: &[&[u8]], status: i32, error: i32) -> Result<(), String> {
    close_at(pair(), status, error);
    let rs = records(fd)?;
    whose(&rs, facts)?;
    let n = rs.iter().filter(|r| r.says("ended")).count();
    check(n == (o == Out::Approved) as usize, || format!("{} records of the session's end ({:?}): {}", n, o, show(&rs)))?;
    check(rs.iter().all(|r| !r.says("approved") && !r.says("started")), || format!("recorded at the end: {}", show(&rs)))
}

fn outcomes(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let fd = logger();
    let mut si = SessIn::usual();
    si.user_info.set("uid", "54321").set("pid", "65432");
    let kind = cx.input(EXEMPTIONS + 4);
    let (mut u, mut g) = ("43210", "0");
    si.command_info.set("runas_uid", u);
    let mut cmd: &[u8] = *cx.pick(&[&b"/opt/some/command"[..], b"/opt/a b, uid: 0", b"/opt/%s%n", b"/opt/\xc3\xbc"]);
    si.command_info.set("command", cmd);
    si.argv = cx.pick(&[vec![b"cmd".to_vec(), b"--first=argument".to_vec(), b"second".to_vec()], vec![b"cmd".to_vec()], vec![]]).clone();
    let mut me = "54321";
    let mut o = Out::Failed;
    match kind {
        0 => {
            make_exempt(0, &mut si);
            me = "0";
            o = Out::Exempt;
        }
        1 => {
            u = me;
            g = "1000";
            si.command_info.set("runas_uid", u).set("runas_gid", "1000");
            o = Out::Exempt;
        }
        2 => {
            make_exempt(2, &mut si);
            cmd = b"/usr/bin/sudo_approve";
            o = Out::Exempt;
        }
        k if k < EXEMPTIONS => {
            make_exempt(k, &mut si);
            o = Out::Exempt;
        }
        6 => (),
        7 => {
            // through the group
            g = "32109";
            u = me;
            si.settings.set("runas_group", "ops");
            si.command_info.set("runas_uid", u).set("runas_gid", g).set("runas_groups", "32109,0");
        }
        8 => {
            si.settings.set("runas_user", "bob").set("runas_group", "ops");
            o = Out::UserAndGroup;
        }
        _ => {
            // ids that differ from the real ones
            u = "40404";
            g = "30303";
            si.command_info.set("runas_euid", u).set("runas_egid", g);
        }
    }
    if o == Out::Failed {
        let b = cx.input(257);
        if b < 256 {
            answer(&[b as u8]);
        } else {
            w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Close] });
        }
        o = if b == b'y' as usize || b == b'Y' as usize { Out::Approved } else { Out::Declined };
    }
    let r = open(&si);
    let rs = records(fd)?;
    cx.outcome(name(o));
    cx.describe(|| format!("kind {} command {} args {}: open {}, recorded {}", kind, s(cmd), si.argv.len(), r, show(&rs)));
    check(proceeds(r) == matches!(o, Out::Exempt | Out::Approved), || format!("{:?}, but open returned {}", o, r))?;
    outcome(&rs, o)?;
    let mut facts: Vec<&[u8]> = vec![me.as_bytes(), u.as_bytes(), g.as_bytes(), cmd];
    if si.argv.len() > 1 {
        facts.extend([&b"--first=argument"[..], b"second"]);
    }
    whose(&rs, &facts)?;
    if proceeds(r) {
        ended(fd, o, &facts)?;
    }
    Ok(())
}

fn failures(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let fd = logger();
    let mut si = SessIn::usual();
    si.user_info.set("uid", "54321");
    w().tpl_fault_limit = 0;
    let yes = cx.flag();
    answer(if yes { b"y" } else { b"n" });
    w().menu = Some(menu_protocol);
    let r = open(&si);
    let rs = records(fd)?;
    let lost = w().faults_taken.iter().any(|(o, _)| matches!(o.cls, Cls::DevLog | Cls::Syslog));
    cx.describe(|| format!("answer {} faults [{}]: open {}, recorded {}", yes, show_faults(), r, show(&rs)));
    cx.outcome(if proceeds(r) { "approved" } else { "refused" });
    whose(&rs, &[b"54321", b"/bin/cat"])?;
    let any = |w: &str| rs.iter().any(|r| r.says(w));
    let bad = |what: &str| format!("{} (open returned {}): {}", what, r, show(&rs));
    check(!any("exempt"), || bad("recorded as exempt"))?;
    check(proceeds(r) || !any("started"), || bad("recorded as started"))?;
    check(yes || !any("approved"), || bad("recorded as approved"))?;
    check(!proceeds(r) || !any("declined"), || bad("recorded as declined"))?;
    if !lost {
        check(any("pair session required"), || bad("not recorded as needing a pair"))?;
        check(!proceeds(r) || any("approved") && any("started"), || bad("the approval is not recorded"))?;
        if w().faults_taken.is_empty() {
            outcome(&rs, if yes { Out::Approved } else { Out::Declined })?;
        }
    }
    if proceeds(r) {
        let l = log(Stream::TtyOut, b"out");
        close();
        w().menu = None;
        let rs = records(fd)?;
        let lost = w().faults_taken.iter().any(|(o, _)| matches!(o.cls, Cls::DevLog | Cls::Syslog));
        cx.describe(|| format!("answer {} faults [{}]: output {}, recorded {}", yes, show_faults(), l, show(&rs)));
        check(rs.iter().all(|r| !r.says("approved") && !r.says("declined")), || format!("recorded after open: {}", show(&rs)))?;
        let n = rs.iter().filter(|r| r.says("ended")).count();
        check(lost || n == 1, || format!("{} records of the session's end: {}", n, show(&rs)))?;
    }
    w().menu = None;
    Ok(())
}

const SECRET: &[u8] = b"xyzzySECRETxyzzy";

const ENV_NAMES: &[&str] = &[
    "DISPLAY", "TERM", "PATH", "HOME", "LANG", "LC_ALL", "SHELL", "USER", "LOGNAME", "PWD", "OLDPWD", "EDITOR", "VISUAL", "SUDO_EDITOR", "SUDO_PROMPT", "SUDO_ASKPASS",
    "SUDO_USER", "SUDO_UID", "SUDO_COMMAND", "SSH_CLIENT", "SSH_CONNECTION", "SSH_TTY", "SSH_AUTH_SOCK", "MAIL", "TZ", "HOSTNAME", "TMPDIR", "XAUTHORITY", "RUST_LOG", "RUST_BACKTRACE",
];

fn contents(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, Some(b"xyzzySECRETxyzzy %u\n"));
    set_tpl(true, Some(b"xyzzySECRETxyzzy %u\n"));
    let fd = logger();
    let mut si = SessIn::usual();
    // every variable somebody might take for harmless
    let others = cx.flag();
    for k in if others { ENV_NAMES } else { &["PASSWORD"] } {
        si.env.del(k);
        let mut e = k.as_bytes().to_vec();
        e.push(b'=');
        e.extend(SECRET);
        si.env.0.push(e);
    }
    if cx.flag() {
        set_hints(&mut si, 31);
    }
    let exempt = cx.input(EXEMPTIONS + 1);
    if exempt > 0 {
        make_exempt(exempt - 1, &mut si);
    } else {
        let mut a = b"y".to_vec();
        a.extend(SECRET);
        w().plan.conns.push_back(Conn::says(&a));
    }
    let r = open(&si);
    check(proceeds(r), || format!("open returned {}", r))?;
    let stream = *cx.pick(&STREAMS);
    let n = *cx.pick(&[1usize, 3, 300]);
    for _ in 0..n {
        let _ = log(stream, SECRET);
        let _ = winsize(24, 80);
        if n > 3 {
            let _ = to_peer(0);
        }
    }
    if cx.flag() && exempt == 0 {
        let p = &mut w().peers[0];
        unsafe { libc::close(p.fd) };
        p.fd = -1;
        let _ = log(stream, SECRET);
        let _ = log(stream, SECRET);
    }
    let live = exempt == 0;
    close();
    let rs = records(fd)?;
    cx.describe(|| format!("exempt {} stream {:?} n {}: {}", exempt, stream, n, show(&rs)));
    cx.outcome("kept out");
    // (as bytes are shown for debugging)
    let listed = |hex: bool| SECRET[..8].iter().map(|b| if hex { format!("{:02x}", b) } else { b.to_string() }).collect::<Vec<_>>().join(if hex { "" } else { ", " });
    for r in &rs {
        check(!has(&r.text, listed(false).as_bytes()) && !has(&r.text, listed(true).as_bytes()), || format!("recorded {:?}", s(&r.text)))?;
        check(!has(&r.text, SECRET), || format!("recorded {:?}", s(&r.text)))?;
    }
    check(rs.len() <= 30, || format!("{} records of one session", rs.len()))?;
    check(!live || rs.iter().filter(|r| r.says("ended")).count() == 1, || format!("the end is not recorded: {}", show(&rs)))
}

fn sizes(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let fd = logger();
    let mut si = SessIn::usual();
    si.user_info.set("uid", "54321");
    si.command_info.set("runas_uid", "43210");
    let c = *cx.pick(&[b'a', b'\n', 0xff, b'"']);
    match cx.input(3) {
        // one long, many short
        0 => {
            let n = *cx.pick(&[0usize, 1, 100, 1000, 8000, 70000, 120000, 131000]);
            si.argv = vec![b"cmd".to_vec(), vec![c; n]];
        }
        1 => {
            let n = *cx.pick(&[10usize, 100, 1000, 20000, 100000]);
            si.argv = vec![vec![c]; n];
        }
        _ => {
            let mut p = b"/opt/".to_vec();
            p.extend(vec![c; *cx.pick(&[1usize, 200, 4000])]);
            si.command_info.set("command", &p);
            si.argv = vec![p];
        }
    }
    let o = *cx.pick(&[Out::Exempt, Out::Approved, Out::Declined]);
    match o {
        Out::Exempt => si.options.set("gids_exempted", "20"),
        _ => &mut si.options,
    };
    if o != Out::Exempt {
        answer(if o == Out::Approved { b"y" } else { b"n" });
    }
    let r = open(&si);
    let rs = records(fd)?;
    let n: usize = si.argv.iter().map(|a| a.len()).sum();
    cx.describe(|| format!("{} arguments of {} bytes {:?}: open {} recorded {}", si.argv.len(), n, s(&[c]), r, show(&rs)));
    cx.outcome(name(o));
    outcome(&rs, o)?;
    whose(&rs, &[b"54321", b"43210"])?;
    if proceeds(r) {
        ended(fd, o, &[b"54321"])?;
    }
    Ok(())
}

fn ends(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let fd = logger();
    let mut si = SessIn::usual();
    si.user_info.set("uid", "54321");
    si.command_info.set("runas_uid", "43210");
    let o = *cx.pick(&[Out::Exempt, Out::Approved]);
    match o {
        Out::Exempt => drop(si.options.set("gids_exempted", "20")),
        _ => answer(b"y"),
    }
    let used = cx.flag();
    let mut v: Vec<i32> = (-2..=300).chain((0..256).map(|c| c << 8)).chain([i32::MAX, i32::MIN, 0x7fff, 0xff7f]).collect();
    v.extend(crate::dict::near(u32::MAX as u64).iter().map(|n| *n as i32));
    let (st, er) = match cx.input(2) {
        0 => (*cx.pick(&v), 0),
        _ => (0, *cx.pick(&(-1..=140).collect::<Vec<i32>>())),
    };
    let r = open(&si);
    check(r == 1, || format!("open returned {}", r))?;
    let rs = records(fd)?;
    if used {
        log(Stream::TtyOut, b"out");
    }
    cx.describe(|| format!("{} used {} close({}, {}), recorded {}", name(o), used, st, er, show(&rs)));
    cx.outcome(name(o));
    outcome(&rs, o)?;
    ended_with(fd, o, &[b"54321"], st, er)
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let fd = logger();
    let mut si = SessIn::usual();
    si.user_info.set("uid", "54321");
    si.command_info.set("runas_uid", "43210");
    let place = cx.input(8);
    let (t, _env) = if place < 7 {
        (cx.pick(crate::dict::texts()).clone(), None)
    } else {
        match super::c01::plant(cx, &mut si) {
            Some((what, env)) => (what.into_bytes(), env),
            None => return Ok(()),
        }
    };
    match place {
        6 => {
            si.options.set("binary_path", "/scratch/nowhere/approve");
            si.command_info.set("command", &t);
        }
        7 => (),
        0 => drop(si.command_info.set("command", [b"/opt/", &t[..]].concat())),
        1 => si.argv = vec![t.clone()],
        2 => si.argv.push(t.clone()),
        3 => drop(si.command_info.set("cwd", &t)),
        4 => drop(si.user_info.set("host", if std::str::from_utf8(&t).is_ok() { &t[..] } else { b"h" })),
        _ => si.env.0.push([&t[..], b"=1"].concat()),
    }
    let o = *cx.pick(&[Out::Exempt, Out::Approved, Out::Declined]);
    match o {
        Out::Exempt => si.options.set("gids_exempted", "20"),
        _ => &mut si.options,
    };
    if o != Out::Exempt {
        answer(if o == Out::Approved { b"y" } else { b"n" });
    }
    let r = open(&si);
    let rs = records(fd)?;
    cx.describe(|| format!("place {} {:?} {}: open {} recorded {}", place, s(&t), name(o), r, show(&rs)));
    cx.outcome(name(o));
    outcome(&rs, o)?;
    whose(&rs, &[b"54321", b"43210"])?;
    if proceeds(r) {
        ended(fd, o, &[b"54321"])?;
    }
    Ok(())
}

fn histories(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let fd = logger();
    let mut hist = vec![];
    for i in 0..cx.qt(3, 5) {
        let o = *cx.pick(&[Out::Failed, Out::Exempt, Out::Approved, Out::Declined, Out::UserAndGroup]);
        if o == Out::Failed {
            break;
        }
        hist.push(o);
        let mut si = SessIn::usual();
        let uid = format!("5432{}", i);
        let cmd = format!("/opt/cmd{}", i);
        si.user_info.set("uid", &uid);
        si.command_info.set("command", &cmd);
        match o {
            Out::Exempt => {
                si.options.set("gids_exempted", "20");
            }
            Out::UserAndGroup => {
                si.settings.set("runas_group", "ops");
            }
            _ => {
                w().plan = Plan::default();
                answer(if o == Out::Approved { b"y" } else { b"n" });
            }
        }
        let r = open(&si);
        let rs = records(fd)?;
        cx.describe(|| format!("{:?}: open {}, {}", hist, r, show(&rs)));
        outcome(&rs, o)?;
        let facts: [&[u8]; 2] = [uid.as_bytes(), cmd.as_bytes()];
        whose(&rs, &facts)?;
        if proceeds(r) {
            ended(fd, o, &facts)?;
        }
    }
    cx.describe(|| format!("{:?}", hist));
    cx.outcome("done");
    Ok(())
}

fn errnos(cx: &mut Cx) -> Result<(), String> {
    each_errno(cx);
    failures(cx)
}
