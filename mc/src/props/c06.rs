//! C06: nothing is left behind.

use super::util::*;

pub fn spec() -> Spec {
    Spec { id: "C06", needs: "p", harnesses, assumptions: &[ENV, ONE, "the operation that would itself restore or remove something does not fail (an unlink that fails cannot remove)"] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "attempts", what: "every way an open attempt can end, with every combination of failing calls up to the bound", bound: if t { 3 } else { 2 }, run: attempts, expect: &["approved", "refused"] },
        Harness { name: "process", what: "every umask class and SIGINT disposition in force at open", bound: if t { 2 } else { 1 }, run: process, expect: &["approved", "refused"] },
        Harness { name: "sessions", what: "whole sessions with output, failures and a departing pair, then closed", bound: if t { 3 } else { 2 }, run: sessions, expect: &["closed"] },
        Harness { name: "errnos", what: "every system call of an attempt failing with every error number", bound: 1, run: errnos, expect: &["approved", "refused"] },
        Harness { name: "constants", what: "every text and number the code under test is written with, wherever nothing may depend on it, and as the target's ids", bound: 0, run: constants, expect: &["approved", "refused"] },
        Harness { name: "obstacles", what: "everything that can lie at the socket's path, and every bad directory, with every umask class, disposition, answer and combination of failing calls up to the bound", bound: if t { 2 } else { 1 }, run: obstacles, expect: &["approved", "refused"] },
        Harness { name: "umasks", what: "all 512 umasks", bound: 0, run: umasks, expect: &["approved", "refused"] },
    ]
}

struct Before {
    um: u32,
    sig: (usize, i32, u64),
    rest: Rest,
}

/// The rest of what a process has one of.
#[derive(PartialEq, Debug)]
struct Rest {
    handlers: Vec<(i32, usize, i32)>,
    blocked: Vec<i32>,
    cwd: String,
    ids: Vec<u32>,
    nofile: (u64, u64),
}

fn rest() -> Rest {
    unsafe {
        let mut blocked: libc::sigset_t = std::mem::zeroed();
        libc::sigprocmask(libc::SIG_BLOCK, std::ptr::null(), &mut blocked);
        let mut rl: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut rl);
        let mut buf = [0u8; 512];
        libc::syscall(libc::SYS_getcwd, buf.as_mut_ptr(), buf.len());
        Rest {
            handlers: (1..32)
                .filter(|s| *s != libc::SIGINT)
                .map(|s| {
                    let mut sa: libc::sigaction = std::mem::zeroed();
                    libc::sigaction(s, std::ptr::null(), &mut sa);
                    (s, sa.sa_sigaction, sa.sa_flags & !0x04000000)
                })
                .collect(),
            blocked: (1..32).filter(|s| libc::sigismember(&blocked, *s) == 1).collect(),
            cwd: String::from_utf8_lossy(buf.split(|b| *b == 0).next().unwrap()).into_owned(),
            ids: ids(),
            nofile: (rl.rlim_cur, rl.rlim_max),
        }
    }
}

/// Real, effective, saved and filesystem ids, and the other groups.
fn ids() -> Vec<u32> {
    unsafe {
        let mut v = vec![0u32; 6];
        libc::getresuid(&mut v[0], &mut v[1], &mut v[2]);
        libc::getresgid(&mut v[3], &mut v[4], &mut v[5]);
        // (an id that cannot be is never taken)
        v.push(libc::setfsuid(u32::MAX) as u32);
        v.push(libc::setfsgid(u32::MAX) as u32);
        let mut g = [0u32; 64];
        let n = libc::getgroups(64, g.as_mut_ptr()).max(0) as usize;
        v.extend(&g[..n]);
        v
    }
}

fn before() -> Before {
    Before { um: umask_now(), sig: sigint_now(), rest: rest() }
}

/// Class of each open descriptor.
fn leftovers(syslog: bool) -> Vec<String> {
    open_fds().iter().map(|f| (*f, w().cls_of_fd(*f))).filter(|(_, c)| !(syslog && *c == Cls::Syslog)).map(|(f, c)| format!("{} ({:?})", f, c)).collect()
}

fn clean(b: &Before, approved: bool) -> Result<(), String> {
    clean_but(b, approved, false)
}

/// `there`: something was in the directory before.
fn clean_but(b: &Before, approved: bool, there: bool) -> Result<(), String> {
    let wd = w();
    let unlink_failed = wd.faults_taken.iter().any(|(o, _)| o.cls == Cls::Sock && (is_stat(o) || o.name == "unlink"));
    let restore_failed = wd.faults_taken.iter().any(|(o, _)| o.name == "sigaction" && o.arg >> 8 & 1 == 1);
    if !unlink_failed && !there {
        let l = list_dir(&wd.dir.clone());
        check(l.is_empty(), || format!("{} still exists", s(&l[0])))?;
    }
    let um = umask_now();
    check(um == b.um, || format!("the umask was {:03o} and is {:03o}", b.um, um))?;
    let sg = sigint_now();
    if !restore_failed {
        check(sg == b.sig, || format!("SIGINT's disposition was {:x?} and is {:x?}", b.sig, sg))?;
    }
    let now = rest();
    check(now == b.rest, || format!("the process was {:?} and is {:?}", b.rest, now))?;
    for f in open_fds() {
        // (the logger's is anybody's to have)
        if wd.cls_of_fd(f) == Cls::Syslog {
            continue;
        }
        let cloexec = unsafe { libc::fcntl(f, libc::F_GETFD) } & libc::FD_CLOEXEC != 0;
        check(cloexec, || format!("the command inherits descriptor {} ({:?})", f, wd.cls_of_fd(f)))?;
    }
    let mut fds = leftovers(approved);
    if approved {
        let live: Vec<i32> = open_fds().into_iter().filter(|f| wd.accepted.contains(f)).collect();
        check(live.len() == 1, || format!("{} connections open in an approved session", live.len()))?;
        fds.retain(|f| !f.starts_with(&format!("{} ", live[0])));
    }
    check(fds.is_empty(), || format!("descriptors left open: {}", fds.join(", ")))
}

fn eof_at_pair() -> Result<(), String> {
    w().drain_all();
    for (i, p) in w().peers.iter().enumerate() {
        check(p.fd < 0 || p.eof || p.accepted.is_none(), || format!("pair {} was not hung up on", i))?;
    }
    Ok(())
}

fn run(cx: &mut Cx, si: &SessIn, desc: String) -> Result<i32, String> {
    run_but(cx, si, desc, false)
}

fn run_but(cx: &mut Cx, si: &SessIn, desc: String, there: bool) -> Result<i32, String> {
    let b = before();
    w().menu = Some(menu_protocol);
    let r = open(si);
    w().menu = None;
    cx.describe(|| format!("{} faults [{}] -> {}", desc, show_faults(), r));
    let ok = proceeds(r);
    cx.outcome(if ok { "approved" } else { "refused" });
    clean_but(&b, ok, there)?;
    if !ok {
        eof_at_pair()?;
        return Ok(r);
    }
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    clean_but(&b, false, there)?;
    eof_at_pair()?;
    Ok(r)
}

fn attempts(cx: &mut Cx) -> Result<(), String> {
    let peer = cx.input(9);
    attempt(cx, peer)
}

fn errnos(cx: &mut Cx) -> Result<(), String> {
    each_errno(cx);
    let peer = *cx.pick(&[0, 1, 4]);
    attempt(cx, peer)
}

fn attempt(cx: &mut Cx, peer: usize) -> Result<(), String> {
    set_tpl(false, Some(b"u"));
    set_tpl(true, Some(b"p"));
    w().tpl_fault_limit = 1;
    let mut si = SessIn::usual();
    let kind = cx.input(6);
    match kind {
        0 => (),
        1 => {
            si.command_info.set("runas_uid", "1000");
            si.settings.set("runas_group", "root");
        }
        2 => {
            // whose approval to ask is unknown
            si.command_info.set("runas_uid", "1000");
        }
        3 => {
            si.settings.set("runas_group", "root"); // both
        }
        // somebody else than root
        4 => {
            si.command_info.set("runas_uid", "2001").set("runas_gid", "2002").set("runas_groups", "0,2002");
        }
        _ => {
            si.command_info.set("runas_uid", "1000").set("runas_gid", "2002").set("runas_groups", "0,2002");
            si.settings.set("runas_group", "somebody");
        }
    }
    if (kind == 2 || kind == 3) && peer > 0 {
        return Ok(());
    }
    let c = |early: Vec<Act>, on_wait: Vec<Act>| Conn { cred: Cred::root(), early, on_wait };
    let conns = match peer {
        0 => vec![c(vec![], vec![Act::Send(b"y".to_vec())])],
        1 => vec![c(vec![], vec![Act::Send(b"n".to_vec())])],
        2 => vec![c(vec![], vec![Act::Close])],
        3 => vec![c(vec![Act::Close], vec![])],
        4 => vec![c(vec![], vec![Act::Sigint])],
        5 => vec![c(vec![], vec![Act::ShutWr])],
        6 => {
            w().plan.pre.push_back(Act::Sigint);
            vec![]
        }
        7 => {
            w().plan.together = true;
            vec![c(vec![], vec![Act::Send(b"y".to_vec())]), c(vec![Act::Send(b"y".to_vec())], vec![])]
        }
        _ => vec![c(vec![Act::Send(b"y".to_vec()), Act::Close], vec![])],
    };
    w().plan.conns.extend(conns);
    let tty = cx.flag();
    if tty {
        let _ = std::fs::write(std::str::from_utf8(&w().tty).unwrap(), b"");
        si.user_info.set("tty", w().tty.clone());
    }
    let log = cx.flag();
    if log {
        with_syslog();
    }
    run(cx, &si, format!("kind {} peer {} tty {} syslog {}", kind, peer, tty, log)).map(|_| ())
}

const OTHERS: [i32; 7] = [libc::SIGPIPE, libc::SIGTERM, libc::SIGHUP, libc::SIGQUIT, libc::SIGTSTP, libc::SIGWINCH, libc::SIGCHLD];

fn process(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let si = SessIn::usual();
    let um = *cx.pick(&[0o022u32, 0, 0o077, 0o777]);
    let flags = *cx.pick(&[0, libc::SA_RESTART, libc::SA_RESTART | libc::SA_SIGINFO, libc::SA_NODEFER, libc::SA_RESTART | libc::SA_ONSTACK, libc::SA_RESETHAND | libc::SA_SIGINFO]);
    let mask: &[i32] = *cx.pick(&[&[][..], &[libc::SIGTERM], &[libc::SIGINT, libc::SIGCHLD, libc::SIGALRM]]);
    let h = cx.input(3);
    let ans = cx.input(4);
    if ans == 3 && flags & libc::SA_RESETHAND != 0 {
        // (the signal itself removes such a handler)
        return Ok(());
    }
    // sudo ignores some signals, and blocks some
    let others = cx.flag();
    if others {
        unsafe {
            for g in OTHERS {
                libc::signal(g, libc::SIG_IGN);
            }
            let mut m: libc::sigset_t = std::mem::zeroed();
            for g in [libc::SIGHUP, libc::SIGALRM, libc::SIGTSTP] {
                libc::sigaddset(&mut m, g);
            }
            libc::sigprocmask(libc::SIG_BLOCK, &m, std::ptr::null_mut());
        }
    }
    unsafe { libc::umask(um) };
    match h {
        0 => sigint_handler(flags, mask),
        1 => sigint_plain(libc::SIG_IGN, flags, mask),
        _ => sigint_plain(libc::SIG_DFL, flags, mask),
    }
    match ans {
        0 => answer(b"y"),
        1 => answer(b"n"),
        2 => w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Close] }),
        _ => {
            if h == 2 {
                return Ok(());
            }
            w().plan.pre.push_back(Act::Sigint);
            answer(b"y");
        }
    }
    run(cx, &si, format!("umask {:o} flags {:x} mask {:?} handler {} answer {} others ignored {}", um, flags, mask, h, ans, others)).map(|_| ())
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut si = SessIn::usual();
    let what = if cx.flag() {
        let (a, b) = *cx.pick(&[("runas_uid", "runas_euid"), ("runas_gid", "runas_egid")]);
        let n = cx.pick(&crate::dict::near(u32::MAX as u64 - 1)).to_string();
        si.command_info.set(a, &n[..]).set(b, &n[..]);
        (format!("{} {}", a, n), None)
    } else {
        match super::c01::plant(cx, &mut si) {
            Some(p) => p,
            None => return Ok(()),
        }
    };
    if !list_dir(&w().dir.clone()).is_empty() {
        return Ok(());
    }
    let a: &[u8] = cx.pick(&[&b"y"[..], b"n"]);
    answer(a);
    let what = format!("{} answer {}", what.0, s(a));
    run(cx, &si, what).map(|_| ())
}

/// Refused for what is already there.
fn obstacles(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let si = SessIn::usual();
    let dir = s(&w().dir.clone());
    let p = format!("{}/1000.4242.sock", dir);
    let z = |x: &str| std::ffi::CString::new(x).unwrap();
    let k = cx.input(11);
    let chmod = |m: u32| unsafe {
        libc::chmod(z(&dir).as_ptr(), m);
    };
    match k {
        0 => drop(std::fs::write(&p, b"text")),
        1 => drop(std::fs::create_dir(&p)),
        2 => unsafe {
            libc::mkfifo(z(&p).as_ptr(), 0o600);
        },
        3 => drop(std::os::unix::net::UnixListener::bind(&p)),
        4 => drop(std::os::unix::fs::symlink("nowhere", &p)),
        5 => drop(std::os::unix::fs::symlink(&p, &p)),
        6 => drop(std::os::unix::fs::symlink("/dev/null", &p)),
        7 => chmod(0o770),
        8 => chmod(0o757),
        9 => drop(std::fs::remove_dir(&dir)),
        _ => {
            let _ = std::fs::remove_dir(&dir);
            let _ = std::fs::write(&dir, b"no directory");
        }
    }
    let um = *cx.pick(&[0o022u32, 0, 0o077, 0o777]);
    unsafe { libc::umask(um) };
    let flags = *cx.pick(&[libc::SA_RESTART, 0, libc::SA_RESTART | libc::SA_SIGINFO]);
    match cx.input(2) {
        0 => sigint_handler(flags, &[libc::SIGTERM]),
        _ => sigint_plain(libc::SIG_IGN, flags, &[]),
    }
    if cx.flag() {
        with_syslog();
    }
    let a: &[u8] = *cx.pick(&[&b"y"[..], b"n"]);
    answer(a);
    run_but(cx, &si, format!("obstacle {} umask {:o} answer {}", k, um, s(a)), true).map(|_| ())
}

fn umasks(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let si = SessIn::usual();
    let um = cx.input(512) as u32;
    unsafe { libc::umask(um) };
    let ans: &[u8] = *cx.pick(&[&b"y"[..], b"n"]);
    answer(ans);
    run(cx, &si, format!("umask {:o}", um)).map(|_| ())
}

fn sessions(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let si = SessIn::usual();
    let log_ = cx.flag();
    if log_ {
        with_syslog();
    }
    let b = before();
    pair_up(&si)?;
    fn menu(wd: &World, op: &Op, v: &mut Vec<Fault>) {
        menu_session(wd, op, v);
        if op.name == "shutdown" {
            v.push(Fault::Err(libc::ENOTCONN));
        }
    }
    w().menu = Some(menu);
    let n = cx.input(4);
    let mut d = String::new();
    for _ in 0..n {
        match cx.input(5) {
            0 => d += &format!("out={} ", log(Stream::TtyOut, b"hello")),
            1 => d += &format!("win={} ", winsize(24, 80)),
            2 => d += &format!("stdin={} ", log(Stream::Stdin, b"x")),
            3 => {
                w().peer_act(0, Act::Close, true);
                d += "pair leaves ";
            }
            _ => {
                w().peer_act(0, Act::Send(b"junk".to_vec()), true);
                d += "pair types ";
            }
        }
        if w().peers[0].fd < 0 {
            w().peers[0].acts.clear();
        }
    }
    let (a, e) = *cx.pick(&[(0, 0), (256, 0), (0, 4)]);
    close_at(crate::sess::pair(), a, e);
    w().menu = None;
    cx.describe(|| format!("{}faults [{}]", d, show_faults()));
    cx.outcome("closed");
    clean(&b, false)?;
    eof_at_pair()
}
