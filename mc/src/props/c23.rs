//! C23: failures of mere courtesies never change the decision.

use super::util::*;

pub fn spec() -> Spec {
    Spec { id: "C23", needs: "p", harnesses, assumptions: &[ENV, ONE] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "faults", what: "every combination of failing courtesies up to the bound, against every kind of session and answer", bound: if t { 4 } else { 3 }, run: faults, expect: &["approved", "refused", "exempt"] },
        Harness { name: "errnos", what: "every courtesy failing with every error number", bound: 1, run: errnos, expect: &["approved", "refused", "exempt"] },
        Harness { name: "places", what: "terminals, templates and printf that are missing, unwritable or of the wrong kind", bound: if t { 2 } else { 1 }, run: places, expect: &["approved", "refused", "exempt"] },
        Harness { name: "logging", what: "the logger in every state, with failing sends", bound: if t { 3 } else { 2 }, run: logging, expect: &["approved", "refused", "exempt"] },
    ]
}

fn answered() -> bool {
    w().evs.iter().any(|e| e.op.cls == Cls::Session && is_read(&e.op))
}

/// What may fail without the pair's decision being any different.
fn courtesies(wd: &World, op: &Op, v: &mut Vec<Fault>) {
    use libc::*;
    menu_courtesy(wd, op, v);
    match (op.name, op.cls) {
        ("write", Cls::Tty) => {
            v.push(Fault::Err(EAGAIN));
            v.push(Fault::Err(EINTR));
            v.push(Fault::Zero);
        }
        // an answer has been read: this is its echo
        ("write" | "send", Cls::Session) if answered() => {
            v.push(Fault::Err(EPIPE));
            v.push(Fault::Err(EAGAIN));
            v.push(Fault::Zero);
        }
        // somebody has connected: this is the cleaning up
        ("stat" | "lstat" | "unlink" | "remove", Cls::Sock) if !wd.accepted.is_empty() => {
            v.push(Fault::Err(EACCES));
            v.push(Fault::Err(ENOENT));
        }
        ("open", Cls::Stderr) | ("write", Cls::Stderr) => v.push(Fault::Err(EIO)),
        _ => (),
    }
}

/// (session, decision expected)
fn session(k: usize, si: &mut SessIn) -> (&'static str, bool) {
    match k {
        0 => {
            answer(b"y");
            ("yes", true)
        }
        1 => {
            answer(b"n");
            ("no", false)
        }
        2 => {
            w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Close] });
            ("hangs up", false)
        }
        3 => {
            w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Send(b"Y".to_vec()), Act::Close] });
            ("yes and leaves", true)
        }
        4 => {
            w().plan.pre.push_back(Act::Sigint);
            answer(b"y");
            ("interrupted", false)
        }
        5 => {
            make_exempt(1, si);
            ("exempt", true)
        }
        6 => {
            make_exempt(0, si);
            ("exempt", true)
        }
        7 => {
            si.command_info.set("runas_uid", "1000");
            si.settings.set("runas_group", "root");
            answer(b"y");
            ("yes, by group", true)
        }
        _ => {
            si.settings.set("runas_group", "root");
            answer(b"y");
            ("both user and group", false)
        }
    }
}
const SESSIONS: usize = 9;

fn decision(cx: &mut Cx, si: &SessIn, what: &str, want: bool) -> Result<i32, String> {
    let r = open(si);
    w().menu = None;
    w().printf_menu = false;
    cx.outcome(if what == "exempt" { "exempt" } else if proceeds(r) { "approved" } else { "refused" });
    hung()?;
    check(proceeds(r) == want && r <= 1, || format!("session ({}) with failing courtesies [{}]: open returned {}", what, show_faults(), r))?;
    Ok(r)
}

fn faults(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    usual_templates();
    let k = cx.input(SESSIONS);
    let (what, want) = session(k, &mut si);
    let tty = cx.flag();
    if tty {
        let _ = std::fs::write(std::str::from_utf8(&w().tty).unwrap(), b"");
        si.user_info.set("tty", w().tty.clone());
    }
    if cx.flag() {
        with_syslog();
    }
    w().tpl_fault_limit = 0;
    w().menu = Some(courtesies);
    w().printf_menu = true;
    let _ = decision(cx, &si, what, want)?;
    cx.describe(|| format!("{} tty {} faults [{}]", what, tty, show_faults()));
    // the local prompt has a second way
    if w().bound.is_empty() {
        return Ok(());
    }
    let wd = w();
    let utpl_failed = wd.faults_taken.iter().any(|(o, _)| o.cls == Cls::UserTpl);
    let t = if utpl_failed { DEF_USER } else { UTPL };
    let want = expand(t, &|c| directive(&si, b"", c));
    let tty_ok = tty && wd.tty_bytes == want;
    let printf_failed = wd.evs.iter().any(|e| e.op.name == "printf" && e.ret < 0);
    if !tty_ok && !printf_failed {
        let p = printed(crate::abi::CONV_ERROR);
        check(p.starts_with(&want), || format!("the terminal took {:?} and the error channel {:?}; the prompt is {:?}", s(&wd.tty_bytes), s(&p), s(&want)))?;
    }
    Ok(())
}

fn places(cx: &mut Cx) -> Result<(), String> {
    tpl_dirty();
    decoys();
    let mut si = SessIn::usual();
    let k = cx.input(SESSIONS);
    let (what, want) = session(k, &mut si);
    let ttyk = cx.input(8);
    let base = String::from_utf8(w().tty.clone()).unwrap();
    let _ = std::fs::remove_file(&base);
    let _ = std::fs::remove_dir(&base);
    let mut tty_ok = false;
    match ttyk {
        0 => (),
        1 => {
            si.user_info.set("tty", "");
        }
        2 => {
            std::fs::write(&base, b"").unwrap();
            si.user_info.set("tty", &base);
            tty_ok = true;
        }
        3 => {
            si.user_info.set("tty", &base); // no such file
        }
        4 => {
            std::fs::create_dir(&base).unwrap();
            si.user_info.set("tty", &base);
        }
        5 => {
            si.user_info.set("tty", "/dev/shm/mc-none/x/y");
        }
        6 => {
            si.user_info.set("tty", "/dev/full");
        }
        _ => {
            si.user_info.set("tty", b"/dev/\xff\xfe");
        }
    }
    let pf = cx.input(4);
    match pf {
        0 => (),
        1 => si.printf = false,
        2 => w().printf_fail_at.push(usize::MAX),
        _ => w().printf_fail_at.push(0),
    }
    let place = |pair: bool, k: usize| {
        let p = String::from_utf8(if pair { w().pair_tpl.clone() } else { w().user_tpl.clone() }).unwrap();
        set_tpl(pair, None);
        match k {
            0 => set_tpl(pair, Some(if pair { PTPL } else { UTPL })),
            1 => (),
            2 => std::fs::create_dir(&p).unwrap(),
            3 => set_tpl(pair, Some(b"")),
            _ => std::os::unix::fs::symlink(&p, &p).unwrap(),
        }
        tpl_dirty();
    };
    let (ut, pt) = (cx.input(5), cx.input(5));
    place(false, ut);
    place(true, pt);
    w().tpl_fault_limit = 0;
    w().menu = Some(courtesies);
    let _ = decision(cx, &si, what, want);
    let _ = std::fs::remove_dir(&base);
    let r = w().evs.iter().rev().find(|e| e.op.name == "open returns").map_or(-9, |e| e.ret as i32);
    cx.describe(|| format!("{} tty {} printf {} templates {} {} faults [{}]", what, ttyk, pf, ut, pt, show_faults()));
    check(proceeds(r) == want, || format!("open returned {}", r))?;
    hung()?;
    decoy_untouched()?;
    if w().bound.is_empty() || !w().faults_taken.is_empty() {
        return Ok(());
    }
    let t: &[u8] = match ut {
        0 => UTPL,
        3 => b"",
        _ => DEF_USER,
    };
    let want = expand(t, &|c| directive(&si, b"", c));
    let wd = w();
    if tty_ok {
        check(wd.tty_bytes == want, || format!("the terminal was shown {:?}, not {:?}", s(&wd.tty_bytes), s(&want)))
    } else if pf == 0 {
        let p = printed(crate::abi::CONV_ERROR);
        check(p.starts_with(&want), || format!("the error channel was given {:?}; the prompt is {:?}", s(&p), s(&want)))
    } else {
        Ok(())
    }
}

fn logging(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let mut si = SessIn::usual();
    let k = cx.input(SESSIONS);
    let (what, want) = session(k, &mut si);
    let wd = w();
    let sk = cx.input(5);
    let p = format!("{}/devlog", wd.scratch);
    let _ = std::fs::remove_file(&p);
    wd.remap.push((b"/dev/log".to_vec(), p.clone().into_bytes()));
    let mut sink = -1;
    match sk {
        0 => (),                                 // nothing there
        1 => std::fs::write(&p, b"x").unwrap(),  // a file
        2 => sink = with_syslog(),               // a logger that reads
        3 => {
            // gone before the first message
            sink = with_syslog();
            unsafe { libc::close(sink) };
            sink = -1;
        }
        _ => {
            // dies while the pair thinks
            sink = with_syslog();
            unsafe { LOG = sink };
            w().hook = Some(|_, op| unsafe {
                if op.name == "select" && LOG >= 0 {
                    libc::close(LOG);
                    LOG = -1;
                }
            });
        }
    }
    let _ = sink;
    si.command_info.set("command", *cx.pick(&[&b"/bin/cat"[..], b"/bin/%s%n", b"/bin/\xff"]));
    si.argv = cx.pick(&[vec![b"cat".to_vec()], vec![b"c\xff\n".to_vec(), vec![b'z'; 70000], b"\xff".to_vec()], vec![]]).clone();
    w().menu = Some(courtesies);
    cx.describe(|| format!("{} logger {}", what, sk));
    let r = decision(cx, &si, what, want);
    unsafe { LOG = -1 };
    r.map(|_| ())
}

static mut LOG: i32 = -1;

fn errnos(cx: &mut Cx) -> Result<(), String> {
    each_errno(cx);
    faults(cx)
}
