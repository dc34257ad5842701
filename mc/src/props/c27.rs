//! C27: the approver's terminal.

use super::util::*;
use crate::script::*;

pub fn spec() -> Spec {
    Spec {
        id: "C27",
        needs: "s",
        harnesses,
        assumptions: &[
            "the script runs under the sandbox's bash with the real stty on a real pseudo terminal of its own; socat is a stand-in that sits on the terminal, reads keys from it and ends as told, and clear and sudo are recorded",
            "the command that restores the terminal does itself run; SIGKILL and SIGSTOP of the script are not considered",
        ],
    }
}

fn harnesses(_: bool) -> Vec<Harness> {
    vec![
        Harness { name: "endings", what: "each way a connection ends, from each initial setting of the terminal", bound: 0, run: endings, expect: &["over", "fails", "ended by a key", "ended by a signal", "hung up"] },
        Harness { name: "instants", what: "a signal at each instant of the script", bound: 0, run: instants, expect: &["before", "after"] },
        Harness { name: "failing", what: "each command on the way failing", bound: 0, run: failing, expect: &["fails"] },
        Harness { name: "keys", what: "every key, typed while connected", bound: 0, run: keys, expect: &["passed on", "Ctrl-D"] },
        Harness { name: "elsewhere", what: "every state in which the script does not connect", bound: 0, run: elsewhere, expect: &["nothing", "through sudo"] },
    ]
}

type Tio = libc::termios;

fn settings(t: &mut Tio, k: usize) -> &'static str {
    match k {
        0 => "as new",
        1 => {
            t.c_lflag &= !libc::ECHO;
            "no echo"
        }
        2 => {
            t.c_cc[libc::VINTR] = 0x18;
            t.c_cc[libc::VEOF] = 0x1a;
            "other keys"
        }
        3 => {
            t.c_cc[libc::VMIN] = 5;
            t.c_cc[libc::VTIME] = 3;
            t.c_iflag |= libc::IUTF8 | libc::IXANY;
            "odd sizes"
        }
        4 => {
            t.c_lflag &= !(libc::ICANON | libc::ECHO | libc::ECHOE | libc::ECHOK);
            t.c_cc[libc::VMIN] = 1;
            "already unbuffered"
        }
        5 => {
            t.c_lflag |= libc::TOSTOP | libc::NOFLSH | libc::ECHONL;
            t.c_cc[libc::VQUIT] = 0;
            t.c_cc[libc::VINTR] = 0;
            "keys off"
        }
        6 => {
            t.c_iflag &= !libc::ICRNL;
            t.c_oflag &= !libc::OPOST;
            "no translation"
        }
        7 => {
            t.c_iflag = 0;
            t.c_oflag = 0;
            t.c_lflag = 0;
            "raw"
        }
        _ => {
            t.c_lflag &= !libc::ISIG;
            t.c_cc[libc::VSUSP] = 7;
            "no signals"
        }
    }
}
const SETTINGS: usize = 9;

fn tty(k: usize) -> (Tty, String, &'static str) {
    let t = Tty::new();
    let mut x = termios_of(t.slave).unwrap();
    let name = settings(&mut x, k);
    unsafe { libc::tcsetattr(t.slave, libc::TCSANOW, &x) };
    let a = termios_text(&termios_of(t.slave).unwrap());
    (t, a, name)
}

fn now(t: &Tty) -> String {
    termios_of(t.slave).map_or("none".into(), |x| termios_text(&x))
}

/// Somebody who may write to the socket.
fn connecting(cx: &mut Cx) -> Call {
    let how = cx.input(if cx.thorough { 3 } else { 2 });
    let (who, og, mode, su): (Cred, u32, u32, Option<&[u8]>) = match how {
        0 => (Cred::new(2000, 2000), 30, 0o200, Some(b"2100")),
        1 => (Cred { uid: 2100, gid: 2100, groups: vec![2100, 30] }, 30, 0o020, None),
        _ => (Cred::root(), 30, 0o200, Some(b"2100")),
    };
    make_socket("1000.4242.sock", 2000, og, mode);
    let c = Call::new(who, &[b"1000", b"4242"]);
    match su {
        Some(v) => c.env("SUDO_UID", v),
        None => c,
    }
}

fn connected(r: &TtyRan) -> bool {
    matches!(r.did, Some(Did::Connect(_)))
}

/// What is in force while connected.
fn quiet(r: &TtyRan) -> Result<(), String> {
    let x = match r.seen.iter().find(|x| x.0 == "socat") {
        Some(x) => &x.1,
        None => return Err(format!("it did not connect but did {:?}", r.did)),
    };
    let f: Vec<&str> = x.split(':').collect();
    let l = f.get(3).and_then(|x| u32::from_str_radix(x, 16).ok()).unwrap_or(0);
    let cc: Vec<&str> = f.get(5).map_or(vec![], |x| x.split(',').collect());
    check(l & libc::ECHO == 0, || "what the pair types is echoed".into())?;
    check(cc.get(libc::VMIN) == Some(&"1") && cc.get(libc::VTIME) == Some(&"0") || l & libc::ICANON != 0, || format!("keys wait for others (min {:?}, time {:?})", cc.get(libc::VMIN), cc.get(libc::VTIME)))?;
    check(l & libc::ICANON == 0, || "what the pair types waits for the end of the line".into())?;
    check(cc.get(libc::VINTR) == Some(&"4"), || format!("Ctrl-D does not interrupt (the key is {:?})", cc.get(libc::VINTR)))
}

fn as_before(t: &Tty, a: &str) -> Result<(), String> {
    let z = now(t);
    check(a == z, || format!("the terminal was {} and is left {}", a, z))
}

fn endings(cx: &mut Cx) -> Result<(), String> {
    let c = connecting(cx);
    let k = cx.input(SETTINGS);
    let (mut t, a, name) = tty(k);
    use libc::*;
    let e = cx.pick(&[
        End::Exit(0),
        End::Exit(1),
        End::Exit(130),
        End::Dies(SIGPIPE),
        End::Dies(SIGKILL),
        End::Key(4, false),
        End::Key(4, true),
        End::Key(0x1c, false),
        End::Key(b'n', false),
        End::Signal(SIGTERM),
        End::Signal(SIGHUP),
        End::Signal(SIGUSR1),
        End::Group(SIGINT),
        End::Group(SIGTERM),
        End::Group(SIGHUP),
        End::Group(SIGQUIT),
        End::HangUp,
    ]).clone();
    let isig = k < 7;
    if matches!(e, End::Key(4 | 0x1c, _)) && (!isig || e == End::Key(0x1c, false) && k == 5) {
        // with no such key it is passed on like any other
        return Ok(());
    }
    if matches!(e, End::Key(b'n', _)) && k == 3 {
        return Ok(());
    }
    let r = run_tty(&c, &mut t, &e, "");
    let ctx = |m: String| format!("terminal {:?}, connection ending by {:?}: {}", name, e, m);
    cx.describe(|| ctx(format!("{:?} code {:?}", r.did, r.code)));
    check(!r.stuck, || ctx("the script never ended".into()))?;
    quiet(&r).map_err(&ctx)?;
    if e != End::HangUp {
        as_before(&t, &a).map_err(&ctx)?;
    }
    if !matches!(e, End::Signal(_)) {
        check(!r.lives, || ctx("the connection outlives it".into()))?;
    }
    cx.outcome(match e {
        End::Exit(0) => "over",
        End::Exit(_) | End::Dies(_) => "fails",
        End::Key(..) => "ended by a key",
        End::Signal(_) | End::Group(_) => "ended by a signal",
        End::HangUp => "hung up",
    });
    Ok(())
}

fn instants(cx: &mut Cx) -> Result<(), String> {
    let c = connecting(cx);
    let k = if cx.thorough { cx.input(SETTINGS) } else { *cx.pick(&[0, 3]) };
    let (mut t, a, name) = tty(k);
    let cmd = *cx.pick(&["stty:1", "stty:2", "stty:3", "clear:1", "socat:1"]);
    let when = *cx.pick(&["before", "after"]);
    let sig = *cx.pick(&[libc::SIGINT, libc::SIGTERM, libc::SIGHUP, libc::SIGQUIT]);
    // alone, it would end the script while a command of its still runs
    let whom = if when == "after" && cx.flag() { "script" } else { "group" };
    let r = run_tty(&c, &mut t, &End::Exit(0), &format!("{}:{}:{}:{}", cmd, when, sig, whom));
    let ctx = |m: String| format!("terminal {:?}, signal {} to the {} {} {}: {}", name, sig, whom, when, cmd, m);
    cx.describe(|| ctx(format!("{:?} code {:?}", r.did, r.code)));
    check(!r.stuck, || ctx("the script never ended".into()))?;
    as_before(&t, &a).map_err(&ctx)?;
    cx.outcome(when);
    Ok(())
}

fn failing(cx: &mut Cx) -> Result<(), String> {
    let c = connecting(cx);
    let k = cx.input(SETTINGS);
    let (mut t, a, name) = tty(k);
    let cmd = *cx.pick(&["stty:1", "stty:2", "stty:3", "clear:1", "socat:1"]);
    let r = run_tty(&c, &mut t, &End::Exit(0), &format!("{}:fail:0:script", cmd));
    let ctx = |m: String| format!("terminal {:?}, {} failing: {}", name, cmd, m);
    cx.describe(|| ctx(format!("{:?} code {:?}", r.did, r.code)));
    check(!r.stuck, || ctx("the script never ended".into()))?;
    as_before(&t, &a).map_err(&ctx)?;
    cx.outcome("fails");
    Ok(())
}

/// The keys the terminal keeps to itself (or changes) by its own settings,
/// which the script has no business changing.
const OWN: [u8; 5] = [0x1c, 0x1a, 0x13, 0x11, b'\r'];

fn keys(cx: &mut Cx) -> Result<(), String> {
    let c = connecting(cx);
    let all: Vec<u8> = if cx.thorough { (0..=255).collect() } else { b"yYnN \n\x03\x04\x7f\x15\x17a1\x00\x1b\xff".to_vec() };
    let b = *cx.pick(&all);
    if OWN.contains(&b) {
        return Ok(());
    }
    let k = *cx.pick(&[0usize, 2]);
    let (mut t, a, name) = tty(k);
    let r = run_tty(&c, &mut t, &End::Key(b, false), "");
    let ctx = |m: String| format!("terminal {:?}, typing {:#04x}: {}", name, b, m);
    cx.describe(|| ctx(format!("{:?} code {:?} passed {:?}", r.did, r.code, r.byte)));
    check(!r.stuck, || ctx("the script never ended".into()))?;
    quiet(&r).map_err(&ctx)?;
    as_before(&t, &a).map_err(&ctx)?;
    if b == 4 {
        cx.outcome("Ctrl-D");
        check(r.byte.is_none() && !r.lives, || ctx(format!("the connection goes on (passed {:?})", r.byte)))
    } else {
        cx.outcome("passed on");
        check(r.byte == Some(b), || ctx(format!("what reaches the connection is {:?}", r.byte)))?;
        check(r.shown.is_empty(), || ctx(format!("the terminal shows {:?}", s(&r.shown))))
    }
}

fn elsewhere(cx: &mut Cx) -> Result<(), String> {
    let k = cx.input(SETTINGS);
    let n = cx.input(7);
    let su = Cred::new(2000, 2000);
    let carol = Cred::new(2100, 2100);
    let c = match n {
        0 => Call::new(su, &[b"1000", b"4242"]).env("SUDO_UID", b"1000"),
        1 => Call::new(su, &[b"1000", b"4243"]).env("SUDO_UID", b"2100"),
        2 => Call::new(carol, &[b"1000", b"4242"]),
        3 => Call::new(carol, &[b"1000", b"4244"]),
        4 => Call::new(carol, &[b"1000", b"4245"]),
        5 => Call::new(carol, &[b"1000"]),
        _ => Call::new(carol, &[b"1000", b"EUID[$(evil)]"]),
    };
    make_socket("1000.4242.sock", 2000, 30, 0o200);
    make_socket("1000.4244.sock", 2000, 30, 0o020);
    make_socket("1000.4245.sock", 2000, 30, 0o004);
    let (mut t, a, name) = tty(k);
    let at = if matches!(n, 2 | 3) && cx.flag() { "sudo:1:fail:0:script" } else { "" };
    let r = run_tty(&c, &mut t, &End::Exit(0), at);
    let ctx = |m: String| format!("terminal {:?}, state {}: {}", name, n, m);
    cx.describe(|| ctx(format!("{:?} code {:?}", r.did, r.code)));
    check(!r.stuck, || ctx("the script never ended".into()))?;
    as_before(&t, &a).map_err(&ctx)?;
    check(!connected(&r), || ctx("it connected".into()))?;
    for (who, x) in &r.seen {
        check(*x == a, || ctx(format!("{} finds the terminal changed from {} to {}", who, a, x)))?;
    }
    cx.outcome(if matches!(r.did, Some(Did::Sudo { .. })) { "through sudo" } else { "nothing" });
    Ok(())
}
