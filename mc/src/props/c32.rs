//! C32: what the pair can do once the session runs.

use super::util::*;

pub fn spec() -> Spec {
    Spec {
        id: "C32",
        needs: "p",
        harnesses,
        assumptions: &[ENV, ONE, "a pair who only half-closes his connection is not judged; SIGPIPE is at its default, which would kill sudo"],
    }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "histories", what: "every history of the pair's and the session's steps up to the bound", bound: 0, run: histories, expect: &["kept", "ended"] },
        Harness { name: "slow", what: "a pair who reads only once sudo waits for him, however long that is, at every sequence of steps", bound: 0, run: slow, expect: &["kept"] },
        Harness { name: "typing", what: "every byte, typed at each time and amount", bound: 0, run: typing, expect: &["kept"] },
        Harness { name: "words", what: "every text the code under test is written with, typed at each time, shown, and both", bound: 0, run: words, expect: &["kept"] },
        Harness { name: "constants", what: "every text and number the code under test is written with, wherever nothing may depend on it", bound: 0, run: constants, expect: &["kept"] },
        Harness { name: "leaving", what: "the pair leaving at every system call of the session, with failures", bound: if t { 2 } else { 1 }, run: leaving, expect: &["kept", "ended"] },
    ]
}

fn send(fd: i32, b: &[u8]) -> isize {
    unsafe { libc::send(fd, b.as_ptr() as *const _, b.len(), libc::MSG_DONTWAIT | libc::MSG_NOSIGNAL) }
}

fn leave() {
    let p = &mut w().peers[0];
    if p.fd >= 0 {
        unsafe { libc::close(p.fd) };
        p.fd = -1;
    }
}

/// Somebody else connects to where the session's socket was.
fn intrude(path: &[u8]) -> bool {
    let mut u: libc::sockaddr_un = unsafe { std::mem::zeroed() };
    u.sun_family = libc::AF_UNIX as u16;
    for (i, c) in path.iter().take(107).enumerate() {
        u.sun_path[i] = *c as libc::c_char;
    }
    unsafe {
        let f = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        let r = libc::connect(f, &u as *const _ as *const libc::sockaddr, (3 + path.len()) as u32);
        libc::close(f);
        r == 0
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Stop,
    Out(Stream),
    Empty,
    Win,
    Stdin,
    Types(&'static [u8]),
    Flood,
    Intruder,
    Leaves,
}

const STEPS: [St; 13] = [
    St::Stop,
    St::Out(Stream::TtyOut),
    St::Out(Stream::Stdout),
    St::Out(Stream::Stderr),
    St::Leaves,
    St::Types(b"n"),
    St::Types(b"\x03"),
    St::Types(b"yy\n"),
    St::Win,
    St::Stdin,
    St::Flood,
    St::Intruder,
    St::Empty,
];

fn histories(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let mut si = SessIn::usual();
    // the user's target, or his group alone
    if cx.flag() {
        si.settings.set("runas_group", "ops");
        si.command_info.set("runas_uid", "1000").set("runas_gid", "0");
    }
    let mut want = pair_up(&si)?;
    let sock = w().bound[0].clone();
    let n = cx.qt(5, 6);
    let mut hist = vec![];
    let mut gone = false;
    let mut over = false;
    for _ in 0..n {
        let st = *cx.pick(&STEPS);
        if st == St::Stop {
            break;
        }
        hist.push(st);
        let fd = w().peers[0].fd;
        let mut exp: Vec<u8> = vec![];
        let mut stdin = false;
        let r = match st {
            St::Stop => 1,
            St::Out(x) => {
                exp = format!("<{:?} {}>", x, hist.len()).into_bytes();
                log(x, &exp)
            }
            St::Empty => {
                log(Stream::TtyOut, b"");
                continue;
            }
            St::Win => {
                exp = b"\x1b[8;24;80t".to_vec();
                winsize(24, 80)
            }
            St::Stdin => {
                stdin = true;
                log(Stream::Stdin, b"redirected")
            }
            St::Types(b) => {
                if fd >= 0 {
                    let _ = send(fd, b);
                }
                continue;
            }
            St::Flood => {
                if fd >= 0 {
                    while send(fd, &[b'y'; 65536]) > 0 {}
                }
                continue;
            }
            St::Intruder => {
                check(!intrude(&sock), || format!("{:?}: somebody else could still connect", hist))?;
                continue;
            }
            St::Leaves => {
                leave();
                gone = true;
                continue;
            }
        };
        hung()?;
        check(r == 0 || r == 1, || format!("{:?}: returned {}", hist, r))?;
        if stdin {
            check(r == 0, || format!("{:?}: redirected input was accepted", hist))?;
        } else if gone {
            check(r == 0, || format!("{:?}: accepted although the pair has left", hist))?;
        } else {
            check(r == 1, || format!("{:?}: refused although the pair is there", hist))?;
            want.extend(&exp);
            let got = to_peer(0);
            check(got == want, || format!("{:?}: the pair got {:?}", hist, s(&got)))?;
        }
        over |= r == 0;
    }
    cx.describe(|| format!("{:?}", hist));
    cx.outcome(if over { "ended" } else { "kept" });
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    check(list_dir(&w().dir.clone()).is_empty(), || "something is left in the directory".into())
}

fn typing(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    let b = cx.input(256) as u8;
    let n = *cx.pick(&[1usize, 2, 1000]);
    // together with the answer, or later
    let early = cx.flag();
    let mut a = b"y".to_vec();
    if early {
        a.extend(vec![b; n]);
    }
    answer(&a);
    let r = open(&si);
    check(r == 1, || format!("answered {:?}, but open returned {}", s(&a), r))?;
    let mut want = to_peer(0);
    if !early {
        let _ = send(w().peers[0].fd, &vec![b; n]);
    }
    cx.describe(|| format!("{} times {:?} early {}", n, s(&[b]), early));
    cx.outcome("kept");
    for i in 0..4 {
        let exp = if i == 2 { b"\x1b[8;1;2t".to_vec() } else { vec![b; n] };
        let r = match i {
            0 => log(Stream::TtyOut, &exp),
            1 => log(Stream::Stdout, &exp),
            2 => winsize(1, 2),
            _ => log(Stream::Stderr, &exp),
        };
        check(r == 1, || format!("step {} returned {}", i, r))?;
        want.extend(exp);
        let got = to_peer(0);
        check(got == want, || format!("step {}: the pair got {:?}", i, s(&got)))?;
    }
    check(log(Stream::Stdin, &[b]) == 0, || "redirected input was accepted".into())?;
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    Ok(())
}

fn words(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    let t = cx.pick(crate::dict::words()).clone();
    let tail: &[u8] = cx.pick(&[&b""[..], b"\n", b"\r"]);
    let text = [&t[..], tail].concat();
    let early = cx.flag();
    let show = cx.flag();
    let mut a = b"y".to_vec();
    if early {
        a.extend(&text);
    }
    answer(&a);
    let r = open(&si);
    check(r == 1, || format!("answered {:?}, but open returned {}", s(&a), r))?;
    let mut want = to_peer(0);
    cx.describe(|| format!("{:?} early {} shown {}", s(&text), early, show));
    cx.outcome("kept");
    for i in 0..5 {
        if !early && i != 1 {
            let _ = send(w().peers[0].fd, &text);
        }
        let exp = if i == 2 { b"\x1b[8;1;2t".to_vec() } else if show { text.clone() } else { b"out".to_vec() };
        let r = match i {
            0 | 4 => log(Stream::TtyOut, &exp),
            1 => log(Stream::Stdout, &exp),
            2 => winsize(1, 2),
            _ => log(Stream::Stderr, &exp),
        };
        check(r == 1, || format!("step {} returned {}", i, r))?;
        want.extend(exp);
        let got = to_peer(0);
        check(got == want, || format!("step {}: the pair got {:?}", i, s(&got)))?;
    }
    check(log(Stream::Stdin, &text) == 0, || "redirected input was accepted".into())?;
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    Ok(())
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let mut si = SessIn::usual();
    let (what, _env) = match super::c01::plant(cx, &mut si) {
        Some(p) => p,
        None => return Ok(()),
    };
    answer(b"y");
    let r = open(&si);
    cx.describe(|| what);
    check(r == 1, || format!("answered yes, but open returned {}", r))?;
    cx.outcome("kept");
    let mut want = to_peer(0);
    for i in 0..5 {
        if i == 1 {
            let _ = send(w().peers[0].fd, b"n\n");
        }
        let exp: &[u8] = if i == 2 { b"\x1b[8;1;2t" } else { b"out" };
        let r = match i {
            0 | 4 => log(Stream::TtyOut, exp),
            1 => log(Stream::Stdout, exp),
            2 => winsize(1, 2),
            _ => log(Stream::Stderr, exp),
        };
        check(r == 1, || format!("step {} returned {}", i, r))?;
        want.extend(exp);
        let got = to_peer(0);
        check(got == want, || format!("step {}: the pair got {:?}", i, s(&got)))?;
    }
    check(log(Stream::Stdin, b"in") == 0, || "redirected input was accepted".into())?;
    leave();
    let r = (0..3).map(|_| log(Stream::TtyOut, b"more")).last();
    check(r == Some(0), || format!("the pair has left, but output returned {:?}", r))?;
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    Ok(())
}

static mut AT: usize = 0;
static mut LEFT: bool = false;

/// The pair leaves before one of the session's system calls.
fn leaving(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    pair_up(&si)?;
    unsafe {
        // (the last: not at all)
        AT = *cx.pick(&[0, 1, 2, 3, 4, 5, 6, 7, usize::MAX]);
        LEFT = false;
    }
    w().hook = Some(|_, op| unsafe {
        if op.cls == Cls::Session && !LEFT {
            if AT == 0 {
                leave();
                LEFT = true;
            } else {
                AT -= 1;
            }
        }
    });
    w().menu = Some(menu_session);
    let mut res = vec![];
    let mut ended = false;
    for i in 0..6 {
        let gone = unsafe { LEFT };
        let r = match i % 3 {
            0 => log(Stream::TtyOut, b"output"),
            1 => winsize(24, 80),
            _ => log(Stream::Stderr, b"error"),
        };
        res.push(r);
        hung()?;
        check(!(gone && r != 0), || format!("{:?}: accepted although the pair has left", res))?;
        let quiet = w().faults_taken.iter().all(|(_, f)| matches!(f, Fault::Short(_)));
        check(!(quiet && unsafe { !LEFT } && r != 1), || format!("{:?}: refused although the pair is there", res))?;
        ended |= r == 0;
    }
    w().menu = None;
    w().hook = None;
    cx.describe(|| format!("faults [{}]: {:?}", show_faults(), res));
    cx.outcome(if ended { "ended" } else { "kept" });
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    Ok(())
}

/// He takes his time, but he is there.
fn slow(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    let mut want = pair_up(&si)?;
    w().slow = true;
    let (full, fd) = (cx.flag(), w().peers[0].accepted.unwrap_or(-1));
    if full {
        // as if by earlier output
        loop {
            let b = [b'.'; 4096];
            let r = send(fd, &b);
            if r <= 0 {
                break;
            }
            want.extend(&b[..r as usize]);
        }
    }
    let mut hist = vec![];
    for i in 0..cx.qt(3, 4) {
        let k = cx.input(7);
        if k == 0 {
            break;
        }
        let st = [Stream::TtyOut, Stream::Stdout, Stream::Stderr][(k + i) % 3];
        let (r, exp) = match k {
            1 => (winsize(24 + i as u32, 80), format!("\x1b[8;{};80t", 24 + i).into_bytes()),
            2 => {
                // again to the brim
                loop {
                    let b = [b','; 1024];
                    let r = send(fd, &b);
                    if r <= 0 {
                        break;
                    }
                    want.extend(&b[..r as usize]);
                }
                continue;
            }
            k => {
                let b = pattern([1, 4096, 70_000, 1_000_000][k - 3], i);
                (log(st, &b), b)
            }
        };
        hist.push((k, r));
        hung()?;
        check(r == 1, || format!("full {} {:?}: refused although the pair is there", full, hist))?;
        want.extend(exp);
    }
    let got = to_peer(0);
    check(got == want, || format!("full {} {:?}: the pair got {} bytes, not the {} sent", full, hist, got.len(), want.len()))?;
    cx.describe(|| format!("full {} {:?}", full, hist));
    cx.outcome("kept");
    close();
    hung().map_err(|e| format!("closing: {}", e))?;
    Ok(())
}
