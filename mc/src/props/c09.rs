//! C09: Ctrl-C always ends the wait for a pair.

use super::util::*;

pub fn spec() -> Spec {
    Spec { id: "C09", needs: "p", harnesses, assumptions: &[ENV, ONE, "a call that blocks is restarted after a handler exactly as signal(7) says (select never, accept and read unless SA_RESTART is off)", "a SIGINT that arrives between two system calls is not a wait"] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "waits", what: "SIGINT at every wait, under every disposition of the handler", bound: 0, run: waits, expect: &["interrupted connect", "interrupted answer"] },
        Harness { name: "constants", what: "SIGINT at the two waits, with every text and number the code under test is written with wherever nothing may depend on it", bound: 0, run: constants, expect: &["interrupted connect", "interrupted answer"] },
        Harness { name: "prompt", what: "SIGINT while the pair does not take all of a long prompt, under every disposition of the handler", bound: 0, run: prompt, expect: &["interrupted prompt", "taken at last"] },
        Harness { name: "plain", what: "SIGINT ignored or at its default, with flags and masks: the same afterwards", bound: if t { 2 } else { 1 }, run: plain, expect: &["approved", "refused"] },
        Harness { name: "faults", what: "SIGINT together with failing calls up to the bound", bound: if t { 3 } else { 2 }, run: faults, expect: &["interrupted"] },
    ]
}

const FLAGS: [i32; 5] = [libc::SA_RESTART, libc::SA_SIGINFO, libc::SA_NODEFER, libc::SA_ONSTACK, libc::SA_RESETHAND];

fn install(cx: &mut Cx) -> String {
    let mut fl = 0;
    for f in FLAGS {
        if cx.flag() {
            fl |= f;
        }
    }
    let m: &[i32] = *cx.pick(&[&[][..], &[libc::SIGTERM], &[libc::SIGCHLD, libc::SIGINT, libc::SIGHUP]]);
    sigint_handler(fl, m);
    format!("flags {:x} mask {:?}", fl, m)
}

#[allow(static_mut_refs)]
fn ran() -> u32 {
    unsafe { crate::world::SIGINT_RAN }
}

/// The same disposition; a handler for one signal only may be gone after one.
fn same(before: &(usize, i32, u64), after: &(usize, i32, u64)) -> bool {
    before == after || before.1 & libc::SA_RESETHAND != 0 && w().sigints > 0 && after.0 == libc::SIG_DFL && (after.1, after.2) == (before.1, before.2)
}

/// The handler that runs during a wait is the one installed, with its flags
/// (but for restarting calls) and its mask.
fn as_installed(before: &(usize, i32, u64)) -> Result<(), String> {
    let part = |s: &(usize, i32, u64)| (s.0, s.1 & !libc::SA_RESTART, s.2);
    // (once it has run, a handler for one signal only is gone)
    match w().sig_during.iter().take(if before.1 & libc::SA_RESETHAND != 0 { 1 } else { usize::MAX }).find(|d| part(d) != part(before)) {
        Some(d) => Err(format!("SIGINT's disposition was {:x?} and {:x?} during the wait", before, d)),
        None => Ok(()),
    }
}

fn waits(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut si = SessIn::usual();
    let d = install(cx);
    let by_group = cx.flag();
    if by_group {
        si.command_info.set("runas_uid", "1000");
        si.settings.set("runas_group", "root");
    }
    let point = cx.input(6);
    let y = || Act::Send(b"y".to_vec());
    match point {
        // nobody has come yet; a pair would have come right after
        0 => {
            w().plan.pre.push_back(Act::Sigint);
            answer(b"y");
        }
        // nobody could connect before
        1 => {
            w().plan.pre.push_back(Act::Sigint);
            w().plan.conns.push_back(Conn { cred: Cred::new(4000, 4000), early: vec![], on_wait: vec![] });
        }
        // connected, thinking; would say yes right after
        2 => w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Sigint, y()] }),
        // connected, silent for ever
        3 => w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Sigint] }),
        // a second one is queued and eager
        4 => {
            w().plan.together = true;
            w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Sigint] });
            w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![y()], on_wait: vec![] });
        }
        // twice in a row
        _ => w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Sigint, Act::Sigint, y()] }),
    }
    let before = sigint_now();
    let n0 = ran();
    let r = open(&si);
    cx.describe(|| format!("{} by_group {} point {}", d, by_group, point));
    cx.outcome(if point < 2 { "interrupted connect" } else { "interrupted answer" });
    hung()?;
    check(w().sigints >= 1, || "no wait was reached".into())?;
    check(!proceeds(r), || format!("SIGINT was ignored: open returned {}", r))?;
    as_installed(&before)?;
    check(ran() == n0 + 1, || format!("the handler ran {} times for one SIGINT", ran() - n0))?;
    let after = sigint_now();
    check(same(&before, &after), || format!("SIGINT's disposition was {:x?} and is {:x?}", before, after))
}

fn constants(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let mut si = SessIn::usual();
    sigint_handler(if cx.flag() { libc::SA_RESTART } else { 0 }, &[]);
    let connect = cx.flag();
    let (what, _env) = match super::c01::plant(cx, &mut si) {
        Some(p) => p,
        None => return Ok(()),
    };
    if connect {
        w().plan.pre.push_back(Act::Sigint);
        answer(b"y");
    } else {
        w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Sigint, Act::Send(b"y".to_vec())] });
    }
    let before = sigint_now();
    let n0 = ran();
    let r = open(&si);
    cx.describe(|| format!("connect {} with {}", connect, what));
    cx.outcome(if connect { "interrupted connect" } else { "interrupted answer" });
    hung()?;
    check(w().sigints >= 1, || "no wait was reached".into())?;
    check(!proceeds(r), || format!("SIGINT was ignored: open returned {}", r))?;
    as_installed(&before)?;
    check(ran() == n0 + 1, || format!("the handler ran {} times for one SIGINT", ran() - n0))?;
    let after = sigint_now();
    check(same(&before, &after), || format!("SIGINT's disposition was {:x?} and is {:x?}", before, after))
}

/// The pair is there but takes only so much of a long prompt.
fn prompt(cx: &mut Cx) -> Result<(), String> {
    let mut si = SessIn::usual();
    set_tpl(false, None);
    // long for its template, or for the command line
    let args = cx.flag();
    let d = if args {
        install(cx)
    } else {
        let fl = *cx.pick(&[0, libc::SA_RESTART]);
        sigint_handler(fl, &[]);
        format!("flags {:x}", fl)
    };
    let n = *cx.pick(if args { &[300_000usize, 1_000_000] } else { &[260_000usize] });
    let text = pattern(n, 3);
    let mut want = text.clone();
    if args {
        set_tpl(true, Some(b"%C\n"));
        for c in text.chunks(100_000) {
            si.argv.push(c.iter().map(|b| b'a' + b % 26).collect());
        }
        want.clear();
    } else {
        let t: Vec<u8> = text.iter().map(|b| if *b == b'%' { b'-' } else { *b }).collect();
        want = t.clone();
        set_tpl(true, Some(&t));
    }
    w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Send(b"y".to_vec())] });
    // he reads some, then nothing more, at the k-th time the buffer is full
    let k = cx.input(3);
    for _ in 0..k {
        w().full.push_back(Act::Send(vec![]));
    }
    let int = cx.input(3);
    for _ in 0..int {
        w().full.push_back(Act::Sigint);
    }
    // and never again, or at once
    let never = int > 0 && cx.flag();
    if never {
        w().full.push_back(Act::Silent);
    }
    let before = sigint_now();
    let n0 = ran();
    let r = open(&si);
    cx.describe(|| format!("{} prompt of {} bytes by arguments {}; SIGINT {} times at the {}. wait, then never read {}", d, n, args, int, k + 1, never));
    hung()?;
    let after = sigint_now();
    check(same(&before, &after), || format!("SIGINT's disposition was {:x?} and is {:x?}", before, after))?;
    if w().sigints == 0 {
        cx.outcome("taken at last");
        check(r == 1, || format!("open returned {}", r))?;
        let got = to_peer(0);
        return check(args || got.starts_with(&want), || format!("the pair got {} bytes", got.len()));
    }
    cx.outcome("interrupted prompt");
    check(!proceeds(r), || format!("SIGINT was ignored: open returned {}", r))?;
    as_installed(&before)?;
    check(ran() == n0 + 1, || format!("the handler ran {} times for one SIGINT", ran() - n0))
}

fn plain(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let si = SessIn::usual();
    let mut fl = 0;
    for f in FLAGS {
        if cx.flag() {
            fl |= f;
        }
    }
    let m: &[i32] = *cx.pick(&[&[][..], &[libc::SIGTERM], &[libc::SIGCHLD, libc::SIGINT, libc::SIGHUP]]);
    let ign = cx.flag();
    sigint_plain(if ign { libc::SIG_IGN } else { libc::SIG_DFL }, fl, m);
    let p = cx.input(4);
    let on_wait = match p {
        0 => vec![Act::Send(b"y".to_vec())],
        1 => vec![Act::Send(b"n".to_vec())],
        2 => vec![Act::Close],
        _ => {
            if !ign {
                return Ok(());
            }
            vec![Act::Sigint, Act::Send(b"y".to_vec())]
        }
    };
    w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait });
    let before = sigint_now();
    w().menu = Some(menu_protocol);
    let r = open(&si);
    if proceeds(r) {
        log(Stream::TtyOut, b"output");
    }
    w().menu = None;
    cx.describe(|| format!("flags {:x} mask {:?} ignored {} pair {} faults [{}]", fl, m, ign, p, show_faults()));
    cx.outcome(if proceeds(r) { "approved" } else { "refused" });
    let after = sigint_now();
    hung()?;
    as_installed(&before)?;
    let restore_failed = w().faults_taken.iter().any(|(o, _)| o.name == "sigaction" && o.arg >> 8 & 1 == 1);
    check(restore_failed || same(&before, &after), || format!("SIGINT's disposition was {:x?} and is {:x?}", before, after))
}

fn faults(cx: &mut Cx) -> Result<(), String> {
    set_tpl(false, None);
    set_tpl(true, None);
    let si = SessIn::usual();
    let fl = *cx.pick(&[libc::SA_RESTART, 0]);
    sigint_handler(fl, &[libc::SIGTERM]);
    let at_answer = cx.flag();
    if at_answer {
        w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Sigint, Act::Send(b"y".to_vec())] });
    } else {
        w().plan.pre.push_back(Act::Sigint);
        answer(b"y");
    }
    let before = sigint_now();
    let n0 = ran();
    w().menu = Some(menu_protocol);
    let r = open(&si);
    w().menu = None;
    cx.describe(|| format!("flags {:x} at_answer {} faults [{}]", fl, at_answer, show_faults()));
    // a wait that never began for a failure is no wait
    let sig_fault = w().faults_taken.iter().any(|(o, _)| o.name == "sigaction");
    if w().sigints == 0 {
        cx.outcome("not reached");
        return Ok(());
    }
    cx.outcome("interrupted");
    check(ran() > n0, || "the handler did not run".into())?;
    if !sig_fault {
        hung()?;
    }
    check(!proceeds(r), || format!("SIGINT was ignored: open returned {}", r))?;
    as_installed(&before)?;
    let after = sigint_now();
    let restore_failed = w().faults_taken.iter().any(|(o, _)| o.name == "sigaction" && o.arg >> 8 & 1 == 1);
    check(restore_failed || same(&before, &after), || format!("SIGINT's disposition was {:x?} and is {:x?}", before, after))
}
