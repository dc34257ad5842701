//! C02: without a pair's explicit yes there is no session.

use super::util::*;

pub fn spec() -> Spec {
    Spec { id: "C02", needs: "p", harnesses, assumptions: &[ENV, ONE, "a live peer keeps reading; system calls fail only with the errors listed in the fault menu"] }
}

fn harnesses(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "reply1", what: "every first byte, alone or followed by end of file, close or silence, early or when asked", bound: 0, run: reply1, expect: &["approved", "refused"] },
        Harness { name: "reply2", what: "every two-byte answer, in one piece or two", bound: 0, run: reply2, expect: &["approved", "refused"] },
        Harness { name: "words", what: "every text the code under test is written with as the answer, in one piece or byte by byte, and as either prompt", bound: 0, run: words, expect: &["approved", "refused"] },
        Harness { name: "endings", what: "every last byte of the prompt, and every local prompt, with a pair that says nothing", bound: if t { 2 } else { 1 }, run: endings, expect: &["refused"] },
        Harness { name: "peers", what: "up to three connections in every order with every behaviour", bound: 0, run: peers, expect: &["approved", "refused"] },
        Harness { name: "faults", what: "every combination of failing, short and interrupted calls up to the bound", bound: if t { 3 } else { 2 }, run: faults, expect: &["approved", "refused"] },
        Harness { name: "errnos", what: "every system call of an attempt failing with every error number", bound: 1, run: errnos, expect: &["approved", "refused"] },
        Harness { name: "histories", what: "every history of sessions of every kind and answer in one process up to the bound", bound: 0, run: histories, expect: &["approved", "refused"] },
        Harness { name: "again", what: "the same session asked for again and again in one process, all its facts known, with every sequence of answers up to the bound", bound: 0, run: again, expect: &["approved", "refused"] },
        Harness { name: "long", what: "hundreds of sessions in one process, in every pattern of two kinds", bound: 0, run: long, expect: &["approved", "refused"] },
        Harness { name: "prompts", what: "prompt sizes around the transport's limits", bound: if t { 3 } else { 2 }, run: prompts, expect: &["approved", "refused"] },
    ]
}

/// Was the session's prompt complete, at the right peer, before it answered?
fn prompt_first(prompt: &[u8]) -> Result<(), String> {
    let wd = w();
    wd.drain_all();
    let mut sent = 0usize;
    for e in &wd.evs {
        if e.op.cls == Cls::Session && is_write(&e.op) && e.ret > 0 {
            sent += e.ret as usize;
        }
        if e.op.cls == Cls::Session && is_read(&e.op) && e.ret > 0 {
            break;
        }
    }
    check(sent >= prompt.len(), || format!("the answer was read after {} of the prompt's {} bytes", sent, prompt.len()))?;
    let got = &wd.peers[0].recvd;
    if wd.peers[0].fd >= 0 {
        check(got.starts_with(prompt), || format!("the pair was shown {:?}, not the prompt {:?}", s(got), s(prompt)))?;
    }
    Ok(())
}

fn verdict(cx: &mut Cx, r: i32, yes: bool, prompt: &[u8]) -> Result<(), String> {
    if proceeds(r) {
        cx.outcome("approved");
        check(yes, || format!("let through without a yes: open returned {}", r))?;
        check(r == 1, || format!("open returned {}", r))?;
        prompt_first(prompt)
    } else {
        cx.outcome("refused");
        Ok(())
    }
}

fn reply1(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    let b = cx.input(258);
    let mut acts = vec![];
    let tail = *cx.pick(&[None, Some(Act::Close), Some(Act::ShutWr)].each_ref());
    let early = cx.flag();
    let mut yes = false;
    match b {
        256 => (),
        257 => acts.push(Act::Send(vec![])),
        b => {
            yes = b == b'y' as usize || b == b'Y' as usize;
            acts.push(Act::Send(vec![b as u8]));
        }
    }
    if let Some(t) = tail {
        acts.push(t.clone());
    }
    let c = if early { Conn { cred: Cred::root(), early: acts.clone(), on_wait: vec![] } } else { Conn { cred: Cred::root(), early: vec![], on_wait: acts.clone() } };
    w().plan.conns.push_back(c);
    cx.describe(|| format!("acts {:?} early {}", acts, early));
    let r = open(&si);
    verdict(cx, r, yes, &usual_pair_prompt())?;
    if yes && !early {
        check(r == 1, || format!("a yes was not enough: open returned {}", r))?;
    }
    Ok(())
}

fn reply2(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    let (a, b) = (cx.input(256) as u8, cx.input(256) as u8);
    let two = cx.flag();
    let yes = a == b'y' || a == b'Y';
    let on_wait = if two { vec![Act::Send(vec![a]), Act::Send(vec![b])] } else { vec![Act::Send(vec![a, b])] };
    w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait });
    cx.describe(|| format!("{:02x} {:02x} two={}", a, b, two));
    let r = open(&si);
    verdict(cx, r, yes, &usual_pair_prompt())?;
    check(!yes || r == 1, || format!("a yes was not enough: open returned {}", r))
}

fn words(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    let t = cx.pick(crate::dict::words()).clone();
    let how = cx.input(6);
    let mut prompt = usual_pair_prompt();
    let (said, on_wait): (Vec<u8>, Vec<Act>) = match how {
        0 => (t.clone(), vec![Act::Send(t.clone())]),
        1 => {
            let t = [&t[..], b"\n"].concat();
            (t.clone(), vec![Act::Send(t)])
        }
        2 => (t.clone(), t.iter().map(|c| Act::Send(vec![*c])).collect()),
        // said nothing, shown the text
        k => {
            prompt = if t.contains(&b'%') { b"q".to_vec() } else { t.clone() };
            set_tpl(true, Some(&prompt));
            set_tpl(false, Some(&prompt));
            match k {
                3 => (vec![], vec![Act::Close]),
                4 => (vec![], vec![Act::ShutWr]),
                _ => (b"n".to_vec(), vec![Act::Send(b"n".to_vec())]),
            }
        }
    };
    let yes = matches!(said.first(), Some(b'y' | b'Y'));
    w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![], on_wait });
    cx.describe(|| format!("{} way {}", s(&t), how));
    let r = open(&si);
    verdict(cx, r, yes, &prompt)?;
    check(!yes || r == 1, || format!("a yes was not enough: open returned {}", r))
}

/// A pair that never answers approves nothing, whatever it was shown.
fn endings(cx: &mut Cx) -> Result<(), String> {
    let si = SessIn::usual();
    let b = cx.input(256) as u8;
    let tpl: Vec<u8> = match cx.input(4) {
        0 => vec![b],
        1 => vec![b'q', b],
        2 => vec![b, b'?'],
        _ => vec![b; 9],
    };
    let both = cx.flag();
    set_tpl(true, Some(&tpl));
    set_tpl(false, if both { Some(&tpl) } else { None });
    let k = cx.input(7);
    let (early, on_wait) = match k {
        0 => (vec![], vec![Act::Close]),
        1 => (vec![], vec![Act::ShutWr]),
        2 => (vec![], vec![Act::Sigint]),
        3 => (vec![Act::Close], vec![]),
        4 => (vec![Act::ShutWr], vec![]),
        5 => (vec![], vec![Act::Silent]),
        _ => (vec![], vec![Act::Send(vec![])]),
    };
    w().plan.conns.push_back(Conn { cred: Cred::root(), early, on_wait });
    fn menu(_: &World, op: &Op, v: &mut Vec<Fault>) {
        if op.cls == Cls::Session && is_read(op) {
            v.push(Fault::Err(libc::EINTR));
            v.push(Fault::Err(libc::ECONNRESET));
            v.push(Fault::Zero);
        }
        if op.cls == Cls::Session && is_write(op) {
            v.push(Fault::Err(libc::EPIPE));
        }
    }
    w().menu = Some(menu);
    let r = open(&si);
    w().menu = None;
    cx.describe(|| format!("template {:?} both {} peer {} faults [{}]", s(&tpl), both, k, show_faults()));
    cx.outcome("refused");
    check(!proceeds(r), || format!("nobody answered, but open returned {}", r))
}

fn peers(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let si = SessIn::usual();
    let n = cx.qt(2, 3) + 1;
    let n = cx.input(n + 1);
    let together = cx.flag();
    let mut first_yes = false;
    let mut clean = true;
    let mut d = vec![];
    let mut have = false;
    for i in 0..n {
        let k = cx.input(11);
        let y = || Act::Send(b"y".to_vec());
        let no = || Act::Send(b"n".to_vec());
        let (early, on_wait) = match k {
            0 => (vec![], vec![y()]),
            1 => (vec![], vec![no()]),
            2 => (vec![], vec![Act::Close]),
            3 => (vec![Act::Close], vec![]),
            4 => (vec![], vec![Act::ShutWr]),
            5 => (vec![], vec![Act::Silent]),
            6 => (vec![], vec![no(), y()]),
            7 => (vec![], vec![Act::Sigint, y()]),
            8 => (vec![Act::ShutWr], vec![]),
            9 => (vec![], vec![Act::Send(b" y".to_vec())]),
            _ => (vec![], vec![Act::Send(b"yes\n".to_vec())]),
        };
        // a peer who may not even connect does not count
        let denied = cx.flag();
        let cred = if denied { Cred::new(4000, 4000) } else { Cred::root() };
        d.push(format!("{}{}", k, if denied { "(stranger)" } else { "" }));
        if !denied && !have {
            have = true;
            first_yes = k == 0 || k == 10;
            clean = first_yes;
        }
        let _ = i;
        w().plan.conns.push_back(Conn { cred, early, on_wait });
    }
    w().plan.together = together;
    cx.describe(|| format!("peers {} together {}", d.join(" "), together));
    let r = open(&si);
    if proceeds(r) {
        check(w().accepted.len() >= 1, || "let through with nobody connected".into())?;
    }
    verdict(cx, r, first_yes, &usual_pair_prompt())?;
    if clean && have {
        check(r == 1, || format!("a yes was not enough: open returned {}", r))?;
    }
    Ok(())
}

fn faults(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let mut si = SessIn::usual();
    let yes = cx.flag();
    let by_group = cx.flag();
    let tty = cx.flag();
    if by_group {
        si.command_info.set("runas_uid", "1000");
        si.settings.set("runas_group", "root");
    }
    if tty {
        let _ = std::fs::write(std::str::from_utf8(&w().tty).unwrap(), b"");
        si.user_info.set("tty", w().tty.clone());
    }
    let prompt = if by_group { b"pair prompt for user: sudo --group root cat /etc/motd [1000.4242]\n".to_vec() } else { usual_pair_prompt() };
    w().tpl_fault_limit = 1;
    w().menu = Some(menu_protocol);
    answer(if yes { b"y" } else { b"n" });
    let r = open(&si);
    w().menu = None;
    cx.describe(|| format!("yes {} by_group {} tty {} faults [{}]", yes, by_group, tty, show_faults()));
    // a template that cannot be read is replaced by the built-in one
    let broken_tpl = w().faults_taken.iter().any(|(o, _)| o.cls == Cls::PairTpl);
    let prompt = if broken_tpl { format!("user@host:/home/user$ sudo {}cat /etc/motd\ny/n? [n]: ", if by_group { "--group root " } else { "" }).into_bytes() } else { prompt };
    verdict(cx, r, yes, &prompt)?;
    if proceeds(r) {
        // calls made after the answer was read no longer matter
        let mut decided = false;
        for e in &w().evs {
            if e.op.cls == Cls::Session && is_read(&e.op) && e.ret > 0 {
                decided = true;
            }
            if !decided && e.inj {
                let f = w().faults_taken.iter().find(|(o, f)| o.name == e.op.name && o.cls == e.op.cls && (e.err == 0 || *f == Fault::Err(e.err))).map(|x| x.1).unwrap_or(Fault::Err(e.err));
                check(!needed(&e.op, &f), || format!("let through although {} failed with {:?}", e.op.name, f))?;
            }
        }
    } else if yes && w().faults_taken.is_empty() {
        return Err(format!("a yes was not enough: open returned {}", r));
    }
    Ok(())
}

fn prompts(cx: &mut Cx) -> Result<(), String> {
    let sizes: &[usize] = if cx.thorough { &[0, 1, 2, 4095, 4096, 65535, 65536, 212_992, 300_000] } else { &[0, 1, 4096, 65536, 250_000] };
    let n = *cx.pick(sizes);
    let yes = cx.flag();
    let tpl: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let mut si = SessIn::usual();
    // the command line carries the bulk: templates are read byte by byte
    si.argv[1] = tpl;
    set_tpl(false, None);
    set_tpl(true, Some(b"%C!"));
    let mut prompt = b"sudo cat ".to_vec();
    prompt.extend(&si.argv[1]);
    prompt.push(b'!');
    fn menu(_: &World, op: &Op, v: &mut Vec<Fault>) {
        if op.cls == Cls::Session && is_write(op) {
            v.push(Fault::Err(libc::EPIPE));
            v.push(Fault::Err(libc::EINTR));
            if op.len > 1 {
                v.push(Fault::Short(1));
                v.push(Fault::Short(op.len - 1));
            }
        }
        if op.cls == Cls::Session && is_read(op) {
            v.push(Fault::Err(libc::EINTR));
        }
    }
    w().menu = Some(menu);
    answer(if yes { b"Y" } else { b"N" });
    let r = open(&si);
    w().menu = None;
    cx.describe(|| format!("prompt of {} bytes, yes {}, faults [{}]", prompt.len(), yes, show_faults()));
    verdict(cx, r, yes, &prompt)?;
    if proceeds(r) {
        let bad = w().evs.iter().take_while(|e| !(e.op.cls == Cls::Session && is_read(&e.op) && e.ret > 0)).any(|e| e.inj && (e.err == libc::EPIPE || (is_read(&e.op) && e.ret < 0)));
        check(!bad, || "let through although the connection failed".into())
    } else {
        check(!(yes && w().faults_taken.is_empty()), || format!("a yes was not enough: open returned {}", r))
    }
}

fn errnos(cx: &mut Cx) -> Result<(), String> {
    each_errno(cx);
    faults(cx)
}

const KINDS: [&str; 10] = ["y", "n", "q", "gone", "silent", "^C", "exempt", "root", "user and group", "no pid"];

/// The `i`-th session of one process, from open to close: its own pair, and
/// nobody else's, decides it.
fn session(cx: &mut Cx, k: usize, i: usize) -> Result<(), String> {
    let mut si = SessIn::usual();
    let (uid, pid) = ((5000 + i).to_string(), (90_000 + i).to_string());
    si.user_info.set("uid", &uid).set("pid", &pid);
    let arg = format!("/etc/motd{}", i);
    si.argv[1] = arg.clone().into_bytes();
    let c = match k {
        0 => Some((vec![], vec![Act::Send(b"y".to_vec())])),
        1 => Some((vec![], vec![Act::Send(b"n".to_vec())])),
        2 => Some((vec![Act::Send(b"q".to_vec())], vec![])),
        3 => Some((vec![Act::Close], vec![])),
        4 => Some((vec![], vec![Act::ShutWr])),
        5 => Some((vec![], vec![Act::Sigint])),
        _ => None,
    };
    let np = w().peers.len();
    w().plan = Plan::default();
    if let Some((early, on_wait)) = c {
        w().plan.conns.push_back(Conn { cred: Cred::root(), early, on_wait });
    } else {
        // a willing pair, whom nobody is to ask
        answer(b"y");
    }
    match k {
        6 => {
            si.options.set("gids_exempted", "20");
        }
        7 => {
            si.user_info.set("uid", "0").set("euid", "0");
        }
        8 => {
            si.settings.set("runas_group", "ops");
        }
        9 => {
            si.user_info.del("pid");
        }
        _ => {}
    }
    let from = w().evs.len();
    let r = open(&si);
    let yes = matches!(k, 0 | 6 | 7);
    cx.outcome(if proceeds(r) { "approved" } else { "refused" });
    check(r == 1 || !yes, || format!("open returned {}", r))?;
    check(!proceeds(r) || yes, || format!("let through without a yes: open returned {}", r))?;
    check((w().peers.len() > np) == (k < 6), || "the wrong sessions ask for a pair".into())?;
    let prompt = format!("pair prompt for user: sudo cat {} [{}.{}]\n", arg, uid, pid);
    w().drain_all();
    if k < 3 {
        let got = to_peer(np);
        check(got.starts_with(prompt.as_bytes()), || format!("the pair was shown {:?}, not {:?}", s(&got), prompt))?;
    }
    let old: Vec<usize> = w().peers.iter().map(|p| p.recvd.len()).collect();
    let l = log(Stream::TtyOut, b"out");
    check(l == yes as i32, || format!("output afterwards returned {}", l))?;
    w().drain_all();
    for (j, p) in w().peers.iter().enumerate() {
        let more = p.recvd.len() - old[j];
        check(more == if k == 0 && j == np { 3 } else { 0 }, || format!("{} bytes of output went to connection {} of {}", more, j, old.len()))?;
    }
    if yes {
        let l = log(Stream::Stdin, b"in");
        check(l == (k != 0) as i32, || format!("redirected input returned {}", l))?;
        close();
    }
    let l = log(Stream::TtyOut, b"out");
    check(l == 0, || format!("output after the end returned {}", l))?;
    check(list_dir(&w().dir.clone()).is_empty(), || "something is left in the directory".into())?;
    w().evs.truncate(from);
    Ok(())
}

fn histories(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let mut hist = vec![];
    let mut res = Ok(());
    for i in 0..cx.qt(4, 5) {
        let k = cx.input(KINDS.len());
        hist.push(KINDS[k]);
        res = session(cx, k, i);
        if res.is_err() {
            break;
        }
    }
    cx.describe(|| format!("{:?}", hist));
    res
}

/// A yes is for one session, though the next be its very likeness.
fn again(cx: &mut Cx) -> Result<(), String> {
    set_tpl(true, Some(b"q"));
    set_tpl(false, None);
    let mut si = SessIn::usual();
    for (k, v) in [("sid", "4000"), ("pgid", "4001"), ("tcpgid", "4001"), ("ppid", "4100"), ("host", "box"), ("cwd", "/home/user"), ("user", "user"), ("egid", "1000"), ("lines", "24"), ("cols", "80"), ("umask", "022")] {
        si.user_info.set(k, v);
    }
    if cx.flag() {
        let _ = std::fs::write(std::str::from_utf8(&w().tty).unwrap(), b"");
        si.user_info.set("tty", w().tty.clone());
    }
    for (k, v) in [("cwd", "/home/user"), ("umask", "022"), ("iolog_path", "/var/log/sudo-io/00/00/01"), ("runas_groups", "0"), ("use_pty", "true")] {
        si.command_info.set(k, v);
    }
    // from one session to the next
    let moves = cx.input(4);
    let ends = cx.input(3);
    let mut hist = vec![];
    for i in 0..cx.qt(4, 5) {
        let a = cx.input(5);
        hist.push(a);
        let (early, on_wait) = match a {
            0 => (vec![], vec![Act::Send(b"y".to_vec())]),
            1 => (vec![], vec![Act::Send(b"n".to_vec())]),
            2 => (vec![], vec![Act::ShutWr]),
            3 => (vec![Act::Close], vec![]),
            _ => (vec![], vec![Act::Send(b"Y".to_vec())]),
        };
        match moves {
            0 => (),
            1 => {
                si.user_info.set("pid", (4242 + i).to_string());
            }
            2 => {
                si.user_info.set("sid", (4000 + i).to_string());
            }
            _ => {
                si.argv = vec![b"cat".to_vec(), format!("f{}", i).into_bytes()];
            }
        }
        w().plan = Plan::default();
        w().plan.conns.push_back(Conn { cred: Cred::root(), early, on_wait });
        let np = w().peers.len();
        let r = open(&si);
        let yes = a == 0 || a == 4;
        cx.describe(|| format!("answers {:?} moves {} ends {}", hist, moves, ends));
        cx.outcome(if proceeds(r) { "approved" } else { "refused" });
        check(w().peers.len() == np + 1, || format!("session {}: no pair was asked", i))?;
        check(!proceeds(r) || yes, || format!("session {}: let through without a yes: open returned {}", i, r))?;
        check(!yes || r == 1, || format!("session {}: a yes was not enough: open returned {}", i, r))?;
        if yes {
            match ends {
                0 => (),
                1 => {
                    let l = log(Stream::TtyOut, b"out");
                    check(l == 1, || format!("output returned {}", l))?;
                }
                _ => {
                    w().peer_act(np, Act::Close, true);
                    let l = log(Stream::TtyOut, b"out");
                    check(l == 0, || format!("output without a pair returned {}", l))?;
                }
            }
            close();
        }
    }
    Ok(())
}

fn long(cx: &mut Cx) -> Result<(), String> {
    usual_templates();
    let k = [cx.input(KINDS.len()), cx.input(KINDS.len())];
    let every = *cx.pick(&[2usize, 7]);
    let n = cx.qt(300, 1000);
    cx.describe(|| format!("{} sessions, {:?} and, every {}, {:?}", n, KINDS[k[0]], every, KINDS[k[1]]));
    for i in 0..n {
        session(cx, k[(i % every == every - 1) as usize], i).map_err(|e| format!("session {}: {}", i, e))?;
        w().printed.clear();
        w().bound.clear();
        w().accepted.clear();
        // connections of sessions that are over
        if w().peers.len() > 20 {
            for p in w().peers.drain(..) {
                if p.fd >= 0 {
                    unsafe { libc::close(p.fd) };
                }
            }
        }
        fresh_limits();
    }
    Ok(())
}
