//! C22: concurrent sessions never interfere.
//! C24: a killed sudo never blocks or weakens a later session.

use super::util::*;

pub fn spec22() -> Spec {
    Spec { id: "C22", needs: "p", harnesses: harnesses22, assumptions: &[ENV, "two processes, each single-threaded; calls that touch neither the socket directory nor a socket are process-local and not interleaved"] }
}

pub fn spec24() -> Spec {
    Spec { id: "C24", needs: "p", harnesses: harnesses24, assumptions: &[ENV, "the kernel completes a system call it began before it kills the process; the machine itself does not crash (the socket directory is a tmpfs)"] }
}

fn harnesses22(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "two", what: "two real processes and their pairs, every schedule of their socket calls with up to the bound of preemptions", bound: if t { 4 } else { 2 }, run: two, expect: &["yes/yes", "yes/no", "no/yes", "no/no"] },
        Harness { name: "one_dies", what: "the same while one of them is killed anywhere", bound: if t { 3 } else { 2 }, run: one_dies, expect: &["survivor approved", "survivor refused"] },
    ]
}

fn harnesses24(t: bool) -> Vec<Harness> {
    vec![
        Harness { name: "killed", what: "killed before each system call of every kind of attempt or session, then a session with the same name", bound: if t { 1 } else { 0 }, run: killed, expect: &["approved after a death", "refused after a death"] },
        Harness { name: "faulty", what: "the same with one failing call before the death", bound: 0, run: faulty, expect: &["approved after a death", "refused after a death"] },
    ]
}

// --------------------------------------------------------- controlled child

#[derive(Clone, Debug, PartialEq)]
enum Msg {
    Op(String),
    Blocked(u8),
    Done(i32, String),
    Dead,
}

static mut TX: i32 = -1;
static mut RX: i32 = -1;

fn say(kind: u8, body: &[u8]) {
    let mut m = vec![kind, (body.len() & 255) as u8, (body.len() >> 8) as u8];
    m.extend_from_slice(body);
    unsafe {
        let mut off = 0;
        while off < m.len() {
            let r = libc::write(TX, m[off..].as_ptr() as *const _, m.len() - off);
            if r <= 0 {
                libc::_exit(0);
            }
            off += r as usize;
        }
    }
}

fn wait_go() -> u8 {
    let mut b = [0u8; 1];
    unsafe {
        loop {
            let r = libc::read(RX, b.as_mut_ptr() as *mut _, 1);
            if r == 1 {
                return b[0];
            }
            if r < 0 && errno() == libc::EINTR {
                continue;
            }
            libc::_exit(0);
        }
    }
}

fn visible(c: Cls) -> bool {
    matches!(c, Cls::Sock | Cls::Dir | Cls::Listener | Cls::Session | Cls::Other)
}

fn stop_at(_: &mut World, op: &Op) {
    if visible(op.cls) {
        say(b'O', op.name.as_bytes());
        wait_go();
    }
}

fn blocked(_: &mut World, b: Blocked, _: i32) -> Wait {
    say(b'B', &[match b {
        Blocked::Listener => b'l',
        Blocked::Session => b's',
        _ => b'o',
    }]);
    wait_go();
    Wait::Ready
}

struct Child {
    pid: i32,
    rx: i32,
    tx: i32,
    msg: Msg,
    listening: bool,
}

fn pipe_hi() -> (i32, i32) {
    unsafe {
        let mut p = [0i32; 2];
        libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
        let a = libc::fcntl(p[0], libc::F_DUPFD_CLOEXEC, 900);
        let b = libc::fcntl(p[1], libc::F_DUPFD_CLOEXEC, 900);
        libc::close(p[0]);
        libc::close(p[1]);
        (a, b)
    }
}

static mut POOL: [Option<Child>; 2] = [None, None];

impl Child {
    /// A process that runs one session after another, each when told which.
    #[allow(static_mut_refs)]
    fn begin(which: usize, kind: usize) -> Child {
        let mut c = match unsafe { POOL[which].take() } {
            Some(c) => c,
            None => Child::fork(which),
        };
        c.msg = Msg::Dead;
        c.listening = false;
        let b = [b'A' + kind as u8];
        unsafe { libc::write(c.tx, b.as_ptr() as *const _, 1) };
        c.recv();
        c
    }
    #[allow(static_mut_refs)]
    fn give_back(self, which: usize) {
        if matches!(self.msg, Msg::Done(..)) {
            unsafe { POOL[which] = Some(self) }
        }
    }
    #[allow(static_mut_refs)]
    fn fork(which: usize) -> Child {
        let (r1, w1) = pipe_hi();
        let (r2, w2) = pipe_hi();
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::alarm(0);
                libc::close(r1);
                libc::close(w2);
                TX = w1;
                RX = r2;
                crate::explore::detach();
                w().states = Default::default();
                loop {
                    let kind = wait_go() - b'A';
                    crate::sess::reset_child();
                    w().states.clear();
                    let sd = sides_of(kind as usize, false, false).into_iter().nth(which).unwrap();
                    let wd = w();
                    wd.hook = Some(stop_at);
                    wd.block_hook = Some(blocked);
                    let r = session_body(&sd);
                    wd.active = false;
                    let mut m = r.to_le_bytes().to_vec();
                    let mut note = wd.escapes.join(" ");
                    if let Some(h) = &wd.hang {
                        note += h;
                    }
                    let l = list_left();
                    if r < 0 && !l.is_empty() {
                        note += &format!("descriptors left: {:?}", l);
                    }
                    m.extend(note.bytes());
                    crate::sess::finish_child();
                    say(b'D', &m);
                }
            }
            libc::close(w1);
            libc::close(r2);
            Child { pid, rx: r1, tx: w2, msg: Msg::Dead, listening: false }
        }
    }
    fn recv(&mut self) {
        let mut h = [0u8; 3];
        let rd = |b: &mut [u8]| unsafe {
            let mut off = 0;
            while off < b.len() {
                let r = libc::read(self.rx, b[off..].as_mut_ptr() as *mut _, b.len() - off);
                if r <= 0 {
                    return false;
                }
                off += r as usize;
            }
            true
        };
        if !rd(&mut h) {
            self.msg = Msg::Dead;
            return;
        }
        let mut body = vec![0u8; h[1] as usize | (h[2] as usize) << 8];
        if !rd(&mut body) {
            self.msg = Msg::Dead;
            return;
        }
        self.msg = match h[0] {
            b'O' => Msg::Op(String::from_utf8_lossy(&body).into_owned()),
            b'B' => Msg::Blocked(body[0]),
            _ => Msg::Done(i32::from_le_bytes([body[0], body[1], body[2], body[3]]), String::from_utf8_lossy(&body[4..]).into_owned()),
        };
    }
    /// Lets it do what it announced, up to its next announcement.
    fn go(&mut self) {
        if let Msg::Op(o) = &self.msg {
            if o == "listen" {
                self.listening = true;
            }
        }
        let b = [1u8];
        unsafe {
            if libc::write(self.tx, b.as_ptr() as *const _, 1) != 1 {
                self.msg = Msg::Dead;
                return;
            }
        }
        self.recv();
    }
    fn kill(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
        }
        self.reap();
        self.msg = Msg::Dead;
    }
    fn reap(&mut self) -> i32 {
        let mut st = 0;
        if self.pid > 0 {
            unsafe {
                while libc::waitpid(self.pid, &mut st, 0) < 0 && errno() == libc::EINTR {}
            }
            self.pid = 0;
        }
        st
    }
    fn over(&self) -> bool {
        matches!(self.msg, Msg::Done(..) | Msg::Dead)
    }
}

impl Drop for Child {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.rx);
            libc::close(self.tx);
            if self.pid > 0 {
                libc::kill(self.pid, libc::SIGKILL);
            }
        }
        self.reap();
    }
}

fn list_left() -> Vec<i32> {
    open_fds().into_iter().filter(|f| w().cls_of_fd(*f) != Cls::Other).collect()
}

// ------------------------------------------------------------------ C22

struct Side {
    si: SessIn,
    path: Vec<u8>,
    tag: &'static str,
    uid: Option<u32>,
    gid: Option<u32>,
    yes: bool,
}

fn side(tag: &'static str, uid: &str, pid: &str, target: u32, by_group: bool, yes: bool) -> Side {
    let mut si = SessIn::usual();
    si.user_info.set("uid", uid).set("pid", pid).set("user", tag);
    si.argv.push(tag.as_bytes().to_vec());
    si.options.set("gids_enforced", "0,30,2000,3000");
    if by_group {
        si.command_info.set("runas_uid", uid).set("runas_gid", target.to_string());
        si.settings.set("runas_group", "grp");
    } else {
        si.command_info.set("runas_uid", target.to_string()).set("runas_gid", target.to_string());
    }
    let path = si.sock_path(uid, pid);
    Side { si, path, tag, uid: if by_group { None } else { Some(target) }, gid: if by_group { Some(target) } else { None }, yes }
}

fn lstat(p: &[u8]) -> Option<libc::stat> {
    let mut z = p.to_vec();
    z.push(0);
    let mut m: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { libc::lstat(z.as_ptr() as *const _, &mut m) } == 0 { Some(m) } else { None }
}

/// Only root, the target user, or the target group may write.
fn protected(p: &[u8], uid: Option<u32>, gid: Option<u32>) -> Result<(), String> {
    let m = match lstat(p) {
        Some(m) => m,
        None => return Ok(()),
    };
    let md = m.st_mode;
    let ok = md & 0o002 == 0 && (md & 0o020 == 0 || gid == Some(m.st_gid)) && (md & 0o200 == 0 || m.st_uid == 0 || uid == Some(m.st_uid));
    check(ok && md & libc::S_IFMT == libc::S_IFSOCK, || format!("{} has owner {} group {} mode {:o}", s(p), m.st_uid, m.st_gid, md))
}

fn session_body(sd: &Side) -> i32 {
    let r = open(&sd.si);
    if r == 1 {
        let a = log(Stream::TtyOut, format!("output of {}", sd.tag).as_bytes());
        let b = winsize(24, 80);
        if a != 1 || b != 1 {
            return 100;
        }
        close();
    }
    r
}

#[derive(Default)]
struct Pair {
    fd: i32,
    state: u8, // 0 not connected, 1 connected, 2 has answered
    retry: bool,
}

fn two(cx: &mut Cx) -> Result<(), String> {
    run_two(cx, false)
}
fn one_dies(cx: &mut Cx) -> Result<(), String> {
    run_two(cx, true)
}

fn sides_of(kind: usize, ya: bool, yb: bool) -> Vec<Side> {
    let a = side("A", "1000", "4242", 2000, false, ya);
    let b = match kind {
        0 => side("B", "1000", "424", 3000, false, yb),
        1 => side("B", "100", "4242", 30, true, yb),
        2 => side("B", "1000", "42421", 2000, false, yb),
        3 => side("B", "1001", "4242", 2000, false, yb),
        4 => side("B", "1000", "69778", 3000, false, yb),
        5 => side("B", "1000", "1", 30, true, yb),
        6 => side("B", "66536", "4242", 2000, false, yb),
        _ => side("B", "4242", "1000", 0, false, yb),
    };
    vec![a, b]
}

fn run_two(cx: &mut Cx, may_die: bool) -> Result<(), String> {
    crate::explore::pin();
    set_tpl(false, Some(b"u"));
    set_tpl(true, Some(b"for %u.%p: %U\n"));
    let kind = cx.input(if cx.thorough { 8 } else if may_die { 2 } else { 5 });
    let (ya, yb) = (if may_die && !cx.thorough { true } else { cx.flag() }, cx.flag());
    let stale = cx.thorough && cx.flag();
    let sides = sides_of(kind, ya, yb);
    if stale {
        for sd in &sides {
            let fd = unsafe { libc::socket(libc::AF_UNIX, libc::SOCK_STREAM, 0) };
            super::c04::bind_raw(fd, &sd.path);
            unsafe {
                libc::close(fd);
                let mut z = sd.path.clone();
                z.push(0);
                libc::chmod(z.as_ptr() as *const _, 0);
            }
        }
    }
    let mut kids = [Child::begin(0, kind), Child::begin(1, kind)];
    let mut pairs = [Pair { fd: -1, ..Default::default() }, Pair { fd: -1, ..Default::default() }];
    let mut died: Option<usize> = None;
    let mut cur = 0usize; // 0,1: children; 2,3: pairs
    let mut trace = vec![];
    let names = ["A", "B", "A's pair", "B's pair"];
    let res = loop {
        // what can happen next
        let mut en: Vec<usize> = vec![];
        let mut lost = None;
        for i in 0..2 {
            if matches!(kids[i].msg, Msg::Op(_)) {
                en.push(i);
            }
        }
        for i in 0..2 {
            let waits = kids[i].msg == Msg::Blocked(b'l');
            match pairs[i].state {
                0 if waits || kids[i].listening && !pairs[i].retry && !kids[i].over() => {
                    if lstat(&sides[i].path).is_some() {
                        en.push(2 + i);
                    } else if waits {
                        lost = Some(i);
                    }
                }
                1 => en.push(2 + i),
                _ => (),
            }
        }
        if let Some(i) = lost {
            break Err(format!("{}'s socket is gone while {} waits for its pair", names[i], names[i]));
        }
        // the killing of one, while it is alive, is a further alternative
        let killable = may_die && died.is_none() && !kids[0].over();
        if en.is_empty() {
            if kids.iter().all(|k| k.over()) {
                break Ok(());
            }
            let st: Vec<_> = kids.iter().map(|k| format!("{:?}", k.msg)).collect();
            break Err(format!("nothing more can happen: {}", st.join(", ")));
        }
        let pos = en.iter().position(|x| *x == cur);
        let next = match pos {
            Some(k) => {
                en.swap(0, k);
                let n = en.len() + killable as usize;
                let c = w().ch.dev(n);
                if c == en.len() { 9 } else { en[c] }
            }
            None => {
                if killable && w().ch.dev(2) == 1 {
                    9
                } else {
                    en[cx.input(en.len())]
                }
            }
        };
        if next == 9 {
            trace.push("A is killed".to_string());
            w().leave(&Op::new("killed", Cls::None), 0, 0, false);
            kids[0].kill();
            died = Some(0);
            cur = 1;
            continue;
        }
        cur = next;
        let what = match next {
            0 | 1 => format!("{} {:?}", names[next], kids[next].msg),
            _ => format!("{} {}", names[next], ["connects", "answers"][pairs[next - 2].state as usize]),
        };
        w().note(what.as_bytes());
        w().leave(&Op::new(["A step", "B step", "A's pair acts", "B's pair acts"][next], Cls::None), 0, 0, false);
        w().steps += 1;
        w().total_steps += 1;
        trace.push(what);
        if next < 2 {
            kids[next].go();
        } else {
            let i = next - 2;
            if pairs[i].state == 0 {
                let fd = connect_unix(&sides[i].path);
                if fd < 0 {
                    if kids[i].msg == Msg::Blocked(b'l') {
                        break Err(format!("{} cannot connect while {} waits: errno {}", names[next], names[i], errno()));
                    }
                    pairs[i].retry = true;
                } else {
                    pairs[i].fd = fd;
                    pairs[i].state = 1;
                }
            } else {
                let c = if sides[i].yes { b"y" } else { b"n" };
                unsafe { libc::send(pairs[i].fd, c.as_ptr() as *const _, 1, libc::MSG_NOSIGNAL) };
                pairs[i].state = 2;
            }
            // whoever waits looks again
            for k in kids.iter_mut() {
                if matches!(k.msg, Msg::Blocked(_)) {
                    k.go();
                }
            }
        }
        // nobody's socket is ever wider than its own session needs
        let mut bad = Ok(());
        for i in 0..2 {
            bad = bad.and_then(|_| protected(&sides[i].path, sides[i].uid, sides[i].gid));
        }
        for n in list_dir(&w().dir.clone()) {
            let mut p = w().dir.clone();
            p.push(b'/');
            p.extend(n);
            if bad.is_ok() && !sides.iter().any(|x| x.path == p) {
                bad = Err(format!("{} appeared", s(&p)));
            }
        }
        if bad.is_err() {
            break bad;
        }
    };
    cx.describe(|| format!("kind {} answers {} {} stale {}: {}", kind, ya, yb, stale, trace.join("; ")));
    let mut got = [vec![], vec![]];
    for i in 0..2 {
        if pairs[i].fd >= 0 {
            let mut buf = [0u8; 4096];
            loop {
                let r = unsafe { libc::recv(pairs[i].fd, buf.as_mut_ptr() as *mut _, buf.len(), libc::MSG_DONTWAIT) };
                if r <= 0 {
                    break;
                }
                got[i].extend_from_slice(&buf[..r as usize]);
            }
            unsafe { libc::close(pairs[i].fd) };
        }
    }
    res?;
    match died {
        None => cx.outcome(["no/no", "no/yes", "yes/no", "yes/yes"][ya as usize * 2 + yb as usize]),
        Some(_) => cx.outcome(if yb { "survivor approved" } else { "survivor refused" }),
    }
    for i in 0..2 {
        if died == Some(i) {
            continue;
        }
        let sd = &sides[i];
        match &kids[i].msg {
            Msg::Done(r, note) => {
                check(note.is_empty(), || format!("{}: {}", sd.tag, note))?;
                check((*r == 1) == sd.yes, || format!("{}'s pair said {} but its result is {}", sd.tag, if sd.yes { "yes" } else { "no" }, r))?;
                let mut want = format!("for {}: {}\n", String::from_utf8_lossy(sd.path.rsplit(|c| *c == b'/').next().unwrap()).trim_end_matches(".sock"), sd.tag).into_bytes();
                want.extend_from_slice(if sd.yes { b"y\n" } else { b"n\n" });
                if sd.yes {
                    want.extend(format!("output of {}\x1b[8;24;80t", sd.tag).bytes());
                }
                check(got[i] == want, || format!("{}'s pair was sent {:?}, not {:?}", sd.tag, s(&got[i]), s(&want)))?;
                check(lstat(&sd.path).is_none(), || format!("{} is left", s(&sd.path)))?;
            }
            m => return Err(format!("{} ended as {:?}", sd.tag, m)),
        }
    }
    let [a, b] = kids;
    a.give_back(0);
    b.give_back(1);
    Ok(())
}

// ------------------------------------------------------------------ C24

struct Death {
    at: u64,
    seen: u64,
}
static mut DEATH: Death = Death { at: 0, seen: 0 };

fn die_at(_: &mut World, op: &Op) {
    if matches!(op.cls, Cls::UserTpl | Cls::PairTpl) && op.name != "open" {
        return;
    }
    unsafe {
        if DEATH.seen == DEATH.at {
            libc::kill(libc::getpid(), libc::SIGKILL);
            loop {
                libc::pause();
            }
        }
        DEATH.seen += 1;
    }
}

/// What the first session would have been.
fn first(k: usize) {
    match k {
        0 => answer(b"y"),
        1 => answer(b"n"),
        2 => w().plan.conns.push_back(Conn { cred: Cred::root(), early: vec![Act::Send(b"y".to_vec())], on_wait: vec![] }),
        3 => {
            // two pairs came at once
            w().plan.together = true;
            answer(b"y");
            answer(b"y");
        }
        _ => w().plan.pre.push_back(Act::Sigint),
    }
}

fn die(cx: &mut Cx, si: &SessIn, k: usize, at: usize, fault: Option<(usize, usize)>) -> Result<bool, String> {
    let _ = cx;
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            crate::explore::detach();
            first(k);
            DEATH = Death { at: at as u64, seen: 0 };
            if let Some((j, f)) = fault {
                let mut p = vec![0u32; j];
                p.push(f as u32);
                w().ch = Default::default();
                w().ch.prefix = p;
                w().menu = Some(menu_protocol);
            }
            w().hook = Some(die_at);
            let r = open(si);
            if r == 1 {
                log(Stream::TtyOut, b"early output");
                log(Stream::Stdout, b"more");
                winsize(1, 2);
                close();
            }
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && errno() == libc::EINTR {}
        Ok(libc::WIFSIGNALED(st))
    }
}

static mut GUARD: (Vec<u8>, Option<u32>, Option<u32>, Option<String>) = (vec![], None, None, None);

#[allow(static_mut_refs)]
fn guard(_: &mut World, op: &Op) {
    unsafe {
        if GUARD.3.is_none() {
            if let Err(e) = protected(&GUARD.0, GUARD.1, GUARD.2) {
                GUARD.3 = Some(format!("before {}: {}", op.name, e));
            }
        }
    }
}

fn setting(by_group: bool) -> (SessIn, Option<u32>, Option<u32>) {
    let mut si = SessIn::usual();
    si.options.set("gids_enforced", "0,30,2000");
    if by_group {
        si.command_info.set("runas_uid", "1000").set("runas_gid", "30");
        si.settings.set("runas_group", "grp");
        (si, None, Some(30))
    } else {
        si.command_info.set("runas_uid", "2000").set("runas_gid", "2000");
        (si, Some(2000), None)
    }
}

#[allow(static_mut_refs)]
fn killed_then(cx: &mut Cx, g1: bool, g2: bool, k: usize, at: usize, fault: Option<(usize, usize)>, second: usize) -> Result<(), String> {
    set_tpl(false, Some(b"u"));
    set_tpl(true, Some(b"prompt %u.%p\n"));
    let (si, u1, gr1) = setting(g1);
    let path = si.sock_path("1000", "4242");
    cx.describe(|| format!("by group {} then {}, first {}, killed before call {}, fault {:?}, then {}", g1, g2, k, at, fault, second));
    if !die(cx, &si, k, at, fault)? {
        cx.outcome("ended before it was killed");
        return Ok(());
    }
    // what it left
    let left = list_dir(&w().dir.clone());
    for n in &left {
        let mut p = w().dir.clone();
        p.push(b'/');
        p.extend(n);
        check(p == path, || format!("{} was left behind", s(&p)))?;
    }
    protected(&path, u1, gr1)?;
    // another session under its name
    let (si, u2, gr2) = setting(g2);
    unsafe { GUARD = (path.clone(), None, None, None) };
    // until the second session replaces the leftover it may have the access
    // that either had
    unsafe {
        GUARD.1 = u2;
        GUARD.2 = gr2;
        if (u1, gr1) != (u2, gr2) {
            // watched only once the leftover is gone
            w().hook = Some(|wd, op| {
                if !wd.bound.is_empty() {
                    guard(wd, op)
                }
            });
        } else {
            w().hook = Some(guard);
        }
    }
    match second {
        0 => answer(b"y"),
        1 => answer(b"n"),
        2 => w().plan.pre.push_back(Act::Sigint),
        _ => {
            // a stranger tries first
            w().plan.conns.push_back(Conn { cred: Cred::new(4000, 4000), early: vec![Act::Send(b"y".to_vec())], on_wait: vec![] });
            answer(b"n");
        }
    }
    if cx.thorough {
        w().menu = Some(menu_protocol);
    }
    let r = open(&si);
    w().menu = None;
    w().hook = None;
    if let Some(e) = unsafe { &GUARD.3 } {
        return Err(e.clone());
    }
    let faultless = w().faults_taken.is_empty();
    cx.outcome(if proceeds(r) { "approved after a death" } else { "refused after a death" });
    check(!proceeds(r) || second == 0, || format!("let through without a yes: open returned {}", r))?;
    if faultless {
        hung()?;
        check(second != 0 || r == 1, || format!("its own pair said yes but open returned {}", r))?;
        check(list_dir(&w().dir.clone()).is_empty(), || "a socket is left".into())?;
    }
    if r == 1 {
        let mut want = b"prompt 1000.4242\n".to_vec();
        want.extend_from_slice(b"y\n");
        if faultless {
            check(to_peer(0) == want, || format!("the pair was shown {:?}", s(&to_peer(0))))?;
        }
        check(log(Stream::TtyOut, b"later") == 1, || "output refused".into())?;
        want.extend_from_slice(b"later");
        if faultless {
            check(to_peer(0) == want, || format!("the pair saw {:?}", s(&to_peer(0))))?;
        }
        close();
    }
    Ok(())
}

const CALLS: usize = 70;

fn killed(cx: &mut Cx) -> Result<(), String> {
    let (g1, g2) = *cx.pick(&[(false, false), (true, true), (false, true), (true, false)]);
    let k = cx.input(5);
    let at = cx.input(CALLS);
    let second = cx.input(4);
    killed_then(cx, g1, g2, k, at, None, second)
}

fn faulty(cx: &mut Cx) -> Result<(), String> {
    let g = if cx.thorough { cx.flag() } else { false };
    let k = if cx.thorough { cx.input(5) } else { 0 };
    let at = cx.input(CALLS);
    let j = cx.input(40);
    let f = cx.input(3) + 1;
    let second = cx.input(if cx.thorough { 4 } else { 2 });
    let th = cx.thorough;
    cx.thorough = false;
    let r = killed_then(cx, g, g, k, at, Some((j, f)), second);
    cx.thorough = th;
    r
}
