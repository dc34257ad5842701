//! The environment the plugin runs in: what the wrappers see and decide.

use crate::explore::Chooser;
use libc::{c_int, c_void};
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Cls {
    Listener,
    Session,
    Syslog,
    Sock,     // a path below the socket directory, or an unbound socket
    Dir,      // the socket directory itself
    UserTpl,
    PairTpl,
    Tty,
    DevLog,
    Stderr,
    Sig,
    None,
    Other,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub name: &'static str,
    pub cls: Cls,
    pub fd: i32,
    pub path: Option<Vec<u8>>,
    pub arg: u64,
    pub len: usize,
}

impl Op {
    pub fn new(name: &'static str, cls: Cls) -> Op {
        Op { name, cls, fd: -1, path: None, arg: 0, len: 0 }
    }
    pub fn fd(mut self, fd: i32) -> Op {
        self.fd = fd;
        self
    }
    pub fn arg(mut self, a: u64) -> Op {
        self.arg = a;
        self
    }
    pub fn len(mut self, a: usize) -> Op {
        self.len = a;
        self
    }
    pub fn path(mut self, p: &[u8]) -> Op {
        self.path = Some(p.to_vec());
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    Err(i32),
    Short(usize),
    Zero,
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub op: Op,
    pub ret: i64,
    pub err: i32,
    pub inj: bool,
    pub n: usize, // coalesced repetitions
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Send(Vec<u8>),
    ShutWr,
    Close,
    Sigint,
    Silent,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Cred {
    pub uid: u32,
    pub gid: u32,
    pub groups: Vec<u32>,
}

impl Cred {
    pub fn root() -> Cred {
        Cred { uid: 0, gid: 0, groups: vec![] }
    }
    pub fn new(uid: u32, gid: u32) -> Cred {
        Cred { uid, gid, groups: vec![] }
    }
}

#[derive(Clone, Debug)]
pub struct Conn {
    pub cred: Cred,
    pub early: Vec<Act>,
    pub on_wait: Vec<Act>,
}

impl Conn {
    pub fn says(b: &[u8]) -> Conn {
        Conn { cred: Cred::root(), early: vec![], on_wait: vec![Act::Send(b.to_vec())] }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// done while the plugin waits for a connection, before any connects
    pub pre: VecDeque<Act>,
    pub conns: VecDeque<Conn>,
    /// connect them all, in order, at the first wait
    pub together: bool,
}

#[derive(Debug)]
pub struct Peer {
    pub fd: i32,
    pub acts: VecDeque<Act>,
    pub recvd: Vec<u8>,
    pub eof: bool,
    /// how many bytes it had received when it first did something
    pub seen_at_act: Option<usize>,
    pub accepted: Option<i32>,
    pub listener: Vec<u8>,
    pub sent: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wait {
    Ready,
    Eintr,
    Timeout,
    Hang,
}

#[derive(Clone, Debug)]
pub struct FdInfo {
    pub cls: Cls,
    pub path: Vec<u8>,
    pub rcvtimeo: bool,
    pub sndtimeo: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Blocked {
    Listener,
    Session,
    Write,
    Other,
}

pub type Hook = fn(&mut World, &Op);
pub type Menu = fn(&World, &Op, &mut Vec<Fault>);
pub type BlockHook = fn(&mut World, Blocked, i32) -> Wait;

#[derive(Clone, Debug)]
pub struct Printed {
    pub ty: i32,
    pub text: Vec<u8>,
    pub fmt: Vec<u8>,
    pub bad: bool,
}

pub struct World {
    pub active: bool,
    pub ch: Chooser,
    pub evs: Vec<Ev>,
    pub steps: u64,
    pub total_steps: u64,
    pub hash: u64,
    pub states: std::collections::HashSet<u64>,

    pub scratch: String,
    pub work: String,
    pub dir: Vec<u8>,
    pub user_tpl: Vec<u8>,
    pub pair_tpl: Vec<u8>,
    pub tty: Vec<u8>,
    pub remap: Vec<(Vec<u8>, Vec<u8>)>,

    pub fds: HashMap<i32, FdInfo>,
    pub baseline_fds: Vec<i32>,
    pub plan: Plan,
    pub peers: Vec<Peer>,
    pub to_accept: Vec<(Vec<u8>, usize)>, // listener path, peer
    pub hang: Option<String>,
    pub hangs: u32,
    pub sigints: u32,
    /// SIGINT's disposition whenever one came
    pub sig_during: Vec<(usize, c_int, u64)>,
    pub escapes: Vec<String>,
    pub syslog_ok: bool,
    pub syslog_fd: i32,
    pub euid: Option<u32>,
    pub egid: Option<u32>,

    pub printed: Vec<Printed>,
    pub printf_fail_at: Vec<usize>, // which calls of printf fail
    pub printf_calls: usize,
    pub printf_short: bool,
    pub printf_menu: bool,
    pub tty_bytes: Vec<u8>,
    pub stderr_bytes: Vec<u8>,
    pub bound: Vec<Vec<u8>>,
    pub accepted: Vec<i32>,
    pub waited: u32,

    pub hook: Option<Hook>,
    pub menu: Option<Menu>,
    /// every failure is this one
    pub errno: i32,
    pub block_hook: Option<BlockHook>,
    /// the peer outlasts every timeout before he reads
    pub slow: bool,
    /// what happens, one after the other, each time a write to the peer waits
    pub full: VecDeque<Act>,
    pub faults_taken: Vec<(Op, Fault)>,
    pub tpl_fault_limit: usize,
    pub tpl_reads: usize,
}

static mut WORLD: *mut World = std::ptr::null_mut();

pub fn w() -> &'static mut World {
    unsafe { &mut *WORLD }
}

pub fn init_world(scratch: String) {
    let wd = World {
        active: false,
        ch: Chooser::default(),
        evs: vec![],
        steps: 0,
        total_steps: 0,
        hash: 0,
        states: Default::default(),
        scratch,
        work: String::new(),
        dir: vec![],
        user_tpl: vec![],
        pair_tpl: vec![],
        tty: vec![],
        remap: vec![],
        fds: HashMap::new(),
        baseline_fds: vec![],
        plan: Plan::default(),
        peers: vec![],
        to_accept: vec![],
        hang: None,
        hangs: 0,
        sigints: 0,
        sig_during: vec![],
        escapes: vec![],
        syslog_ok: false,
        syslog_fd: -1,
        euid: None,
        egid: None,
        printed: vec![],
        printf_fail_at: vec![],
        printf_calls: 0,
        printf_short: false,
        printf_menu: false,
        tty_bytes: vec![],
        stderr_bytes: vec![],
        bound: vec![],
        accepted: vec![],
        waited: 0,
        hook: None,
        menu: None,
        errno: 0,
        block_hook: None,
        slow: false,
        full: VecDeque::new(),
        faults_taken: vec![],
        tpl_fault_limit: 3,
        tpl_reads: 0,
    };
    unsafe { WORLD = Box::into_raw(Box::new(wd)) }
}

pub const EXIT_NONTERM: i32 = 78;
pub const EXIT_EXITED: i32 = 79;
pub const STEP_LIMIT: u64 = 400_000;

pub fn errno() -> i32 {
    unsafe { *libc::__errno_location() }
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
    z ^= z >> 29;
    z.wrapping_mul(0xBF58476D1CE4E5B9) ^ (z >> 32)
}

impl World {
    pub fn note(&mut self, b: &[u8]) {
        let mut h = self.hash;
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (8 * i);
            }
            h = mix(h, x ^ ((c.len() as u64) << 56));
        }
        self.hash = h;
    }

    pub fn state(&mut self) {
        if self.states.len() < 6_000_000 {
            self.states.insert(self.hash);
        }
    }

    pub fn enter(&mut self, op: &Op) -> Option<Fault> {
        self.steps += 1;
        self.total_steps += 1;
        if self.steps > STEP_LIMIT {
            unsafe { libc::_exit(EXIT_NONTERM) }
        }
        if let Some(h) = self.hook {
            h(self, op);
        }
        let mut f = None;
        if let Some(m) = self.menu {
            let mut v = vec![];
            m(self, op, &mut v);
            if !v.is_empty() && self.errno != 0 {
                v = vec![Fault::Err(self.errno)];
            }
            if !v.is_empty() {
                let k = self.ch.dev(v.len() + 1);
                if k > 0 {
                    self.faults_taken.push((op.clone(), v[k - 1]));
                    f = Some(v[k - 1]);
                }
            }
        }
        f
    }

    pub fn leave(&mut self, op: &Op, ret: i64, err: i32, inj: bool) {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&(op.name.as_ptr() as u64 ^ op.name.len() as u64).to_le_bytes());
        b[8] = op.cls as u8;
        b[9] = inj as u8;
        b[12..16].copy_from_slice(&err.to_le_bytes());
        b[16..24].copy_from_slice(&ret.to_le_bytes());
        b[24..32].copy_from_slice(&op.arg.to_le_bytes());
        // names are hashed by content so that the hash does not depend on
        // where the binary was loaded
        let mut nh = 0u64;
        for c in op.name.bytes() {
            nh = mix(nh, c as u64);
        }
        b[..8].copy_from_slice(&nh.to_le_bytes());
        self.note(&b);
        self.state();
        if let Some(l) = self.evs.last_mut() {
            if l.op.name == op.name
                && l.op.fd == op.fd
                && l.ret == ret
                && !inj
                && !l.inj
                && matches!(op.cls, Cls::UserTpl | Cls::PairTpl)
            {
                l.n += 1;
                return;
            }
        }
        if self.evs.len() < 5000 {
            self.evs.push(Ev { op: op.clone(), ret, err, inj, n: 1 });
        }
    }

    pub fn cls_of_path(&self, p: &[u8]) -> Cls {
        if p == &self.dir[..] {
            return Cls::Dir;
        }
        if p == &self.user_tpl[..] {
            return Cls::UserTpl;
        }
        if p == &self.pair_tpl[..] {
            return Cls::PairTpl;
        }
        if p == &self.tty[..] {
            return Cls::Tty;
        }
        if p == b"/dev/log" {
            return Cls::DevLog;
        }
        if !self.dir.is_empty() && p.starts_with(&self.dir) && p.get(self.dir.len()) == Some(&b'/') {
            return Cls::Sock;
        }
        Cls::Other
    }

    pub fn cls_of_fd(&self, fd: i32) -> Cls {
        match self.fds.get(&fd) {
            Some(i) => i.cls,
            None if fd == 2 => Cls::Stderr,
            None => Cls::Other,
        }
    }

    pub fn fd_open(&mut self, fd: i32, cls: Cls, path: &[u8]) {
        self.fds.insert(fd, FdInfo { cls, path: path.to_vec(), rcvtimeo: false, sndtimeo: false });
    }

    /// Redirects well-known absolute paths into the scratch directory.
    pub fn map_path(&self, p: &[u8]) -> Vec<u8> {
        for (a, b) in &self.remap {
            if p.starts_with(a) && (p.len() == a.len() || p[a.len()] == b'/') {
                let mut r = b.clone();
                r.extend_from_slice(&p[a.len()..]);
                return r;
            }
        }
        p.to_vec()
    }

    /// May a call that changes the filesystem touch this path?
    pub fn contained(&mut self, p: &[u8]) -> bool {
        let s = self.scratch.as_bytes();
        let ok = p.starts_with(s)
            && p.get(s.len()) == Some(&b'/')
            && !p.windows(4).any(|x| x == b"/../")
            && !p.ends_with(b"/..");
        if !ok {
            self.escapes.push(String::from_utf8_lossy(p).into_owned());
        }
        ok
    }

    pub fn do_hang(&mut self, what: &str) {
        if self.hang.is_none() {
            self.hang = Some(what.to_string());
        }
        self.hangs += 1;
        if self.hangs > 200 {
            unsafe { libc::_exit(EXIT_NONTERM) }
        }
    }

    /// Delivers a real SIGINT; says whether a blocking call would be
    /// interrupted by it.
    pub fn deliver_sigint(&mut self, restartable: bool) -> bool {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            libc::sigaction(libc::SIGINT, std::ptr::null(), &mut sa);
            let before = SIGINT_RAN;
            if sa.sa_sigaction == libc::SIG_DFL {
                // the process would die here
                self.do_hang("killed by SIGINT");
                return true;
            }
            self.sig_during.push(crate::sess::sigint_now());
            libc::raise(libc::SIGINT);
            self.sigints += 1;
            SIGINT_RAN != before && !(restartable && sa.sa_flags & libc::SA_RESTART != 0)
        }
    }

    pub fn connect_next(&mut self, path: &[u8]) -> bool {
        let c = match self.plan.conns.pop_front() {
            Some(c) => c,
            None => return false,
        };
        let fd = as_cred(&c.cred, || connect_unix(path));
        let err = errno();
        let op = Op::new("peer_connect", Cls::Sock).arg(c.cred.uid as u64);
        if fd < 0 {
            self.leave(&op, -1, err, false);
            return true;
        }
        self.leave(&op, 0, 0, false);
        let idx = self.peers.len();
        self.peers.push(Peer {
            fd,
            acts: c.on_wait.into(),
            recvd: vec![],
            eof: false,
            seen_at_act: None,
            accepted: None,
            listener: path.to_vec(),
            sent: vec![],
        });
        self.to_accept.push((path.to_vec(), idx));
        for a in c.early {
            self.peer_act(idx, a, true);
        }
        true
    }

    pub fn peer_act(&mut self, idx: usize, a: Act, restartable: bool) -> Wait {
        self.drain(idx);
        let p = &mut self.peers[idx];
        if p.seen_at_act.is_none() && a != Act::Sigint {
            p.seen_at_act = Some(p.recvd.len());
        }
        let op = Op::new(
            match a {
                Act::Send(_) => "peer_send",
                Act::ShutWr => "peer_shutwr",
                Act::Close => "peer_close",
                Act::Sigint => "sigint",
                Act::Silent => "peer_silent",
            },
            Cls::Session,
        );
        match a {
            Act::Send(b) => {
                unsafe {
                    libc::send(p.fd, b.as_ptr() as *const c_void, b.len(), libc::MSG_NOSIGNAL | libc::MSG_DONTWAIT);
                }
                p.sent.extend_from_slice(&b);
                self.note(&b);
                self.leave(&op, b.len() as i64, 0, false);
                Wait::Ready
            }
            Act::ShutWr => {
                unsafe { libc::shutdown(p.fd, libc::SHUT_WR) };
                self.leave(&op, 0, 0, false);
                Wait::Ready
            }
            Act::Close => {
                if p.fd >= 0 {
                    unsafe { libc::close(p.fd) };
                }
                p.fd = -1;
                self.leave(&op, 0, 0, false);
                Wait::Ready
            }
            Act::Sigint => {
                let r = self.deliver_sigint(restartable);
                self.leave(&op, r as i64, 0, false);
                if r { Wait::Eintr } else { Wait::Hang }
            }
            Act::Silent => Wait::Hang,
        }
    }

    pub fn drain(&mut self, idx: usize) -> usize {
        let p = &mut self.peers[idx];
        let mut got = 0;
        if p.fd < 0 {
            return 0;
        }
        let mut buf = [0u8; 65536];
        loop {
            let r = unsafe { libc::recv(p.fd, buf.as_mut_ptr() as *mut c_void, buf.len(), libc::MSG_DONTWAIT) };
            if r > 0 {
                p.recvd.extend_from_slice(&buf[..r as usize]);
                got += r as usize;
            } else {
                // a connection closed with unread input says so once first
                if r == 0 || errno() == libc::ECONNRESET {
                    p.eof = true;
                }
                return got;
            }
        }
    }

    pub fn drain_all(&mut self) {
        for i in 0..self.peers.len() {
            self.drain(i);
        }
    }

    /// The plugin waits for a connection on `fd` and none is pending.
    pub fn wait_listener(&mut self, fd: i32, restartable: bool) -> Wait {
        self.waited += 1;
        if let Some(h) = self.block_hook {
            return h(self, Blocked::Listener, fd);
        }
        if self.hang.is_some() {
            self.do_hang("again");
            return Wait::Hang;
        }
        while let Some(a) = self.plan.pre.pop_front() {
            if a == Act::Sigint {
                let r = self.deliver_sigint(restartable);
                self.leave(&Op::new("sigint", Cls::Listener), r as i64, 0, false);
                if r {
                    return Wait::Eintr;
                }
            } else if a == Act::Silent {
                return Wait::Hang;
            }
        }
        let path = match self.fds.get(&fd) {
            Some(i) => i.path.clone(),
            None => return Wait::Hang,
        };
        let n = self.to_accept.len();
        while self.connect_next(&path) {
            if self.to_accept.len() > n && !self.plan.together {
                break;
            }
        }
        if self.to_accept.len() > n { Wait::Ready } else { Wait::Hang }
    }

    /// The plugin waits for data on the session connection.
    pub fn wait_session(&mut self, fd: i32, restartable: bool) -> Wait {
        self.waited += 1;
        if let Some(h) = self.block_hook {
            return h(self, Blocked::Session, fd);
        }
        if self.hang.is_some() {
            self.do_hang("again");
            return Wait::Hang;
        }
        let idx = match self.peers.iter().rposition(|p| p.accepted == Some(fd)) {
            Some(i) => i,
            None => return Wait::Hang,
        };
        loop {
            match self.peers[idx].acts.pop_front() {
                None => {
                    self.drain(idx);
                    return Wait::Hang;
                }
                Some(Act::Sigint) => {
                    if self.peer_act(idx, Act::Sigint, restartable) == Wait::Eintr {
                        return Wait::Eintr;
                    }
                }
                Some(a) => return self.peer_act(idx, a, restartable),
            }
        }
    }
}

pub static mut SIGINT_RAN: u32 = 0;

pub extern "C" fn on_sigint(_: c_int) {
    unsafe { SIGINT_RAN += 1 }
}

pub fn connect_unix(path: &[u8]) -> i32 {
    unsafe {
        let fd = libc::socket(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        if fd < 0 {
            return -1;
        }
        // keep harness descriptors away from the plugin's
        let hi = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 200);
        libc::close(fd);
        let mut a: libc::sockaddr_un = std::mem::zeroed();
        a.sun_family = libc::AF_UNIX as u16;
        for (i, b) in path.iter().take(107).enumerate() {
            a.sun_path[i] = *b as i8;
        }
        // never block here: the plugin shares our only thread
        libc::fcntl(hi, libc::F_SETFL, libc::O_NONBLOCK);
        let r = libc::connect(hi, &a as *const _ as *const libc::sockaddr, 3 + path.len().min(107) as u32);
        if r < 0 {
            let e = errno();
            libc::close(hi);
            set_errno(e);
            return -1;
        }
        hi
    }
}

/// Runs `f` with the effective credentials of `c` (raw system calls: this
/// process has one thread).
pub fn as_cred<T>(c: &Cred, f: impl FnOnce() -> T) -> T {
    if c.uid == 0 && c.gid == 0 && c.groups.is_empty() {
        return f();
    }
    unsafe {
        let mut old = [0 as libc::gid_t; 64];
        let n = libc::syscall(libc::SYS_getgroups, 64usize, old.as_mut_ptr());
        if libc::syscall(libc::SYS_setgroups, c.groups.len(), c.groups.as_ptr()) != 0
            || libc::syscall(libc::SYS_setresgid, -1i32, c.gid, -1i32) != 0
            || libc::syscall(libc::SYS_setresuid, -1i32, c.uid, -1i32) != 0
        {
            eprintln!("mc: cannot switch credentials");
            libc::_exit(2);
        }
        let r = f();
        let e = errno();
        libc::syscall(libc::SYS_setresuid, -1i32, 0, -1i32);
        libc::syscall(libc::SYS_setresgid, -1i32, 0, -1i32);
        libc::syscall(libc::SYS_setgroups, n as usize, old.as_ptr());
        set_errno(e);
        r
    }
}

pub fn show_events(evs: &[Ev]) -> Vec<String> {
    evs.iter()
        .map(|e| {
            let mut s = format!("{}({:?}", e.op.name, e.op.cls);
            if e.op.fd >= 0 {
                s += &format!(" fd{}", e.op.fd);
            }
            if let Some(p) = &e.op.path {
                s += &format!(" {}", String::from_utf8_lossy(p));
            }
            if e.op.arg != 0 {
                s += &format!(" arg={:#o}", e.op.arg);
            }
            if e.op.len != 0 {
                s += &format!(" len={}", e.op.len);
            }
            s += &format!(") = {}", e.ret);
            if e.ret < 0 {
                s += &format!(" errno={}", e.err);
            }
            if e.inj {
                s += " [injected]";
            }
            if e.n > 1 {
                s += &format!(" x{}", e.n);
            }
            s
        })
        .collect()
}
