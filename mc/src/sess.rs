//! Driving a plugin the way sudo does.

use crate::abi::*;
use crate::got::Lib;
use crate::world::*;
use crate::wraps;
use libc::{c_char, c_int, c_void};
use std::ffi::CString;

pub static mut PAIR: Option<Lib> = None;
pub static mut PROBE: Option<Lib> = None;
pub static mut DENY: Option<Lib> = None;
pub static mut SYMS: Syms = Syms { pair: std::ptr::null_mut() };

pub struct Syms {
    pub pair: *mut IoPlugin,
}

#[allow(static_mut_refs)]
pub fn load(pair: &str, probe: &str, deny: &str) -> Result<(), String> {
    unsafe {
        if !pair.is_empty() {
            PAIR = Some(Lib::load(pair, &wraps::wrapper)?);
            SYMS.pair = PAIR.as_ref().unwrap().sym("sudo_pair").ok_or("no symbol sudo_pair")? as *mut IoPlugin;
        }
        if !probe.is_empty() {
            PROBE = Some(Lib::load(probe, &wraps::wrapper)?);
        }
        if !deny.is_empty() {
            DENY = Some(Lib::load(deny, &wraps::wrapper)?);
        }
    }
    Ok(())
}

#[allow(static_mut_refs)]
pub fn reset_libs() {
    unsafe {
        for l in [&PAIR, &PROBE, &DENY] {
            if let Some(l) = l {
                l.reset();
            }
        }
    }
}

#[allow(static_mut_refs)]
pub fn probe_sym(n: &str) -> *mut c_void {
    unsafe { PROBE.as_ref().and_then(|l| l.sym(n)).unwrap_or_else(|| panic!("probe symbol {}", n)) }
}

#[allow(static_mut_refs)]
pub fn deny_sym(n: &str) -> *mut c_void {
    unsafe { DENY.as_ref().and_then(|l| l.sym(n)).unwrap_or_else(|| panic!("deny symbol {}", n)) }
}

pub fn enter_worker(k: usize) {
    let wd = w();
    wd.scratch = format!("{}/w{}", wd.scratch, k);
    let s = wd.scratch.clone();
    let _ = std::fs::remove_dir_all(&s);
    std::fs::create_dir_all(format!("{}/run", s)).unwrap();
    unsafe {
        libc::syscall(libc::SYS_close_range, 3u32, u32::MAX, 0u32);
    }
    std::env::set_current_dir(&s).unwrap();
    wd.dir = format!("{}/run", s).into_bytes();
    wd.user_tpl = format!("{}/u.tpl", s).into_bytes();
    wd.pair_tpl = format!("{}/p.tpl", s).into_bytes();
    wd.tty = format!("{}/tty", s).into_bytes();
    wd.states.clear();
    set_tpl(false, None);
    set_tpl(true, None);
}

pub fn leave_worker() {
    let s = w().scratch.clone();
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&s);
}

static mut TPL_CACHE: [Option<Option<Vec<u8>>>; 2] = [None, None];
static mut DIR_DIRTY: bool = true;

/// The content of the user's or the pair's template; None: no such file.
#[allow(static_mut_refs)]
pub fn set_tpl(pair: bool, content: Option<&[u8]>) {
    let p = if pair { w().pair_tpl.clone() } else { w().user_tpl.clone() };
    let p = String::from_utf8(p).unwrap();
    let new = content.map(|c| c.to_vec());
    unsafe {
        if TPL_CACHE[pair as usize].as_ref() == Some(&new) {
            return;
        }
        let _ = std::fs::remove_file(&p);
        let _ = std::fs::remove_dir(&p);
        if let Some(c) = content {
            std::fs::write(&p, c).unwrap();
        }
        TPL_CACHE[pair as usize] = Some(new);
    }
}

#[allow(static_mut_refs)]
pub fn tpl_dirty() {
    unsafe { TPL_CACHE = [None, None] }
}

pub fn dir_dirty() {
    unsafe { DIR_DIRTY = true }
}

fn zs(p: &[u8]) -> Vec<u8> {
    let mut v = p.to_vec();
    v.push(0);
    v
}

/// Names present in the socket directory.
pub fn list_dir(p: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    unsafe {
        let d = libc::opendir(zs(p).as_ptr() as *const c_char);
        if d.is_null() {
            return out;
        }
        loop {
            let e = libc::readdir(d);
            if e.is_null() {
                break;
            }
            let n = std::ffi::CStr::from_ptr((*e).d_name.as_ptr()).to_bytes().to_vec();
            if n != b"." && n != b".." {
                out.push(n);
            }
        }
        libc::closedir(d);
    }
    out.sort();
    out
}

pub fn sigint_handler(flags: c_int, block: &[c_int]) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sigint as *const () as usize;
        sa.sa_flags = flags;
        for s in block {
            libc::sigaddset(&mut sa.sa_mask, *s);
        }
        libc::sigaction(libc::SIGINT, &sa, std::ptr::null_mut());
    }
}

pub fn sigint_simple(h: usize) {
    sigint_plain(h, 0, &[])
}

pub fn sigint_plain(h: usize, flags: c_int, block: &[c_int]) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = h;
        sa.sa_flags = flags;
        for s in block {
            libc::sigaddset(&mut sa.sa_mask, *s);
        }
        libc::sigaction(libc::SIGINT, &sa, std::ptr::null_mut());
    }
}

/// (handler, flags without the kernel's SA_RESTORER, mask bits)
pub fn sigint_now() -> (usize, c_int, u64) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        libc::sigaction(libc::SIGINT, std::ptr::null(), &mut sa);
        let mut m = 0u64;
        for s in 1..64 {
            if libc::sigismember(&sa.sa_mask, s) == 1 {
                m |= 1 << s;
            }
        }
        (sa.sa_sigaction, sa.sa_flags & !0x04000000, m)
    }
}

pub fn umask_now() -> u32 {
    unsafe {
        let u = libc::umask(0);
        libc::umask(u);
        u
    }
}

pub fn open_fds() -> Vec<i32> {
    (3..100).filter(|f| unsafe { libc::fcntl(*f, libc::F_GETFD) } >= 0).collect()
}

pub fn reset_world() {
    let wd = w();
    wd.active = false;
    wd.evs.clear();
    wd.steps = 0;
    wd.hash = 0;
    wd.remap.clear();
    wd.fds.clear();
    wd.plan = Plan::default();
    wd.peers.clear();
    wd.to_accept.clear();
    wd.hang = None;
    wd.hangs = 0;
    wd.sigints = 0;
    wd.sig_during.clear();
    wd.escapes.clear();
    wd.syslog_ok = false;
    wd.syslog_fd = -1;
    wd.euid = None;
    wd.egid = None;
    wd.printed.clear();
    wd.printf_fail_at.clear();
    wd.printf_calls = 0;
    wd.printf_menu = false;
    wd.printf_short = false;
    wd.tty_bytes.clear();
    wd.stderr_bytes.clear();
    wd.bound.clear();
    wd.accepted.clear();
    wd.waited = 0;
    wd.hook = None;
    wd.menu = None;
    wd.errno = 0;
    wd.block_hook = None;
    wd.slow = false;
    wd.full.clear();
    wd.faults_taken.clear();
    wd.tpl_fault_limit = 3;
    wd.tpl_reads = 0;
    let s = wd.scratch.clone();
    wd.dir = format!("{}/run", s).into_bytes();
    wd.user_tpl = format!("{}/u.tpl", s).into_bytes();
    wd.pair_tpl = format!("{}/p.tpl", s).into_bytes();
    wd.tty = format!("{}/tty", s).into_bytes();
    unsafe {
        libc::umask(0o022);
        #[allow(static_mut_refs)]
        if DIR_DIRTY {
            let _ = std::fs::remove_dir_all(format!("{}/run", s));
            let _ = std::fs::remove_file(format!("{}/run", s));
            let _ = std::fs::remove_dir_all(format!("{}/alt", s));
            std::fs::create_dir(format!("{}/run", s)).unwrap();
            DIR_DIRTY = false;
        }
        let mut z = s.clone().into_bytes();
        z.push(0);
        libc::chdir(z.as_ptr() as *const c_char);
        sigint_handler(0, &[]);
        for g in [libc::SIGPIPE, libc::SIGTERM, libc::SIGHUP, libc::SIGQUIT, libc::SIGTSTP, libc::SIGWINCH, libc::SIGCHLD] {
            libc::signal(g, libc::SIG_DFL);
        }
        let mut m: libc::sigset_t = std::mem::zeroed();
        for g in [libc::SIGINT, libc::SIGTERM, libc::SIGHUP, libc::SIGALRM, libc::SIGTSTP] {
            libc::sigaddset(&mut m, g);
        }
        libc::sigprocmask(libc::SIG_UNBLOCK, &m, std::ptr::null_mut());
        // (whatever ids an earlier session may have taken)
        libc::setresgid(0, 0, 0);
        libc::setresuid(0, 0, 0);
        libc::setfsgid(0);
        libc::setfsuid(0);
    }
}

/// The part of `reset_world` that concerns this process and not the
/// directory it shares.
pub fn reset_child() {
    unsafe { DIR_DIRTY = false }
    reset_world();
}

/// The part of `finish_world` that concerns this process.
pub fn finish_child() {
    let wd = w();
    wd.active = false;
    wd.hook = None;
    wd.block_hook = None;
    wd.slow = false;
    wd.full.clear();
    unsafe { LIVE = false }
    reset_libs();
    unsafe {
        libc::syscall(libc::SYS_close_range, 3u32, 899u32, 0u32);
        KEEP = vec![];
    }
}

pub fn finish_world() {
    let wd = w();
    wd.active = false;
    wd.hook = None;
    wd.menu = None;
    wd.block_hook = None;
    wd.slow = false;
    wd.full.clear();
    wd.printf_menu = false;
    wd.printf_short = false;
    unsafe {
        if !SYMS.pair.is_null() && LIVE {
            LIVE = false;
            if let Some(c) = (*SYMS.pair).close {
                wd.active = true;
                c(0, 0);
                wd.active = false;
            }
        }
    }
    reset_libs();
    unsafe {
        // (the pipes of pooled children lie above)
        libc::syscall(libc::SYS_close_range, 3u32, 899u32, 0u32);
        KEEP = vec![];
        if !DIR_DIRTY {
            let d = wd.dir.clone();
            for n in list_dir(&d) {
                let mut p = d.clone();
                p.push(b'/');
                p.extend(n);
                if libc::unlink(zs(&p).as_ptr() as *const c_char) != 0 {
                    DIR_DIRTY = true;
                }
            }
        }
    }
}

// ------------------------------------------------------------ arguments

#[derive(Clone, Debug, Default)]
pub struct Kv(pub Vec<Vec<u8>>);

impl Kv {
    pub fn set(&mut self, k: &str, v: impl AsRef<[u8]>) -> &mut Self {
        self.del(k);
        let mut e = k.as_bytes().to_vec();
        e.push(b'=');
        e.extend_from_slice(v.as_ref());
        self.0.push(e);
        self
    }
    pub fn del(&mut self, k: &str) -> &mut Self {
        let mut p = k.as_bytes().to_vec();
        p.push(b'=');
        self.0.retain(|e| !e.starts_with(&p) && e != k.as_bytes());
        self
    }
}

#[derive(Clone, Debug)]
pub struct SessIn {
    pub version: u32,
    pub settings: Kv,
    pub user_info: Kv,
    pub command_info: Kv,
    pub env: Kv,
    pub options: Kv,
    pub argv: Vec<Vec<u8>>,
    pub printf: bool,
    pub null_env: bool,
    pub null_options: bool,
}

impl SessIn {
    /// uid 1000 runs `/bin/cat /etc/motd` as root; everything but the
    /// options at its usual value.
    pub fn usual() -> SessIn {
        let wd = w();
        let mut s = SessIn {
            version: mkversion(1, 17),
            settings: Kv::default(),
            user_info: Kv::default(),
            command_info: Kv::default(),
            env: Kv::default(),
            options: Kv::default(),
            argv: vec![b"cat".to_vec(), b"/etc/motd".to_vec()],
            printf: true,
            null_env: false,
            null_options: false,
        };
        s.settings.set("plugin_dir", "/usr/libexec/sudo").set("plugin_path", "/usr/libexec/sudo/sudo_pair.so").set("progname", "sudo");
        s.user_info
            .set("cwd", "/home/user")
            .set("egid", "1000")
            .set("euid", "0")
            .set("gid", "1000")
            .set("groups", "1000,20")
            .set("host", "host")
            .set("pgid", "4000")
            .set("pid", "4242")
            .set("ppid", "3999")
            .set("uid", "1000")
            .set("user", "user");
        s.command_info
            .set("command", "/bin/cat")
            .set("runas_uid", "0")
            .set("runas_gid", "0")
            .set("runas_groups", "0")
            .set("iolog_ttyout", "true")
            .set("iolog_stdout", "true")
            .set("iolog_stderr", "true");
        s.env.0.push(b"PATH=/bin".to_vec());
        s.options
            .set("socket_dir", &wd.dir)
            .set("user_prompt_path", &wd.user_tpl)
            .set("pair_prompt_path", &wd.pair_tpl)
            .set("binary_path", "/usr/bin/sudo_approve");
        s
    }

    pub fn sock_path(&self, uid: &str, pid: &str) -> Vec<u8> {
        let mut p = w().dir.clone();
        p.extend(format!("/{}.{}.sock", uid, pid).bytes());
        p
    }
}

pub struct Arr {
    _s: Vec<CString>,
    pub p: Vec<*const c_char>,
}

pub fn arr(v: &[Vec<u8>]) -> Arr {
    let s: Vec<CString> = v.iter().map(|x| CString::new(x.clone()).expect("NUL in argument")).collect();
    let mut p: Vec<*const c_char> = s.iter().map(|c| c.as_ptr()).collect();
    p.push(std::ptr::null());
    Arr { _s: s, p }
}

static mut KEEP: Vec<Arr> = vec![];
static mut LIVE: bool = false;

pub struct Args {
    pub st: Arr,
    pub ui: Arr,
    pub ci: Arr,
    pub ev: Arr,
    pub po: Arr,
    pub av: Arr,
}

impl Args {
    pub fn of(s: &SessIn) -> Args {
        Args { st: arr(&s.settings.0), ui: arr(&s.user_info.0), ci: arr(&s.command_info.0), ev: arr(&s.env.0), po: arr(&s.options.0), av: arr(&s.argv) }
    }
}

/// Calls `open` of an I/O plugin.
pub fn open_at(t: *mut IoPlugin, s: &SessIn) -> i32 {
    let a = Args::of(s);
    let wd = w();
    let mut es: *const c_char = std::ptr::null();
    let null = std::ptr::null();
    unsafe {
        LIVE = true;
        let f = (*t).open.expect("open");
        wd.active = true;
        let r = f(
            s.version,
            Some(wraps::sudo_conv),
            if s.printf { Some(wraps::sudo_printf) } else { None },
            a.st.p.as_ptr(),
            a.ui.p.as_ptr(),
            a.ci.p.as_ptr(),
            s.argv.len() as c_int,
            a.av.p.as_ptr(),
            if s.null_env { null } else { a.ev.p.as_ptr() },
            if s.null_options { null } else { a.po.p.as_ptr() },
            &mut es,
        );
        wd.active = false;
        #[allow(static_mut_refs)]
        KEEP.extend([a.st, a.ui, a.ci, a.ev, a.po, a.av]);
        wd.leave(&Op::new("open returns", Cls::None), r as i64, 0, false);
        r
    }
}

pub fn pair() -> *mut IoPlugin {
    unsafe { SYMS.pair }
}

pub fn open(s: &SessIn) -> i32 {
    open_at(pair(), s)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stream {
    TtyIn,
    TtyOut,
    Stdin,
    Stdout,
    Stderr,
}
pub const STREAMS: [Stream; 5] = [Stream::TtyIn, Stream::TtyOut, Stream::Stdin, Stream::Stdout, Stream::Stderr];

pub fn log_at(t: *mut IoPlugin, st: Stream, b: &[u8]) -> i32 {
    let wd = w();
    let mut es: *const c_char = std::ptr::null();
    unsafe {
        let f = match st {
            Stream::TtyIn => (*t).log_ttyin,
            Stream::TtyOut => (*t).log_ttyout,
            Stream::Stdin => (*t).log_stdin,
            Stream::Stdout => (*t).log_stdout,
            Stream::Stderr => (*t).log_stderr,
        };
        let f = match f {
            Some(f) => f,
            None => return -99,
        };
        wd.active = true;
        let r = f(b.as_ptr() as *const c_char, b.len() as u32, &mut es);
        wd.active = false;
        wd.leave(&Op::new("log returns", Cls::None).arg(st as u64), r as i64, 0, false);
        r
    }
}

pub fn log(st: Stream, b: &[u8]) -> i32 {
    log_at(pair(), st, b)
}

pub fn winsize_at(t: *mut IoPlugin, l: u32, c: u32) -> i32 {
    let wd = w();
    let mut es: *const c_char = std::ptr::null();
    unsafe {
        let f = match (*t).change_winsize {
            Some(f) => f,
            None => return -99,
        };
        wd.active = true;
        let r = f(l, c, &mut es);
        wd.active = false;
        wd.leave(&Op::new("winsize returns", Cls::None), r as i64, 0, false);
        r
    }
}

pub fn winsize(l: u32, c: u32) -> i32 {
    winsize_at(pair(), l, c)
}

pub fn close_at(t: *mut IoPlugin, a: i32, b: i32) {
    let wd = w();
    unsafe {
        LIVE = false;
        if let Some(f) = (*t).close {
            wd.active = true;
            f(a, b);
            wd.active = false;
            wd.leave(&Op::new("close returns", Cls::None), 0, 0, false);
        }
    }
}

pub fn close() {
    close_at(pair(), 0, 0)
}

pub fn version_at(t: *mut IoPlugin, v: i32) -> i32 {
    let wd = w();
    unsafe {
        let f = match (*t).show_version {
            Some(f) => f,
            None => return -99,
        };
        wd.active = true;
        let r = f(v);
        wd.active = false;
        wd.leave(&Op::new("version returns", Cls::None), r as i64, 0, false);
        r
    }
}

// ------------------------------------------------------------- reports

pub fn s(b: &[u8]) -> String {
    let mut o = String::new();
    for c in b.iter().take(300) {
        match c {
            0x20..=0x7e => o.push(*c as char),
            _ => o.push_str(&format!("\\x{:02x}", c)),
        }
    }
    if b.len() > 300 {
        o.push_str(&format!("...({} bytes)", b.len()));
    }
    o
}

/// Everything shown to the user through sudo's printf at one level.
pub fn printed(ty: i32) -> Vec<u8> {
    w().printed.iter().filter(|p| p.ty == ty).flat_map(|p| p.text.clone()).collect()
}

/// Imports of the loaded objects that could act on the world unseen.
pub fn unmodelled_imports() -> Vec<String> {
    let mut v = vec![];
    unsafe {
        for l in [&PAIR, &PROBE, &DENY] {
            if let Some(l) = l {
                for i in &l.imports {
                    if wraps::UNMODELLED.contains(&i.as_str()) && !v.contains(i) {
                        v.push(i.clone());
                    }
                }
            }
        }
    }
    v
}
